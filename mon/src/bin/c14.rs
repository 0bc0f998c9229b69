//! Strict mode: paired runs of identical machines.
use lc3_ensemble::asm::ObjectFile;
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{MemAccessCtx, SimErr, Simulator};
use mon::prog::*;
use mon::simutil::*;
use mon::*;
use std::collections::{BTreeMap, BTreeSet};

struct M {
    sim: Simulator,
    kb: Option<KbBuf>,
    ds: Option<DsBuf>,
    logs: Vec<refsim::Log>,
}
struct Case {
    st: State,
    /// Loaded first.
    obj: Option<(ObjectFile, String)>,
    /// Memory words and registers made uninitialized after that.
    un_mem: Vec<u16>,
    un_reg: Vec<usize>,
    /// Make everything initialized.
    full: bool,
}
fn machine(c: &Case, strict: bool) -> Result<M, String> {
    let mut st = c.st.clone();
    let patches = std::mem::take(&mut st.patches);
    let (mut sim, kb, ds, devs) = make_sim(&st, strict);
    if let Some((o, _)) = &c.obj {
        sim.load_obj_file(o).map_err(|e| err_kind(&e).to_string())?;
    } else {
        for (a, w) in patches {
            sim.mem[a] = Word::new_init(w);
        }
    }
    for &a in &c.un_mem {
        sim.mem[a].clear_init();
    }
    for &q in &c.un_reg {
        sim.reg_file[REGS[q]].clear_init();
    }
    if c.full {
        for a in 0..=0xFFFFu16 {
            let w = sim.mem[a].get();
            sim.mem[a].set(w);
        }
    }
    Ok(M { sim, kb, ds, logs: devs.iter().map(|d| d.log.clone()).collect() })
}
fn text(c: &Case) -> String {
    let o = c.obj.as_ref().map(|o| format!("loaded:\n{}\n", o.1)).unwrap_or_default();
    format!("uninitialized {:04X?}, registers {:?}, all initialized: {}\n{o}{}", c.un_mem, c.un_reg, c.full, show(&c.st))
}
/// Everything but memory: `p` plain, `s` strict.
fn differ(p: &mut M, s: &mut M) -> Option<String> {
    let (x, y) = (&mut p.sim, &mut s.sim);
    for q in REGS {
        if x.reg_file[q] != y.reg_file[q] {
            return Some(format!("{q:?} is {:?} without and {:?} with strict mode", x.reg_file[q], y.reg_file[q]));
        }
    }
    let pairs = [
        ("PC", x.pc as u64, y.pc as u64),
        ("PSR", x.psr().get() as u64, y.psr().get() as u64),
        ("instruction count", x.instructions_run, y.instructions_run),
        ("frame depth", x.frame_stack.len(), y.frame_stack.len()),
        ("saved SP", saved_sp(x) as u64, saved_sp(y) as u64),
        ("MCR", mcr(x) as u64, mcr(y) as u64),
        ("address of the instruction", x.prefetch_pc() as u64, y.prefetch_pc() as u64),
    ];
    for (n, a, b) in pairs {
        if a != b {
            return Some(format!("{n} is x{a:04X} without and x{b:04X} with strict mode"));
        }
    }
    if let (Some(a), Some(b)) = (&p.kb, &s.kb) {
        let (a, b) = (a.read().unwrap(), b.read().unwrap());
        if *a != *b {
            return Some(format!("keyboard queue {a:?} without and {b:?} with strict mode"));
        }
    }
    if let (Some(a), Some(b)) = (&p.ds, &s.ds) {
        let (a, b) = (a.read().unwrap(), b.read().unwrap());
        if *a != *b {
            return Some(format!("display {a:?} without and {b:?} with strict mode"));
        }
    }
    for (a, b) in p.logs.iter().zip(&s.logs) {
        let (a, b) = (a.lock().unwrap(), b.lock().unwrap());
        if *a != *b {
            return Some(format!("device traffic {:?} without and {:?} with strict mode", a.last(), b.last()));
        }
    }
    None
}
fn differ_mem(p: &M, s: &M, except: &BTreeSet<u16>) -> Option<String> {
    for a in 0..=0xFFFFu16 {
        let (x, y) = (p.sim.mem[a], s.sim.mem[a]);
        if x != y && !except.contains(&a) {
            return Some(format!("mem[x{a:04X}] is {x:?} without and {y:?} with strict mode"));
        }
    }
    None
}
#[derive(Debug)]
enum Op {
    Step,
    Limit(u64),
    Over,
    Out,
    Call(u16),
    Read(u16),
    Write(u16, u16),
    WriteFrom(u16, usize),
}
fn apply(op: &Op, m: &mut M, ctx: MemAccessCtx) -> Result<(), SimErr> {
    let s = &mut m.sim;
    match *op {
        Op::Step => s.step_in(),
        Op::Limit(n) => s.run_with_limit(n),
        Op::Over => s.step_over(),
        Op::Out => s.step_out(),
        Op::Call(a) => s.call_subroutine(a),
        Op::Read(a) => s.read_mem(a, ctx).map(|_| ()),
        Op::Write(a, v) => s.write_mem(a, Word::new_init(v), ctx),
        Op::WriteFrom(a, q) => {
            let w = s.reg_file[REGS[q]];
            s.write_mem(a, w, ctx)
        }
    }
}
fn lockstep(r: &mut Rng, l: &mut Local, c: &Case, steps: u64, always: bool, others: bool) {
    let (p, s) = (machine(c, false), machine(c, always));
    let (mut p, mut s) = match (p, s) {
        (Ok(p), Ok(s)) => (p, s),
        (p, s) if p.is_ok() != s.is_ok() => return l.violation("loading depends on strict mode", text(c)),
        _ => return l.inconclusive(),
    };
    // `run` needs an end
    add(&mut p.sim, fuse(2 * steps + 200), &[]);
    add(&mut s.sim, fuse(2 * steps + 200), &[]);
    let mut trace: Vec<String> = vec![];
    let mut rejected = false;
    for n in 0..steps {
        if !always {
            s.sim.flags.strict = r.pct(70);
        }
        let op = if !others || r.pct(90) {
            Op::Step
        } else {
            let a = if r.pct(60) { edge(r) } else { c.st.pc.wrapping_add(r.below(200) as u16) };
            match r.below(8) {
                0 => Op::Limit(r.below(20) as u64),
                1 => Op::Over,
                2 => Op::Out,
                3 => Op::Call(a),
                4 => Op::Read(a),
                5 => Op::Write(a, r.u16()),
                _ => Op::WriteFrom(a, r.below(8)),
            }
        };
        let mut log = trace.last().cloned().unwrap_or_default();
        log.push_str(&format!("x{:04X}: x{:04X} {op:?}; ", p.sim.pc, p.sim.mem[p.sim.pc].get()));
        trace.push(format!("x{:04X}: x{:04X} {op:?}; ", p.sim.pc, p.sim.mem[p.sim.pc].get()));
        let (pc, i0) = (p.sim.pc, p.sim.instructions_run);
        let w = p.sim.mem[pc].get();
        p.sim.observer.clear();
        s.sim.observer.clear();
        let (cp, cs) = (p.sim.default_mem_ctx(), s.sim.default_mem_ctx());
        let a = apply(&op, &mut p, cp);
        let b = apply(&op, &mut s, cs);
        l.eval();
        l.count("steps compared", (p.sim.instructions_run - i0).max(1));
        let report = |l: &mut Local, what: &str, d: String| {
            l.violation(what, format!("{d}\nstep {n}, strict {}: {log}\nstrict {b:?}, without {a:?}\n{}", s_strict(&cs), text(c)));
        };
        let (ka, kb) = (a.as_ref().err().map(err_kind), b.as_ref().err().map(err_kind));
        if ka.is_some_and(|k| k.starts_with("strict")) {
            return report(l, "a strict error without strict mode", String::new());
        }
        if kb.is_some_and(|k| k.starts_with("strict")) {
            if !s.sim.flags.strict {
                return report(l, "a strict error while strict mode is off", String::new());
            }
            if c.full {
                return report(l, &format!("a fully initialized machine gets the error {}", kb.unwrap()), String::new());
            }
            l.count(kb.unwrap(), 1);
            l.distinct(rng::hash_bytes((w >> 12) as u64 | (p.sim.instructions_run - i0) << 8, kb.unwrap().as_bytes()));
            // memory that this step did not touch
            let t: BTreeSet<u16> = p.sim.observer.take_mem_accesses().chain(s.sim.observer.take_mem_accesses()).map(|x| x.0).collect();
            let t = if matches!(op, Op::Step) { t } else { (0..=0xFFFF).collect() };
            if let Some(d) = differ_mem(&p, &s, &t) {
                return report(l, "memory differs before a rejected step", d);
            }
            rejected = true;
            break;
        }
        if ka != kb {
            let what = if ka.is_none() { "a step fails only under strict mode, but not with a strict error" } else { "strict mode changes the outcome of a step" };
            return report(l, what, String::new());
        }
        if let Some(d) = differ(&mut p, &mut s) {
            return report(l, "strict mode changes a step that it does not reject", d);
        }
        if (p.sim.hit_halt(), p.sim.hit_breakpoint()) != (s.sim.hit_halt(), s.sim.hit_breakpoint()) {
            return report(l, "strict mode changes why a run stopped", String::new());
        }
        l.distinct((w as u64) << 32 | (pc as u64) << 8 | ka.is_some() as u64);
        if n % 16 == 15 {
            if let Some(d) = differ_mem(&p, &s, &BTreeSet::new()) {
                return report(l, "strict mode changes memory", d);
            }
        }
        if ka == Some("interrupt") {
            break;
        }
        if r.pct(if ka.is_some() { 60 } else { 1 }) {
            // go on somewhere else
            let pc = if r.pct(15) { edge(r) } else { c.st.pc.wrapping_add(r.below(60) as u16) };
            p.sim.pc = pc;
            s.sim.pc = pc;
            let (q, v) = (r.below(8), if r.pct(40) { edge(r) } else { c.st.pc.wrapping_add(r.below(300) as u16) });
            p.sim.reg_file[REGS[q]].set(v);
            s.sim.reg_file[REGS[q]].set(v);
        } else if ka.is_some() {
            break;
        }
    }
    if !rejected {
        if let Some(d) = differ_mem(&p, &s, &BTreeSet::new()) {
            return l.violation("strict mode changes memory", format!("{d}\n{}", text(c)));
        }
        l.count(if c.full { "initialized machines to the end" } else { "machines without a strict error" }, 1);
    }
    l.sample(|| trace.join(""));
}
fn s_strict(c: &MemAccessCtx) -> bool {
    c.strict
}
fn init(r: &mut Rng) -> MachineInitStrategy {
    match r.below(3) {
        0 => MachineInitStrategy::Known { value: 0 },
        1 => MachineInitStrategy::Known { value: r.u16() },
        _ => MachineInitStrategy::Seeded { seed: r.next() },
    }
}
/// The patches as an object file, some words reserved.
fn object(r: &mut Rng, patches: &[(u16, u16)], gaps: u32) -> Result<(ObjectFile, String), String> {
    let mut im: BTreeMap<u16, Option<u16>> = patches.iter().map(|&(a, w)| (a, Some(w))).collect();
    let keys: Vec<u16> = im.keys().copied().collect();
    for a in keys {
        if r.pct(gaps) {
            im.insert(a, None);
        }
    }
    // reserved areas
    for _ in 0..r.below(3) {
        let b = if r.pct(50) { edge(r) } else { patches[0].0.wrapping_add(r.below(300) as u16) };
        for k in 0..1 + r.below(40) as u16 {
            im.entry(b.saturating_add(k)).or_insert(None);
        }
    }
    let t = image_text(&im);
    match obj_of(&t) {
        Ok(o) => Ok((o, t)),
        Err(e) => Err(format!("{e}\n{t}")),
    }
}
fn case(r: &mut Rng, full: bool) -> Result<Case, String> {
    let kind = *r.pick(&[Kind::Wild, Kind::Mixed, Kind::Mixed, Kind::Sane]);
    let devs = r.pct(60);
    let mut st = state(r, kind, devs);
    st.init = init(r);
    let gaps = *r.pick(&[0, 1, 3, 10]);
    let obj = if r.pct(50) { Some(object(r, &st.patches, gaps)?) } else { None };
    let mut un_mem = vec![];
    let mut un_reg = vec![];
    if !full {
        for _ in 0..*r.pick(&[0, 0, 0, 2, 5]) {
            un_mem.push(r.pick(&st.patches).0);
        }
        if r.pct(40) {
            un_reg = (0..1 + r.below(3)).map(|_| r.below(8)).collect();
        }
    }
    Ok(Case { st, obj, un_mem, un_reg, full })
}
/// Terminating programs.
fn prog_case(r: &mut Rng, full: bool) -> Result<Case, String> {
    const ENDS: &[End] = &[End::Halt, End::Halt, End::Acv, End::Priv, End::IllOp, End::InvFmt, End::BadTrap];
    let size = 6 + r.below(45);
    let p = prog(r, &ProgOpts { size, ends: ENDS, ..ProgOpts::default() });
    let devs = r.pct(30);
    let mut st = state(r, Kind::Sane, devs);
    let keep: Vec<(u16, u16)> = st.patches.iter().copied().filter(|x| x.0 < 0x3000 && !(0x100..0x103).contains(&x.0)).collect();
    st.patches = p.patches();
    st.patches.extend(keep);
    st.pc = p.org;
    st.psr = 0x8002;
    st.saved_sp = 0x3000;
    st.kb = Some(p.input.clone());
    st.ds = true;
    st.iregs.clear();
    st.unmap.clear();
    st.init = init(r);
    let obj = if r.pct(60) { Some(object(r, &st.patches, 0)?) } else { None };
    let un_reg = if full || r.pct(60) { vec![] } else { vec![r.below(6)] };
    Ok(Case { st, obj, un_mem: vec![], un_reg, full })
}
fn main() {
    let mut c = Check::new("C14");
    c.factor(30);
    let go = |r: &mut Rng, l: &mut Local, c: Result<Case, String>, steps: u64, others: bool| match c {
        Ok(c) => {
            let always = r.pct(70);
            lockstep(r, l, &c, steps, always, others)
        }
        Err(e) => {
            l.inconclusive();
            l.sample(|| e);
        }
    };
    c.random("machine states", 30_000, |r, l| {
        let k = case(r, false);
        go(r, l, k, 60, true)
    });
    c.random("initialized machine states", 15_000, |r, l| {
        let k = case(r, true);
        go(r, l, k, 120, true)
    });
    c.random("programs", 4_000, |r, l| {
        let k = prog_case(r, false);
        go(r, l, k, 3_000, false)
    });
    c.random("initialized programs", 4_000, |r, l| {
        let k = prog_case(r, true);
        go(r, l, k, 3_000, false)
    });
    c.finish(
        "lockstep of two identical machines, one of them strict (throughout or toggled between steps): outcome, registers, PC, PSR, memory, devices, counts after every step until the first strict error; and the same on fully initialized machines, where any strict error is an alarm; distinct by (instruction word, address, outcome) and by rejection kind",
        &["the initialization marks of registers and memory count as part of their state", "after a rejected step only memory the step did not access is compared"],
        &[
            ("steps compared", 1_000_000),
            ("initialized machines to the end", 5_000),
            ("machines without a strict error", 3_000),
            ("strict reg set", 300),
            ("strict mem set", 300),
            ("strict io set", 20),
            ("strict jmp addr", 100),
            ("strict sr addr", 50),
            ("strict mem addr", 300),
            ("strict pc curr", 300),
            ("strict pc next", 300),
            ("strict psr set", 10),
        ],
    )
}
