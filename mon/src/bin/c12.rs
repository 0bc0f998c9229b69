//! Real against virtual traps.
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::Simulator;
use mon::prog::*;
use mon::simutil::*;
use mon::*;

struct Start {
    patches: Vec<(u16, u16)>,
    pc: u16,
    regs: [u16; 8],
    psr: u16,
    input: Vec<u8>,
    init: MachineInitStrategy,
    strict: bool,
    frames: bool,
    note: String,
}
fn build(s: &Start, real: bool) -> (Simulator, KbBuf, DsBuf) {
    let mut sim = Simulator::new(flags(s.strict, real, s.frames, false, s.init));
    if s.strict {
        for a in 0..=0xFFFFu16 {
            let w = sim.mem[a].get();
            sim.mem[a] = Word::new_init(w);
        }
    }
    for &(a, w) in &s.patches {
        sim.mem[a] = Word::new_init(w);
    }
    set_regs(&mut sim, s.regs);
    sim.pc = s.pc;
    set_psr(&mut sim, s.psr);
    let kb = keyboard(&mut sim, &s.input);
    let ds = display(&mut sim);
    set_mcr(&sim, true);
    (sim, kb, ds)
}
fn text(s: &Start) -> String {
    let mut t = format!("{}\npc x{:04X}, regs {:04X?}, psr x{:04X}, input {:02X?}, init {:?}, strict {}\n", s.note, s.pc, s.regs, s.psr, &s.input[..s.input.len().min(16)], s.init, s.strict);
    for (a, w) in &s.patches {
        t.push_str(&format!("x{a:04X}: x{w:04X}\n"));
    }
    t
}
fn user_mem(sim: &Simulator) -> Vec<u16> {
    (0x3000..0xFE00u16).map(|a| sim.mem[a].get()).collect()
}
fn check(r: &mut Rng, l: &mut Local, s: &Start, limit: u64) {
    let (mut v, kbv, dsv) = build(s, false);
    let (mut t, kbt, dst) = build(s, true);
    // side by side, up to the halt or the exception
    let mut err = None;
    let mut ended = false;
    let mut n = 0;
    while n < limit {
        n += 1;
        l.eval();
        let (pc0, n0, d0) = (v.pc, v.instructions_run, v.frame_stack.len());
        let rv = v.step_in();
        if let Err(e) = rv {
            err = Some(err_kind(&e));
            ended = true;
            break;
        }
        if v.pc == pc0 && v.instructions_run == n0 && v.frame_stack.len() == d0 && v.mem[pc0].get() == 0xF025 {
            ended = true;
            break;
        }
        let rt = t.step_in();
        let bad = if rt.is_err() {
            "error only under real traps"
        } else if regs(&v) != regs(&t) {
            "registers"
        } else if v.pc != t.pc {
            "PC"
        } else if v.psr().get() != t.psr().get() {
            "PSR"
        } else if v.instructions_run != t.instructions_run {
            "number of instructions"
        } else if v.frame_stack.len() != t.frame_stack.len() {
            "frame depth"
        } else if mcr(&v) != mcr(&t) {
            "MCR"
        } else {
            ""
        };
        if !bad.is_empty() {
            return l.violation(format!("real and virtual traps differ before any HALT or exception: {bad}"), format!("step {n} at x{pc0:04X}: virtual PC x{:04X} PSR x{:04X} {:04X?}, real PC x{:04X} PSR x{:04X} {:04X?} {:?}\n{}", v.pc, v.psr().get(), regs(&v), t.pc, t.psr().get(), regs(&t), rt.map_err(|e| e.to_string()), text(s)));
        }
    }
    l.count("steps compared", n);
    if !ended {
        return l.count("no end within the limit", 1);
    }
    // whole runs
    let (mut v2, kv2, dv2) = build(s, false);
    let (mut t2, kt2, dt2) = build(s, true);
    add(&mut v2, fuse(n + 100), &[]);
    add(&mut t2, fuse(n + 8_000), &[]);
    l.eval();
    let rv = v2.run();
    let rt = t2.run();
    let got = |r: &Result<(), lc3_ensemble::sim::SimErr>| r.as_ref().err().map(err_kind);
    let (ev, et) = (got(&rv), got(&rt));
    let detail = |m: String| format!("{m}\nvirtual: {ev:?} halted {}, PC x{:04X}, {n} steps; real: {et:?} halted {}, PC x{:04X}\n{}", v2.hit_halt(), v2.pc, t2.hit_halt(), t2.pc, text(s));
    if ev != err || (err.is_none() && !v2.hit_halt()) {
        return l.violation("run ends differently from single steps under virtual traps", detail(format!("single steps: {err:?}")));
    }
    let msg: &[u8] = match err {
        None => b"",
        Some("access") => b"\n--- Access violation ---",
        Some("privilege") => b"\n--- Privilege violation ---",
        Some("illegal opcode" | "invalid format") => b"\n--- Illegal opcode ---",
        Some(_) => return l.inconclusive(),
    };
    if et.is_some() {
        return l.violation("a run under real traps reports an error instead of stopping through the OS", detail(String::new()));
    }
    if !t2.hit_halt() {
        return l.violation("a run under real traps does not halt", detail(String::new()));
    }
    if mcr(&t2) || t2.pc >= 0x3000 {
        return l.violation("a run under real traps does not stop through the OS", detail(String::new()));
    }
    let (ov, ot) = (dv2.read().unwrap().clone(), dt2.read().unwrap().clone());
    if ov != *dsv.read().unwrap() || *kv2.read().unwrap() != *kbv.read().unwrap() {
        return l.violation("I/O of run differs from single steps under virtual traps", detail(String::new()));
    }
    if ot != [&ov[..], msg].concat() {
        let what = if err.is_none() { "display output of a halting program differs" } else { "display output of a faulting program is not that of the program followed by the OS message" };
        return l.violation(what, detail(format!("virtual {:?}, real {:?}", String::from_utf8_lossy(&ov), String::from_utf8_lossy(&ot))));
    }
    if kt2.read().unwrap().len() != kv2.read().unwrap().len() {
        return l.violation("input consumed differs", detail(String::new()));
    }
    if err.is_none() {
        for i in 0..6 {
            let (a, b) = (v2.reg_file[REGS[i]].get(), t2.reg_file[REGS[i]].get());
            if a != b {
                return l.violation(format!("R{i} of a halting program differs"), detail(format!("virtual x{a:04X}, real x{b:04X}")));
            }
        }
    }
    let (a, b) = (user_mem(&v2), user_mem(&t2));
    if let Some(k) = (0..a.len()).find(|k| a[*k] != b[*k]) {
        return l.violation("user memory differs", detail(format!("x{:04X}: virtual x{:04X}, real x{:04X}", 0x3000 + k, a[k], b[k])));
    }
    // the single-stepped real machine also gets there
    if r.pct(20) {
        for _ in 0..8_000 {
            if !mcr(&t) {
                break;
            }
            if let Err(e) = t.step_in() {
                return l.violation("a step under real traps reports an error instead of stopping through the OS", detail(e.to_string()));
            }
        }
        if mcr(&t) || *dst.read().unwrap() != ot || kbt.read().unwrap().len() != kv2.read().unwrap().len() {
            return l.violation("single steps under real traps end differently", detail(String::new()));
        }
        l.count("real traps single-stepped to the halt", 1);
    }
    l.count(&format!("ended: {}", err.unwrap_or("halt")), 1);
    l.count("bytes of output compared", ot.len() as u64);
    l.distinct(rng::hash_bytes(n ^ (s.pc as u64) << 32, &ot));
    l.sample(|| format!("{} ended {err:?} after {n} steps, output {:?}", s.note, String::from_utf8_lossy(&ot)));
}
const ENDS: &[End] = &[End::Halt, End::Halt, End::Acv, End::Priv, End::IllOp, End::InvFmt, End::BadTrap];

fn init(r: &mut Rng) -> MachineInitStrategy {
    if r.pct(60) {
        MachineInitStrategy::Known { value: if r.pct(60) { 0 } else { r.u16() } }
    } else {
        MachineInitStrategy::Seeded { seed: r.next() }
    }
}
fn programs(r: &mut Rng, l: &mut Local) {
    let size = 4 + r.below(50);
    let p = prog(r, &ProgOpts { size, ends: ENDS, ..ProgOpts::default() });
    let s = Start {
        patches: p.patches(),
        pc: p.org,
        regs: std::array::from_fn(|_| r.u16()),
        psr: 0x8000 | if r.pct(80) { 0 } else { (r.below(8) as u16) << 8 } | *r.pick(&[1, 2, 4]),
        input: p.input.clone(),
        init: init(r),
        strict: r.pct(20),
        frames: r.pct(50),
        note: format!("program with end {:?}", p.end),
    };
    check(r, l, &s, 6_000);
}
/// Anything in user mode.
fn wild(r: &mut Rng, l: &mut Local) {
    let pc = match r.below(6) {
        0 => 0x3000,
        1 => 0xFDE0 + r.below(32) as u16,
        _ => 0x3000 + r.below(0xCD00) as u16,
    };
    let mut patches = vec![];
    let base = pc.saturating_sub(r.below(30) as u16).max(0x3000);
    for i in 0..60 {
        let w = match r.below(20) {
            0 => 0xF025,
            1 | 2 => 0xF020 + r.below(5) as u16,
            3 => hostile_word(r),
            _ => instr_word(r),
        };
        if base + i < 0xFE00 {
            patches.push((base + i, w));
        }
    }
    let mut regs = [0u16; 8];
    for x in &mut regs {
        *x = match r.below(5) {
            0 => edge(r),
            1 => r.u16(),
            2 => r.below(300) as u16,
            _ => base.wrapping_add(r.below(120) as u16),
        };
    }
    let s = Start {
        patches,
        pc,
        regs,
        psr: 0x8000 | if r.pct(80) { 0 } else { (r.below(8) as u16) << 8 } | *r.pick(&[1, 2, 4]),
        input: (0..r.below(20)).map(|_| r.u8()).collect(),
        init: init(r),
        strict: false,
        frames: r.pct(50),
        note: "random user code".into(),
    };
    check(r, l, &s, 3_000);
}
/// Every word as the first instruction of a user program.
fn words(i: u64, r: &mut Rng, l: &mut Local) {
    let w = i as u16;
    let mut patches = vec![(0x3000, w)];
    for k in 1..12 {
        patches.push((0x3000 + k, 0xF025));
    }
    let s = Start {
        patches,
        pc: 0x3000,
        regs: std::array::from_fn(|k| if r.pct(50) { 0x4000 + k as u16 } else { edge(r) }),
        psr: 0x8002,
        input: vec![0x41, 0x42],
        init: MachineInitStrategy::Known { value: 0xF025 },
        strict: false,
        frames: true,
        note: format!("first word x{w:04X}"),
    };
    check(r, l, &s, 1_500);
}
fn main() {
    let mut c = Check::new("C12");
    c.quick_factor(2);
    c.factor(30);
    c.random("programs", 9_000, programs);
    c.random("random user code", 9_000, wild);
    let step = if c.quick() { 13 } else { 1 };
    c.exhaustive("first words", 65536 / step, |i, r, l| {
        let w = i * step + r.below(step as usize) as u64;
        words(w & 0xFFFF, r, l)
    });
    c.finish(
        "generated and random user programs run under both settings: side by side up to the halt or exception, then whole runs (output, OS message, R0-R5, input, all of user memory, halt status); distinct by (start, length, output)",
        &["programs that do not end within the step limit are only compared step by step"],
        &[("ended: halt", 3_000), ("ended: access", 1_500), ("ended: privilege", 500), ("ended: illegal opcode", 500), ("ended: invalid format", 500), ("real traps single-stepped to the halt", 500)],
    )
}
