//! Runs, steps and pauses against single steps.
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt};
use lc3_ensemble::sim::mem::MachineInitStrategy;
use lc3_ensemble::sim::{SimErr, Simulator, MCR};
use mon::prog::*;
use mon::refsim::*;
use mon::simutil::*;
use mon::*;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cmp {
    Never,
    Lt(u16),
    Eq(u16),
    Le(u16),
    Gt(u16),
    Ne(u16),
    Ge(u16),
    Always,
}
impl Cmp {
    fn holds(self, v: u16) -> bool {
        let (a, b) = (v as i64, |x: u16| x as i64);
        match self {
            Cmp::Never => false,
            Cmp::Always => true,
            Cmp::Lt(x) => a - b(x) < 0,
            Cmp::Le(x) => a - b(x) <= 0,
            Cmp::Gt(x) => a - b(x) > 0,
            Cmp::Ge(x) => a - b(x) >= 0,
            Cmp::Eq(x) => a - b(x) == 0,
            Cmp::Ne(x) => a - b(x) != 0,
        }
    }
    fn real(self) -> Comparator {
        match self {
            Cmp::Never => Comparator::Never,
            Cmp::Always => Comparator::Always,
            Cmp::Lt(x) => Comparator::Lt(x),
            Cmp::Le(x) => Comparator::Le(x),
            Cmp::Gt(x) => Comparator::Gt(x),
            Cmp::Ge(x) => Comparator::Ge(x),
            Cmp::Eq(x) => Comparator::Eq(x),
            Cmp::Ne(x) => Comparator::Ne(x),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bp {
    Pc(u16),
    Reg(usize, Cmp),
    Mem(u16, Cmp),
}
impl Bp {
    fn holds(self, s: &Simulator) -> bool {
        match self {
            Bp::Pc(a) => s.pc == a,
            Bp::Reg(r, c) => c.holds(s.reg_file[REGS[r]].get()),
            Bp::Mem(a, c) => c.holds(s.mem[a].get()),
        }
    }
    fn real(self) -> Breakpoint {
        match self {
            Bp::Pc(a) => Breakpoint::PC(a),
            Bp::Reg(r, c) => Breakpoint::Reg { reg: REGS[r], value: c.real() },
            Bp::Mem(a, c) => Breakpoint::Mem { addr: a, value: c.real() },
        }
    }
}
/// Clears the MCR during the given polls.
struct Killer {
    at: BTreeSet<u64>,
    n: u64,
    mcr: MCR,
}
impl ExternalDevice for Killer {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        if self.at.contains(&self.n) {
            self.mcr.store(false, Ordering::Relaxed);
        }
        self.n += 1;
        None
    }
}
#[derive(Clone, Copy, Debug)]
enum Pred {
    PcIsNot(u16),
    Instr(u64),
    Reg(usize, Cmp),
    Depth(u64),
    /// Clears the MCR at this PC.
    KillAt(u16),
}
impl Pred {
    fn go_on(self, s: &Simulator, i0: u64) -> bool {
        match self {
            Pred::PcIsNot(a) => s.pc != a,
            Pred::Instr(n) => s.instructions_run.wrapping_sub(i0) < n,
            Pred::Reg(r, c) => c.holds(s.reg_file[REGS[r]].get()),
            Pred::Depth(d) => s.frame_stack.len() <= d,
            Pred::KillAt(_) => true,
        }
    }
}
#[derive(Clone, Copy, Debug)]
enum Call {
    Run,
    Limit(u64),
    While(Pred),
    Over,
    Out,
    In,
}
struct M {
    sim: Simulator,
    kb: Option<KbBuf>,
    ds: Option<DsBuf>,
    logs: Vec<Log>,
}
fn machine(st: &State, strict: bool, kills: &BTreeSet<u64>, cap: u64) -> M {
    let (mut sim, kb, ds, devs) = make_sim(st, strict);
    let m = sim.mcr().clone();
    add(&mut sim, Killer { at: kills.clone(), n: 0, mcr: m }, &[]);
    add(&mut sim, fuse(cap), &[]);
    M { sim, kb, ds, logs: devs.iter().map(|d| d.log.clone()).collect() }
}
/// First difference of two machines.
fn differ(a: &mut M, b: &mut M) -> Option<String> {
    let (x, y) = (&mut a.sim, &mut b.sim);
    if x.pc != y.pc {
        return Some(format!("PC x{:04X}, by single steps x{:04X}", x.pc, y.pc));
    }
    if x.instructions_run != y.instructions_run {
        return Some(format!("instruction count {}, by single steps {}", x.instructions_run, y.instructions_run));
    }
    let (p, q) = (regs(x), regs(y));
    if p != q {
        return Some(format!("registers {p:04X?}, by single steps {q:04X?}"));
    }
    if x.psr().get() != y.psr().get() {
        return Some(format!("PSR x{:04X}, by single steps x{:04X}", x.psr().get(), y.psr().get()));
    }
    if x.frame_stack.len() != y.frame_stack.len() {
        return Some(format!("frame depth {}, by single steps {}", x.frame_stack.len(), y.frame_stack.len()));
    }
    let (p, q) = (saved_sp(x), saved_sp(y));
    if p != q {
        return Some(format!("saved SP x{p:04X}, by single steps x{q:04X}"));
    }
    for i in 0..=0xFFFFu16 {
        if x.mem[i] != y.mem[i] {
            return Some(format!("memory x{i:04X} is {:?}, by single steps {:?}", x.mem[i], y.mem[i]));
        }
    }
    if let (Some(p), Some(q)) = (&a.kb, &b.kb) {
        if *p.read().unwrap() != *q.read().unwrap() {
            return Some("keyboard queue".into());
        }
    }
    if let (Some(p), Some(q)) = (&a.ds, &b.ds) {
        if *p.read().unwrap() != *q.read().unwrap() {
            return Some("display".into());
        }
    }
    if a.logs.iter().zip(&b.logs).any(|(p, q)| *p.lock().unwrap() != *q.lock().unwrap()) {
        return Some("device traffic".into());
    }
    None
}
/// One single step of the reference machine.
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Instr,
    /// An interrupt or exception entry.
    Entry,
    Halt,
    Err(&'static str),
}
fn step(m: &mut M, virt: bool) -> St {
    let s = &mut m.sim;
    let (pc, n, d, w) = (s.pc, s.instructions_run, s.frame_stack.len(), s.mem[s.pc].get());
    match s.step_in() {
        Err(e) => St::Err(err_kind(&e)),
        Ok(()) if virt && w == 0xF025 && s.pc == pc && s.instructions_run == n && s.frame_stack.len() == d => St::Halt,
        Ok(()) if s.instructions_run == n => St::Entry,
        Ok(()) => St::Instr,
    }
}

fn comparator(r: &mut Rng, near: u16) -> Cmp {
    let v = match r.below(4) {
        0 => near,
        1 => near.wrapping_add(r.below(5) as u16).wrapping_sub(2),
        2 => *r.pick(&[0, 1, 0x7FFF, 0x8000, 0xFFFF]),
        _ => r.u16(),
    };
    match r.below(20) {
        0 => Cmp::Never,
        1 => Cmp::Always,
        2..=4 => Cmp::Lt(v),
        5..=7 => Cmp::Le(v),
        8..=10 => Cmp::Gt(v),
        11..=13 => Cmp::Ge(v),
        14 => Cmp::Ne(v),
        _ => Cmp::Eq(v),
    }
}

struct Case {
    st: State,
    strict: bool,
    kills: BTreeSet<u64>,
    cap: u64,
    /// Interesting code and data addresses.
    code: Vec<u16>,
    data: Vec<u16>,
}
fn show_case(c: &Case) -> String {
    format!("strict {}, MCR cleared in polls {:?}, cap {}\n{}", c.strict, c.kills, c.cap, show(&c.st))
}

/// Whether the machine reports one of these reasons.
fn told(s: &Simulator, why: &BTreeSet<&str>) -> bool {
    let (h, b) = (s.hit_halt(), s.hit_breakpoint());
    why.iter().any(|w| match *w {
        "halt" | "mcr" => h && !b,
        "breakpoint" => b && !h,
        _ => !h && !b,
    })
}
/// Runs one history of calls on one machine and single steps on the other.
fn history(r: &mut Rng, l: &mut Local, c: &Case, calls: usize) {
    let virt = !c.st.flags_real;
    let mut s = machine(&c.st, c.strict, &c.kills, c.cap);
    let mut t = machine(&c.st, c.strict, &c.kills, c.cap);
    // (the host may set the instruction counter)
    let start = match r.below(10) {
        0 => r.next(),
        1 => u64::MAX - r.below(60) as u64,
        2 => *r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 5, (1 << 32) - 5, 1 << 16]),
        _ => 0,
    };
    s.sim.instructions_run = start;
    t.sim.instructions_run = start;
    let mut bps: Vec<Bp> = vec![];
    let mut log = vec![format!("instructions_run = {start}")];
    let mut ended = false;
    for _ in 0..calls {
        // edit the breakpoints
        if r.pct(40) {
            if r.pct(30) {
                bps.clear();
                s.sim.breakpoints.clear();
            }
            for _ in 0..r.below(3) {
                let b = match r.below(3) {
                    0 => Bp::Pc(*r.pick(&c.code)),
                    1 => {
                        let q = r.below(8);
                        let near = t.sim.reg_file[REGS[q]].get();
                        Bp::Reg(q, comparator(r, near))
                    }
                    _ => {
                        let a = *r.pick(&c.data);
                        let near = t.sim.mem[a].get();
                        Bp::Mem(a, comparator(r, near))
                    }
                };
                if !bps.contains(&b) {
                    bps.push(b);
                    s.sim.breakpoints.insert(b.real());
                }
            }
            if !bps.is_empty() && r.pct(30) {
                let b = bps.swap_remove(r.below(bps.len()));
                if !s.sim.breakpoints.remove(&b.real()) {
                    return l.violation("a breakpoint that was inserted is missing", format!("{b:?}"));
                }
            }
        }
        let d0 = t.sim.frame_stack.len();
        let call = match r.below(12) {
            0 if c.cap <= 100_000 => Call::Run,
            0..=5 if c.cap > 100_000 => match r.below(4) {
                0 => Call::Run,
                1 => Call::While(Pred::Instr(*r.pick(&[65_535, 65_536, 65_537, 70_000, 131_072]))),
                _ => Call::Limit(*r.pick(&[32_768, 65_535, 65_536, 65_537, 70_000, 100_000, 131_072, (1 << 32) + 3, (1 << 48) + 1, 1 << 16 | 7])),
            },
            1 | 2 => Call::Limit(r.below(30) as u64),
            3 => Call::Limit(*r.pick(&[0, 1, 2, 100, 1000, u64::MAX, u64::MAX - 1, u64::MAX - 20, 1 << 63, 1 << 32])),
            4 => Call::While(Pred::PcIsNot(*r.pick(&c.code))),
            5 => Call::While(match r.below(4) {
                0 => Pred::Instr(r.below(40) as u64),
                1 => Pred::Depth(r.below(4) as u64),
                2 => Pred::KillAt(*r.pick(&c.code)),
                _ => {
                    let q = r.below(8);
                    let near = t.sim.reg_file[REGS[q]].get();
                    Pred::Reg(q, comparator(r, near))
                }
            }),
            6 | 7 => Call::Over,
            8 | 9 if d0 > 0 => Call::Out,
            _ => Call::In,
        };
        log.push(format!("{call:?} (breakpoints {bps:04X?})"));
        let i0 = s.sim.instructions_run;
        let res = match call {
            Call::Run => s.sim.run(),
            Call::Limit(n) => s.sim.run_with_limit(n),
            Call::While(p) => {
                let mut at = None;
                if let Pred::KillAt(a) = p {
                    at = Some(a);
                }
                s.sim.run_while(|m| {
                    if at == Some(m.pc) {
                        m.mcr().store(false, Ordering::Relaxed);
                    }
                    p.go_on(m, i0)
                })
            }
            Call::Over => s.sim.step_over(),
            Call::Out => s.sim.step_out(),
            Call::In => s.sim.step_in(),
        };
        let got_err = res.as_ref().err().map(err_kind);
        l.eval();
        let report = |l: &mut Local, what: &str, d: String| {
            l.violation(what, format!("{d}\nresult {got_err:?}\ncalls {}\n{}", log.join("\n      "), show_case(c)));
        };
        if let Call::In = call {
            let o = step(&mut t, virt);
            let want = if let St::Err(e) = o { Some(e) } else { None };
            if want != got_err {
                return report(l, "a single step ends differently after a pause", format!("{want:?}"));
            }
            if let Some(d) = differ(&mut s, &mut t) {
                return report(l, "single steps after pauses differ", d);
            }
            ended |= matches!(o, St::Halt | St::Err(_));
        } else {
            // the reference: single steps until the documented condition holds
            set_mcr(&t.sim, true);
            let (mut steps, mut n) = (0u64, 0u64);
            let mut killed = false;
            let mut last: Option<St> = None;
            let why: BTreeSet<&str>;
            loop {
                // conditions at this boundary
                let mut must: BTreeSet<&str> = BTreeSet::new();
                let mut may: BTreeSet<&str> = BTreeSet::new();
                match last {
                    Some(St::Halt) => {
                        must.insert("halt");
                    }
                    Some(St::Err(_)) => {
                        must.insert("error");
                    }
                    _ => {
                        if last.is_some() && bps.iter().any(|b| b.holds(&t.sim)) {
                            if last == Some(St::Instr) { &mut must } else { &mut may }.insert("breakpoint");
                        }
                        match call {
                            Call::Limit(k) => {
                                if n >= k {
                                    must.insert("condition");
                                } else if steps >= k {
                                    may.insert("condition");
                                }
                            }
                            Call::While(p) => {
                                if !p.go_on(&t.sim, i0) {
                                    must.insert("condition");
                                }
                            }
                            Call::Over if steps > 0 && t.sim.frame_stack.len() <= d0 => {
                                must.insert("condition");
                            }
                            Call::Out if steps > 0 && t.sim.frame_stack.len() < d0 => {
                                must.insert("condition");
                            }
                            _ => {}
                        }
                        // the program may have set it again
                        killed &= !mcr(&t.sim);
                        if killed {
                            must.insert("mcr");
                        } else if !mcr(&t.sim) {
                            may.insert("mcr");
                            killed = true;
                        }
                        if let Call::While(Pred::KillAt(a)) = call {
                            if t.sim.pc == a {
                                if !must.contains("mcr") {
                                    may.insert("mcr");
                                }
                                killed = true;
                                set_mcr(&t.sim, false);
                            }
                        }
                    }
                }
                if !must.is_empty() || !may.is_empty() {
                    let err_ok = match last {
                        Some(St::Err(e)) => got_err == Some(e),
                        _ => got_err.is_none(),
                    };
                    let d = if err_ok { differ(&mut s, &mut t) } else { Some(format!("expected end {last:?}")) };
                    match d {
                        None => {
                            // a later boundary with the same state may be the one (an entry, then a HALT)
                            let all: BTreeSet<&str> = may.union(&must).copied().collect();
                            if !must.is_empty() || told(&s.sim, &all) {
                                why = all;
                                break;
                            }
                        }
                        Some(d) if !must.is_empty() => {
                            let name = format!("{call:?}");
                            let name = name.split('(').next().unwrap();
                            return report(l, &format!("{name} does not stop where single steps reach {}", must.iter().next().unwrap()), format!("{must:?} holds after {steps} steps and {n} instructions: {d}"));
                        }
                        _ => {}
                    }
                }
                let o = step(&mut t, virt);
                last = Some(o);
                if !matches!(o, St::Halt | St::Err(_)) {
                    steps += 1;
                    n += (o == St::Instr) as u64;
                }
                if steps > c.cap + 10 {
                    return l.inconclusive();
                }
            }
            set_mcr(&t.sim, false);
            if mcr(&s.sim) {
                return report(l, "the MCR is still set after a run", String::new());
            }
            // reported reason
            if !told(&s.sim, &why) {
                let h = s.sim.hit_halt();
                return report(l, "hit_halt and hit_breakpoint do not tell why the run stopped", format!("stopped because of {why:?}, hit_halt {h}, hit_breakpoint {}", s.sim.hit_breakpoint()));
            }
            for w in &why {
                l.count(&format!("stopped by {w}"), 1);
            }
            l.count("instructions in runs", n);
            l.distinct(rng::mix(steps << 40 | n << 20 | t.sim.pc as u64) ^ rng::hash_bytes(d0, why.iter().next().unwrap().as_bytes()) ^ rng::hash_bytes(7, format!("{call:?}").as_bytes()));
            ended |= matches!(last, Some(St::Halt | St::Err(_)));
        }
        l.count("calls compared", 1);
        if ended && r.pct(70) {
            break;
        }
    }
    // one unbroken run gives the same as single steps to the end
    if ended && c.kills.is_empty() {
        let mut u = machine(&c.st, c.strict, &c.kills, c.cap);
        let mut t2 = machine(&c.st, c.strict, &c.kills, c.cap);
        let want = u.sim.run().err().map(|e| err_kind(&e));
        set_mcr(&t2.sim, true);
        let mut got = None;
        let mut off = false;
        let d = loop {
            match step(&mut t2, virt) {
                St::Err(e) => {
                    got = Some(e);
                    break None;
                }
                St::Halt => break None,
                _ => {}
            }
            // the program may have set it again
            off &= !mcr(&t2.sim);
            if off {
                break None;
            }
            if !mcr(&t2.sim) {
                // at most one more instruction
                if want.is_none() && differ(&mut u, &mut t2).is_none() {
                    break Some(());
                }
                off = true;
            }
        };
        l.eval();
        let d = match d {
            Some(()) => None,
            None if got != want => Some(format!("ended with {want:?}, by single steps {got:?}")),
            None => differ(&mut u, &mut t2),
        };
        if let Some(d) = d {
            l.violation("one unbroken run differs from single steps", format!("{d}\n{}", show_case(c)));
        }
        l.count("unbroken runs compared", 1);
    }
    l.sample(|| log.join("; "));
}

/// A terminating program as a machine state.
fn program_case(r: &mut Rng) -> Case {
    const ENDS: &[End] = &[End::Halt, End::Halt, End::Halt, End::Acv, End::Priv, End::IllOp, End::InvFmt, End::BadTrap];
    let size = 6 + r.below(45);
    let p = prog(r, &ProgOpts { size, ends: ENDS, ..ProgOpts::default() });
    let devs = r.pct(30);
    let mut st = state(r, Kind::Sane, devs);
    let keep: Vec<(u16, u16)> = st.patches.iter().copied().filter(|x| x.0 < 0x3000).collect();
    // keep the interrupt handlers, not the exception handlers
    st.patches = keep.into_iter().filter(|x| !(0x100..0x103).contains(&x.0)).collect();
    st.patches.extend(p.patches());
    st.pc = p.org;
    st.psr = 0x8002;
    st.saved_sp = 0x3000;
    st.regs = std::array::from_fn(|_| r.u16());
    st.kb = Some(p.input.clone());
    st.ds = true;
    st.iregs.clear();
    st.unmap.clear();
    st.flags_ignore = false;
    st.init = MachineInitStrategy::Known { value: 0 };
    let mut code: Vec<u16> = (p.code.0..p.code.1).collect();
    code.extend(&p.subs);
    code.extend([0x3000 - 2, 0x0200]);
    let data = (p.data.0..p.data.1).chain([0xFE06, 0xFFFE, 0x2FFF, 0x2FFE]).collect();
    let kills = if r.pct(30) { (0..1 + r.below(4)).map(|_| r.below(400) as u64).collect() } else { BTreeSet::new() };
    Case { st, strict: r.pct(10), kills, cap: 4_000, code, data }
}
fn wild_case(r: &mut Rng) -> Case {
    let kind = *r.pick(&[Kind::Wild, Kind::Mixed, Kind::Sane]);
    let devs = r.pct(60);
    let st = state(r, kind, devs);
    let code: Vec<u16> = (0..40).map(|k| st.pc.wrapping_add(k).wrapping_sub(8)).chain([0x0200, 0x1000, 0x1003]).collect();
    let data: Vec<u16> = st.patches.iter().map(|x| x.0).collect();
    let kills = if r.pct(30) { (0..1 + r.below(4)).map(|_| r.below(60) as u64).collect() } else { BTreeSet::new() };
    Case { st, strict: r.pct(10), kills, cap: 400, code, data }
}
/// Nested loops that run for some hundred thousand instructions, most of them in a subroutine.
fn long_case(r: &mut Rng) -> Case {
    let at = 0x3000 + r.below(0x4000) as u16;
    // JSR sub; HALT; sub: LD R0,n; o: LD R1,m; i: ADD R2,R2,#1; ADD R1,R1,#-1; BRp i; ADD R0,R0,#-1; BRp o; RET
    let code = [0x4801, 0xF025, 0x2007, 0x2207, 0x14A1, 0x127F, 0x03FD, 0x103F, 0x03FA, 0xC1C0, 100 + r.below(150) as u16, 100 + r.below(250) as u16];
    let st = State {
        patches: code.iter().enumerate().map(|(i, w)| (at + i as u16, *w)).collect(),
        pc: at,
        psr: 0x8002,
        saved_sp: 0x3000,
        regs: [0; 8],
        devs: vec![],
        iregs: vec![],
        unmap: vec![],
        init: MachineInitStrategy::Known { value: 0 },
        ..state(r, Kind::Sane, false)
    };
    Case { st, strict: false, kills: BTreeSet::new(), cap: 400_000, code: vec![at + 1, at + 9, at + 9, at + 20], data: vec![at + 30] }
}
/// A recursion hundreds of frames deep.
fn deep_case(r: &mut Rng) -> Case {
    let n = *r.pick(&[20u16, 127, 128, 129, 200, 255, 256, 257, 300, 511, 520, 1030]);
    let code = [0x200B, 0x2C0B, 0x4801, 0xF025, 0x1DBF, 0x7F80, 0x103F, 0x0C01, 0x4FFB, 0x6F80, 0x1DA1, 0xC1C0, n, 0xF000];
    let at = 0x3000 + r.below(0x4000) as u16;
    let st = State {
        patches: code.iter().enumerate().map(|(i, w)| (at + i as u16, *w)).collect(),
        pc: at,
        psr: 0x8002,
        saved_sp: 0x3000,
        regs: [0; 8],
        devs: vec![],
        iregs: vec![],
        unmap: vec![],
        init: MachineInitStrategy::Known { value: 0 },
        ..state(r, Kind::Sane, false)
    };
    Case { st, strict: false, kills: BTreeSet::new(), cap: 12_000, code: (at..at + 12).collect(), data: (0xEFF0..0xF000).collect() }
}
/// Another thread clears the MCR while the machine runs.
fn host_stop(r: &mut Rng, l: &mut Local) {
    let st = State { patches: vec![(0x3000, 0x1021), (0x3001, 0x0FFE)], pc: 0x3000, psr: 0x8002, regs: [0; 8], devs: vec![], iregs: vec![], unmap: vec![], init: MachineInitStrategy::Known { value: 0 }, ..state(r, Kind::Sane, false) };
    let (mut sim, ..) = make_sim(&st, false);
    let m = Arc::clone(sim.mcr());
    let us = r.below(300) as u64;
    // before the other thread looks: it must not take the MCR's initial value for the run's
    set_mcr(&sim, false);
    let returned = std::sync::atomic::AtomicBool::new(false);
    let returned = &returned;
    let (res, ran) = std::thread::scope(|sc| {
        sc.spawn(move || {
            // wait for the machine to run
            let t0 = std::time::Instant::now();
            while !m.load(Ordering::Relaxed) && t0.elapsed().as_secs() < 20 {
                std::hint::spin_loop();
            }
            std::thread::sleep(std::time::Duration::from_micros(us));
            m.store(false, Ordering::Relaxed);
            // a run that sets the MCR more than once as it starts may have missed that one
            let mut t = std::time::Instant::now();
            while !returned.load(Ordering::Relaxed) {
                if t.elapsed().as_millis() > 200 {
                    m.store(false, Ordering::Relaxed);
                    t = std::time::Instant::now();
                }
                std::thread::sleep(std::time::Duration::from_micros(50));
            }
        });
        let r: Result<(), SimErr> = match r.below(3) {
            0 => sim.run(),
            1 => sim.run_while(|_| true),
            _ => sim.run_with_limit(u64::MAX),
        };
        returned.store(true, Ordering::Relaxed);
        (r, sim.instructions_run)
    });
    l.eval();
    if res.is_err() || !sim.hit_halt() || sim.hit_breakpoint() {
        return l.violation("a run stopped by clearing the MCR is not reported as a halt", format!("{res:?}, hit_halt {}", sim.hit_halt()));
    }
    // as many instructions as single steps
    let (r0, pc) = (sim.reg_file[REGS[0]].get(), sim.pc);
    let want = (ran.div_ceil(2) as u16, 0x3000 + (ran % 2) as u16);
    if (r0, pc) != want {
        return l.violation("the state after a stop by the MCR is not that after as many single steps", format!("{ran} instructions, R0 x{r0:04X}, PC x{pc:04X}"));
    }
    l.count("runs stopped by another thread", 1);
    l.count("instructions before the stop", ran);
}
fn main() {
    let mut c = Check::new("C13");
    c.factor(30);
    c.random("programs", 16_000, |r, l| {
        let case = program_case(r);
        let n = 2 + r.below(40);
        history(r, l, &case, n);
    });
    c.random("machine states", 20_000, |r, l| {
        let case = wild_case(r);
        let n = 2 + r.below(20);
        history(r, l, &case, n);
    });
    c.random("deep recursions", 400, |r, l| {
        let case = deep_case(r);
        let n = 2 + r.below(12);
        history(r, l, &case, n);
    });
    c.random("long runs", 60, |r, l| {
        let case = long_case(r);
        let n = 2 + r.below(8);
        history(r, l, &case, n);
    });
    c.random("stops by another thread", 300, host_stop);
    // every comparator around its value
    let edges: Vec<u16> = (0..16).flat_map(|k| [1u16 << k, (1u16 << k).wrapping_sub(1), (1u16 << k).wrapping_neg()]).collect();
    let n = edges.len() + 16;
    c.exhaustive("comparators", 8 * n as u64, move |i, r, l| {
        let (k, e) = (i as usize % 8, i as usize / 8);
        let v = if e < edges.len() { edges[e] } else { r.u16() };
        let cmp = [Cmp::Never, Cmp::Always, Cmp::Lt(v), Cmp::Le(v), Cmp::Gt(v), Cmp::Ge(v), Cmp::Eq(v), Cmp::Ne(v)][k];
        let real = cmp.real();
        l.eval();
        l.distinct(i << 32 | v as u64);
        for x in 0..=0xFFFFu16 {
            if real.check(x) != cmp.holds(x) {
                return l.violation("a comparator does not compare", format!("{cmp:?} with x{x:04X}"));
            }
        }
        l.count("comparisons", 0x10000);
    });
    c.finish(
        "random histories of run, run_with_limit, run_while, step_over, step_out and step_in with breakpoint edits and MCR clears on generated programs and random machine states, against a twin that only single-steps; stop position, whole state, instruction count, error and reported reason; distinct by (call, steps, instructions, PC, reason)",
        &["step_out outside of any frame is not called", "a step that only enters an interrupt may or may not count for the step limit and for breakpoints"],
        &[("stopped by breakpoint", 2_000), ("stopped by condition", 5_000), ("stopped by halt", 1_000), ("stopped by error", 500), ("stopped by mcr", 300), ("unbroken runs compared", 2_000), ("runs stopped by another thread", 100)],
    )
}
