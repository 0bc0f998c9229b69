//! Reproducibility of seeded simulations.
use lc3_ensemble::sim::device::{ExternalDevice, TimerDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy as Init, Word};
use lc3_ensemble::sim::{SimFlags, Simulator, _os_obj_file};
use mon::prog::{prog, End, ProgOpts};
use mon::simutil::*;
use mon::*;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug)]
struct TimerSpec {
    seed: u64,
    lo: u32,
    hi: u32,
    kind: u8,
    vect: u8,
    prio: u8,
    enabled: bool,
}
impl TimerSpec {
    fn make(&self) -> TimerDevice {
        let s = Some(self.seed);
        let (lo, hi) = (self.lo, self.hi);
        let mut t = match self.kind {
            0 => TimerDevice::new(s, lo..=hi, self.vect, self.prio),
            1 => TimerDevice::new(s, lo..hi + 1, self.vect, self.prio),
            2 => TimerDevice::new(s, ..=hi, self.vect, self.prio),
            _ => {
                let mut t = TimerDevice::new(s, lo..=lo, self.vect, self.prio);
                t.set_range(lo..=hi);
                t
            }
        };
        t.enabled = self.enabled;
        t
    }
}
/// What the host does before a step.
#[derive(Clone, Debug)]
enum Act {
    Type(Vec<u8>),
    Toggle(usize, bool),
    ResetTimer(usize),
    Range(usize, u32, u32),
    Exact(usize, u32),
    Poke(u16, u16),
    Reset,
}
#[derive(Clone, Debug)]
struct Case {
    flags: SimFlags,
    patches: Vec<(u16, u16)>,
    pc: u16,
    psr: Option<u16>,
    timers: Vec<TimerSpec>,
    kb_ie: bool,
    input: Vec<u8>,
    devs: Vec<DevSpec>,
    acts: Vec<(u32, Act)>,
    steps: u32,
}
struct Run {
    sim: Simulator,
    kb: KbBuf,
    ds: DsBuf,
    timers: Vec<Arc<Mutex<TimerDevice>>>,
    logs: Vec<refsim::Log>,
    k: u32,
}
type Look = ([Word; 8], u16, u16, u16, u64, u64, usize, usize, Option<&'static str>, Vec<u32>, usize, (bool, bool));
impl Run {
    fn new(c: &Case) -> Run {
        let mut sim = Simulator::new(c.flags);
        Self::place(&mut sim, c);
        let kb = keyboard(&mut sim, &c.input);
        let ds = display(&mut sim);
        if c.kb_ie {
            let _ = sim.write_mem(0xFE00, Word::new_init(0x4000), host());
        }
        let mut timers = vec![];
        for t in &c.timers {
            let t = Arc::new(Mutex::new(t.make()));
            add(&mut sim, t.clone(), &[]);
            timers.push(t);
        }
        let mut logs = vec![];
        for d in &c.devs {
            let mut s = refsim::Scripted::new(d.seed);
            s.rate = d.rate;
            s.prios = d.prios.clone();
            s.vects = d.vects;
            logs.push(s.log.clone());
            add(&mut sim, Real(s), &d.ports);
        }
        Run { sim, kb, ds, timers, logs, k: 0 }
    }
    fn place(sim: &mut Simulator, c: &Case) {
        for &(a, w) in &c.patches {
            sim.mem[a].set(w);
        }
        sim.pc = c.pc;
        if let Some(p) = c.psr {
            set_psr(sim, p);
        }
    }
    fn step(&mut self, c: &Case) -> Look {
        for (_, a) in c.acts.iter().filter(|a| a.0 == self.k) {
            match a {
                Act::Type(b) => self.kb.write().unwrap().extend(b),
                Act::Toggle(i, v) => self.timers[*i].lock().unwrap().enabled = *v,
                Act::ResetTimer(i) => self.timers[*i].lock().unwrap().reset_remaining(),
                Act::Range(i, lo, hi) => {
                    self.timers[*i].lock().unwrap().set_range(*lo..=*hi);
                }
                Act::Exact(i, n) => {
                    self.timers[*i].lock().unwrap().set_exact(*n);
                }
                Act::Poke(a, v) => self.sim.mem[*a].set(*v),
                Act::Reset => {
                    self.sim.reset();
                    Self::place(&mut self.sim, c);
                }
            }
        }
        self.k += 1;
        let e = self.sim.step_in().err().map(|e| err_kind(&e));
        let s = &mut self.sim;
        let sp = saved_sp(s);
        (
            REGS.map(|r| s.reg_file[r]),
            s.pc,
            s.psr().get(),
            sp,
            s.frame_stack.len(),
            s.instructions_run,
            self.kb.read().unwrap().len(),
            self.ds.read().unwrap().len(),
            e,
            self.timers.iter().map(|t| t.lock().unwrap().get_remaining()).collect(),
            self.logs.iter().map(|l| l.lock().unwrap().len()).sum(),
            (s.hit_halt(), s.hit_breakpoint()),
        )
    }
}
fn os_words() -> &'static Vec<bool> {
    static OS: OnceLock<Vec<bool>> = OnceLock::new();
    OS.get_or_init(|| {
        let mut v = vec![false; 65536];
        for (a, _) in _os_obj_file().addr_iter() {
            v[a as usize] = true;
        }
        v
    })
}
fn known(l: &mut Local, sim: &Simulator, value: u16, how: &str) {
    let os = os_words();
    for a in 0..0xFE00u16 {
        if !os[a as usize] && sim.mem[a].get() != value {
            return l.violation("a known strategy leaves another value in a memory word", format!("{how}: x{a:04X} holds x{:04X}, expected x{value:04X}", sim.mem[a].get()));
        }
    }
    for r in REGS {
        if sim.reg_file[r].get() != value {
            return l.violation("a known strategy leaves another value in a register", format!("{how}: {r} holds x{:04X}, expected x{value:04X}", sim.reg_file[r].get()));
        }
    }
    l.eval();
    l.count("machines with the known value everywhere", 1);
}
fn case(r: &mut Rng) -> Case {
    let init = if r.pct(35) { Init::Known { value: r.u16() } } else { Init::Seeded { seed: if r.pct(30) { r.below(3) as u64 } else { r.next() } } };
    let (a, b, c, d) = (r.pct(25), r.pct(60), r.pct(50), r.pct(30));
    let flags = flags(a, b, c, d, init);
    let kind = r.below(4);
    let mut devs = vec![];
    let (patches, pc, psr) = match kind {
        // a program with input and output
        0 | 1 => {
            const ENDS: &[End] = &[End::Halt, End::Acv, End::Priv, End::IllOp, End::BadTrap];
            let p = prog(r, &ProgOpts { size: 25, output: true, input: true, ends: ENDS, subs: 2 });
            (p.patches(), p.org, None)
        }
        // whatever memory holds
        2 => {
            let pc = r.below(0xFE00) as u16;
            (vec![], pc.max(0x3000), None)
        }
        _ => {
            let k = *r.pick(&[Kind::Wild, Kind::Sane, Kind::Mixed]);
            let st = state(r, k, true);
            devs = st.devs.into_iter().map(|d| DevSpec { ext: false, ..d }).collect();
            (st.patches, st.pc, Some(st.psr))
        }
    };
    let nt = *r.pick(&[0, 1, 1, 2, 3]);
    let mut patches = patches;
    let mut timers = vec![];
    for i in 0..nt {
        let lo = *r.pick(&[0u32, 1, 2, 5, 30, 30, 300, 1000, 70_000]);
        let span = *r.pick(&[0u32, 1, 5, 40, 40, 500, 100_000]);
        let vect = *r.pick(&[0x81u8, 0x82, 0x83, 0x90]);
        let seed = seed(r);
        timers.push(TimerSpec { seed, lo, hi: (lo + span).max(1), kind: r.below(4) as u8, vect, prio: (3 + i as u8) & 7, enabled: r.pct(90) });
    }
    // handlers: count and return, or use what registers hold
    if r.pct(80) {
        for (k, v) in [0x180u16, 0x181, 0x182, 0x183, 0x190].into_iter().enumerate() {
            let h = 0x1000 + 0x10 * k as u16;
            patches.push((v, h));
            let body: &[u16] = match r.below(3) {
                // ADD R1, R1, #1; RTI
                0 => &[0x1261, 0x8000],
                // LD R2, +2; ADD R2, R2, #1; ST R2, +0; RTI
                1 => &[0x2403, 0x14A1, 0x3401, 0x8000, 0x0000],
                // LDI R3 from the keyboard data register, RTI
                _ => &[0xA601, 0x8000, 0xFE02],
            };
            patches.extend(body.iter().enumerate().map(|(i, w)| (h + i as u16, *w)));
        }
    }
    let steps = 50 + r.below(450) as u32;
    let mut acts = vec![];
    for _ in 0..r.below(10) {
        let at = r.below(steps as usize) as u32;
        let i = r.below(nt.max(1));
        let a = match r.below(8) {
            0 | 1 => Act::Type((0..1 + r.below(4)).map(|_| r.u8()).collect()),
            2 if nt > 0 => Act::Toggle(i, r.pct(60)),
            3 if nt > 0 => Act::ResetTimer(i),
            4 if nt > 0 => {
                let lo = r.below(9) as u32;
                Act::Range(i, lo, lo + 1 + r.below(9) as u32)
            }
            5 if nt > 0 => Act::Exact(i, 1 + r.below(9) as u32),
            6 if r.pct(30) => Act::Reset,
            _ => Act::Poke(r.u16() & 0xFDFF, r.u16()),
        };
        acts.push((at, a));
    }
    let input: Vec<u8> = (0..r.below(20)).map(|_| r.u8()).collect();
    Case { flags, patches, pc, psr, timers, kb_ie: r.pct(40), input, devs, acts, steps }
}
fn seed(r: &mut Rng) -> u64 {
    match r.below(7) {
        0 => 0,
        1 => 7,
        2 => r.below(1000) as u64,
        3 => u64::MAX - r.below(3) as u64,
        4 => 1 << r.below(64),
        _ => r.next(),
    }
}
fn number(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0,
        1 | 2 => r.below(10) as u32,
        3 => r.below(300) as u32,
        4 => *r.pick(&[254, 255, 256, 257, 1000, 32_767, 32_768, 65_534, 65_535, 65_536, 131_072, 1 << 24, 1 << 31, u32::MAX - 1, u32::MAX]),
        5 => 1 << r.below(32),
        6 => r.below(1 << 20) as u32,
        _ => r.next() as u32,
    }
}
/// Twin timers of one seed outside of a simulator, with any range and any use.
fn timers(r: &mut Rng, l: &mut Local) {
    let s = seed(r);
    let range = |r: &mut Rng| {
        let (a, b) = (number(r), number(r));
        (a.min(b), a.max(b), r.below(5))
    };
    let set = |t: &mut TimerDevice, (a, b, k): (u32, u32, usize)| {
        let _ = match k {
            0 if a < b => t.set_range(a..b),
            1 => t.set_range(..=b),
            2 => t.set_range(a..),
            3 => t.set_exact(a),
            _ => t.set_range(a..=b),
        };
    };
    let make = |s: u64, (a, b, k): (u32, u32, usize), v: u8, p: u8| match k {
        0 if a < b => TimerDevice::new(Some(s), a..b, v, p),
        1 => TimerDevice::new(Some(s), ..=b, v, p),
        2 => TimerDevice::new(Some(s), a.., v, p),
        3 => TimerDevice::new(Some(s), a..=a, v, p),
        _ => TimerDevice::new(Some(s), a..=b, v, p),
    };
    let (first, v, p) = (range(r), r.u8(), r.below(8) as u8);
    let (Ok(x), Ok(y)) = (guard(|| make(s, first, v, p)), guard(|| make(s, first, v, p))) else { return l.inconclusive() };
    // one of them bare, the other behind a lock
    let mut x = x;
    let shared = Arc::new(Mutex::new(y));
    let mut y = shared.clone();
    let mut what = format!("seed {s} {first:?}");
    let on = r.pct(80);
    x.enabled = on;
    shared.lock().unwrap().enabled = on;
    l.eval();
    for _ in 0..10 + r.below(60) {
        let op = r.below(10);
        let n = range(r);
        let on = r.pct(70);
        let polls = 1 + r.below(20);
        let done = guard(|| {
            let mut fired = 0;
            match op {
                0 | 1 => {
                    x.reset_remaining();
                    shared.lock().unwrap().reset_remaining();
                    what += " reset";
                }
                2 | 3 => {
                    x.io_reset();
                    y.io_reset();
                    what += " io_reset";
                }
                4 => {
                    what += &format!(" {n:?}");
                    set(&mut x, n);
                    set(&mut shared.lock().unwrap(), n);
                }
                5 => {
                    what += &format!(" enabled={on}");
                    x.enabled = on;
                    shared.lock().unwrap().enabled = on;
                }
                _ => {
                    what += &format!(" poll*{polls}");
                    for _ in 0..polls {
                        let (a, b) = (x.poll_interrupt(), y.poll_interrupt());
                        if format!("{a:?}") != format!("{b:?}") {
                            return Err(format!("{a:?} and {b:?}"));
                        }
                        fired += a.is_some() as u64;
                    }
                }
            }
            let (a, b) = (x.get_remaining(), shared.lock().unwrap().get_remaining());
            if a != b {
                return Err(format!("{a} and {b} remaining"));
            }
            Ok(fired)
        });
        match done {
            Err(_) => return l.inconclusive(),
            Ok(Err(e)) => return l.violation("two timers of one seed differ", format!("{e} after: {what}")),
            Ok(Ok(n)) => l.count("interrupts of twin timers", n),
        }
        l.count("operations on twin timers", 1);
    }
    l.distinct_str(&what);
}
fn diff_mem(a: &Run, b: &Run) -> Option<String> {
    (0..=0xFFFFu16).find(|x| a.sim.mem[*x] != b.sim.mem[*x]).map(|x| format!("x{x:04X}: {:?} and {:?}", a.sim.mem[x], b.sim.mem[x]))
}
fn twin(r: &mut Rng, l: &mut Local) {
    let c = case(r);
    let show = || format!("{c:04X?}").chars().take(6000).collect::<String>();
    let mut a = Run::new(&c);
    // unrelated machines in between must not matter
    for _ in 0..r.below(3) {
        let _ = Simulator::new(flags(false, false, false, false, Init::Unseeded));
    }
    let mut b = if r.pct(15) {
        let c = c.clone();
        let Ok(b) = std::thread::spawn(move || guard(|| Run::new(&c))).join() else { return l.inconclusive() };
        let Ok(b) = b else { return l.inconclusive() };
        b
    } else {
        Run::new(&c)
    };
    l.eval();
    if let Some(d) = diff_mem(&a, &b) {
        return l.violation("two machines of one configuration start with different memory", format!("{d}\n{}", show()));
    }
    let mut ints = 0;
    let mut last: Option<Look> = None;
    // in lockstep, or one after the other
    let lock = r.pct(60);
    let mut trace_a = vec![];
    if !lock {
        for _ in 0..c.steps {
            match guard(|| a.step(&c)) {
                Ok(x) => trace_a.push(x),
                Err(_) => break,
            }
        }
        l.count("runs one after the other", 1);
    }
    let mut errs = 0;
    for k in 0..c.steps {
        let x = if lock {
            match guard(|| a.step(&c)) {
                Ok(x) => x,
                Err(_) => return l.inconclusive(),
            }
        } else {
            match trace_a.get(k as usize) {
                Some(x) => x.clone(),
                None => return l.inconclusive(),
            }
        };
        let Ok(y) = guard(|| b.step(&c)) else { return l.inconclusive() };
        if x != y {
            return l.violation("two runs of one configuration differ", format!("step {k}: {x:04X?}\nand {y:04X?}\n{}", show()));
        }
        if last.as_ref().is_some_and(|p| p.2 & 0x700 != x.2 & 0x700) {
            ints += 1;
        }
        l.count("steps compared", 1);
        if x.8.is_some() {
            errs += 1;
            if errs > 3 {
                break;
            }
        }
        last = Some(x);
        if lock && k % 64 == 63 {
            if let Some(d) = diff_mem(&a, &b) {
                return l.violation("two runs of one configuration differ in memory", format!("after step {k}: {d}\n{}", show()));
            }
        }
    }
    if lock || errs == 0 {
        if let Some(d) = diff_mem(&a, &b) {
            return l.violation("two runs of one configuration differ in memory", format!("at the end: {d}\n{}", show()));
        }
        if *a.ds.read().unwrap() != *b.ds.read().unwrap() {
            return l.violation("two runs of one configuration differ in output", format!("{:?} {:?}\n{}", a.ds, b.ds, show()));
        }
        for (p, q) in a.logs.iter().zip(&b.logs) {
            if *p.lock().unwrap() != *q.lock().unwrap() {
                return l.violation("two runs of one configuration differ in device accesses", show());
            }
        }
    }
    if a.sim.frame_stack.frames().map(|f| format!("{f:?}")) != b.sim.frame_stack.frames().map(|f| format!("{f:?}")) && (lock || errs == 0) {
        return l.violation("two runs of one configuration differ in frames", show());
    }
    l.count("interrupt priority changes", ints);
    l.count("bytes output", a.ds.read().unwrap().len() as u64);
    l.count(match c.flags.machine_init {
        Init::Known { .. } => "known strategy",
        _ => "seeded strategy",
    }, 1);
    l.distinct_str(&show());
    l.sample(show);
}
fn main() {
    let mut c = Check::new("C31");
    c.factor(30);
    c.exhaustive("known values", 65536, |i, _, l| {
        let f = flags(i & 1 != 0, i & 2 != 0, i & 4 != 0, i & 8 != 0, Init::Known { value: i as u16 });
        let sim = Simulator::new(f);
        known(l, &sim, i as u16, "new");
        l.distinct(i);
    });
    c.random("known after reset", 3_000, |r, l| {
        let (i, j) = (r.u16(), r.u16());
        let mut sim = Simulator::new(flags(false, false, false, false, Init::Known { value: i }));
        for _ in 0..20 {
            let _ = guard(|| sim.step_in());
        }
        sim.flags.machine_init = Init::Known { value: j };
        if guard(|| sim.reset()).is_ok() {
            known(l, &sim, j, "reset");
        }
    });
    c.random("twins", 25_000, twin);
    c.random("timers", 40_000, timers);
    c.random("seeds", 3_000, |r, l| {
        // any seed, twice, with all of memory and the registers
        let seed = match r.below(4) {
            0 => r.below(1000) as u64,
            1 => u64::MAX - r.below(1000) as u64,
            2 => 1 << r.below(64),
            _ => r.next(),
        };
        let f = |k: u8| flags(k & 1 != 0, k & 2 != 0, k & 4 != 0, k & 8 != 0, Init::Seeded { seed });
        let ka = r.u8();
        let (a, b) = (Simulator::new(f(ka)), Simulator::new(f(ka)));
        l.eval();
        let m = (0..=0xFFFFu16).find(|x| a.mem[*x] != b.mem[*x]);
        if let Some(x) = m {
            return l.violation("two machines of one seed start with different memory", format!("seed {seed}: x{x:04X}: {:?} and {:?}", a.mem[x], b.mem[x]));
        }
        if REGS.iter().any(|q| a.reg_file[*q] != b.reg_file[*q]) {
            return l.violation("two machines of one seed start with different registers", format!("seed {seed}"));
        }
        l.count("seeds compared", 1);
        l.distinct_str(&format!("seed {seed}"));
    });
    c.finish(
        "machines of every known value; pairs of independently built machines of random configurations (seed or known value, flags, programs with input and output or random memory, seeded timers with toggles, resets and range changes, keyboard interrupts, typed input, scripted devices), seeded timers of any range and seed on their own; compared after every step in registers, PC, PSR, saved SP, frames, counts, buffers, timers and device logs, and repeatedly in all of memory",
        &["inputs arrive at the same step in both runs"],
        &[("machines with the known value everywhere", 60_000), ("steps compared", 500_000), ("interrupt priority changes", 20_000), ("bytes output", 5_000), ("seeds compared", 1_000), ("interrupts of twin timers", 100_000), ("operations on twin timers", 500_000), ("runs one after the other", 1_000)],
    )
}
