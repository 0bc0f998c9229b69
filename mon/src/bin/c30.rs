//! Reset: a fresh machine with the old configuration.
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt, NullDevice, TimerDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy as Init, Word};
use lc3_ensemble::sim::{InternalRegister, SimFlags, Simulator};
use mon::prog::{prog, End, ProgOpts};
use mon::simutil::*;
use mon::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

type Rec = Arc<Mutex<Vec<(u16, Option<u16>)>>>;
/// Answers reads with its tag, records everything, interrupts now and then.
struct Probe {
    tag: u16,
    log: Rec,
    polls: u64,
    every: u64,
    polled: Arc<Mutex<u64>>,
}
impl ExternalDevice for Probe {
    fn io_read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        if effectful {
            self.log.lock().unwrap().push((addr, None));
        }
        Some(self.tag)
    }
    fn io_write(&mut self, addr: u16, data: u16) -> bool {
        self.log.lock().unwrap().push((addr, Some(data)));
        true
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        self.polls += 1;
        *self.polled.lock().unwrap() += 1;
        (self.every > 0 && self.polls % self.every == 0).then(|| Interrupt::vectored(0x90, 4))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Bp {
    Pc(u16),
    Reg(usize, u8, u16),
    Mem(u16, u8, u16),
}
fn cmp(k: u8, v: u16) -> Comparator {
    match k {
        0 => Comparator::Never,
        1 => Comparator::Lt(v),
        2 => Comparator::Eq(v),
        3 => Comparator::Le(v),
        4 => Comparator::Gt(v),
        5 => Comparator::Ne(v),
        6 => Comparator::Ge(v),
        _ => Comparator::Always,
    }
}
fn bp(b: Bp) -> Breakpoint {
    match b {
        Bp::Pc(a) => Breakpoint::PC(a),
        Bp::Reg(r, k, v) => Breakpoint::Reg { reg: REGS[r], value: cmp(k, v) },
        Bp::Mem(a, k, v) => Breakpoint::Mem { addr: a, value: cmp(k, v) },
    }
}
fn rbp(r: &mut Rng) -> Bp {
    let (k, v) = (r.below(8) as u8, r.u16());
    match r.below(3) {
        0 => Bp::Pc(if r.pct(50) { 0x3000 + r.below(20) as u16 } else { v }),
        1 => Bp::Reg(r.below(8), k, v),
        _ => Bp::Mem(edge(r), k, v),
    }
}
/// Runs at most `n` cycles (also when exceptions keep instructions from completing).
fn bounded(sim: &mut Simulator, n: u64) -> Result<(), lc3_ensemble::sim::SimErr> {
    let mut k = 0;
    sim.run_while(|_| {
        k += 1;
        k <= n
    })
}
fn init(r: &mut Rng) -> Init {
    match r.below(8) {
        0 => Init::Unseeded,
        1 => Init::Known { value: 0 },
        2 | 3 => Init::Known { value: r.u16() },
        _ => Init::Seeded { seed: r.next() },
    }
}
fn rflags(r: &mut Rng) -> SimFlags {
    let (a, b, c, d, i) = (r.pct(30), r.pct(50), r.pct(50), r.pct(40), init(r));
    flags(a, b, c, d, i)
}
const KINDS: [InternalRegister; 4] = [InternalRegister::PC, InternalRegister::PSR, InternalRegister::MCR, InternalRegister::SavedSP];
/// The configuration that must survive.
struct Conf {
    flags: SimFlags,
    bps: std::collections::BTreeSet<Bp>,
    iregs: BTreeMap<u16, InternalRegister>,
    /// id -> (tag, ports, log, polls)
    devs: BTreeMap<u16, (u16, Vec<u16>, Rec, Arc<Mutex<u64>>)>,
    kb: Option<KbBuf>,
    ds: Option<DsBuf>,
    next_tag: u16,
}
fn same_start(a: &mut Simulator, b: &mut Simulator, det: bool) -> Option<(&'static str, String)> {
    let os: std::collections::BTreeSet<u16> = if det { Default::default() } else { lc3_ensemble::sim::_os_obj_file().addr_iter().filter(|x| x.1.is_some()).map(|x| x.0).collect() };
    for x in 0..=0xFFFFu16 {
        let (p, q) = (a.mem[x], b.mem[x]);
        if det || x >= 0xFE00 || os.contains(&x) {
            if p != q {
                return Some(("a memory word differs from a new simulator's", format!("x{x:04X}: {p:?}, new {q:?}")));
            }
        } else if p.is_init() != q.is_init() {
            return Some(("a memory word's initialization state differs from a new simulator's", format!("x{x:04X}: {p:?}, new {q:?}")));
        }
    }
    for r in REGS {
        let (p, q) = (a.reg_file[r], b.reg_file[r]);
        if (det && p != q) || p.is_init() != q.is_init() {
            return Some(("a register differs from a new simulator's", format!("{r}: {p:?}, new {q:?}")));
        }
    }
    if a.pc != b.pc {
        return Some(("the PC differs from a new simulator's", format!("x{:04X}, new x{:04X}", a.pc, b.pc)));
    }
    if a.psr().get() != b.psr().get() {
        return Some(("the PSR differs from a new simulator's", format!("x{:04X}, new x{:04X}", a.psr().get(), b.psr().get())));
    }
    let (p, q) = (saved_sp(a), saved_sp(b));
    if p != q {
        return Some(("the saved stack pointer differs from a new simulator's", format!("x{p:04X}, new x{q:04X}")));
    }
    let f = |s: &Simulator| (s.frame_stack.len(), s.frame_stack.frames().map(|f| f.len()));
    if f(a) != f(b) {
        return Some(("the frame depth differs from a new simulator's", format!("{:?}, new {:?}", f(a), f(b))));
    }
    if a.instructions_run != b.instructions_run {
        return Some(("the instruction count differs from a new simulator's", format!("{}, new {}", a.instructions_run, b.instructions_run)));
    }
    if (a.hit_halt(), a.hit_breakpoint()) != (b.hit_halt(), b.hit_breakpoint()) {
        return Some(("the halt or breakpoint status differs from a new simulator's", format!("{:?}, new {:?}", (a.hit_halt(), a.hit_breakpoint()), (b.hit_halt(), b.hit_breakpoint()))));
    }
    None
}
/// The kept configuration, seen from outside. Uses up the devices.
fn kept(r: &mut Rng, l: &mut Local, sim: &mut Simulator, c: &Conf) -> Option<(&'static str, String)> {
    if sim.flags != c.flags {
        return Some(("reset changes the flags", format!("{:?} -> {:?}", c.flags, sim.flags)));
    }
    let want: HashSet<Breakpoint> = c.bps.iter().map(|b| bp(*b)).collect();
    if sim.breakpoints != want {
        return Some(("reset changes the breakpoints", format!("{:?} -> {:?}", c.bps, sim.breakpoints)));
    }
    l.count("breakpoints kept", c.bps.len() as u64);
    // every I/O address
    let keep = (sim.pc, sim.psr().get(), saved_sp(sim), mcr(sim));
    let mut owner = BTreeMap::new();
    for (id, (tag, ports, log, _)) in &c.devs {
        log.lock().unwrap().clear();
        for p in ports {
            owner.insert(*p, (*tag, *id, log));
        }
    }
    for a in 0xFE00..=0xFFFFu16 {
        let got = match sim.read_mem(a, host()) {
            Ok(w) => w.get(),
            Err(e) => return Some(("a host read of an I/O address fails after reset", format!("x{a:04X}: {e:?}"))),
        };
        let want = match (c.iregs.get(&a), owner.get(&a)) {
            (Some(InternalRegister::PC), _) => Some(keep.0),
            (Some(InternalRegister::PSR), _) => Some(keep.1),
            (Some(InternalRegister::SavedSP), _) => Some(keep.2),
            (Some(InternalRegister::MCR), _) => Some((keep.3 as u16) << 15),
            (Some(_), _) => None,
            (None, Some((tag, ..))) => Some(*tag),
            (None, None) if matches!(a, 0xFE00 | 0xFE02 | 0xFE04 | 0xFE06) => None,
            (None, None) => Some(0),
        };
        if want.is_some_and(|w| w != got) {
            let what = if c.iregs.contains_key(&a) {
                "reset loses a mapping of an internal register"
            } else if owner.contains_key(&a) {
                "reset loses a device"
            } else {
                "an unowned I/O address is not zero after reset"
            };
            return Some((what, format!("x{a:04X} reads x{got:04X}, expected {want:04X?}")));
        }
        if c.iregs.contains_key(&a) {
            l.count("register mappings kept", 1);
        } else if let Some((_, _, log)) = owner.get(&a) {
            let v = r.u16();
            let ok = sim.write_mem(a, Word::new_init(v), host()).is_ok();
            let seen = std::mem::take(&mut *log.lock().unwrap());
            if !ok || seen.last() != Some(&(a, Some(v))) {
                return Some(("a write does not reach its device after reset", format!("x{a:04X}: {seen:04X?}")));
            }
            l.count("device ports kept", 1);
        }
    }
    let free = |a: u16| !c.iregs.contains_key(&a);
    if let Some(kb) = &c.kb {
        if [0xFE00, 0xFE02].iter().all(|a| free(*a)) {
            kb.write().unwrap().clear();
            kb.write().unwrap().push_back(0x5A);
            let s = sim.read_mem(0xFE00, host()).map(|w| w.get() >> 15);
            let d = sim.read_mem(0xFE02, host()).map(|w| w.get());
            if (s.as_ref().ok(), d.as_ref().ok()) != (Some(&1), Some(&0x5A)) {
                return Some(("reset loses the keyboard", format!("{s:?} {d:?}")));
            }
            l.count("keyboards kept", 1);
        }
    }
    if let Some(ds) = &c.ds {
        if [0xFE04, 0xFE06].iter().all(|a| free(*a)) {
            ds.write().unwrap().clear();
            let _ = sim.write_mem(0xFE06, Word::new_init(0x41), host());
            if ds.read().unwrap().as_slice() != [0x41] {
                return Some(("reset loses the display", String::new()));
            }
            l.count("displays kept", 1);
        }
    }
    // interrupts of kept devices are still polled
    if !c.devs.is_empty() {
        let before: Vec<u64> = c.devs.values().map(|d| *d.3.lock().unwrap()).collect();
        let _ = guard(|| sim.step_in());
        let after: Vec<u64> = c.devs.values().map(|d| *d.3.lock().unwrap()).collect();
        if before.iter().zip(&after).any(|(a, b)| b <= a) {
            return Some(("a device is not polled after reset", format!("{before:?} {after:?}")));
        }
        l.count("devices polled after a reset", before.len() as u64);
    }
    None
}
fn history(r: &mut Rng, sim: &mut Simulator, c: &mut Conf, log: &mut Vec<String>, n: usize) {
    for _ in 0..n {
        match r.below(30) {
            0 => {
                let b = rbp(r);
                sim.breakpoints.insert(bp(b));
                c.bps.insert(b);
                log.push(format!("breakpoint {b:?}"));
            }
            1 => {
                if let Some(b) = c.bps.iter().next().copied() {
                    sim.breakpoints.remove(&bp(b));
                    c.bps.remove(&b);
                    log.push(format!("no breakpoint {b:?}"));
                }
            }
            2 | 3 => {
                let span = *r.pick(&[0x20, 0x200]);
                let ports: Vec<u16> = (0..r.below(4)).map(|_| 0xFE00 + r.below(span) as u16).collect();
                c.next_tag += 1;
                let (rec, polled) = (Rec::default(), Arc::new(Mutex::new(0)));
                let p = Probe { tag: c.next_tag, log: rec.clone(), polls: 0, every: *r.pick(&[0, 0, 3, 17]), polled: polled.clone() };
                if let Some(id) = add(sim, p, &ports) {
                    log.push(format!("device {id} at {ports:04X?}"));
                    c.devs.insert(id, (c.next_tag, ports, rec, polled));
                }
            }
            4 => {
                if let Some(id) = c.devs.keys().next().copied() {
                    sim.device_handler.remove_device(id);
                    c.devs.remove(&id);
                    log.push(format!("no device {id}"));
                }
            }
            5 => {
                let mut t = TimerDevice::new(Some(r.next()), 1..=9, 0x81, 4);
                t.enabled = true;
                add(sim, t, &[]);
                log.push("timer".into());
            }
            6 | 7 => {
                let a = 0xFE00 + r.below(0x200) as u16;
                let k = *r.pick(&KINDS);
                if sim.mmap_internal(a, k).is_ok() {
                    c.iregs.insert(a, k);
                    log.push(format!("{k:?} at x{a:04X}"));
                }
            }
            8 => {
                let a = c.iregs.keys().nth(r.below(c.iregs.len() + 1)).copied().unwrap_or(0xFE80);
                sim.munmap_internal(a);
                c.iregs.remove(&a);
                log.push(format!("unmap x{a:04X}"));
            }
            9 => {
                sim.flags = rflags(r);
                c.flags = sim.flags;
                log.push(format!("{:?}", sim.flags));
            }
            10 => {
                let input: Vec<u8> = (0..r.below(9)).map(|_| r.u8()).collect();
                c.kb = Some(keyboard(sim, &input));
                log.push("keyboard".into());
            }
            11 => {
                c.ds = Some(display(sim));
                log.push("display".into());
            }
            12 => {
                for _ in 0..r.below(300) {
                    let (a, v) = (edge(r), r.u16());
                    sim.mem[a].set(v);
                    if r.pct(30) {
                        sim.mem[a].clear_init();
                    }
                }
                log.push("memory writes".into());
            }
            13 => {
                for x in REGS {
                    sim.reg_file[x].set(edge(r));
                }
                sim.pc = edge(r);
                log.push("registers".into());
            }
            14 => {
                let v = r.u16();
                set_psr(sim, v);
                let v = edge(r);
                set_saved_sp(sim, v);
                log.push("PSR, saved SP".into());
            }
            15 => {
                sim.instructions_run = r.next();
                sim.instructions_run >>= 1;
            }
            16 => {
                const ENDS: &[End] = &[End::Halt, End::Acv, End::Priv, End::IllOp];
                let p = prog(r, &ProgOpts { size: 15, output: false, input: false, ends: ENDS, subs: 2 });
                p.load(sim);
                sim.pc = p.org;
                log.push("program".into());
                let _ = guard(|| bounded(sim, 600));
            }
            17 => {
                let o = gen::Opts { externals: false, max_stmts: 8, ..gen::Opts::default() };
                let p = gen::program(r, &o);
                let text = mon::refasm::analyze(&p).1.image;
                if let Ok(o) = obj_of(&image_text(&text)) {
                    let _ = guard(|| sim.load_obj_file(&o));
                    log.push("load".into());
                }
            }
            18 => {
                let a = edge(r);
                let _ = guard(|| sim.call_subroutine(a));
                log.push(format!("call x{a:04X}"));
            }
            19 => {
                let n = r.below(200) as u64;
                log.push(format!("run {n}"));
                let _ = guard(|| bounded(sim, n));
            }
            20 => {
                let mut n = r.below(50);
                log.push("run_while".into());
                let _ = guard(|| {
                    sim.run_while(|_| {
                        n = n.saturating_sub(1);
                        n > 0
                    })
                });
            }
            21 => {
                // a halt, a breakpoint hit
                sim.pc = 0x3000;
                sim.mem[0x3000].set(*r.pick(&[0xF025, 0x1020]));
                sim.mem[0x3001].set(0xF025);
                log.push("halting program".into());
                let _ = guard(|| bounded(sim, 300));
            }
            22 => {
                let (a, s) = (edge(r), refsim::Sig::Stack(2));
                sim.frame_stack.set_subroutine_def(a, plist(&s));
            }
            23 => {
                set_mcr(sim, r.pct(50));
                log.push("MCR".into());
            }
            24 if r.pct(30) => {
                let _ = guard(|| sim.reset());
                log.push("reset".into());
            }
            _ => {
                let n = 1 + r.below(30);
                log.push(format!("{n} steps"));
                for _ in 0..n {
                    let _ = guard(|| sim.step_in());
                }
            }
        }
    }
}
fn go(r: &mut Rng, l: &mut Local) {
    let f = rflags(r);
    let mut sim = Simulator::new(f);
    let mut c = Conf {
        flags: f,
        bps: Default::default(),
        iregs: [(0xFFFC, InternalRegister::PSR), (0xFFFE, InternalRegister::MCR)].into_iter().collect(),
        devs: Default::default(),
        kb: None,
        ds: None,
        next_tag: 0x4000,
    };
    let handle = sim.mcr().clone();
    let mut log = vec![format!("{f:?}")];
    let n = 1 + r.below(25);
    history(r, &mut sim, &mut c, &mut log, n);
    // long-running programs end at the fuse; it cannot be told apart from other devices
    let det = c.flags.machine_init != Init::Unseeded;
    let show = |log: &[String]| log.join("\n");
    let at = (sim.hit_halt(), sim.hit_breakpoint());
    if at.0 {
        l.count("resets after a halt", 1);
    }
    if at.1 {
        l.count("resets after a breakpoint", 1);
    }
    if sim.frame_stack.len() > 0 {
        l.count("resets inside of calls", 1);
    }
    l.eval();
    if let Err(p) = guard(|| sim.reset()) {
        return l.violation(format!("reset panicked at {}", p.loc), format!("{}\n{}", p.msg, show(&log)));
    }
    l.count("resets", 1);
    l.count(if det { "deterministic" } else { "unseeded" }, 1);
    let mut new = Simulator::new(c.flags);
    if !Arc::ptr_eq(&handle, sim.mcr()) {
        return l.violation("reset replaces the MCR handle", show(&log));
    }
    if let Some((what, d)) = same_start(&mut sim, &mut new, det) {
        return l.violation(format!("after reset, {what}"), format!("{d}\n{}", show(&log)));
    }
    if let Some((what, d)) = kept(r, l, &mut sim, &c) {
        return l.violation(what, format!("{d}\n{}", show(&log)));
    }
    l.distinct_str(&show(&log));
    l.sample(|| show(&log));
    if !det {
        return;
    }
    // The future: reset again, take everything off and compare with the new simulator, step by step.
    if guard(|| sim.reset()).is_err() {
        return l.violation("a second reset panicked", show(&log));
    }
    if let Some((what, d)) = same_start(&mut sim, &mut new, det) {
        return l.violation(format!("after a second reset, {what}"), format!("{d}\n{}", show(&log)));
    }
    for id in 0..200 {
        sim.device_handler.remove_device(id);
    }
    sim.device_handler.set_keyboard(NullDevice);
    sim.device_handler.set_display(NullDevice);
    for a in c.iregs.keys() {
        sim.munmap_internal(*a);
    }
    let _ = (sim.mmap_internal(0xFFFC, InternalRegister::PSR), sim.mmap_internal(0xFFFE, InternalRegister::MCR));
    for b in &c.bps {
        new.breakpoints.insert(bp(*b));
    }
    set_mcr(&new, mcr(&sim));
    const ENDS: &[End] = &[End::Halt, End::Acv, End::Priv, End::IllOp];
    let p = prog(r, &ProgOpts { size: 12, output: false, input: false, ends: ENDS, subs: 2 });
    let wild = r.pct(40);
    let m: BTreeMap<u16, Option<u16>> = p.patches().into_iter().map(|(a, w)| (a, Some(w))).collect();
    for s in [&mut sim, &mut new] {
        if !wild {
            // (in strict mode, it matters what was loaded)
            if let Ok(o) = obj_of(&image_text(&m)) {
                let _ = guard(|| s.load_obj_file(&o));
            }
            s.pc = p.org;
        }
    }
    for k in 0..40 {
        let steps = r.pct(80);
        let (a, b) = if steps {
            (guard(|| sim.step_in().map_err(|e| err_kind(&e))), guard(|| new.step_in().map_err(|e| err_kind(&e))))
        } else {
            let n = r.below(30) as u64;
            (guard(|| bounded(&mut sim, n).map_err(|e| err_kind(&e))), guard(|| bounded(&mut new, n).map_err(|e| err_kind(&e))))
        };
        let (Ok(a), Ok(b)) = (a, b) else { return l.inconclusive() };
        let look = |s: &Simulator, e: &Result<(), &'static str>| {
            let pre = if e.is_err() { s.prefetch_pc() } else { 0 };
            (regs(s), s.pc, s.psr().get(), s.frame_stack.len(), s.instructions_run, s.hit_halt(), s.hit_breakpoint(), pre)
        };
        if a != b || look(&sim, &a) != look(&new, &b) {
            return l.violation("a reset machine runs unlike a new one", format!("call {k}: {a:?} {:04X?}, new {b:?} {:04X?}\n{}\n{}", look(&sim, &a), look(&new, &b), p.show(), show(&log)));
        }
        l.count("calls compared after a reset", 1);
        if a.is_err() && r.pct(50) {
            break;
        }
    }
    if let Some((what, d)) = same_start(&mut sim, &mut new, true) {
        l.violation(format!("a reset machine ends unlike a new one: {what}"), format!("{d}\n{}\n{}", p.show(), show(&log)));
    }
}
fn main() {
    let mut c = Check::new("C30");
    c.factor(30);
    c.random("histories", 50_000, go);
    c.finish(
        "random histories of runs, steps, loads, direct edits, flag changes, breakpoints, devices and register mappings, then reset: whole state compared with a new simulator of the same flags, every I/O address probed for its register or device, breakpoints and handle compared; then a program run on both",
        &["for the unseeded strategy only the parts that are not random are compared", "the MCR's value after a reset is not judged", "subroutine definitions are not judged"],
        &[("resets", 5_000), ("resets after a halt", 300), ("resets after a breakpoint", 150), ("resets inside of calls", 1_000), ("device ports kept", 3_000), ("register mappings kept", 10_000), ("breakpoints kept", 2_000), ("keyboards kept", 1_000), ("displays kept", 1_000), ("calls compared after a reset", 50_000)],
    )
}
