//! Timer interrupts follow the configured interval.
use lc3_ensemble::sim::device::{DeviceHandler, ExternalDevice, Interrupt, TimerDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::Simulator;
use mon::simutil::*;
use mon::*;
use std::ops::Bound;
use std::sync::{Arc, Mutex, RwLock};

/// A way to write a range.
#[derive(Clone, Copy, Debug)]
enum R {
    Exact(u32),
    Incl(u32, u32),
    Excl(u32, u32),
    From(u32),
    To(u32),
    ToIncl(u32),
    All,
    Bounds(Bound<u32>, Bound<u32>),
}
impl R {
    fn limits(self) -> (u64, u64) {
        let m = u32::MAX as u64;
        match self {
            R::Exact(n) => (n as u64, n as u64),
            R::Incl(a, b) => (a as u64, b as u64),
            R::Excl(a, b) => (a as u64, b as u64 - 1),
            R::From(a) => (a as u64, m),
            R::To(b) => (0, b as u64 - 1),
            R::ToIncl(b) => (0, b as u64),
            R::All => (0, m),
            R::Bounds(a, b) => (
                match a {
                    Bound::Included(a) => a as u64,
                    Bound::Excluded(a) => a as u64 + 1,
                    Bound::Unbounded => 0,
                },
                match b {
                    Bound::Included(b) => b as u64,
                    Bound::Excluded(b) => b as u64 - 1,
                    Bound::Unbounded => m,
                },
            ),
        }
    }
    fn new(self, seed: Option<u64>, v: u8, p: u8) -> TimerDevice {
        match self {
            R::Exact(n) => TimerDevice::new(seed, n..=n, v, p),
            R::Incl(a, b) => TimerDevice::new(seed, a..=b, v, p),
            R::Excl(a, b) => TimerDevice::new(seed, a..b, v, p),
            R::From(a) => TimerDevice::new(seed, a.., v, p),
            R::To(b) => TimerDevice::new(seed, ..b, v, p),
            R::ToIncl(b) => TimerDevice::new(seed, ..=b, v, p),
            R::All => TimerDevice::new(seed, .., v, p),
            R::Bounds(a, b) => TimerDevice::new(seed, (a, b), v, p),
        }
    }
    fn set(self, t: &mut TimerDevice) {
        let _ = match self {
            R::Exact(n) => t.set_exact(n),
            R::Incl(a, b) => t.set_range(a..=b),
            R::Excl(a, b) => t.set_range(a..b),
            R::From(a) => t.set_range(a..),
            R::To(b) => t.set_range(..b),
            R::ToIncl(b) => t.set_range(..=b),
            R::All => t.set_range(..),
            R::Bounds(a, b) => t.set_range((a, b)),
        };
    }
}
fn range(r: &mut Rng, small: bool) -> R {
    let n = |r: &mut Rng| match r.below(if small { 6 } else { 9 }) {
        0 => 0,
        1 | 2 => r.below(4) as u32,
        3 | 4 => r.below(30) as u32,
        5 => r.below(300) as u32,
        6 => *r.pick(&[254, 255, 256, 257, 1000, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000, 131_072]),
        7 => r.next() as u32,
        _ => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 24, 1 << 20]),
    };
    let (x, y) = (n(r), n(r));
    let (a, b) = (x.min(y), x.max(y));
    let b = if r.pct(50) { (a.saturating_add(r.below(6) as u32)).max(a) } else { b };
    match r.below(16) {
        0..=4 => R::Exact(a),
        5..=7 => R::Incl(a, b),
        8 | 9 if b > a => R::Excl(a, b),
        10 if b > 0 => R::To(b),
        11 => R::ToIncl(b),
        12 if !small => R::From(a),
        13 if !small => R::All,
        14 if b > a => R::Bounds(Bound::Excluded(a), Bound::Included(b)),
        15 if b > a && b - a > 1 => R::Bounds(Bound::Excluded(a), Bound::Excluded(b)),
        15 if b > 0 => R::Bounds(Bound::Unbounded, Bound::Excluded(b)),
        _ => R::Incl(a, b),
    }
}
/// Judges the polls of one timer.
#[derive(Clone, Debug)]
struct Mon {
    lo: u64,
    hi: u64,
    enabled: bool,
    /// Polls since the last interrupt, if nothing else happened since.
    gap: Option<u64>,
    /// Polls since the timer was enabled or reset, until the next interrupt.
    first: Option<u64>,
    /// Whether the current interval began with the current range.
    fresh: bool,
    gaps: u64,
    firsts: u64,
    polls: u64,
    idle: u64,
}
type Bad = Option<(&'static str, String)>;
impl Mon {
    fn new(r: R) -> Mon {
        let (lo, hi) = r.limits();
        Mon { lo, hi, enabled: false, gap: None, first: None, fresh: true, gaps: 0, firsts: 0, polls: 0, idle: 0 }
    }
    fn enable(&mut self, v: bool) {
        if v && !self.enabled {
            self.gap = None;
            self.first = self.fresh.then_some(0);
        } else if !v {
            (self.gap, self.first) = (None, None);
        }
        self.enabled = v;
    }
    fn reset(&mut self) {
        self.fresh = true;
        self.gap = None;
        self.first = self.enabled.then_some(0);
    }
    fn range(&mut self, r: R) {
        (self.lo, self.hi) = r.limits();
        (self.gap, self.first) = (None, None);
        self.fresh = false;
    }
    fn poll(&mut self, hit: bool) -> Bad {
        self.polls += 1;
        if !self.enabled {
            self.idle += 1;
            return hit.then(|| ("a disabled timer raises an interrupt", String::new()));
        }
        if hit {
            if let Some(g) = self.gap {
                self.gaps += 1;
                if g < self.lo || g > self.hi {
                    return Some(("the polls between two interrupts are not within the range", format!("{g} polls, range {}..={}", self.lo, self.hi)));
                }
            }
            if let Some(f) = self.first {
                self.firsts += 1;
                if f + 1 > self.hi + 1 {
                    return Some(("the first interrupt is late", format!("at poll {}, maximum {}", f + 1, self.hi)));
                }
            }
            self.gap = Some(0);
            self.first = None;
            self.fresh = true;
        } else {
            if let Some(g) = &mut self.gap {
                *g += 1;
                if *g > self.hi {
                    return Some(("an enabled timer does not raise its next interrupt", format!("{g} polls since the last one, range {}..={}", self.lo, self.hi)));
                }
            }
            if let Some(f) = &mut self.first {
                *f += 1;
                if *f > self.hi {
                    return Some(("the first interrupt is late", format!("{f} polls, maximum {}", self.hi)));
                }
            }
        }
        None
    }
    fn report(&self, l: &mut Local) {
        l.count("polls", self.polls);
        l.count("intervals between interrupts", self.gaps);
        l.count("first interrupts", self.firsts);
        l.count("polls while disabled", self.idle);
    }
}
/// The ways a timer can be polled.
enum Dut {
    Plain(TimerDevice),
    Mutex(Arc<Mutex<TimerDevice>>),
    Lock(Arc<RwLock<TimerDevice>>),
    Handler(DeviceHandler, Arc<Mutex<TimerDevice>>),
}
impl Dut {
    fn new(t: TimerDevice, how: usize) -> Dut {
        match how {
            0 => Dut::Plain(t),
            1 => Dut::Mutex(Arc::new(Mutex::new(t))),
            2 => Dut::Lock(Arc::new(RwLock::new(t))),
            _ => {
                let a = Arc::new(Mutex::new(t));
                let mut h = DeviceHandler::new();
                let _ = h.add_device(a.clone(), &[]);
                Dut::Handler(h, a)
            }
        }
    }
    fn with<T>(&mut self, f: impl FnOnce(&mut TimerDevice) -> T) -> T {
        match self {
            Dut::Plain(t) => f(t),
            Dut::Mutex(t) | Dut::Handler(_, t) => f(&mut t.lock().unwrap()),
            Dut::Lock(t) => f(&mut t.write().unwrap()),
        }
    }
    fn poll(&mut self) -> Option<Option<u8>> {
        let i = match self {
            Dut::Plain(t) => t.poll_interrupt(),
            Dut::Mutex(t) => t.poll_interrupt(),
            Dut::Lock(t) => t.poll_interrupt(),
            Dut::Handler(h, _) => h.poll_interrupt(),
        };
        i.map(|i| i.priority())
    }
    fn io_reset(&mut self) {
        match self {
            Dut::Plain(t) => t.io_reset(),
            Dut::Mutex(t) => t.io_reset(),
            Dut::Lock(t) => t.io_reset(),
            Dut::Handler(h, _) => h.io_reset(),
        }
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Poll(u32),
    Enable(bool),
    IoReset,
    Reset,
    Range(R),
    /// Things that do not change the interval.
    Look,
    Io,
    Vect(u8, u8),
}
fn op(r: &mut Rng, small: bool, hi: u64) -> Op {
    match r.below(26) {
        0 | 1 => Op::Enable(r.pct(60)),
        2 => Op::IoReset,
        3 => Op::Reset,
        4 => Op::Range(range(r, small)),
        5 => Op::Look,
        6 => Op::Io,
        7 => Op::Vect(r.u8(), r.u8()),
        8..=11 => Op::Poll(1 + r.below(3) as u32),
        12..=15 => Op::Poll(r.below(40) as u32),
        _ => Op::Poll(r.below((hi.min(2_000) as usize + 2) * 4) as u32),
    }
}
fn apply(d: &mut Dut, m: Option<&mut Mon>, o: Op, seq: &mut Vec<(u64, Option<u8>)>, n: &mut u64) -> Bad {
    match o {
        Op::Poll(k) => {
            let mut m = m;
            for _ in 0..k {
                let hit = d.poll();
                if let Some(p) = hit {
                    seq.push((*n, p));
                }
                *n += 1;
                if let Some(b) = m.as_mut().and_then(|m| m.poll(hit.is_some())) {
                    return Some(b);
                }
            }
        }
        Op::Enable(v) => {
            d.with(|t| t.enabled = v);
            if let Some(m) = m {
                m.enable(v);
            }
        }
        Op::IoReset => {
            d.io_reset();
            if let Some(m) = m {
                m.reset();
            }
        }
        Op::Reset => {
            d.with(|t| t.reset_remaining());
            if let Some(m) = m {
                m.reset();
            }
        }
        Op::Range(r) => {
            d.with(|t| r.set(t));
            if let Some(m) = m {
                m.range(r);
            }
        }
        Op::Look => d.with(|t| {
            let _ = (t.get_remaining(), t.get_range());
        }),
        Op::Io => d.with(|t| {
            let _ = t.io_read(0xFE10, true);
            let _ = t.io_write(0xFE10, 0xFFFF);
        }),
        Op::Vect(v, p) => d.with(|t| (t.vect, t.priority) = (v, p)),
    }
    None
}
fn direct(r: &mut Rng, l: &mut Local, small: bool) {
    let seed = if r.pct(90) { Some(if r.pct(20) { r.below(3) as u64 } else { r.next() }) } else { None };
    let r0 = range(r, small);
    let how = r.below(4);
    let mut d = Dut::new(r0.new(seed, 0x81, 4), how);
    let mut m = Mon::new(r0);
    // the twin is always plain
    let mut twin = Dut::new(r0.new(seed, 0x81, 4), 0);
    let mut ops = vec![];
    if r.pct(80) {
        ops.push(Op::Enable(true));
    }
    let mut hi = m.hi;
    for _ in 0..1 + r.below(40) {
        let o = op(r, small, hi);
        if let Op::Range(x) = o {
            hi = x.limits().1;
        }
        ops.push(o);
    }
    let (mut s1, mut s2, mut n1, mut n2) = (vec![], vec![], 0, 0);
    let ctx = || format!("seed {seed:?}, range {r0:?}, held as {how}, {ops:?}");
    l.eval();
    for o in &ops {
        if let Some((what, d)) = apply(&mut d, Some(&mut m), *o, &mut s1, &mut n1) {
            return l.violation(what, format!("{d} (poll {n1})\n{}", ctx()));
        }
        if seed.is_some() {
            apply(&mut twin, None, *o, &mut s2, &mut n2);
        }
    }
    if seed.is_some() {
        if s1 != s2 {
            let k = s1.iter().zip(&s2).position(|(a, b)| a != b).unwrap_or(s1.len().min(s2.len()));
            return l.violation("the same seed gives another sequence of interrupts", format!("interrupt {k}: {:?} against {:?}\n{}", s1.get(k), s2.get(k), ctx()));
        }
        l.count("sequences compared", (!s1.is_empty()) as u64);
    }
    m.report(l);
    l.distinct_str(&ctx());
    l.sample(|| format!("{}: {} interrupts in {n1} polls", ctx(), s1.len()));
}
/// One configuration, many polls.
fn long(r0: R, seed: u64, polls: u64, l: &mut Local) {
    let mut t = r0.new(Some(seed), 0x81, 4);
    let mut m = Mon::new(r0);
    t.enabled = true;
    m.enable(true);
    l.eval();
    for k in 0..polls {
        let hit = t.poll_interrupt().is_some();
        if let Some((what, d)) = m.poll(hit) {
            return l.violation(what, format!("{d} (poll {k} of a timer with {r0:?}, seed {seed})"));
        }
    }
    m.report(l);
    l.distinct_str(&format!("{r0:?} {seed} {polls}"));
}
/// A timer and what its polls gave.
struct Rec {
    t: TimerDevice,
    m: Mon,
    polls: u64,
    bad: Bad,
}
#[derive(Clone)]
struct Shared(Arc<Mutex<Rec>>);
impl ExternalDevice for Shared {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {
        let mut s = self.0.lock().unwrap();
        s.t.io_reset();
        s.m.reset();
    }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        let mut s = self.0.lock().unwrap();
        let i = s.t.poll_interrupt();
        s.polls += 1;
        let b = s.m.poll(i.is_some());
        if s.bad.is_none() {
            s.bad = b;
        }
        i
    }
}
const ISR: u16 = 0x0E00;
fn install(sim: &mut Simulator, vects: &[u8], body: u16) {
    for (k, v) in vects.iter().enumerate() {
        let a = ISR + 0x40 * k as u16;
        sim.mem[0x100 + *v as u16].set(a);
        // some instructions without effect, then back
        for i in 0..body {
            sim.mem[a + i].set(0x0000);
        }
        sim.mem[a + body].set(0x8000);
    }
    // user code that never ends
    for i in 0..20 {
        sim.mem[0x3000 + i].set([0x1021, 0x5260, 0x92BF, 0x0000, 0x16C1][i as usize % 5]);
    }
    sim.mem[0x3014].set(0x0FEB);
    sim.pc = 0x3000;
}
/// Entries of the handler, counted in polls and steps.
fn inside(r: &mut Rng, l: &mut Local) {
    let r0 = match r.below(4) {
        0 => R::Exact(1 + r.below(40) as u32),
        1 => R::Exact(1 + r.below(3) as u32),
        _ => {
            let a = 1 + r.below(30) as u32;
            R::Incl(a, a + r.below(30) as u32)
        }
    };
    let seed = r.next();
    let (v, p) = (r.u8(), 1 + r.below(9) as u8);
    let mut sim = Simulator::new(flags(false, r.pct(50), r.pct(50), false, MachineInitStrategy::Known { value: 0 }));
    let body = if r.pct(60) { 0 } else { r.below(r0.limits().0 as usize) as u16 };
    install(&mut sim, &[v], body);
    let mut m = Mon::new(r0);
    // the timer itself, or one that can be reached from outside
    let shared = r.pct(60);
    let mut t = r0.new(Some(seed), v, p);
    let handle = if shared {
        let s = Arc::new(RwLock::new(t));
        sim.device_handler.add_device(s.clone(), &[]).ok().map(|_| s)
    } else {
        t.enabled = true;
        m.enable(true);
        let _ = sim.device_handler.add_device(t, &[]);
        None
    };
    let mut log = vec![format!("{r0:?}, seed {seed}, vector x{v:02X}, priority {p}, handler of {} instructions, shared {shared}", body + 1)];
    l.eval();
    for _ in 0..1 + r.below(8) {
        match (r.below(4), &handle) {
            (0 | 1, Some(h)) => {
                let on = r.pct(70);
                h.write().unwrap().enabled = on;
                m.enable(on);
                log.push(format!("enabled = {on}"));
            }
            (2, _) => {
                sim.reset();
                install(&mut sim, &[v], body);
                m.reset();
                log.push("reset".into());
            }
            _ => {}
        }
        let n = r.below(400);
        log.push(format!("{n} steps"));
        for k in 0..n {
            // an interrupt whose handler has not returned yet cannot come again
            if let Err(e) = sim.step_in() {
                return l.violation("a program with a timer fails", format!("{e}\n{}", log.join("\n")));
            }
            let hit = sim.pc == ISR && (sim.psr().get() >> 8) & 7 == p.min(7) as u16 && sim.psr().get() & 0x8000 == 0;
            l.count("handler entries", hit as u64);
            if let Some((what, d)) = m.poll(hit) {
                return l.violation(what, format!("{d} (inside the simulator, step {k} of the last)\n{}", log.join("\n")));
            }
        }
    }
    m.report(l);
    l.distinct_str(&log.join("|"));
}
/// Several timers in one machine: what each one's polls give.
fn several(r: &mut Rng, l: &mut Local) {
    let mut sim = Simulator::new(flags(false, r.pct(50), false, false, MachineInitStrategy::Known { value: 0 }));
    let n = 1 + r.below(4);
    let vects: Vec<u8> = (0..n).map(|k| 0x90 + k as u8).collect();
    let mut recs = vec![];
    let mut log = vec![];
    for v in &vects {
        let r0 = range(r, true);
        let (seed, p) = (r.next(), r.u8());
        let mut t = r0.new(Some(seed), *v, p);
        let mut m = Mon::new(r0);
        let on = r.pct(80);
        t.enabled = on;
        m.enable(on);
        log.push(format!("{r0:?} seed {seed} vector x{v:02X} priority {p} enabled {on}"));
        let s = Arc::new(Mutex::new(Rec { t, m, polls: 0, bad: None }));
        let _ = sim.device_handler.add_device(Shared(s.clone()), &[]);
        recs.push(s);
    }
    install(&mut sim, &vects, r.below(6) as u16);
    let keep = keyboard(&mut sim, b"x");
    let _ = keep;
    l.eval();
    for _ in 0..1 + r.below(10) {
        let k = r.below(n);
        let what = r.below(8);
        let mut s = recs[k].lock().unwrap();
        match what {
            0 | 1 => {
                let on = r.pct(60);
                s.t.enabled = on;
                s.m.enable(on);
                drop(s);
                log.push(format!("timer {k}: enabled {on}"));
            }
            2 => {
                s.t.reset_remaining();
                s.m.reset();
                drop(s);
                log.push(format!("timer {k}: reset"));
            }
            3 => {
                let x = range(r, true);
                x.set(&mut s.t);
                s.m.range(x);
                drop(s);
                log.push(format!("timer {k}: {x:?}"));
            }
            4 => {
                drop(s);
                sim.reset();
                install(&mut sim, &vects, 2);
                log.push("reset".into());
            }
            _ => drop(s),
        }
        let steps = r.below(500) as u64;
        log.push(format!("{steps} steps"));
        let mut left = steps;
        let res = if r.pct(50) {
            sim.run_while(|_| {
                left = left.saturating_sub(1);
                left != 0
            })
        } else {
            (0..steps).try_for_each(|_| sim.step_in())
        };
        // (handlers that interrupt each other without end may run into the I/O page)
        let stop = res.is_err();
        for (k, s) in recs.iter().enumerate() {
            if let Some((what, d)) = s.lock().unwrap().bad.take() {
                return l.violation(what, format!("{d} (timer {k} inside the simulator)\n{}", log.join("\n")));
            }
        }
        if stop {
            l.count("runs that ended early", 1);
            break;
        }
    }
    for s in recs {
        s.lock().unwrap().m.report(l);
    }
    l.distinct_str(&log.join("|"));
}
fn main() {
    let mut c = Check::new("C34");
    let f = if c.quick() { 1 } else { 40 };
    c.exhaustive("every exact count up to 2000", 2001, |i, _, l| long(R::Exact(i as u32), i, (i + 2) * 20, l));
    c.exhaustive("every range within 0..24", 24 * 24, move |i, r, l| {
        let (a, b) = ((i / 24) as u32, (i % 24) as u32);
        if a <= b {
            long(R::Incl(a, b), r.next(), 4_000 * f, l);
            long(R::Excl(a, b + 1), r.next(), 2_000 * f, l);
            if a > 0 {
                long(R::Bounds(Bound::Excluded(a - 1), Bound::Excluded(b + 1)), r.next(), 2_000 * f, l);
            } else {
                long(R::ToIncl(b), r.next(), 1_000 * f, l);
                long(R::To(b + 1), r.next(), 1_000 * f, l);
            }
        }
    });
    const BIG: &[R] = &[
        R::Exact(255),
        R::Exact(256),
        R::Exact(65_535),
        R::Exact(65_536),
        R::Exact(65_537),
        R::Exact(100_000),
        R::Exact(300_000),
        R::Incl(65_530, 65_540),
        R::Incl(60_000, 200_000),
        R::Excl(65_536, 65_537),
        R::Exact(u32::MAX),
        R::Exact(1 << 31),
        R::Exact(1 << 24),
        R::From(u32::MAX - 3),
        R::From(1 << 30),
        R::Incl(1 << 22, u32::MAX),
        R::All,
        R::Bounds(Bound::Excluded(u32::MAX - 1), Bound::Unbounded),
    ];
    c.exhaustive("large counts", BIG.len() as u64, move |i, r, l| long(BIG[i as usize], r.next(), 2_000_000 * f, l));
    c.quick_factor(3);
    c.factor(60);
    c.random("histories", 200_000, |r, l| direct(r, l, true));
    c.random("histories with large counts", 20_000, |r, l| direct(r, l, false));
    c.random("inside the simulator", 8_000, inside);
    c.random("several timers in the simulator", 6_000, several);
    c.finish(
        "every exact count up to 2000, every range within 0..24 in every notation, large counts, random histories of polls, toggles, resets and new ranges (plain, in a mutex, in a lock, in a device handler) with a second timer of the same seed; handler entries of a machine with one timer counted in steps; machines with several timers, every poll of each recorded",
        &["an interval in which the range was changed is not judged", "after disabling and enabling only the bound on the first interrupt is judged"],
        &[("intervals between interrupts", 500_000), ("first interrupts", 20_000), ("polls while disabled", 100_000), ("sequences compared", 5_000), ("handler entries", 50_000)],
    )
}
