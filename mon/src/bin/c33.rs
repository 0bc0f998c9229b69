//! Keyboard and display under lock contention: every byte exactly once and in order.
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::Simulator;
use mon::simutil::*;
use mon::*;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard, TryLockError};
use std::time::Duration;

// ---- the adversary: locks taken before a step, given back after it -----------------------------------
#[allow(dead_code)]
enum Guard<T: 'static> {
    W(RwLockWriteGuard<'static, T>),
    R(RwLockReadGuard<'static, T>),
}
struct Held {
    kb: Option<Guard<VecDeque<u8>>>,
    ds: Option<Guard<Vec<u8>>>,
    /// Guards go first.
    _bufs: (KbBuf, DsBuf),
}
// SAFETY: the futex-based locks of this platform know no owner, so any thread may give them back.
unsafe impl Send for Held {}
fn take<T>(b: &Arc<RwLock<T>>, read: bool) -> Guard<T> {
    // SAFETY: `Held` keeps the lock alive for longer than the guard.
    let b: &'static RwLock<T> = unsafe { &*Arc::as_ptr(b) };
    if read {
        Guard::R(b.read().unwrap_or_else(|e| e.into_inner()))
    } else {
        Guard::W(b.write().unwrap_or_else(|e| e.into_inner()))
    }
}
#[derive(Default)]
struct Slot {
    held: Mutex<Option<Held>>,
    epoch: AtomicU64,
    end: AtomicBool,
}
/// Gives the locks back when the step is waiting for them.
struct Keeper(Arc<Slot>);
impl Keeper {
    fn new() -> Keeper {
        let s = Arc::new(Slot::default());
        let t = s.clone();
        std::thread::spawn(move || {
            let mut last = 0;
            while !t.end.load(SeqCst) {
                std::thread::sleep(Duration::from_micros(60));
                let e = t.epoch.load(SeqCst);
                if e == last {
                    let _ = t.held.lock().unwrap().take();
                }
                last = e;
            }
        });
        Keeper(s)
    }
    fn hold(&self, kb: &KbBuf, ds: &DsBuf, which: u8, read: bool) {
        self.0.epoch.fetch_add(1, SeqCst);
        let h = Held { kb: (which & 1 != 0).then(|| take(kb, read)), ds: (which & 2 != 0).then(|| take(ds, read)), _bufs: (kb.clone(), ds.clone()) };
        *self.0.held.lock().unwrap() = Some(h);
    }
    /// True if the locks were held until now.
    fn release(&self) -> bool {
        self.0.epoch.fetch_add(1, SeqCst);
        self.0.held.lock().unwrap().take().is_some()
    }
}
impl Drop for Keeper {
    fn drop(&mut self) {
        self.0.end.store(true, SeqCst);
    }
}
thread_local! {
    static KEEPER: Keeper = Keeper::new();
}

// ---- programs -------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum Act {
    Getc,
    In,
    Echo,
    Out(u16),
    Puts(Vec<u8>),
    Putsp(Vec<u8>),
}
#[derive(Clone, Debug)]
struct Job {
    acts: Vec<Act>,
    real: bool,
    strict: bool,
    frames: bool,
    /// Input there from the start, and input that comes later: (steps to wait, byte).
    input: Vec<u8>,
    late: Vec<(u32, u8)>,
    poison: u8,
    /// No routines of the OS: the program polls by itself.
    bare: bool,
}
struct Built {
    sim: Simulator,
    kb: KbBuf,
    ds: DsBuf,
    end: u16,
    /// What the program reads, where it stores it, and what it writes.
    reads: usize,
    out: Vec<Result<u8, usize>>,
}
const STORE: u16 = 0x8000;
const PROMPT: &[u8] = b"Input character: ";
fn build(j: &Job) -> Built {
    let mut sim = Simulator::new(flags(j.strict, j.real, j.frames, j.bare, MachineInitStrategy::Known { value: 0 }));
    let kb = keyboard(&mut sim, &j.input);
    let ds = display(&mut sim);
    for (k, b) in [0, 1].into_iter().enumerate() {
        if j.poison >> b & 1 != 0 {
            let (kb, ds) = (kb.clone(), ds.clone());
            let _ = std::thread::spawn(move || {
                let _a;
                let _b;
                if k == 0 {
                    _a = kb.write();
                } else {
                    _b = ds.write();
                }
                std::panic::resume_unwind(Box::new(()));
            })
            .join();
        }
    }
    if j.strict {
        for a in 0..=0xFFFFu16 {
            let w = sim.mem[a].get();
            sim.mem[a] = Word::new_init(w);
        }
        set_regs(&mut sim, [0; 8]);
    }
    let put = |sim: &mut Simulator, a: u16, w: u16| sim.mem[a] = Word::new_init(w);
    let (mut pc, mut data) = (0x3000u16, 0x5000u16);
    let (mut reads, mut out) = (0usize, vec![]);
    use lc3_ensemble::ast::Reg::{R2, R6};
    sim.reg_file[R6].set(0xF000);
    sim.reg_file[R2].set(STORE);
    if j.bare {
        // per byte: poll, read, store, poll, write
        let code: Vec<u16> = j
            .acts
            .iter()
            .flat_map(|a| {
                let rd = [0xA000u16, 0x07FE, 0xA001, 0x7080, 0x14A1];
                let wr = [0xA202u16, 0x07FE, 0xB003];
                match a {
                    Act::Getc | Act::In => {
                        reads += 1;
                        rd.to_vec()
                    }
                    Act::Echo => {
                        reads += 1;
                        out.push(Err(reads - 1));
                        [&rd[..], &wr[..]].concat()
                    }
                    Act::Out(c) => {
                        out.push(Ok(*c as u8));
                        // R0 from a constant
                        [&[0x2000 | 0x100][..], &wr[..]].concat()
                    }
                    _ => vec![],
                }
            })
            .collect();
        let pool = 0x3000 + code.len() as u16 + 1;
        let mut consts = j.acts.iter().filter_map(|a| if let Act::Out(c) = a { Some(*c) } else { None });
        let mut k = pool + 4;
        for w in &code {
            let w = match w >> 12 {
                0xA | 0xB => (w & 0xFE00) | ((pool + (w & 3)).wrapping_sub(pc + 1) & 0x1FF),
                2 => {
                    let c = consts.next().unwrap();
                    put(&mut sim, k, c);
                    k += 1;
                    0x2000 | ((k - 1).wrapping_sub(pc + 1) & 0x1FF)
                }
                _ => *w,
            };
            put(&mut sim, pc, w);
            pc += 1;
        }
        for (i, a) in [0xFE00, 0xFE02, 0xFE04, 0xFE06].into_iter().enumerate() {
            put(&mut sim, pool + i as u16, a);
        }
    } else {
        // constants are reached with LD from the next word but one, over a branch
        let konst = |sim: &mut Simulator, pc: &mut u16, v: u16| {
            put(sim, *pc, 0x2001);
            put(sim, *pc + 1, 0x0E01);
            put(sim, *pc + 2, v);
            *pc += 3;
        };
        for a in &j.acts {
            match a {
                Act::Getc | Act::In | Act::Echo => {
                    let t = if let Act::In = a { 0xF023 } else { 0xF020 };
                    for w in [t, 0x7080, 0x14A1] {
                        put(&mut sim, pc, w);
                        pc += 1;
                    }
                    if let Act::In = a {
                        out.extend(PROMPT.iter().map(|b| Ok(*b)));
                        out.push(Err(reads));
                    }
                    if let Act::Echo = a {
                        put(&mut sim, pc, 0xF021);
                        pc += 1;
                        out.push(Err(reads));
                    }
                    reads += 1;
                }
                Act::Out(c) => {
                    konst(&mut sim, &mut pc, *c);
                    put(&mut sim, pc, 0xF021);
                    pc += 1;
                    out.push(Ok(*c as u8));
                }
                Act::Puts(s) => {
                    konst(&mut sim, &mut pc, data);
                    put(&mut sim, pc, 0xF022);
                    pc += 1;
                    for b in s.iter().chain(&[0]) {
                        put(&mut sim, data, *b as u16);
                        data += 1;
                    }
                    out.extend(s.iter().map(|b| Ok(*b)));
                }
                Act::Putsp(s) => {
                    konst(&mut sim, &mut pc, data);
                    put(&mut sim, pc, 0xF024);
                    pc += 1;
                    let mut t = s.clone();
                    t.push(0);
                    for c in t.chunks(2) {
                        put(&mut sim, data, c[0] as u16 | (*c.get(1).unwrap_or(&0) as u16) << 8);
                        data += 1;
                    }
                    out.extend(s.iter().map(|b| Ok(*b)));
                }
            }
        }
    }
    // stops here
    put(&mut sim, pc, 0x0FFF);
    sim.pc = 0x3000;
    Built { sim, kb, ds, end: pc, reads, out }
}
fn contents(kb: &KbBuf, ds: &DsBuf) -> (Vec<u8>, Vec<u8>) {
    let k = kb.read().unwrap_or_else(|e| e.into_inner()).iter().copied().collect();
    let d = ds.read().unwrap_or_else(|e| e.into_inner()).clone();
    (k, d)
}
fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02X} ")).collect()
}
fn show(j: &Job) -> String {
    format!("{} program {:?}, real traps {}, strict {}, input {}then {:?}, poisoned {}", if j.bare { "polling" } else { "OS" }, j.acts, j.real, j.strict, hex(&j.input), j.late, j.poison)
}
/// Compares what the program got and gave with what it should have.
fn judge(b: &mut Built, fed: &[u8], done: bool, ctx: impl Fn() -> String, l: &mut Local) -> bool {
    let (left, out) = contents(&b.kb, &b.ds);
    let n = (b.sim.reg_file[lc3_ensemble::ast::Reg::R2].get().wrapping_sub(STORE)) as usize;
    let got: Vec<u16> = (0..n.min(b.reads) as u16).map(|k| b.sim.mem[STORE + k].get()).collect();
    let want: Vec<u16> = fed.iter().map(|b| *b as u16).collect();
    let exp: Vec<u8> = b.out.iter().map_while(|o| o.map_or_else(|k| fed.get(k).copied(), Some)).collect();
    let io = || format!("\nread {got:04X?}\nqueued {}\nstill queued {}\nwritten {}\nexpected {}\nPC x{:04X}", hex(fed), hex(&left), hex(&out), hex(&exp), b.sim.pc);
    if got.iter().zip(&want).any(|(a, b)| a != b) || got.len() > want.len() {
        l.violation("a program reads a byte that is not the next one queued", ctx() + &io());
    } else if !fed.ends_with(&left) || (done && left.len() + got.len() != fed.len()) || left.len() + got.len() > fed.len() {
        l.violation("the keyboard buffer does not hold what the program has not read", ctx() + &io());
    } else if if done { out != exp } else { !exp.starts_with(&out) } {
        l.violation("the display buffer does not hold what the program has written", ctx() + &io());
    } else {
        if done {
            l.count("bytes read by programs", got.len() as u64);
            l.count("bytes written by programs", out.len() as u64);
        }
        return true;
    }
    false
}
/// Runs `j`; before every step `lock(step, polls next)` says which locks somebody else holds meanwhile (bit 0 keyboard, 1 display, 2 for reading).
/// Returns the number of steps.
fn run(j: &Job, l: &mut Local, mut lock: impl FnMut(u64, &Simulator) -> u8) -> Option<u64> {
    let mut b = build(j);
    let mut fed = j.input.clone();
    let mut late = j.late.iter().copied().collect::<VecDeque<_>>();
    let mut pattern = vec![];
    let free = 30_000u64;
    let limit = free + 4_000 + 1200 * (b.out.len() + b.reads) as u64 + late.iter().map(|x| x.0 as u64).sum::<u64>();
    let mut steps = 0u64;
    l.eval();
    let ok = KEEPER.with(|k| loop {
        if b.sim.pc == b.end && b.sim.psr().get() & 0x8000 != 0 {
            break true;
        }
        if let Some((w, c)) = late.front_mut() {
            if *w == 0 {
                b.kb.write().unwrap_or_else(|e| e.into_inner()).push_back(*c);
                fed.push(*c);
                late.pop_front();
            } else {
                *w -= 1;
            }
        }
        let m = if steps < free { lock(steps, &b.sim) } else { 0 };
        if pattern.len() < 2000 {
            pattern.push(m);
        }
        let ctx = |what: String| format!("{what}\n{}\nlocks held before step n: {}", show(j), pattern.iter().map(|m| m.to_string()).collect::<String>());
        if m & 3 != 0 {
            k.hold(&b.kb, &b.ds, m & 3, m & 4 != 0);
            l.count("steps with a lock held", 1);
        }
        let res = b.sim.step_in();
        if m & 3 != 0 && !k.release() {
            l.count("steps that waited for a lock", 1);
        }
        steps += 1;
        if let Err(e) = res {
            l.violation("the program fails", ctx(e.to_string()));
            break false;
        }
        if steps > limit {
            // the locks have been free for a long time
            {
                l.violation("a program does not receive a queued byte, or cannot write", ctx(format!("{steps} steps, PC x{:04X}, buffers {:02X?}", b.sim.pc, contents(&b.kb, &b.ds))));
            }
            break false;
        }
        if steps % 64 == 0 && b.sim.psr().get() & 0x8000 != 0 && !judge(&mut b, &fed, false, || ctx(String::new()), l) {
            break false;
        }
    });
    if !ok {
        return None;
    }
    let pat = pattern.iter().map(|m| m.to_string()).collect::<String>();
    fed.extend(late.iter().map(|x| x.1));
    b.kb.write().unwrap_or_else(|e| e.into_inner()).extend(late.iter().map(|x| x.1));
    if judge(&mut b, &fed, true, || format!("{}\nlocks held before step n: {pat}", show(j)), l) {
        l.distinct(rng::hash_bytes(steps, pat.as_bytes()) ^ rng::hash_bytes(3, format!("{:?}", j.acts).as_bytes()));
        l.sample(|| format!("{}: {steps} steps, locks {}", show(j), &pat[..pat.len().min(120)]));
        l.count("programs run", 1);
        return Some(steps);
    }
    None
}
fn job(acts: Vec<Act>, input: &[u8], bare: bool) -> Job {
    Job { acts, real: false, strict: false, frames: false, input: input.to_vec(), late: vec![], poison: 0, bare }
}
fn random_job(r: &mut Rng, long: bool) -> Job {
    let bare = r.pct(25);
    let n = if long { 20 + r.below(80) } else { 1 + r.below(8) };
    let text = |r: &mut Rng| (0..r.below(7)).map(|_| 1 + r.below(255) as u8).collect::<Vec<u8>>();
    let acts: Vec<Act> = (0..n)
        .map(|_| match r.below(if bare { 10 } else { 16 }) {
            0..=3 => Act::Echo,
            4..=6 => Act::Getc,
            7..=9 => Act::Out(if r.pct(80) { r.u8() as u16 } else { r.u16() }),
            10 => Act::In,
            11..=13 => Act::Puts(text(r)),
            _ => Act::Putsp(text(r)),
        })
        .take(if bare { 25 } else { 200 })
        .collect();
    let reads = acts.iter().filter(|a| matches!(a, Act::Getc | Act::In | Act::Echo)).count();
    let same = r.pct(20);
    let mut bytes: Vec<u8> = (0..reads + r.below(4)).map(|_| if same { 7 } else { r.u8() }).collect();
    let k = if r.pct(50) { bytes.len() } else { r.below(bytes.len() + 1) };
    let late = bytes.split_off(k).into_iter().map(|b| (r.below(if b & 1 == 0 { 8 } else { 60 }) as u32, b)).collect();
    Job { acts, real: r.pct(50), strict: r.pct(15), frames: r.pct(30), input: bytes, late, poison: if r.pct(10) { r.below(4) as u8 } else { 0 }, bare }
}
/// Texts of thousands of characters, and thousands of bytes queued.
fn huge_job(r: &mut Rng) -> Job {
    let mut j = random_job(r, false);
    let n = [300, 1030, 2050, 4100, 9000][r.below(5)];
    let text: Vec<u8> = (0..n).map(|_| 1 + r.below(255) as u8).collect();
    let at = r.below(j.acts.len() + 1);
    if !j.bare && r.pct(70) {
        j.acts.insert(at, if r.pct(50) { Act::Puts(text) } else { Act::Putsp(text) });
    }
    let reads = j.acts.iter().filter(|a| matches!(a, Act::Getc | Act::In | Act::Echo)).count();
    let queued = [0x100, 0x200, 0x300, 0x400, 0x1000, 0x10000][r.below(6)] + r.below(reads + 1);
    j.late.clear();
    j.input = (0..queued).map(|_| r.u8()).collect();
    j
}
/// The address an LDI or STI that comes next goes to.
fn next_io(sim: &Simulator) -> Option<u16> {
    let w = sim.mem[sim.pc].get();
    let at = |a: u16| sim.mem[a].get();
    let off9 = ((w << 7) as i16 >> 7) as u16;
    match w >> 12 {
        0xA | 0xB => Some(at(sim.pc.wrapping_add(1).wrapping_add(off9))),
        6 | 7 => Some(sim.reg_file[REGS[(w >> 6 & 7) as usize]].get().wrapping_add(((w << 10) as i16 >> 10) as u16)),
        _ => None,
    }
}
fn random(r: &mut Rng, l: &mut Local, long: bool) {
    let j = random_job(r, long);
    adversary(r, l, j);
}
fn adversary(r: &mut Rng, l: &mut Local, j: Job) {
    let how = r.below(6);
    let p = [3, 15, 40, 70, 85][r.below(5)];
    let both = r.pct(50);
    let readers = [0, 50, 100][r.below(3)];
    let mut burst = (0u32, 0u8);
    run(&j, l, |step, sim| {
        let pick = |r: &mut Rng| {
            let which = if both { 3 } else { 1 + r.below(3) as u8 };
            which | if r.pct(readers) { 4 } else { 0 }
        };
        match how {
            // independent moments
            0 | 1 => if r.pct(p) { pick(r) } else { 0 },
            // for some time
            2 | 3 => {
                if burst.0 == 0 {
                    let on = r.pct(p);
                    burst = (1 + r.below(if on { 40 } else { 20 }) as u32, if on { pick(r) } else { 0 });
                }
                burst.0 -= 1;
                burst.1
            }
            // always, but for (most) looks at the status
            4 => match next_io(sim) {
                Some(0xFE00 | 0xFE04) if r.pct(80) => 0,
                Some(0xFE02 | 0xFE06) => pick(r),
                _ if r.pct(90) => pick(r),
                _ => 0,
            },
            // only for the accesses to the data
            _ => match next_io(sim) {
                Some(0xFE02 | 0xFE06) => 3,
                _ if step % 7 == 0 => pick(r),
                _ => 0,
            },
        }
    });
}
// ---- real threads -------------------------------------------------------------------------------------
fn threads(r: &mut Rng, l: &mut Local) {
    let mut j = random_job(r, true);
    j.late.clear();
    let reads = j.acts.iter().filter(|a| matches!(a, Act::Getc | Act::In | Act::Echo)).count();
    let fed: Vec<u8> = (0..reads + r.below(4)).map(|_| r.u8()).collect();
    let k = r.below(fed.len() + 1);
    j.input = fed[..k].to_vec();
    let mut b = build(&j);
    let stop = AtomicBool::new(false);
    let fed_all = AtomicBool::new(false);
    let (holds, spin) = (AtomicU64::new(0), 50 + r.below(3000) as u64);
    let seeds: Vec<u64> = (0..3).map(|_| r.next()).collect();
    let (kb, ds) = (b.kb.clone(), b.ds.clone());
    let end = b.end;
    let mut steps = 0u64;
    let mut err = None;
    let by_run = r.pct(50);
    std::thread::scope(|s| {
        fn nap(n: u64) {
            (0..n).for_each(|_| std::hint::spin_loop());
        }
        let (stop, fed_all, holds) = (&stop, &fed_all, &holds);
        let (kb2, kb3, ds2) = (kb.clone(), kb.clone(), ds.clone());
        let (s0, s1, s2) = (seeds[0], seeds[1], seeds[2]);
        let rest = &fed[k..];
        s.spawn(move || {
            let mut r = Rng::new(s0);
            while !stop.load(SeqCst) {
                if r.pct(70) {
                    let _g = kb2.write().unwrap_or_else(|e| e.into_inner());
                    nap(r.next() % spin);
                } else {
                    let _g = kb2.read().unwrap_or_else(|e| e.into_inner());
                    nap(r.next() % spin);
                }
                holds.fetch_add(1, SeqCst);
                nap(r.next() % (2 * spin) + 200);
            }
        });
        s.spawn(move || {
            let mut r = Rng::new(s1);
            while !stop.load(SeqCst) {
                let _g = ds2.write().unwrap_or_else(|e| e.into_inner());
                nap(r.next() % spin);
                drop(_g);
                holds.fetch_add(1, SeqCst);
                nap(r.next() % (2 * spin) + 200);
            }
        });
        s.spawn(move || {
            let mut r = Rng::new(s2);
            for c in rest {
                nap(r.next() % (4 * spin));
                kb3.write().unwrap_or_else(|e| e.into_inner()).push_back(*c);
            }
            fed_all.store(true, SeqCst);
        });
        let t0 = std::time::Instant::now();
        let mut idle = 0u64;
        loop {
            let res = if by_run { b.sim.run_while(|s| { idle += 1; s.pc != end && idle % 4096 != 0 }) } else { b.sim.step_in() };
            steps += 1;
            if let Err(e) = res {
                err = Some(e.to_string());
                break;
            }
            if b.sim.pc == end && b.sim.psr().get() & 0x8000 != 0 {
                break;
            }
            if steps % 1024 == 0 || by_run {
                // everything was taken, but the program waits for more
                let waits = fed_all.load(SeqCst) && match kb.try_read() {
                    Ok(g) => g.is_empty(),
                    Err(TryLockError::Poisoned(e)) => e.into_inner().is_empty(),
                    Err(_) => false,
                };
                if (waits && t0.elapsed().as_millis() > 3000) || t0.elapsed().as_secs() > 20 {
                    break;
                }
            }
        }
        stop.store(true, SeqCst);
    });
    l.eval();
    l.count("holds by other threads", holds.load(SeqCst));
    let ctx = || format!("{}, input from another thread from byte {k} on", show(&j));
    if let Some(e) = err {
        return l.violation("the program fails", format!("{e}\n{}", ctx()));
    }
    // whatever happened, nobody holds a lock any more
    let mut more = 0;
    while err.is_none() && more < 200_000 && !(b.sim.pc == end && b.sim.psr().get() & 0x8000 != 0) {
        err = b.sim.step_in().err().map(|e| e.to_string());
        more += 1;
    }
    let done = b.sim.pc == end;
    if !done {
        return l.violation("a program does not receive a queued byte, or cannot write", format!("{}
PC x{:04X}, buffers {:02X?}", ctx(), b.sim.pc, contents(&b.kb, &b.ds)));
    }
    if judge(&mut b, &fed, done, ctx, l) {
        l.count("programs run among threads", 1);
        l.distinct(rng::mix(steps) ^ rng::mix(holds.load(SeqCst)));
    }
}
fn main() {
    let mut c = Check::new("C33");
    // the polling echo of two bytes: all patterns for the first steps
    let echo = || job(vec![Act::Echo, Act::Echo], &[0x41, 0xC3, 0x7E], true);
    let bits = if c.quick() { 14 } else { 19 };
    c.exhaustive("polling echo: both locks or none", 1 << bits, move |i, _, l| {
        run(&echo(), l, |s, _| if s < bits && i >> s & 1 != 0 { 3 } else { 0 });
    });
    let (quads, offs): (u64, &[u64]) = if c.quick() { (6, &[0, 5, 10]) } else { (8, &[0, 3, 6, 9, 12]) };
    for off in offs {
        c.exhaustive(&format!("polling echo: none, either, both from step {off} on"), 1 << (2 * quads), move |i, _, l| {
            run(&echo(), l, |s, _| if s >= *off && s < off + quads { (i >> (2 * (s - off)) & 3) as u8 } else { 0 });
        });
    }
    // OS programs: all patterns within a window, everywhere
    let oses: Vec<(&str, Vec<Act>, Vec<u8>)> = vec![
        ("GETC and OUT", vec![Act::Echo, Act::Echo], vec![0x31, 0x32, 0x33]),
        ("PUTS", vec![Act::Puts(b"ab".to_vec())], vec![]),
        ("PUTSP", vec![Act::Putsp(b"xyz".to_vec())], vec![]),
        ("GETC and PUTS", vec![Act::Getc, Act::Puts(b"q".to_vec()), Act::Getc], vec![0x80, 0xFF]),
    ];
    let w = if c.quick() { 7 } else { 11 };
    for (name, acts, input) in oses {
        let j = job(acts, &input, false);
        let n = {
            let mut l = Local::default();
            let n = run(&j, &mut l, |_, _| 0);
            n.unwrap_or(100)
        };
        let n = n.saturating_sub(w / 2);
        c.exhaustive(&format!("{name}: every pattern of {w} steps at every step"), n << w, move |i, _, l| {
            let (at, pat) = (i >> w, i & ((1 << w) - 1));
            run(&j, l, |s, _| if s >= at && s < at + w && pat >> (s - at) & 1 != 0 { 3 } else { 0 });
        });
    }
    c.quick_factor(2);
    c.factor(30);
    c.random("short inputs", 6_000, |r, l| random(r, l, false));
    c.random("long inputs", 1_200, |r, l| random(r, l, true));
    c.factor(30);
    c.random("large buffers", 160, |r, l| {
        let j = huge_job(r);
        adversary(r, l, j);
    });
    c.random("threads", 150, threads);
    c.finish(
        "echo and output programs, with their own polling loops and through the OS traps: every pattern of locks held over the first steps and over windows of steps everywhere, random patterns for short and long inputs, targeted patterns (locks held for the data accesses only), and real threads hammering the locks while input arrives; bytes read (R0 stored after every read), bytes left and the display compared at the end and now and then",
        &["a step that waits for a lock gets it within some 0.1 ms: the holder cannot wait for the step to end", "locks are held over whole steps, or (threads) at arbitrary moments"],
        &[("programs run", 20_000), ("steps with a lock held", 100_000), ("bytes read by programs", 20_000), ("bytes written by programs", 20_000), ("programs run among threads", 50), ("holds by other threads", 1000)],
    )
}
