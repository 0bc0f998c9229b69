//! Interrupt entry, priorities and transparency.
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt, TimerDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{SimErr, Simulator};
use mon::prog::*;
use mon::simutil::*;
use mon::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// Step number -> (vector, priority). Priority 8: an external interrupt.
type Plan = BTreeMap<u64, (u8, u8)>;
const EXT: u8 = 8;

/// What is pending, whether or not the simulator asks.
#[derive(Default)]
struct World {
    now: AtomicU64,
    plans: Mutex<Vec<Plan>>,
    /// Requests of the crate's timers when polled in the current step.
    timers: Mutex<Vec<(u8, u8)>>,
}
type Seen = Arc<World>;

#[derive(Debug)]
struct Outside;
impl std::fmt::Display for Outside {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("outside")
    }
}
impl std::error::Error for Outside {}

struct Sched(Seen, usize);
impl ExternalDevice for Sched {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        let q = self.0.plans.lock().unwrap()[self.1].get(&self.0.now.load(Relaxed)).copied();
        q.map(|(v, p)| if p == EXT { Interrupt::external(Outside) } else { Interrupt::vectored(v, p) })
    }
}
fn attach_plans(sim: &mut Simulator, seen: &Seen, plans: Vec<Plan>) {
    let n = plans.len();
    *seen.plans.lock().unwrap() = plans;
    for i in 0..n {
        add(sim, Sched(seen.clone(), i), &[]);
    }
}
/// A timer of the crate, watched.
struct Watched {
    t: TimerDevice,
    seen: Seen,
}
impl ExternalDevice for Watched {
    fn io_read(&mut self, a: u16, e: bool) -> Option<u16> {
        self.t.io_read(a, e)
    }
    fn io_write(&mut self, a: u16, d: u16) -> bool {
        self.t.io_write(a, d)
    }
    fn io_reset(&mut self) {
        self.t.io_reset()
    }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        let i = self.t.poll_interrupt();
        if i.is_some() {
            self.seen.timers.lock().unwrap().push((self.t.vect, self.t.priority));
        }
        i
    }
}

/// Handlers: (vector, address), and the words of all of them.
struct Handlers {
    at: BTreeMap<u8, u16>,
    words: Vec<(u16, u16)>,
}
fn handlers(r: &mut Rng, vects: &[u8]) -> Handlers {
    let mut words = vec![];
    let mut at = BTreeMap::new();
    let mut pc = 0x1000 + r.below(0x100) as u16;
    // a trap routine for the handlers
    let trap = pc;
    for w in [0x1DBF, 0x7380, 0x1261, 0x6380, 0x1DA1, 0x8000] {
        words.push((pc, w));
        pc += 1;
    }
    words.push((0x40, trap));
    for &v in vects {
        at.insert(v, pc);
        words.push((0x100 + v as u16, pc));
        let mut code: Vec<u16> = vec![];
        let mut used: Vec<u16> = (0..6).filter(|_| r.pct(50)).collect();
        let calls = r.pct(20);
        if calls {
            used.push(7);
        }
        for &q in &used {
            code.push(0x1DBF);
            code.push(0x7000 | q << 9 | 6 << 6);
        }
        let n = r.below(6);
        for _ in 0..n {
            if used.is_empty() {
                code.push(0x0000);
                continue;
            }
            let (a, b) = (*r.pick(&used), *r.pick(&used));
            match r.below(6) {
                0 => code.push(0x1020 | a << 9 | b << 6 | r.u16() & 31),
                1 => code.push(0x5000 | a << 9 | b << 6 | *r.pick(&used)),
                2 => code.push(0x903F | a << 9 | b << 6),
                3 => code.push(0x2000 | a << 9 | 0x1F0), // LD of an earlier word
                4 => code.push(0xF040),
                _ => code.push(0xE000 | a << 9 | 3),
            }
        }
        if calls {
            code.push(0x4800); // JSR to the next word
            code.push(0x5FE0);
        }
        if r.pct(20) && used.contains(&1) {
            // a loop
            code.push(0x5260);
            code.push(0x1260 | 1 + r.below(4) as u16);
            code.push(0x127F);
            code.push(0x03FE);
        }
        for &q in used.iter().rev() {
            code.push(0x6000 | q << 9 | 6 << 6);
            code.push(0x1DA1);
        }
        code.push(0x8000);
        for w in code {
            words.push((pc, w));
            pc += 1;
        }
    }
    Handlers { at, words }
}

struct Cfg {
    prio: u16,
    strict: bool,
    real: bool,
    frames: bool,
    fill: u16,
    kb_bytes: Vec<(u64, u8)>,
    kb_at: u16,
}
struct Fin {
    regs: [u16; 8],
    psr: u16,
    pc: u16,
    mem: Vec<u16>,
    out: Vec<u8>,
    input_left: Option<usize>,
    err: Option<&'static str>,
    steps: u64,
}
fn build(p: &Prog, h: &Handlers, c: &Cfg) -> (Simulator, KbBuf, DsBuf) {
    let mut sim = Simulator::new(flags(c.strict, c.real, c.frames, false, MachineInitStrategy::Known { value: c.fill }));
    for a in 0..=0xFFFFu16 {
        let w = sim.mem[a].get();
        sim.mem[a] = Word::new_init(w);
    }
    set_regs(&mut sim, std::array::from_fn(|i| c.fill.wrapping_mul(i as u16 + 1)));
    p.load(&mut sim);
    for &(a, w) in &h.words {
        sim.mem[a] = Word::new_init(w);
    }
    let kb = keyboard(&mut sim, if c.kb_at == 0 { &p.input } else { &[] });
    let ds = display(&mut sim);
    set_psr(&mut sim, 0x8002 | c.prio << 8);
    set_mcr(&sim, true);
    if c.kb_at != 0 {
        // the keyboard handler: R0 = KBDR, saved away
        let b = c.kb_at;
        let code = [0x1DBF, 0x7180, 0xA006, 0x3006, 0x6180, 0x1DA1, 0x8000, 0, 0, 0xFE02, 0];
        for (i, w) in code.iter().enumerate() {
            sim.mem[b + i as u16] = Word::new_init(*w);
        }
        sim.mem[0x180] = Word::new_init(b);
        let _ = sim.write_mem(0xFE00, Word::new_init(0x4000), host());
    }
    (sim, kb, ds)
}
fn fin(sim: &mut Simulator, kb: &KbBuf, ds: &DsBuf, own_kb: bool, err: Option<&'static str>, steps: u64) -> Fin {
    Fin {
        regs: regs(sim),
        psr: sim.psr().get(),
        pc: sim.pc,
        mem: (0x3000..0xFE00u16).map(|a| sim.mem[a].get()).collect(),
        out: ds.read().unwrap().clone(),
        input_left: own_kb.then(|| kb.read().unwrap().len()),
        err,
        steps,
    }
}
fn fin_diff(a: &Fin, b: &Fin) -> Option<String> {
    if a.err != b.err {
        return Some(format!("the run ended with {:?}, uninterrupted with {:?}", a.err, b.err));
    }
    if a.out != b.out {
        return Some(format!("the output is {:?}, uninterrupted {:?}", a.out, b.out));
    }
    for i in 0..8 {
        if a.regs[i] != b.regs[i] {
            let n = if i == 6 { "stack pointer".into() } else { format!("register R{i}") };
            return Some(format!("{n} is x{:04X}, uninterrupted x{:04X}", a.regs[i], b.regs[i]));
        }
    }
    if a.psr & 0x8007 != b.psr & 0x8007 || a.psr & 0x0700 != b.psr & 0x0700 {
        return Some(format!("the PSR is x{:04X}, uninterrupted x{:04X}", a.psr, b.psr));
    }
    if a.pc != b.pc {
        return Some(format!("the PC is x{:04X}, uninterrupted x{:04X}", a.pc, b.pc));
    }
    if a.input_left != b.input_left {
        return Some(format!("{:?} input bytes are left, uninterrupted {:?}", a.input_left, b.input_left));
    }
    let k = (0..a.mem.len()).find(|&k| a.mem[k] != b.mem[k])?;
    Some(format!("user memory x{:04X} is x{:04X}, uninterrupted x{:04X}", 0x3000 + k, a.mem[k], b.mem[k]))
}

/// Runs to the end, watching every step. `None`: no end within the limit.
fn run(l: &mut Local, p: &Prog, h: &Handlers, c: &Cfg, seen: &Seen, attach: impl FnOnce(&mut Simulator), limit: u64) -> Option<Fin> {
    let (mut sim, kb, ds) = build(p, h, c);
    seen.plans.lock().unwrap().clear();
    attach(&mut sim);
    let mut starts: BTreeMap<u16, u8> = h.at.iter().map(|(v, a)| (*a, *v)).collect();
    if c.kb_at != 0 {
        starts.insert(c.kb_at, 0x80);
    }
    let mut feed = c.kb_bytes.iter().peekable();
    // return points of the active handlers: PC, PSR, R6 and saved SP before the entry
    let mut active: Vec<(u16, u16, u16, u16)> = vec![];
    for k in 0..limit {
        while feed.peek().is_some_and(|x| x.0 <= k) {
            kb.write().unwrap().push_back(feed.next().unwrap().1);
        }
        seen.timers.lock().unwrap().clear();
        seen.now.store(k, Relaxed);
        let (pc0, psr0, r0, ssp0, n0) = (sim.pc, sim.psr().get(), regs(&sim), saved_sp(&mut sim), sim.instructions_run);
        let w0 = sim.mem[pc0].get();
        let kb_req = c.kb_at != 0 && !kb.read().unwrap().is_empty();
        let res = sim.step_in();
        let mut req: Vec<(u8, u8)> = seen.plans.lock().unwrap().iter().filter_map(|m| m.get(&k).copied()).collect();
        req.extend(seen.timers.lock().unwrap().iter());
        if kb_req {
            req.push((0x80, 4));
        }
        let (pc, psr, rg, ssp) = (sim.pc, sim.psr().get(), regs(&sim), saved_sp(&mut sim));
        let cur = (psr0 >> 8) as u8 & 7;
        let top = req.iter().map(|x| x.1).max();
        let ctx = |what: String| format!("{what}\nstep {k}: PC x{pc0:04X} -> x{pc:04X}, PSR x{psr0:04X} -> x{psr:04X}, R6 x{:04X} -> x{:04X}, saved SP x{ssp0:04X} -> x{ssp:04X}, requests (vector, priority) {req:02X?}, result {:?}\n{}", r0[6], rg[6], res.as_ref().map_err(err_kind), p.show());
        l.eval();
        // (an RTI may come back to the first instruction of a handler, so the word is looked at, too)
        if top == Some(EXT) {
            let bad = if !matches!(res, Err(SimErr::Interrupt(_))) {
                "an external interrupt lost against another request"
            } else if (pc, psr, rg, ssp, sim.instructions_run) != (pc0, psr0, r0, ssp0, n0) {
                "an external interrupt changed the program's state"
            } else {
                ""
            };
            if !bad.is_empty() {
                l.violation(bad, ctx(String::new()));
                return None;
            }
            l.count("external interrupts", 1);
            l.count("competing requests", (req.len() > 1) as u64);
            continue;
        }
        let entered = if w0 == 0x8000 && top.is_none_or(|q| q <= cur) { None } else { starts.get(&pc).copied() };
        if let Some(q) = top.filter(|q| *q > cur) {
            let ok = entered.is_some_and(|v| req.contains(&(v, q)));
            if !ok {
                let what = match entered {
                    Some(v) if req.iter().any(|x| x.0 == v) => "a request of lower priority won",
                    Some(_) => "the handler of another vector was entered",
                    None => "a request above the current priority was not taken",
                };
                l.violation(what, ctx(format!("highest request has priority {q}, current is {cur}")));
                return None;
            }
            if let Err(e) = &res {
                l.violation("an interrupt entry reported an error", ctx(e.to_string()));
                return None;
            }
            let user = psr0 & 0x8000 != 0;
            let base = if user { ssp0 } else { r0[6] };
            let bad = if psr & 0x8000 != 0 {
                "not in supervisor mode after an interrupt entry"
            } else if (psr >> 8) as u8 & 7 != q {
                "the priority after an interrupt entry is not that of the interrupt"
            } else if rg[6] != base.wrapping_sub(2) {
                "the stack pointer after an interrupt entry is wrong"
            } else if sim.mem[base.wrapping_sub(1)].get() != psr0 {
                "the saved PSR is wrong"
            } else if sim.mem[base.wrapping_sub(2)].get() != pc0 {
                "the saved PC is wrong"
            } else if ssp != if user { r0[6] } else { ssp0 } {
                "the saved stack pointer after an interrupt entry is wrong"
            } else if (0..8).any(|i| i != 6 && rg[i] != r0[i]) {
                "an interrupt entry changed a register"
            } else if sim.instructions_run != n0 {
                "an interrupt entry counted as an instruction"
            } else {
                ""
            };
            if !bad.is_empty() {
                l.violation(bad, ctx(String::new()));
                return None;
            }
            active.push((pc0, psr0, r0[6], ssp0));
            l.count("interrupts taken", 1);
            l.count("interrupts taken in user mode", user as u64);
            l.count("nested interrupts", (active.len() > 1) as u64);
            l.count("competing requests", (req.len() > 1) as u64);
            l.distinct(rng::mix((pc0 as u64) << 32 | (q as u64) << 8 | cur as u64) ^ rng::mix(active.len() as u64 ^ (w0 as u64) << 20));
            continue;
        }
        if let Some(v) = entered {
            l.violation("an interrupt was taken although no request exceeds the current priority", ctx(format!("handler of x{v:02X} entered, current priority {cur}")));
            return None;
        }
        l.count("requests held back", req.len() as u64);
        // a return to the interrupted program
        if w0 == 0x8000 && psr0 & 0x8000 == 0 && active.last().is_some_and(|a| r0[6] == if a.1 & 0x8000 != 0 { a.3 } else { a.2 }.wrapping_sub(2)) {
            let a = active.pop().unwrap();
            l.count("returns checked", 1);
            if (pc, psr, rg[6], ssp) != a {
                l.violation("RTI does not restore PC, PSR and stack pointers", ctx(format!("expected PC x{:04X} PSR x{:04X} R6 x{:04X} saved SP x{:04X}", a.0, a.1, a.2, a.3)));
                return None;
            }
        }
        if let Err(e) = &res {
            if matches!(e, SimErr::Interrupt(_)) {
                l.violation("an external interrupt without a request", ctx(String::new()));
                return None;
            }
            let e = err_kind(e);
            return Some(fin(&mut sim, &kb, &ds, c.kb_at == 0, Some(e), k));
        }
        let virt_halt = w0 == 0xF025 && !c.real && pc == pc0;
        if virt_halt || !mcr(&sim) {
            return Some(fin(&mut sim, &kb, &ds, c.kb_at == 0, None, k));
        }
    }
    None
}
fn compare(l: &mut Local, p: &Prog, base: &Fin, got: Option<Fin>, what: &str) {
    let Some(got) = got else {
        if what.contains("TimerDevice") {
            // an interval shorter than the handler can keep the program from running at all
            l.inconclusive();
        } else if l.viol.is_empty() {
            l.violation("an interrupted program does not end like the uninterrupted one", format!("it did not end\n{what}\n{}", p.show()));
        }
        return;
    };
    l.eval();
    l.count("final states compared", 1);
    if let Some(d) = fin_diff(&got, base) {
        let head: String = d.chars().take_while(|c| !c.is_ascii_digit()).collect();
        l.violation(format!("interrupted program: {}", head.trim_end_matches(" x").trim()), format!("{d}\n{what}\n{}", p.show()));
    }
}

const ENDS: &[End] = &[End::Halt, End::Halt, End::Halt, End::Acv, End::Priv, End::IllOp, End::InvFmt, End::BadTrap];
const VECTS: &[u8] = &[0x03, 0x10, 0x80, 0x81, 0x82, 0x83, 0x8F, 0xC0, 0xFE, 0xFF];
fn cfg(r: &mut Rng) -> Cfg {
    Cfg { prio: if r.pct(70) { 0 } else { r.below(8) as u16 }, strict: r.pct(25), real: r.pct(50), frames: r.pct(50), fill: if r.pct(50) { 0 } else { r.u16() }, kb_bytes: vec![], kb_at: 0 }
}
fn vects(p: &Prog, c: &Cfg) -> Vec<u8> {
    let mut v = VECTS.to_vec();
    if !c.real || p.end == End::Halt {
        v.extend([0x00, 0x01, 0x02]);
    }
    v
}
const LIMIT: u64 = 6_000;

fn scheduled(r: &mut Rng, l: &mut Local) {
    let o = ProgOpts { size: 10 + r.below(40), ends: ENDS, ..ProgOpts::default() };
    let p = prog(r, &o);
    let mut c = cfg(r);
    // an interrupt-driven keyboard is not also read by the program
    let kbint = r.pct(25);
    let p = if kbint { prog(r, &ProgOpts { input: false, ..o }) } else { p };
    let vs = vects(&p, &c);
    let h = handlers(r, &vs);
    let seen = Seen::default();
    if kbint {
        c.kb_at = 0x0F00;
    }
    let Some(base) = run(l, &p, &h, &c, &seen, |_| (), LIMIT) else { return l.inconclusive() };
    if kbint {
        c.kb_bytes = (0..1 + r.below(12)).map(|_| (r.below(base.steps as usize + 10) as u64, r.u8())).collect();
        c.kb_bytes.sort();
        l.count("runs with keyboard interrupts", 1);
    }
    for _ in 0..3 {
        let n = 1 + r.below(4);
        let mut plans = vec![];
        let ext = r.pct(15);
        for d in 0..n {
            let span = base.steps as usize * 2 + 20;
            let k = *r.pick(&[0usize, 1, 2, 6, 20, 60]);
            let one = r.pct(40).then(|| (*r.pick(&vs), r.below(8) as u8));
            let mut plan: Plan = (0..k).map(|_| (r.below(span) as u64, one.unwrap_or((*r.pick(&vs), r.below(8) as u8)))).collect();
            if ext {
                plan.extend((0..r.below(5)).map(|_| (r.below(span) as u64, (0, EXT))));
            }
            // bursts
            if r.pct(30) {
                let s = r.below(span) as u64;
                for q in 0..r.below(12) as u64 {
                    plan.insert(s + q, (*r.pick(&vs), (d + r.below(5)) as u8));
                }
            }
            plans.push(plan);
        }
        // vector x80 belongs to the keyboard
        if kbint {
            for m in &mut plans {
                m.values_mut().for_each(|x| x.0 |= (x.0 == 0x80) as u8);
            }
        }
        let timer = r.pct(40).then(|| {
            let lo = if r.pct(20) { 1 + r.below(60) } else { 100 + r.below(200) } as u32;
            let mut t = TimerDevice::new(Some(r.next()), lo..=lo + r.below(60) as u32, *r.pick(&[0x81, 0x82, 0xFF]), r.below(8) as u8);
            t.enabled = true;
            t
        });
        let what = format!("plans {plans:X?}\ntimer {timer:?}, priority {}, real traps {}, keyboard {:?}", c.prio, c.real, c.kb_bytes);
        l.count("runs with a timer", timer.is_some() as u64);
        let s2 = seen.clone();
        let got = run(
            l,
            &p,
            &h,
            &c,
            &seen,
            move |sim| {
                attach_plans(sim, &s2, plans);
                if let Some(t) = timer {
                    add(sim, Watched { t, seen: s2.clone() }, &[]);
                }
            },
            LIMIT * 30,
        );
        compare(l, &p, &base, got, &what);
        if !l.viol.is_empty() {
            return;
        }
    }
    l.sample(|| format!("program of {} steps at x{:04X}, end {:?}, priority {}", base.steps, p.org, p.end, c.prio));
}

/// One interrupt at every boundary, two at every pair of boundaries.
fn placements(r: &mut Rng, l: &mut Local, pairs: bool) {
    let o = ProgOpts { size: if pairs { 2 + r.below(5) } else { 4 + r.below(12) }, ends: ENDS, input: r.pct(30), output: r.pct(30), subs: r.below(2) };
    let p = prog(r, &o);
    let c = cfg(r);
    let vs = vects(&p, &c);
    let h = handlers(r, &vs);
    let seen = Seen::default();
    let Some(base) = run(l, &p, &h, &c, &seen, |_| (), LIMIT) else { return l.inconclusive() };
    if base.steps > if pairs { 30 } else { 300 } {
        return l.count("program too long to enumerate", 1);
    }
    let (a, b) = ((*r.pick(&vs), r.below(8) as u8), (*r.pick(&vs), r.below(8) as u8));
    let n = base.steps + 1;
    for i in 0..n {
        let js: Vec<u64> = if pairs { (i..n + 12).collect() } else { vec![i] };
        for j in js {
            let mut p1: Plan = [(i, a)].into_iter().collect();
            let mut p2 = BTreeMap::new();
            if pairs {
                if j == i {
                    p2.insert(j, b);
                } else {
                    p1.insert(j, b);
                }
            }
            let what = format!("interrupts (vector, priority) {a:02X?} at boundary {i}{}", if pairs { format!(" and {b:02X?} at {j}") } else { String::new() });
            let s2 = seen.clone();
            let got = run(
                l,
                &p,
                &h,
                &c,
                &seen,
                move |sim| {
                    attach_plans(sim, &s2, vec![p1, p2]);
                },
                LIMIT * 4,
            );
            compare(l, &p, &base, got, &what);
            l.count(if pairs { "pairs of boundaries" } else { "boundaries" }, 1);
            if !l.viol.is_empty() {
                return;
            }
        }
    }
}
/// Requests in any machine state: each step either enters the winner's handler or is the step
/// of a twin without devices.
fn anywhere(r: &mut Rng, l: &mut Local) {
    let kind = *r.pick(&[Kind::Wild, Kind::Mixed, Kind::Sane]);
    let mut st = state(r, kind, false);
    st.kb = None;
    st.ds = false;
    let odd = |r: &mut Rng| match r.below(4) {
        0 => r.below(0x200) as u16,
        1 => 0x200 + r.below(0x2E00) as u16,
        2 => r.u16(),
        _ => edge(r),
    };
    if r.pct(40) {
        let (w, v) = (instr_word(r), odd(r));
        st.pc = v;
        st.patches.push((v, w));
    }
    let (mut sim, ..) = make_sim(&st, false);
    let (mut twin, ..) = make_sim(&st, false);
    let n = 1 + r.below(3);
    let rate = *r.pick(&[10, 40, 80]);
    let steps = 1 + r.below(16) as u64;
    let plans: Vec<Plan> = (0..n)
        .map(|_| {
            let mut p = Plan::new();
            for k in 0..steps {
                if r.pct(rate) {
                    let (v, q) = (if r.pct(30) { *r.pick(VECTS) } else { r.below(256) as u8 }, if r.pct(5) { EXT } else { r.below(8) as u8 });
                    p.insert(k, (v, q));
                    if r.pct(70) {
                        let (a, to) = (0x100 + v as u16, odd(r));
                        sim.mem[a].set(to);
                        twin.mem[a].set(to);
                    }
                }
            }
            p
        })
        .collect();
    let seen: Seen = Seen::default();
    attach_plans(&mut sim, &seen, plans.clone());
    for k in 0..steps {
        let req: Vec<(u8, u8)> = plans.iter().filter_map(|m| m.get(&k).copied()).collect();
        seen.now.store(k, Relaxed);
        let (pc0, psr0, r0, ssp0, n0) = (sim.pc, sim.psr().get(), regs(&sim), saved_sp(&mut sim), sim.instructions_run);
        let cur = (psr0 >> 8) as u8 & 7;
        let top = req.iter().map(|x| x.1).max();
        let res = sim.step_in();
        let got = (sim.pc, sim.psr().get(), regs(&sim), saved_sp(&mut sim), sim.instructions_run);
        l.eval();
        let ctx = |what: String| format!("{what}\nstep {k}: PC x{pc0:04X} -> x{:04X}, PSR x{psr0:04X} -> x{:04X}, registers {r0:04X?} -> {:04X?}, saved SP x{ssp0:04X} -> x{:04X}, requests (vector, priority) {req:02X?}, result {:?}\n{}", got.0, got.1, got.2, got.3, res.as_ref().map_err(err_kind), show(&st));
        l.count("requests in machine states", req.len() as u64);
        if top == Some(EXT) {
            if !matches!(res, Err(SimErr::Interrupt(_))) {
                return l.violation("an external interrupt lost against another request", ctx(String::new()));
            }
            if got != (pc0, psr0, r0, ssp0, n0) {
                return l.violation("an external interrupt changed the program's state", ctx(String::new()));
            }
            continue;
        }
        if let Some(q) = top.filter(|q| *q > cur) {
            let user = psr0 & 0x8000 != 0;
            let base = if user { ssp0 } else { r0[6] };
            let (a, b) = (base.wrapping_sub(1), base.wrapping_sub(2));
            // a stack over ports or over the vector itself is not judged
            if a >= 0xFE00 || b >= 0xFE00 || req.iter().any(|x| a == 0x100 + x.0 as u16 || b == 0x100 + x.0 as u16) {
                return;
            }
            let won = req.iter().any(|x| x.1 == q && twin.mem[0x100 + x.0 as u16].get() == got.0);
            let mut sp = r0;
            sp[6] = b;
            let bad = if !won {
                "a request above the current priority was not taken, or not at its vector"
            } else if res.is_err() {
                "an interrupt entry reported an error"
            } else if got.1 & 0x8000 != 0 || (got.1 >> 8) as u8 & 7 != q {
                "wrong mode or priority after an interrupt entry"
            } else if got.2 != sp || got.3 != if user { r0[6] } else { ssp0 } {
                "wrong registers or stack pointers after an interrupt entry"
            } else if (sim.mem[a].get(), sim.mem[b].get()) != (psr0, pc0) {
                "the saved PSR or PC is wrong"
            } else if got.4 != n0 {
                "an interrupt entry counted as an instruction"
            } else if (0..=0xFFFFu16).any(|x| x != a && x != b && sim.mem[x] != twin.mem[x]) {
                "an interrupt entry wrote to other memory"
            } else {
                ""
            };
            l.count("interrupts taken in machine states", 1);
            l.distinct(rng::mix((pc0 as u64) << 32 | (q as u64) << 8 | cur as u64) ^ 0x5EED);
            if !bad.is_empty() {
                l.violation(bad, ctx(format!("highest request has priority {q}, current is {cur}")));
            }
            return;
        }
        let tres = twin.step_in();
        let want = (twin.pc, twin.psr().get(), regs(&twin), saved_sp(&mut twin), twin.instructions_run);
        if got != want || res.as_ref().map_err(err_kind) != tres.as_ref().map_err(err_kind) {
            return l.violation("a request that is not above the current priority has an effect", ctx(format!("without requests: {want:04X?}, result {tres:?}")));
        }
        l.count("requests held back in machine states", req.len() as u64);
    }
}
fn main() {
    let mut c = Check::new("C10");
    c.factor(25);
    c.random("one interrupt at every boundary", 1500, |r, l| placements(r, l, false));
    c.random("two interrupts at every pair of boundaries", 700, |r, l| placements(r, l, true));
    c.random("random schedules", 20_000, scheduled);
    c.random("machine states", 40_000, anywhere);
    c.finish(
        "terminating user programs with loops, calls, stack use and OS I/O traps, interrupted by scheduled devices, timers and the keyboard; every step checks the gate, the winner, the entry and the return, every run the final state against the uninterrupted run; requests in random machine states against a twin without devices; distinct by (interrupted address and word, priorities, nesting)",
        &["requests of equal priority may win in any order", "an external interrupt outranks every vectored one", "handlers save and restore every register they use"],
        &[("interrupts taken", 20_000), ("nested interrupts", 1_000), ("competing requests", 1_000), ("requests held back", 5_000), ("external interrupts", 500), ("interrupts taken in machine states", 5_000), ("requests held back in machine states", 5_000), ("final states compared", 10_000), ("runs with keyboard interrupts", 300), ("runs with a timer", 1_000)],
    )
}
