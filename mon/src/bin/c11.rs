//! Contracts of the built-in trap routines.
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::Simulator;
use mon::simutil::*;
use mon::*;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

const PROMPT: &[u8] = b"Input character: ";

#[derive(Default)]
struct Io {
    q: VecDeque<u8>,
    out: Vec<u8>,
    /// Polls of the status registers to refuse, repeating.
    wait_kb: Vec<u8>,
    wait_ds: Vec<u8>,
    left_kb: u8,
    left_ds: u8,
    n: usize,
    early_reads: u64,
    early_writes: u64,
}
/// A keyboard and display that are not always ready.
#[derive(Clone)]
struct Slow(Arc<Mutex<Io>>);
impl ExternalDevice for Slow {
    fn io_read(&mut self, addr: u16, eff: bool) -> Option<u16> {
        let mut s = self.0.lock().unwrap();
        match addr {
            0xFE00 => {
                if s.left_kb > 0 {
                    s.left_kb -= 1;
                    return Some(0);
                }
                Some(if s.q.is_empty() { 0 } else { 0x8000 })
            }
            0xFE02 if !eff => s.q.front().map(|b| *b as u16),
            0xFE02 => {
                if s.left_kb > 0 {
                    s.early_reads += 1;
                }
                s.n += 1;
                s.left_kb = if s.wait_kb.is_empty() { 0 } else { s.wait_kb[s.n % s.wait_kb.len()] };
                s.q.pop_front().map(|b| b as u16)
            }
            0xFE04 => {
                if s.left_ds > 0 {
                    s.left_ds -= 1;
                    return Some(0);
                }
                Some(0x8000)
            }
            _ => None,
        }
    }
    fn io_write(&mut self, addr: u16, data: u16) -> bool {
        let mut s = self.0.lock().unwrap();
        if addr == 0xFE06 {
            if s.left_ds > 0 {
                s.early_writes += 1;
            }
            s.n += 1;
            s.left_ds = if s.wait_ds.is_empty() { 0 } else { s.wait_ds[s.n % s.wait_ds.len()] };
            s.out.push(data as u8);
        }
        addr == 0xFE06
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        None
    }
}
enum Term {
    Buf(KbBuf, DsBuf),
    Slow(Arc<Mutex<Io>>),
}
impl Term {
    fn left(&self) -> Vec<u8> {
        match self {
            Term::Buf(k, _) => k.read().unwrap().iter().copied().collect(),
            Term::Slow(s) => s.lock().unwrap().q.iter().copied().collect(),
        }
    }
    fn feed(&self, b: u8) {
        match self {
            Term::Buf(k, _) => k.write().unwrap().push_back(b),
            Term::Slow(s) => s.lock().unwrap().q.push_back(b),
        }
    }
    fn out(&self) -> Vec<u8> {
        match self {
            Term::Buf(_, d) => d.read().unwrap().clone(),
            Term::Slow(s) => s.lock().unwrap().out.clone(),
        }
    }
    fn early(&self) -> u64 {
        match self {
            Term::Buf(..) => 0,
            Term::Slow(s) => {
                let s = s.lock().unwrap();
                s.early_reads + s.early_writes
            }
        }
    }
}

fn put(sim: &mut Simulator, a: u16, w: u16) {
    sim.mem[a] = Word::new_init(w);
}
/// A place for `n` words in user memory, away from the code.
fn place(r: &mut Rng, n: usize, code: u16) -> u16 {
    loop {
        let a = match r.below(5) {
            0 => 0xFE00 - n as u16,
            1 => 0x3000,
            _ => 0x3000 + r.below(0xCE00 - n) as u16,
        };
        let end = a as usize + n;
        if end <= code as usize - 16 || a >= code + 64 {
            return a;
        }
    }
}
fn len(r: &mut Rng) -> usize {
    match r.below(12) {
        0 | 1 => 0,
        2 => 1,
        3 => 2,
        4 => r.below(300),
        _ => r.below(12),
    }
}

fn session(r: &mut Rng, l: &mut Local, quick_traps: bool) {
    let real = r.pct(50);
    let strict = r.pct(30);
    let init = if r.pct(50) { MachineInitStrategy::Seeded { seed: r.next() } } else { MachineInitStrategy::Known { value: r.u16() } };
    let mut sim = Simulator::new(flags(strict, real, r.pct(50), r.pct(15), init));
    if strict {
        for a in 0..=0xFFFFu16 {
            let w = sim.mem[a].get();
            put(&mut sim, a, w);
        }
    }
    let code = match r.below(4) {
        0 => 0x3010,
        1 => 0xFD00,
        _ => 0x4000 + r.below(0xA000) as u16,
    };
    let input: Vec<u8> = (0..r.below(10)).map(|_| r.u8()).collect();
    let term = if r.pct(50) {
        Term::Buf(keyboard(&mut sim, &input), display(&mut sim))
    } else {
        let mut w = |r: &mut Rng| (0..1 + r.below(5)).map(|_| if r.pct(50) { 0 } else { r.below(6) as u8 }).collect::<Vec<u8>>();
        let io = Io { q: input.iter().copied().collect(), wait_kb: w(r), wait_ds: w(r), left_kb: r.below(3) as u8, left_ds: r.below(3) as u8, ..Io::default() };
        let s = Arc::new(Mutex::new(io));
        sim.device_handler.set_keyboard(Slow(s.clone()));
        sim.device_handler.set_display(Slow(s.clone()));
        Term::Slow(s)
    };
    if r.pct(30) {
        let s = 0x2000 + r.below(0x1000) as u16;
        set_saved_sp(&mut sim, s);
    }
    let psr = 0x8000 | if r.pct(70) { 0 } else { (r.below(8) as u16) << 8 } | *r.pick(&[1, 2, 4]);
    set_psr(&mut sim, psr);
    for k in 0..1 + r.below(6) {
        let t = *r.pick(&[0x20u16, 0x21, 0x22, 0x23, 0x24]);
        let t = if quick_traps && t != 0x20 { 0x21 } else { t };
        let pc = code + k as u16;
        put(&mut sim, pc, 0xF000 | t);
        let mut rg: [u16; 8] = std::array::from_fn(|_| if r.pct(20) { *r.pick(&EDGES) } else { r.u16() });
        let mut want = vec![];
        let mut reads = 0;
        match t {
            0x20 => reads = 1,
            0x21 => {
                if r.pct(70) {
                    rg[0] = r.u16();
                } else {
                    rg[0] = r.below(256) as u16;
                }
                want.push(rg[0] as u8);
            }
            0x22 => {
                let n = len(r);
                let a = place(r, n + 1, code);
                rg[0] = a;
                // words whose high byte is not zero are still characters
                let wide = r.pct(20);
                for i in 0..n {
                    let b = 1 + r.below(255) as u8;
                    let hi = if wide && r.pct(50) { r.u8() } else { 0 };
                    l.count("PUTS words with a high byte", (hi != 0) as u64);
                    put(&mut sim, a + i as u16, (hi as u16) << 8 | b as u16);
                    want.push(b);
                }
                put(&mut sim, a + n as u16, 0);
                l.count("empty strings", (n == 0) as u64);
            }
            0x23 => {
                reads = 1;
                want.extend(PROMPT);
            }
            _ => {
                let n = len(r);
                let words = n / 2 + 1;
                let a = place(r, words, code);
                rg[0] = a;
                let mut b: Vec<u8> = (0..n).map(|_| 1 + r.below(255) as u8).collect();
                want.extend(&b);
                b.push(0);
                // what follows the first zero byte does not matter
                if b.len() % 2 == 1 {
                    b.push(if r.pct(50) { 0 } else { r.u8() });
                }
                for (i, c) in b.chunks(2).enumerate() {
                    put(&mut sim, a + i as u16, c[0] as u16 | (c[1] as u16) << 8);
                }
                l.count("odd packed strings", (n % 2) as u64);
                l.count("empty strings", (n == 0) as u64);
            }
        }
        set_regs(&mut sim, rg);
        let cc = *r.pick(&[1u16, 2, 4]);
        let psr = psr & !7 | cc;
        set_psr(&mut sim, psr);
        sim.pc = pc;
        let before: Vec<u16> = (0x3000..0xFE00u16).map(|a| sim.mem[a].get()).collect();
        let (in0, out0) = (term.left(), term.out());
        let mut fed = in0.clone();
        let mut late = reads > in0.len();
        let mut wait = if late { r.below(40) } else { 0 };
        let mut steps = 0u64;
        let limit = 400 + want.len() as u64 * 800;
        let ctx = |sim: &Simulator, what: &str| format!("{what}\nTRAP x{t:02X} at x{pc:04X}, R0..R7 {rg:04X?}, PSR x{psr:04X}, real traps {real}, strict {strict}, input {in0:02X?}, expected output {want:02X?}; now PC x{:04X}", sim.pc);
        loop {
            l.eval();
            let res = sim.step_in();
            if let Err(e) = res {
                return l.violation("a trap routine fails", ctx(&sim, &e.to_string()));
            }
            steps += 1;
            if sim.pc == pc + 1 && sim.psr().get() & 0x8000 != 0 {
                break;
            }
            if late {
                if wait == 0 {
                    let b = r.u8();
                    term.feed(b);
                    fed.push(b);
                    late = false;
                    l.count("waits for input", 1);
                }
                wait = wait.saturating_sub(1);
            }
            if steps > limit {
                return l.violation("a trap routine does not return", ctx(&sim, ""));
            }
        }
        l.count(&format!("TRAP x{t:02X} returned"), 1);
        // results
        let mut exp = rg;
        if reads == 1 {
            exp[0] = fed[0] as u16;
            if t == 0x23 {
                want.push(fed[0]);
            }
            fed.remove(0);
        }
        let got = regs(&sim);
        let out = term.out();
        let what = if out.len() < out0.len() || out[out0.len()..] != want[..] {
            format!("output of the routine|{:02X?}, expected {want:02X?}", out.get(out0.len()..))
        } else if term.left() != fed {
            format!("input consumed by the routine|left {:02X?}, expected {fed:02X?}", term.left())
        } else if reads == 1 && got[0] != exp[0] {
            format!("byte returned in R0|x{:04X}, expected x{:04X}", got[0], exp[0])
        } else if got != exp {
            format!("registers after the routine|{got:04X?}, expected {exp:04X?}")
        } else if sim.psr().get() & 7 != cc {
            format!("condition codes after the routine|{:03b}, expected {cc:03b}", sim.psr().get() & 7)
        } else if sim.psr().get() != psr {
            format!("privilege level or priority after the routine|PSR x{:04X}, expected x{psr:04X}", sim.psr().get())
        } else if let Some(k) = before.iter().enumerate().position(|(k, v)| sim.mem[0x3000 + k as u16].get() != *v) {
            format!("user memory after the routine|x{:04X} changed from x{:04X} to x{:04X}", 0x3000 + k, before[k], sim.mem[0x3000 + k as u16].get())
        } else if term.early() != 0 {
            "data register used before the status register was ready|".into()
        } else {
            String::new()
        };
        if !what.is_empty() {
            let (a, b) = what.split_once('|').unwrap();
            return l.violation(a, format!("TRAP x{t:02X} at x{pc:04X}: {b}\nR0..R7 before {rg:04X?}, PSR x{psr:04X}, real traps {real}, strict {strict}, input {in0:02X?}"));
        }
        l.count("bytes written", want.len() as u64);
        l.count("bytes read", reads as u64);
        l.distinct(rng::mix((t as u64) << 40 | (rg[0] as u64) << 20 | cc as u64) ^ rng::hash_bytes(steps, &want));
        l.sample(|| format!("TRAP x{t:02X} in {steps} steps, output {want:02X?}, R0 x{:04X} -> x{:04X}", rg[0], got[0]));
    }
    // HALT
    let pc = code + 10;
    put(&mut sim, pc, 0xF025);
    let rg: [u16; 8] = std::array::from_fn(|_| r.u16());
    set_regs(&mut sim, rg);
    sim.pc = pc;
    let out0 = term.out();
    let in0 = term.left();
    let before: Vec<u16> = (0x3000..0xFE00u16).map(|a| sim.mem[a].get()).collect();
    l.eval();
    let polls = 2_000;
    add(&mut sim, fuse(polls), &[]);
    let res = sim.run();
    let ctx = format!("result {:?}, hit_halt {}, real traps {real}, PC x{:04X}", res.as_ref().map_err(err_kind), sim.hit_halt(), sim.pc);
    if res.is_err() || !sim.hit_halt() {
        l.violation("HALT does not stop the machine", ctx);
    } else if term.out() != out0 || term.left() != in0 {
        l.violation("HALT reads or writes bytes", ctx);
    } else if before.iter().enumerate().any(|(k, v)| sim.mem[0x3000 + k as u16].get() != *v) {
        l.violation("HALT changes user memory", ctx);
    } else if mcr(&sim) {
        l.violation("the machine control register still says running after HALT", ctx);
    }
    l.count("halts", 1);
}
fn main() {
    let mut c = Check::new("C11");
    c.quick_factor(2);
    c.factor(25);
    c.random("sessions", 14_000, |r, l| session(r, l, false));
    c.random("single bytes", 10_000, |r, l| session(r, l, true));
    // every byte through every byte routine
    c.exhaustive("every byte", 256 * 6, |i, _, l| {
        let (b, how) = ((i % 256) as u8, i / 256);
        let mut sim = Simulator::new(flags(false, how & 1 == 1, false, false, MachineInitStrategy::Known { value: 0 }));
        let kb = keyboard(&mut sim, &[b, b ^ 0x55]);
        let ds = display(&mut sim);
        // GETC/IN, then OUT or nothing; PUTS and PUTSP of the byte
        let prog: &[u16] = match how / 2 {
            0 => &[0xF020, 0xF021, 0xF025],
            1 => &[0xF023, 0xF025],
            _ => &[0xE004, 0xF022, 0xE002, 0xF024, 0xF025, 0, 0],
        };
        for (k, w) in prog.iter().enumerate() {
            put(&mut sim, 0x3000 + k as u16, *w);
        }
        put(&mut sim, 0x3005, b as u16);
        add(&mut sim, fuse(20_000), &[]);
        l.eval();
        let r = sim.run();
        let want: Vec<u8> = match how / 2 {
            0 => vec![b],
            1 => [PROMPT, &[b]].concat(),
            _ if b == 0 => vec![],
            _ => vec![b, b],
        };
        let left = if how / 2 < 2 { vec![b ^ 0x55] } else { vec![b, b ^ 0x55] };
        let got = ds.read().unwrap().clone();
        let kl: Vec<u8> = kb.read().unwrap().iter().copied().collect();
        if r.is_err() || got != want || kl != left || (how / 2 < 2 && sim.reg_file[REGS[0]].get() != b as u16) {
            l.violation("a byte is not passed through the trap routines", format!("byte x{b:02X}, program {prog:04X?}, result {:?}, output {got:02X?}, expected {want:02X?}, input left {kl:02X?}, R0 {:?}", r.map_err(|e| e.to_string()), sim.reg_file[REGS[0]]));
        }
        l.count("bytes sent through programs", 1);
        l.distinct(i);
    });
    c.finish(
        "TRAP x20-x25 from user code with random registers, condition codes, priorities, strings (empty, odd packed, up to 300 bytes, at both ends of user memory), input that arrives late and devices that are not ready, all flags; output, consumed input, registers, condition codes, privilege and all of user memory compared; distinct by (trap, R0, condition codes, output, duration)",
        &["a PUTS string ends at a zero word; the low byte of every word before it is emitted", "PUTS words with a low byte of zero and a high byte that is not are not generated"],
        &[("TRAP x20 returned", 3000), ("TRAP x21 returned", 3000), ("TRAP x22 returned", 3000), ("TRAP x23 returned", 3000), ("TRAP x24 returned", 3000), ("halts", 3000), ("waits for input", 1000), ("odd packed strings", 500), ("PUTS words with a high byte", 500)],
    )
}
