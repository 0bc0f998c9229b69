//! The I/O page: ports, devices, register mappings.
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, Interrupt, NullDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister as IR, MemAccessCtx, Simulator};
use mon::refsim::canon_psr;
use mon::simutil::{flags, DsBuf, KbBuf};
use mon::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, RwLock};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ev {
    Read(u16, bool),
    Write(u16, u16),
}
/// All calls that reach any recording device, in order.
type Calls = Arc<Mutex<Vec<(u32, Ev)>>>;
struct Probe {
    tag: u32,
    calls: Calls,
}
/// What a probe answers: most reads and writes are accepted.
fn answer(tag: u32, a: u16) -> Option<u16> {
    ((tag as u16 ^ a) % 5 != 0).then_some((tag as u16).wrapping_mul(0x101) ^ a)
}
fn accepts(tag: u32, a: u16) -> bool {
    (tag as u16 ^ a) % 4 != 1
}
impl ExternalDevice for Probe {
    fn io_read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        self.calls.lock().unwrap().push((self.tag, Ev::Read(addr, effectful)));
        answer(self.tag, addr)
    }
    fn io_write(&mut self, addr: u16, data: u16) -> bool {
        self.calls.lock().unwrap().push((self.tag, Ev::Write(addr, data)));
        accepts(self.tag, addr)
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        None
    }
}
#[derive(Clone, Debug)]
enum Dev {
    Null,
    Probe(u32),
    Kb(KbBuf, bool),
    Ds(DsBuf),
}
struct Model {
    devs: BTreeMap<u16, Dev>,
    ports: BTreeMap<u16, u16>,
    ever: BTreeSet<u16>,
    iregs: BTreeMap<u16, IR>,
    pc: u16,
    psr: u16,
    ssp: u16,
    mcr: bool,
}
impl Model {
    fn ireg(&self, r: IR) -> u16 {
        match r {
            IR::PC => self.pc,
            IR::PSR => self.psr,
            IR::MCR => (self.mcr as u16) << 15,
            IR::SavedSP => self.ssp,
        }
    }
}
#[derive(Clone, Debug)]
enum Op {
    Add(Vec<u16>, bool),
    Remove(u16),
    /// The nth device that is attached.
    RemoveNth(usize),
    Kb(u8),
    Ds(u8),
    Map(u16, IR),
    Unmap(u16),
    Touch(u16, u16, u8),
    Reset,
}
struct M {
    sim: Simulator,
    m: Model,
    calls: Calls,
    tag: u32,
    log: Vec<String>,
}
type Bad = Option<(String, String)>;
fn bad(what: &str, d: String) -> Bad {
    Some((what.to_string(), d))
}
impl M {
    fn new() -> M {
        let mut sim = Simulator::new(flags(false, true, false, false, MachineInitStrategy::Known { value: 0x2BAD }));
        // instructions that touch a port
        sim.mem[0x1000].set(0xA00E); // LDI R0, x100F
        sim.mem[0x1001].set(0xB00D); // STI R0, x100F
        sim.mem[0x1002].set(0x6040); // LDR R0, R1, #0
        sim.mem[0x1003].set(0x7040); // STR R0, R1, #0
        let m = Model {
            devs: [(0, Dev::Null), (1, Dev::Null), (2, Dev::Null)].into_iter().collect(),
            ports: [(0xFE00, 1), (0xFE02, 1), (0xFE04, 2), (0xFE06, 2)].into_iter().collect(),
            ever: [0, 1, 2].into_iter().collect(),
            iregs: [(0xFFFC, IR::PSR), (0xFFFE, IR::MCR)].into_iter().collect(),
            pc: 0x3000,
            psr: 0x8002,
            ssp: 0x3000,
            mcr: false,
        };
        M { sim, m, calls: Calls::default(), tag: 0, log: vec![] }
    }
    fn probe(&mut self) -> (u32, Probe) {
        self.tag += 1;
        (self.tag, Probe { tag: self.tag, calls: self.calls.clone() })
    }
    fn fixed(&mut self, id: u16, k: u8) {
        let d = match k {
            0 => Dev::Null,
            1 if id == 1 => Dev::Kb(Arc::default(), false),
            1 => Dev::Ds(Arc::default()),
            _ => Dev::Probe(0),
        };
        let d = match d {
            Dev::Probe(_) => {
                let (t, p) = self.probe();
                let h = &mut self.sim.device_handler;
                match (id, t % 4) {
                    (1, 2) => h.set_keyboard(Arc::new(Mutex::new(p))),
                    (1, 3) => h.set_keyboard(Arc::new(RwLock::new(p))),
                    (1, _) => h.set_keyboard(p),
                    (_, 2) => h.set_display(Arc::new(Mutex::new(p))),
                    (_, 3) => h.set_display(Arc::new(RwLock::new(p))),
                    _ => h.set_display(p),
                }
                Dev::Probe(t)
            }
            Dev::Null => {
                if id == 1 {
                    self.sim.device_handler.set_keyboard(NullDevice);
                } else {
                    self.sim.device_handler.set_display(NullDevice);
                }
                Dev::Null
            }
            Dev::Kb(b, _) => {
                self.sim.device_handler.set_keyboard(BufferedKeyboard::new(b.clone()));
                Dev::Kb(b, false)
            }
            Dev::Ds(b) => {
                self.sim.device_handler.set_display(BufferedDisplay::new(b.clone()));
                Dev::Ds(b)
            }
        };
        self.m.devs.insert(id, d);
    }
    fn remove(&mut self, id: u16, l: &mut Local) {
        self.sim.device_handler.remove_device(id);
        if self.m.devs.contains_key(&id) {
            if id <= 2 {
                self.m.devs.insert(id, Dev::Null);
            } else {
                self.m.devs.remove(&id);
                let n = self.m.ports.len();
                self.m.ports.retain(|_, d| *d != id);
                l.count("ports freed", (n - self.m.ports.len()) as u64);
            }
        }
    }
    fn op(&mut self, op: &Op, l: &mut Local) -> Bad {
        self.log.push(format!("{op:04X?}"));
        match op {
            Op::Add(ports, null) => {
                let want = ports.iter().all(|p| *p >= 0xFE00 && !self.m.ports.contains_key(p));
                let (dev, got) = if *null {
                    (Dev::Null, self.sim.device_handler.add_device(NullDevice, ports).ok())
                } else {
                    let (t, p) = self.probe();
                    // bare, or shared behind a lock
                    let h = &mut self.sim.device_handler;
                    let id = match t % 4 {
                        2 => h.add_device(Arc::new(Mutex::new(p)), ports).ok(),
                        3 => h.add_device(Arc::new(RwLock::new(p)), ports).ok(),
                        _ => h.add_device(p, ports).ok(),
                    };
                    (Dev::Probe(t), id)
                };
                match (got, want) {
                    (Some(id), true) => {
                        if !self.m.ever.insert(id) {
                            return bad("a device id is used again", format!("id {id}"));
                        }
                        self.m.devs.insert(id, dev);
                        for p in ports {
                            self.m.ports.insert(*p, id);
                        }
                        l.count("devices added", 1);
                    }
                    (None, false) => l.count("additions refused", 1),
                    (Some(id), false) => return bad("a device is added although a port is owned or no I/O address", format!("id {id}")),
                    (None, true) => return bad("a device is refused although every port is free", String::new()),
                }
            }
            Op::Remove(id) => self.remove(*id, l),
            Op::RemoveNth(n) => {
                let ids: Vec<u16> = self.m.devs.keys().copied().filter(|i| *i > 2).collect();
                if !ids.is_empty() {
                    let id = ids[n % ids.len()];
                    self.remove(id, l);
                }
            }
            Op::Kb(k) => self.fixed(1, *k),
            Op::Ds(k) => self.fixed(2, *k),
            Op::Map(a, r) => {
                let ok = self.sim.mmap_internal(*a, *r).is_ok();
                if ok {
                    if *a >= 0xFE00 {
                        self.m.iregs.insert(*a, *r);
                    }
                    l.count("registers mapped", 1);
                }
            }
            Op::Unmap(a) => {
                self.sim.munmap_internal(*a);
                if self.m.iregs.remove(a).is_some() {
                    l.count("registers unmapped", 1);
                }
            }
            Op::Touch(a, v, how) => return self.touch(*a, *v, *how, l),
            Op::Reset => {
                self.sim.reset();
                for d in self.m.devs.values_mut() {
                    if let Dev::Kb(_, ie) = d {
                        *ie = false;
                    }
                }
                self.sim.mem[0x1000].set(0xA00E);
                self.sim.mem[0x1001].set(0xB00D);
                self.sim.mem[0x1002].set(0x6040);
                self.sim.mem[0x1003].set(0x7040);
                (self.m.pc, self.m.psr, self.m.ssp) = (0x3000, 0x8002, 0x3000);
            }
        }
        None
    }
    /// Reads or writes `a`; judges who saw it.
    fn touch(&mut self, a: u16, v: u16, how: u8, l: &mut Local) -> Bad {
        use lc3_ensemble::ast::Reg::{R0, R1};
        self.calls.lock().unwrap().clear();
        l.eval();
        let page: Vec<Word> = (0xFE00..=0xFFFF).map(|x| self.sim.mem[x]).collect();
        let stale = self.sim.mem[a].get();
        let (io, ireg) = (a >= 0xFE00, self.m.iregs.get(&a).copied());
        let dev = if io && ireg.is_none() { self.m.ports.get(&a).and_then(|i| self.m.devs.get(i)).cloned() } else { None };
        let unowned = io && ireg.is_none() && !self.m.ports.contains_key(&a);
        let by = how % 8;
        let write = by % 2 == 1;
        let eff = by != 2;
        let ctx = MemAccessCtx { privileged: true, strict: how & 8 != 0, io_effects: eff, track_access: how & 16 != 0 };
        // the buffers of the built-in devices, before
        let kb_front = match &dev {
            Some(Dev::Kb(b, _)) => {
                b.write().unwrap().clear();
                if v & 1 == 0 {
                    b.write().unwrap().push_back(v as u8);
                }
                b.read().unwrap().front().copied()
            }
            _ => None,
        };
        let ds_len = match &dev {
            Some(Dev::Ds(b)) => b.read().unwrap().len(),
            _ => 0,
        };
        let mut got = None;
        let res = match by {
            0 | 2 => self.sim.read_mem(a, ctx).map(|w| got = Some(w.get())),
            1 | 3 => self.sim.write_mem(a, Word::new_init(v), ctx),
            // by instructions, in supervisor mode
            k => {
                let (pc0, psr0) = (self.sim.pc, self.sim.psr().get());
                // (the PSR cannot be set from outside otherwise)
                if self.m.iregs.get(&0xFFFC) != Some(&IR::PSR) {
                    return None;
                }
                let _ = self.sim.write_mem(0xFFFC, Word::new_init(0x0702), ctx);
                self.sim.pc = 0x1000 + (k as u16 - 4);
                self.sim.mem[0x100F].set(a);
                self.sim.reg_file[R1].set(a);
                self.sim.reg_file[R0].set(v);
                let page1: Vec<Word> = (0xFE00..=0xFFFF).map(|x| self.sim.mem[x]).collect();
                let stale1 = self.sim.mem[a].get();
                self.m.pc = self.sim.pc + 1;
                self.m.psr = 0x0702;
                let r = self.sim.step_in();
                if !write {
                    got = Some(self.sim.reg_file[R0].get());
                }
                l.count("accesses by instructions", 1);
                return self.judge(l, a, v, write, true, r.is_ok(), got, stale1, &page1, unowned, ireg, dev, kb_front, ds_len, Some((pc0, psr0)));
            }
        };
        self.judge(l, a, v, write, eff, res.is_ok(), got, stale, &page, unowned, ireg, dev, kb_front, ds_len, None)
    }
    #[allow(clippy::too_many_arguments)]
    fn judge(&mut self, l: &mut Local, a: u16, v: u16, write: bool, eff: bool, ok: bool, got: Option<u16>, stale: u16, page: &[Word], unowned: bool, ireg: Option<IR>, dev: Option<Dev>, kb_front: Option<u8>, ds_len: usize, instr: Option<(u16, u16)>) -> Bad {
        let calls = std::mem::take(&mut *self.calls.lock().unwrap());
        let d = format!("x{a:04X} {} v=x{v:04X}{}: ", if write { "write" } else { "read" }, if instr.is_some() { " (instruction)" } else { "" });
        if !ok {
            return bad("a privileged I/O access fails", d);
        }
        // who was called
        let want: Vec<(u32, Ev)> = match &dev {
            Some(Dev::Probe(t)) => vec![(*t, if write { Ev::Write(a, v) } else { Ev::Read(a, eff) })],
            _ => vec![],
        };
        if calls != want {
            let what = match (want.is_empty(), calls.is_empty()) {
                (false, true) => "an access does not reach the device that owns the port",
                (true, false) => "an access reaches a device that does not own the port",
                _ => "an access reaches another device, or not once",
            };
            return bad(what, format!("{d}{calls:04X?}, expected {want:04X?}"));
        }
        if !want.is_empty() {
            l.count("accesses that reached their device", 1);
        }
        if write {
            // the registers
            if let Some(r) = ireg {
                match r {
                    IR::PC => self.m.pc = v,
                    IR::PSR => self.m.psr = canon_psr(v),
                    IR::MCR => self.m.mcr = v >> 15 != 0,
                    IR::SavedSP => self.m.ssp = v,
                }
                l.count("writes that reached their register", 1);
            }
            if unowned {
                if self.sim.mem[a] != page[(a - 0xFE00) as usize] {
                    return bad("a write to an unowned port changes memory", format!("{d}{:?} was {:?}", self.sim.mem[a], page[(a - 0xFE00) as usize]));
                }
                l.count("writes to unowned ports", 1);
            }
            match &dev {
                Some(Dev::Kb(_, _)) if a == 0xFE00 => {
                    let id = self.m.ports[&a];
                    if let Some(Dev::Kb(_, ie)) = self.m.devs.get_mut(&id) {
                        *ie = v & 0x4000 != 0;
                    }
                }
                Some(Dev::Ds(b)) => {
                    let now = b.read().unwrap();
                    let n = if a == 0xFE06 { 1 } else { 0 };
                    if now.len() != ds_len + n || (n == 1 && now.last() != Some(&(v as u8))) {
                        return bad("a write to a display port does not do what the display does", format!("{d}{now:?}"));
                    }
                    l.count("accesses that reached the built-in devices", 1);
                }
                _ => {}
            }
        } else {
            let want = match (ireg, &dev) {
                (Some(r), _) => Some(self.m.ireg(r)),
                (None, Some(Dev::Probe(t))) => Some(answer(*t, a).unwrap_or(stale)),
                (None, Some(Dev::Kb(_, ie))) => match a {
                    0xFE00 => Some((kb_front.is_some() as u16) << 15 | (*ie as u16) << 14),
                    0xFE02 => Some(kb_front.map_or(stale, |b| b as u16)),
                    _ => Some(stale),
                },
                (None, Some(Dev::Ds(_))) if a == 0xFE04 => Some(0x8000),
                _ => Some(stale),
            };
            if want != got {
                let what = if ireg.is_some() {
                    "a read does not give the value of the internal register mapped there"
                } else if dev.is_some() {
                    "a read does not give the value of the device that owns the port"
                } else {
                    "a read of an unowned port gives something else than its memory word"
                };
                return bad(what, format!("{d}{got:04X?}, expected {want:04X?}"));
            }
            if let Some(Dev::Kb(b, _)) = &dev {
                let left = b.read().unwrap().len();
                let w = if a == 0xFE02 && eff { 0 } else { kb_front.is_some() as usize };
                if left != w {
                    return bad("a read takes from the keyboard, or not", format!("{d}{left} left"));
                }
                l.count("accesses that reached the built-in devices", 1);
            }
            if ireg.is_some() {
                l.count("reads that reached their register", 1);
            }
            if unowned {
                l.count("reads of unowned ports", 1);
            }
        }
        // nothing else in the page changes
        for x in 0xFE00..=0xFFFFu16 {
            if x != a && self.sim.mem[x] != page[(x - 0xFE00) as usize] {
                return bad("an access changes another word of the I/O page", format!("{d}x{x:04X}"));
            }
        }
        // nothing else in the registers changes
        if let Some((pc, psr)) = instr {
            self.m.psr = if ireg == Some(IR::PSR) && write { self.m.psr } else { self.sim.psr().get() };
            if self.sim.psr().get() != self.m.psr {
                return bad("a write does not reach the internal register mapped there", format!("{d}PSR x{:04X}", self.sim.psr().get()));
            }
            if self.sim.pc != self.m.pc {
                return bad("a write does not reach the internal register mapped there", format!("{d}PC x{:04X}", self.sim.pc));
            }
            // back to where it was
            self.sim.pc = pc;
            let _ = psr;
            self.m.pc = pc;
        }
        let now = (self.sim.pc, self.sim.psr().get(), self.sim.mcr().load(std::sync::atomic::Ordering::Relaxed));
        if now != (self.m.pc, self.m.psr, self.m.mcr) {
            return bad("an access changes an internal register, or misses it", format!("{d}{now:04X?}, expected {:04X?}", (self.m.pc, self.m.psr, self.m.mcr)));
        }
        None
    }
    /// Reads and writes every address of `at`.
    fn sweep(&mut self, at: impl Iterator<Item = u16>, v: u16, how: u8, l: &mut Local) -> Bad {
        for a in at {
            for k in 0..3 {
                let b = self.touch(a, v.wrapping_add(a).wrapping_mul(0x9D01), how & 0x18 | [2, 1, 0][k], l);
                if b.is_some() {
                    return b;
                }
            }
        }
        None
    }
}
const SP: [u16; 4] = [0xFE02, 0xFE06, 0xFE10, 0xFE11];
fn small() -> Vec<Op> {
    vec![
        Op::Add(vec![0xFE10], false),
        Op::Add(vec![0xFE10, 0xFE11], false),
        Op::Add(vec![0xFE11, 0xFE02], false),
        Op::Add(vec![0xFE11], true),
        Op::Add(vec![], false),
        Op::Add(vec![0xFDFF, 0xFE10], false),
        Op::Remove(1),
        Op::Remove(2),
        Op::Remove(3),
        Op::Remove(4),
        Op::Kb(2),
        Op::Ds(2),
        Op::Kb(1),
        Op::Map(0xFE10, IR::SavedSP),
        Op::Map(0xFE02, IR::PC),
        Op::Unmap(0xFE10),
        Op::Unmap(0xFE02),
    ]
}
fn exhaustive(i: u64, len: u32, l: &mut Local) {
    let ops = small();
    let mut m = M::new();
    let mut k = i;
    for _ in 0..len {
        let op = &ops[(k % ops.len() as u64) as usize];
        k /= ops.len() as u64;
        let b = m.op(op, l).or_else(|| m.sweep(SP.into_iter(), k as u16 ^ 0x1234, 0, l));
        if let Some((what, d)) = b {
            return l.violation(what, format!("{d}\n{}", m.log.join("\n")));
        }
    }
    l.distinct(i | (len as u64) << 56);
}
fn random(r: &mut Rng, l: &mut Local) {
    let mut m = M::new();
    let n = 5 + r.below(60);
    let narrow = r.pct(60);
    fn port(r: &mut Rng, narrow: bool) -> u16 {
        match r.below(12) {
            0 => *r.pick(&[0xFE00, 0xFE02, 0xFE04, 0xFE06]),
            1 => *r.pick(&[0xFFFC, 0xFFFE, 0xFFFF, 0xFE01]),
            _ if narrow => 0xFE00 + r.below(0x14) as u16,
            _ => 0xFE00 + r.below(0x200) as u16,
        }
    }
    for _ in 0..n {
        let op = match r.below(20) {
            0..=3 => {
                let big = if r.pct(10) { 40 } else { 5 };
                let mut v: Vec<u16> = (0..r.below(big)).map(|_| port(r, narrow)).collect();
                if r.pct(8) {
                    v.push(*r.pick(&[0xFDFF, 0, 0x3000, 0x0002, 0x01FE]));
                    r.shuffle(&mut v);
                }
                // mostly free ones
                if r.pct(60) {
                    v.retain(|p| !m.m.ports.contains_key(p));
                }
                if r.pct(10) && !v.is_empty() {
                    v.push(v[0]);
                }
                Op::Add(v, r.pct(10))
            }
            4 | 5 => Op::RemoveNth(r.below(8)),
            6 => Op::Remove(match r.below(6) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => 0xFFFF,
                _ => r.below(12) as u16,
            }),
            7 => Op::Kb(r.below(3) as u8),
            8 => Op::Ds(r.below(3) as u8),
            9 | 10 => Op::Map(port(r, narrow), *r.pick(&[IR::PC, IR::PSR, IR::MCR, IR::SavedSP])),
            11 => {
                let mapped: Vec<u16> = m.m.iregs.keys().copied().collect();
                let a = port(r, narrow);
                Op::Unmap(if r.pct(70) && !mapped.is_empty() { *r.pick(&mapped) } else { a })
            }
            12 if r.pct(20) => Op::Reset,
            13 => {
                let a = *r.pick(&[0xFDFFu16, 0x3000, 0x5000, 0, 0x2000]);
                // no I/O address: no device sees it
                Op::Touch(a, r.u16(), *r.pick(&[0, 2]))
            }
            _ => {
                let a = if r.pct(60) && !m.m.ports.is_empty() { *m.m.ports.keys().nth(r.below(m.m.ports.len())).unwrap() } else { port(r, narrow) };
                Op::Touch(a, r.u16(), r.below(32) as u8)
            }
        };
        let mut b = m.op(&op, l);
        if b.is_none() && r.pct(15) {
            let (v, h) = (r.u16(), r.below(32) as u8);
            b = m.sweep(0xFE00..=0xFE14, v, h, l);
        }
        if let Some((what, d)) = b {
            return l.violation(what, format!("{d}\n{}", m.log.join("\n")));
        }
    }
    let (v, h) = (r.u16(), r.below(32) as u8);
    if let Some((what, d)) = m.sweep(0xFE00..=0xFFFF, v, h, l) {
        return l.violation(what, format!("{d}\nfinal sweep\n{}", m.log.join("\n")));
    }
    l.count("full sweeps of the I/O page", 1);
    l.distinct_str(&m.log.join("\n"));
    l.sample(|| m.log.join("\n"));
}
/// As many devices as there are ids.
fn crowd(r: &mut Rng, l: &mut Local) {
    let mut m = M::new();
    let mut first = None;
    for k in 0..66_000u32 {
        match m.sim.device_handler.add_device(NullDevice, &[]) {
            Ok(id) => {
                if !m.m.ever.insert(id) {
                    return l.violation("a device id is used again", format!("id {id}, addition {k}"));
                }
                if r.pct(30) {
                    m.sim.device_handler.remove_device(id);
                }
            }
            Err(_) => {
                first.get_or_insert(k);
            }
        }
    }
    l.eval();
    l.count("device ids used", m.m.ever.len() as u64);
    // whatever became of it, nobody owns a port
    if let Some((what, d)) = m.sweep(0xFE00..=0xFFFF, 0x1111, 0, l) {
        l.violation(what, format!("{d}\nafter {first:?} additions"));
    }
}
fn main() {
    let mut c = Check::new("C32");
    let n = small().len() as u64;
    let top = if c.quick() { 4 } else { 5 };
    for len in 1..=top {
        c.exhaustive(&format!("sequences of length {len}"), n.pow(len), move |i, _, l| exhaustive(i, len, l));
    }
    c.factor(60);
    c.random("histories", 20_000, random);
    c.once("id exhaustion", crowd);
    c.finish(
        "every sequence of up to 4 (thorough: 5) operations over a small alphabet with all small ports read and written after each; random histories with sweeps of the whole I/O page; every access by the host and by instructions: calls of all recording devices, values, registers and the other words of the page compared with a port-table model",
        &["a device that refuses a read leaves the memory word to be read", "adding is not judged when ids run out", "whether a register mapping is accepted is taken from the result"],
        &[("accesses that reached their device", 200_000), ("writes that reached their register", 50_000), ("reads that reached their register", 50_000), ("writes to unowned ports", 100_000), ("ports freed", 10_000), ("additions refused", 10_000), ("accesses by instructions", 20_000), ("accesses that reached the built-in devices", 5_000)],
    )
}
