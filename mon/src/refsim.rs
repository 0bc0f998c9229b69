//! Reference LC-3 machine: one step at a time, with a log of everything the step touched.
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fault {
    Acv,
    Priv,
    IllOp,
    InvFmt,
}
impl Fault {
    pub fn vector(self) -> u16 {
        match self {
            Fault::Priv => 0x100,
            Fault::IllOp | Fault::InvFmt => 0x101,
            Fault::Acv => 0x102,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Out {
    Ok,
    /// TRAP x25 under virtual traps.
    Halt,
    Fault(Fault),
    /// An interrupt that is not vectored.
    External,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Int {
    Vect(u8, u8),
    Ext,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum S2 {
    R(u8),
    I(i16),
}
/// A decoded instruction.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Br(u8, i16),
    Add(u8, u8, S2),
    And(u8, u8, S2),
    Not(u8, u8),
    Ld(u8, i16),
    Ldi(u8, i16),
    Lea(u8, i16),
    St(u8, i16),
    Sti(u8, i16),
    Ldr(u8, u8, i16),
    Str(u8, u8, i16),
    Jsr(i16),
    Jsrr(u8),
    Jmp(u8),
    Rti,
    Trap(u8),
}
pub fn sext(w: u16, n: u32) -> i16 {
    let m = w & ((1u32 << n) - 1) as u16;
    if n < 16 && m & (1 << (n - 1)) != 0 {
        (m as i32 - (1i32 << n)) as i16
    } else {
        m as i16
    }
}
/// The LC-3 decoding table.
pub fn decode(w: u16) -> Result<Op, Fault> {
    let a = ((w >> 9) & 7) as u8;
    let b = ((w >> 6) & 7) as u8;
    let c = (w & 7) as u8;
    let zero = |mask: u16| if w & mask == 0 { Ok(()) } else { Err(Fault::InvFmt) };
    let s2 = || -> Result<S2, Fault> {
        if w & 0x20 != 0 {
            Ok(S2::I(sext(w, 5)))
        } else {
            zero(0x18)?;
            Ok(S2::R(c))
        }
    };
    Ok(match w >> 12 {
        0x0 => Op::Br(a, sext(w, 9)),
        0x1 => Op::Add(a, b, s2()?),
        0x2 => Op::Ld(a, sext(w, 9)),
        0x3 => Op::St(a, sext(w, 9)),
        0x4 => {
            if w & 0x800 != 0 {
                Op::Jsr(sext(w, 11))
            } else {
                zero(0x063F)?;
                Op::Jsrr(b)
            }
        }
        0x5 => Op::And(a, b, s2()?),
        0x6 => Op::Ldr(a, b, sext(w, 6)),
        0x7 => Op::Str(a, b, sext(w, 6)),
        0x8 => {
            zero(0x0FFF)?;
            Op::Rti
        }
        0x9 => {
            if w & 0x3F != 0x3F {
                return Err(Fault::InvFmt);
            }
            Op::Not(a, b)
        }
        0xA => Op::Ldi(a, sext(w, 9)),
        0xB => Op::Sti(a, sext(w, 9)),
        0xC => {
            zero(0x0E3F)?;
            Op::Jmp(b)
        }
        0xD => return Err(Fault::IllOp),
        0xE => Op::Lea(a, sext(w, 9)),
        _ => {
            zero(0x0F00)?;
            Op::Trap(w as u8)
        }
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum IReg {
    Pc,
    Psr,
    Mcr,
    SavedSp,
}
/// A deterministic device: the same logic runs in the model and (wrapped) in the simulator.
pub trait Dev: Send + Sync {
    fn read(&mut self, addr: u16, effectful: bool) -> Option<u16>;
    fn write(&mut self, addr: u16, data: u16) -> bool;
    fn poll(&mut self) -> Option<Int>;
    fn reset(&mut self) {}
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum IoEv {
    Read(u16, Option<u16>),
    Write(u16, u16, bool),
}
pub type Log = Arc<Mutex<Vec<IoEv>>>;

/// Replies, refusals and interrupts are a function of a seed and of what it has seen so far.
#[derive(Clone)]
pub struct Scripted {
    pub seed: u64,
    pub n: u64,
    pub polls: u64,
    pub log: Log,
    /// One interrupt every about this many polls (0: none).
    pub rate: u64,
    pub prios: Vec<u8>,
    pub vects: (u8, u8),
    pub ext: bool,
}
impl Scripted {
    pub fn new(seed: u64) -> Self {
        Scripted { seed, n: 0, polls: 0, log: Log::default(), rate: 0, prios: vec![], vects: (0, 255), ext: false }
    }
    fn h(&self, a: u64, b: u64) -> u64 {
        crate::rng::mix(self.seed ^ crate::rng::mix(a.wrapping_mul(0x9E37) ^ (b << 20)))
    }
    /// A copy with the same logic and its own log.
    pub fn twin(&self) -> Self {
        Scripted { log: Log::default(), ..self.clone() }
    }
}
impl Dev for Scripted {
    fn read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        let h = self.h(addr as u64, self.n);
        let v = if h % 5 == 0 { None } else { Some((h >> 16) as u16) };
        if effectful {
            self.n += 1;
            self.log.lock().unwrap().push(IoEv::Read(addr, v));
        }
        v
    }
    fn write(&mut self, addr: u16, data: u16) -> bool {
        let ok = self.h(addr as u64 + 1, self.n) % 5 != 0;
        self.n += 1;
        self.log.lock().unwrap().push(IoEv::Write(addr, data, ok));
        ok
    }
    fn poll(&mut self) -> Option<Int> {
        self.polls += 1;
        if self.rate == 0 {
            return None;
        }
        let h = self.h(0x1_0000, self.polls);
        if h % self.rate != 0 {
            return None;
        }
        if self.ext {
            return Some(Int::Ext);
        }
        let p = self.prios[(h >> 20) as usize % self.prios.len()];
        let span = self.vects.1 as u64 - self.vects.0 as u64 + 1;
        Some(Int::Vect((self.vects.0 as u64 + (h >> 32) % span) as u8, p))
    }
}
/// Model of the buffered keyboard.
#[derive(Clone, Default)]
pub struct Kb {
    pub q: VecDeque<u8>,
    pub ie: bool,
}
impl Dev for Kb {
    fn read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        match addr {
            0xFE00 => Some(if self.q.is_empty() { 0 } else { 0x8000 } | if self.ie { 0x4000 } else { 0 }),
            0xFE02 => (if effectful { self.q.pop_front() } else { self.q.front().copied() }).map(|b| b as u16),
            _ => None,
        }
    }
    fn write(&mut self, addr: u16, data: u16) -> bool {
        if addr == 0xFE00 {
            self.ie = data & 0x4000 != 0;
        }
        addr == 0xFE00
    }
    fn poll(&mut self) -> Option<Int> {
        (self.ie && !self.q.is_empty()).then_some(Int::Vect(0x80, 4))
    }
}
/// Model of the buffered display.
#[derive(Clone, Default)]
pub struct Ds {
    pub out: Vec<u8>,
}
impl Dev for Ds {
    fn read(&mut self, addr: u16, _: bool) -> Option<u16> {
        (addr == 0xFE04).then_some(0x8000)
    }
    fn write(&mut self, addr: u16, data: u16) -> bool {
        if addr == 0xFE06 {
            self.out.push(data as u8);
        }
        addr == 0xFE06
    }
    fn poll(&mut self) -> Option<Int> {
        None
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum FrKind {
    Sub,
    Trap,
    Int,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fr {
    pub caller: u16,
    pub callee: u16,
    pub kind: FrKind,
    pub args: Vec<u16>,
    pub fp: Option<u16>,
}
#[derive(Clone, Debug)]
pub enum Sig {
    /// Number of parameters.
    Stack(usize),
    Regs(Vec<u8>),
}

/// What the last step did.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Did {
    Nothing,
    Instr(Op),
    Interrupt(u8, u8),
    Exception(Fault),
}

pub struct RefSim {
    pub mem: Vec<u16>,
    pub regs: [u16; 8],
    pub pc: u16,
    pub psr: u16,
    pub saved_sp: u16,
    pub mcr: bool,
    pub depth: u64,
    pub frames: Vec<Fr>,
    pub real_traps: bool,
    pub ignore_priv: bool,
    pub iregs: BTreeMap<u16, IReg>,
    pub kb: Option<Kb>,
    pub ds: Option<Ds>,
    pub devs: Vec<Scripted>,
    /// Port -> index in `devs`.
    pub ports: BTreeMap<u16, usize>,
    pub subs: BTreeMap<u16, Sig>,
    // about the last step
    pub reads: Vec<u16>,
    pub writes: Vec<(u16, u16, u16)>,
    /// Words changed as a side effect of I/O reads.
    pub mirrored: Vec<u16>,
    pub did: Did,
    /// Address of the instruction the last step dealt with.
    pub at: u16,
    /// Whether an instruction completed.
    pub completed: bool,
    /// The step did something the ISA leaves open: RTI popped a PSR that is not a PSR value, or an
    /// entry pushed onto I/O addresses.
    pub odd: bool,
}
pub const PSR_MASK: u16 = 0x8707;
pub fn canon_psr(v: u16) -> u16 {
    let m = v & PSR_MASK;
    match m & 7 {
        1 | 2 | 4 => m,
        _ => (m & !7) | 2,
    }
}
impl RefSim {
    pub fn new() -> Self {
        RefSim {
            mem: vec![0; 65536],
            regs: [0; 8],
            pc: 0x3000,
            psr: 0x8002,
            saved_sp: 0x3000,
            mcr: false,
            depth: 0,
            frames: vec![],
            real_traps: false,
            ignore_priv: false,
            iregs: [(0xFFFC, IReg::Psr), (0xFFFE, IReg::Mcr)].into_iter().collect(),
            kb: None,
            ds: None,
            devs: vec![],
            ports: BTreeMap::new(),
            subs: BTreeMap::new(),
            reads: vec![],
            writes: vec![],
            mirrored: vec![],
            did: Did::Nothing,
            at: 0,
            completed: false,
            odd: false,
        }
    }
    pub fn user(&self) -> bool {
        self.psr & 0x8000 != 0
    }
    pub fn prio(&self) -> u8 {
        (self.psr >> 8) as u8 & 7
    }
    fn may(&self, a: u16) -> bool {
        !self.user() || self.ignore_priv || (0x3000..0xFE00).contains(&a)
    }
    fn io_read(&mut self, a: u16) -> Option<u16> {
        match a {
            0xFE00 | 0xFE02 => self.kb.as_mut()?.read(a, true),
            0xFE04 | 0xFE06 => self.ds.as_mut()?.read(a, true),
            _ => {
                let d = *self.ports.get(&a)?;
                self.devs[d].read(a, true)
            }
        }
    }
    fn io_write(&mut self, a: u16, v: u16) -> bool {
        match a {
            0xFE00 | 0xFE02 => self.kb.as_mut().is_some_and(|k| k.write(a, v)),
            0xFE04 | 0xFE06 => self.ds.as_mut().is_some_and(|k| k.write(a, v)),
            _ => match self.ports.get(&a) {
                Some(&d) => self.devs[d].write(a, v),
                None => false,
            },
        }
    }
    fn read(&mut self, a: u16) -> Result<u16, Fault> {
        if !self.may(a) {
            return Err(Fault::Acv);
        }
        if a >= 0xFE00 {
            let v = match self.iregs.get(&a) {
                Some(IReg::Pc) => Some(self.pc),
                Some(IReg::Psr) => Some(self.psr),
                Some(IReg::Mcr) => Some(if self.mcr { 0x8000 } else { 0 }),
                Some(IReg::SavedSp) => Some(self.saved_sp),
                None => self.io_read(a),
            };
            if let Some(v) = v {
                self.mem[a as usize] = v;
                self.mirrored.push(a);
            }
        }
        self.reads.push(a);
        Ok(self.mem[a as usize])
    }
    fn write(&mut self, a: u16, v: u16) -> Result<(), Fault> {
        if !self.may(a) {
            return Err(Fault::Acv);
        }
        let mut ok = true;
        if a >= 0xFE00 {
            match self.iregs.get(&a) {
                Some(IReg::Pc) => self.pc = v,
                Some(IReg::Psr) => self.psr = canon_psr(v),
                Some(IReg::Mcr) => self.mcr = v & 0x8000 != 0,
                Some(IReg::SavedSp) => self.saved_sp = v,
                None => ok = self.io_write(a, v),
            }
        }
        if ok {
            self.writes.push((a, self.mem[a as usize], v));
            self.mem[a as usize] = v;
        }
        Ok(())
    }
    fn set_reg(&mut self, r: u8, v: u16) {
        self.regs[r as usize] = v;
        let cc = if v == 0 { 2 } else if v >= 0x8000 { 4 } else { 1 };
        self.psr = (self.psr & !7) | cc;
    }
    fn push(&mut self, callee: u16, kind: FrKind) {
        self.depth += 1;
        let sig = match kind {
            FrKind::Trap => match callee {
                0x21 | 0x22 | 0x24 => Some(Sig::Regs(vec![0])),
                0x20 | 0x23 | 0x25 => Some(Sig::Regs(vec![])),
                _ => None,
            },
            _ => self.subs.get(&callee).cloned(),
        };
        let (args, fp) = match sig {
            None => (vec![], None),
            Some(Sig::Regs(v)) => (v.iter().map(|r| self.regs[*r as usize]).collect(), None),
            Some(Sig::Stack(n)) => {
                let sp = self.regs[6];
                ((0..n).map(|i| self.mem[sp.wrapping_add(i as u16) as usize]).collect(), Some(sp.wrapping_sub(4)))
            }
        };
        self.frames.push(Fr { caller: self.at, callee, kind, args, fp });
    }
    fn pop(&mut self) {
        self.depth = self.depth.saturating_sub(1);
        self.frames.pop();
    }
    fn enter(&mut self, vect: u16, prio: Option<u8>) -> Result<(), Fault> {
        let (psr, pc) = (self.psr, self.pc);
        if self.user() {
            std::mem::swap(&mut self.saved_sp, &mut self.regs[6]);
        }
        self.psr &= 0x7FFF;
        let sp = self.regs[6];
        self.regs[6] = sp.wrapping_sub(2);
        self.odd |= sp.wrapping_sub(1) >= 0xFE00 || sp.wrapping_sub(2) >= 0xFE00;
        self.write(sp.wrapping_sub(1), psr)?;
        self.write(sp.wrapping_sub(2), pc)?;
        self.psr = (self.psr & !7) | 2;
        if let Some(p) = prio {
            self.psr = (self.psr & !0x0700) | ((p as u16) << 8);
        }
        let a = self.read(vect)?;
        self.push(vect, if prio.is_some() { FrKind::Int } else { FrKind::Trap });
        self.pc = a;
        Ok(())
    }
    /// Polls every device and returns the winning request.
    fn poll(&mut self) -> Option<Int> {
        let mut all = vec![];
        if let Some(k) = &mut self.kb {
            all.extend(k.poll());
        }
        for d in &mut self.devs {
            all.extend(d.poll());
        }
        if all.contains(&Int::Ext) {
            return Some(Int::Ext);
        }
        all.into_iter().max_by_key(|i| match i {
            Int::Vect(_, p) => *p,
            Int::Ext => 8,
        })
    }
    pub fn step(&mut self) -> Out {
        self.reads.clear();
        self.writes.clear();
        self.mirrored.clear();
        self.did = Did::Nothing;
        self.completed = false;
        self.odd = false;
        self.at = self.pc;
        match self.inner() {
            Ok(o) => o,
            Err(f) => {
                self.did = Did::Exception(f);
                if self.real_traps {
                    match self.enter(f.vector(), None) {
                        Ok(()) => Out::Ok,
                        Err(f) => Out::Fault(f),
                    }
                } else {
                    Out::Fault(f)
                }
            }
        }
    }
    fn inner(&mut self) -> Result<Out, Fault> {
        match self.poll() {
            Some(Int::Ext) => return Ok(Out::External),
            Some(Int::Vect(v, p)) if p > self.prio() => {
                self.did = Did::Interrupt(v, p);
                self.enter(0x100 + v as u16, Some(p))?;
                return Ok(Out::Ok);
            }
            _ => {}
        }
        let w = self.read(self.pc)?;
        let op = decode(w)?;
        self.pc = self.pc.wrapping_add(1);
        self.did = Did::Instr(op);
        let rel = |s: &Self, o: i16| s.pc.wrapping_add(o as u16);
        let val = |s: &Self, x: S2| match x {
            S2::R(r) => s.regs[r as usize],
            S2::I(i) => i as u16,
        };
        match op {
            Op::Br(cc, o) => {
                if (cc as u16) & self.psr & 7 != 0 {
                    self.pc = rel(self, o);
                }
            }
            Op::Add(d, a, b) => {
                let v = self.regs[a as usize].wrapping_add(val(self, b));
                self.set_reg(d, v);
            }
            Op::And(d, a, b) => {
                let v = self.regs[a as usize] & val(self, b);
                self.set_reg(d, v);
            }
            Op::Not(d, a) => self.set_reg(d, !self.regs[a as usize]),
            Op::Ld(d, o) => {
                let v = self.read(rel(self, o))?;
                self.set_reg(d, v);
            }
            Op::Ldi(d, o) => {
                let p = self.read(rel(self, o))?;
                let v = self.read(p)?;
                self.set_reg(d, v);
            }
            Op::Ldr(d, b, o) => {
                let v = self.read(self.regs[b as usize].wrapping_add(o as u16))?;
                self.set_reg(d, v);
            }
            Op::Lea(d, o) => self.regs[d as usize] = rel(self, o),
            Op::St(s, o) => self.write(rel(self, o), self.regs[s as usize])?,
            Op::Sti(s, o) => {
                let p = self.read(rel(self, o))?;
                self.write(p, self.regs[s as usize])?;
            }
            Op::Str(s, b, o) => self.write(self.regs[b as usize].wrapping_add(o as u16), self.regs[s as usize])?,
            Op::Jsr(_) | Op::Jsrr(_) => {
                let t = match op {
                    Op::Jsr(o) => rel(self, o),
                    Op::Jsrr(b) => self.regs[b as usize],
                    _ => unreachable!(),
                };
                self.regs[7] = self.pc;
                self.push(t, FrKind::Sub);
                self.pc = t;
            }
            Op::Jmp(b) => {
                self.pc = self.regs[b as usize];
                if b == 7 {
                    self.pop();
                }
            }
            Op::Rti => {
                if self.user() && !self.ignore_priv {
                    return Err(Fault::Priv);
                }
                let sp = self.regs[6];
                let pc = self.read(sp)?;
                let psr = self.read(sp.wrapping_add(1))?;
                self.regs[6] = sp.wrapping_add(2);
                self.pc = pc;
                self.odd |= canon_psr(psr) != psr;
                self.psr = psr;
                if self.user() {
                    std::mem::swap(&mut self.saved_sp, &mut self.regs[6]);
                }
                self.pop();
            }
            Op::Trap(0x25) if !self.real_traps => {
                self.pc = self.at;
                return Ok(Out::Halt);
            }
            Op::Trap(v) => self.enter(v as u16, None)?,
        }
        self.completed = true;
        Ok(Out::Ok)
    }
}
impl Default for RefSim {
    fn default() -> Self {
        Self::new()
    }
}
