//! Access to simulator state, devices, and random machine states.
use crate::refsim::*;
use crate::rng::Rng;
use lc3_ensemble::ast::Reg;
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, Interrupt};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimErr, SimFlags, Simulator};
use std::collections::VecDeque;
use std::sync::{Arc, RwLock};

pub const REGS: [Reg; 8] = [Reg::R0, Reg::R1, Reg::R2, Reg::R3, Reg::R4, Reg::R5, Reg::R6, Reg::R7];
pub fn reg(n: u8) -> Reg {
    REGS[n as usize]
}
/// Host access that leaves no trace.
pub fn host() -> MemAccessCtx {
    MemAccessCtx { privileged: true, strict: false, io_effects: false, track_access: false }
}
fn with_port<T>(sim: &mut Simulator, r: InternalRegister, f: impl FnOnce(&mut Simulator, u16) -> T) -> T {
    let p = (0xFEF0..0xFF00).find(|p| sim.mmap_internal(*p, r).is_ok()).expect("free port");
    let old = sim.mem[p];
    let v = f(sim, p);
    sim.mem[p] = old;
    assert!(sim.munmap_internal(p));
    v
}
/// Sets the PSR (as a write to its port would).
pub fn set_psr(sim: &mut Simulator, v: u16) {
    with_port(sim, InternalRegister::PSR, |s, p| s.write_mem(p, Word::new_init(v), host()).expect("PSR write"))
}
pub fn saved_sp(sim: &mut Simulator) -> u16 {
    with_port(sim, InternalRegister::SavedSP, |s, p| s.read_mem(p, host()).expect("saved sp").get())
}
pub fn set_saved_sp(sim: &mut Simulator, v: u16) {
    with_port(sim, InternalRegister::SavedSP, |s, p| s.write_mem(p, Word::new_init(v), host()).expect("saved sp"))
}
pub fn mcr(sim: &Simulator) -> bool {
    sim.mcr().load(std::sync::atomic::Ordering::Relaxed)
}
pub fn set_mcr(sim: &Simulator, v: bool) {
    sim.mcr().store(v, std::sync::atomic::Ordering::Relaxed)
}
pub fn regs(sim: &Simulator) -> [u16; 8] {
    std::array::from_fn(|i| sim.reg_file[REGS[i]].get())
}
pub fn set_regs(sim: &mut Simulator, v: [u16; 8]) {
    for i in 0..8 {
        sim.reg_file[REGS[i]] = Word::new_init(v[i]);
    }
}
pub fn ireg(r: IReg) -> InternalRegister {
    match r {
        IReg::Pc => InternalRegister::PC,
        IReg::Psr => InternalRegister::PSR,
        IReg::Mcr => InternalRegister::MCR,
        IReg::SavedSp => InternalRegister::SavedSP,
    }
}

#[derive(Debug)]
pub struct HostErr;
impl std::fmt::Display for HostErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("host interrupt")
    }
}
impl std::error::Error for HostErr {}

/// A model device attached to the real simulator.
pub struct Real<D>(pub D);
impl<D: Dev + 'static> ExternalDevice for Real<D> {
    fn io_read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        self.0.read(addr, effectful)
    }
    fn io_write(&mut self, addr: u16, data: u16) -> bool {
        self.0.write(addr, data)
    }
    fn io_reset(&mut self) {
        self.0.reset()
    }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        self.0.poll().map(|i| match i {
            Int::Vect(v, p) => Interrupt::vectored(v, p),
            Int::Ext => Interrupt::external(HostErr),
        })
    }
}
/// Stops `run` after a number of polls, from the host's side.
pub fn fuse(polls: u64) -> impl ExternalDevice {
    struct Fuse(u64);
    impl ExternalDevice for Fuse {
        fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
            None
        }
        fn io_write(&mut self, _: u16, _: u16) -> bool {
            false
        }
        fn io_reset(&mut self) {}
        fn poll_interrupt(&mut self) -> Option<Interrupt> {
            if self.0 == 0 {
                return Some(Interrupt::external(HostErr));
            }
            self.0 -= 1;
            None
        }
    }
    Fuse(polls)
}
pub fn add<D: ExternalDevice>(sim: &mut Simulator, d: D, ports: &[u16]) -> Option<u16> {
    sim.device_handler.add_device(d, ports).ok()
}

pub type KbBuf = Arc<RwLock<VecDeque<u8>>>;
pub type DsBuf = Arc<RwLock<Vec<u8>>>;
pub fn keyboard(sim: &mut Simulator, input: &[u8]) -> KbBuf {
    let b: KbBuf = Arc::new(RwLock::new(input.iter().copied().collect()));
    sim.device_handler.set_keyboard(BufferedKeyboard::new(b.clone()));
    b
}
pub fn display(sim: &mut Simulator) -> DsBuf {
    let b: DsBuf = Arc::new(RwLock::new(vec![]));
    sim.device_handler.set_display(BufferedDisplay::new(b.clone()));
    b
}

pub fn flags(strict: bool, real: bool, frames: bool, ignore: bool, init: MachineInitStrategy) -> SimFlags {
    SimFlags { strict, use_real_traps: real, machine_init: init, debug_frames: frames, ignore_privilege: ignore }
}

/// Kind of a simulator error.
pub fn err_kind(e: &SimErr) -> &'static str {
    match e {
        SimErr::IllegalOpcode => "illegal opcode",
        SimErr::InvalidInstrFormat => "invalid format",
        SimErr::PrivilegeViolation => "privilege",
        SimErr::AccessViolation => "access",
        SimErr::UnresolvedExternal(_) => "unresolved external",
        SimErr::Interrupt(_) => "interrupt",
        SimErr::StrictRegSetUninit => "strict reg set",
        SimErr::StrictMemSetUninit => "strict mem set",
        SimErr::StrictIOSetUninit => "strict io set",
        SimErr::StrictJmpAddrUninit => "strict jmp addr",
        SimErr::StrictSRAddrUninit => "strict sr addr",
        SimErr::StrictMemAddrUninit => "strict mem addr",
        SimErr::StrictPCCurrUninit => "strict pc curr",
        SimErr::StrictPCNextUninit => "strict pc next",
        SimErr::StrictPSRSetUninit => "strict psr set",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}
pub fn is_strict_err(e: &SimErr) -> bool {
    err_kind(e).starts_with("strict")
}
pub fn fault_of(e: &SimErr) -> Option<Fault> {
    Some(match e {
        SimErr::IllegalOpcode => Fault::IllOp,
        SimErr::InvalidInstrFormat => Fault::InvFmt,
        SimErr::PrivilegeViolation => Fault::Priv,
        SimErr::AccessViolation => Fault::Acv,
        _ => return None,
    })
}

/// Registers, PC, PSR, saved SP and memory of a simulator, to compare machines.
#[derive(Clone, PartialEq, Eq)]
pub struct Snap {
    pub regs: [u16; 8],
    pub pc: u16,
    pub psr: u16,
    pub saved_sp: u16,
    pub mem: Vec<u16>,
}
pub fn snap(sim: &mut Simulator) -> Snap {
    Snap {
        regs: regs(sim),
        pc: sim.pc,
        psr: sim.psr().get(),
        saved_sp: saved_sp(sim),
        mem: (0..=0xFFFFu16).map(|a| sim.mem[a].get()).collect(),
    }
}
impl Snap {
    /// First difference.
    pub fn diff(&self, o: &Snap) -> Option<String> {
        for i in 0..8 {
            if self.regs[i] != o.regs[i] {
                return Some(format!("R{i}: x{:04X} vs x{:04X}", self.regs[i], o.regs[i]));
            }
        }
        if self.pc != o.pc {
            return Some(format!("PC: x{:04X} vs x{:04X}", self.pc, o.pc));
        }
        if self.psr != o.psr {
            return Some(format!("PSR: x{:04X} vs x{:04X}", self.psr, o.psr));
        }
        if self.saved_sp != o.saved_sp {
            return Some(format!("saved SP: x{:04X} vs x{:04X}", self.saved_sp, o.saved_sp));
        }
        for a in 0..65536 {
            if self.mem[a] != o.mem[a] {
                return Some(format!("mem[x{a:04X}]: x{:04X} vs x{:04X}", self.mem[a], o.mem[a]));
            }
        }
        None
    }
}

/// A machine state to start from.
#[derive(Clone, Debug)]
pub struct State {
    pub flags_real: bool,
    pub flags_ignore: bool,
    pub frames: bool,
    pub init: MachineInitStrategy,
    pub patches: Vec<(u16, u16)>,
    pub regs: [u16; 8],
    pub pc: u16,
    pub psr: u16,
    pub saved_sp: u16,
    pub mcr: bool,
    pub kb: Option<Vec<u8>>,
    pub ds: bool,
    pub devs: Vec<DevSpec>,
    pub iregs: Vec<(u16, IReg)>,
    /// Unmap the default register ports.
    pub unmap: Vec<u16>,
    pub subs: Vec<(u16, Sig)>,
}
#[derive(Clone, Debug)]
pub struct DevSpec {
    pub seed: u64,
    pub rate: u64,
    pub prios: Vec<u8>,
    pub vects: (u8, u8),
    pub ext: bool,
    pub ports: Vec<u16>,
}
/// A real simulator and its model, in the same state.
pub struct Pair {
    pub sim: Simulator,
    pub m: RefSim,
    pub kb: Option<KbBuf>,
    pub ds: Option<DsBuf>,
    pub logs: Vec<Log>,
}
pub fn make_sim(st: &State, strict: bool) -> (Simulator, Option<KbBuf>, Option<DsBuf>, Vec<Scripted>) {
    let mut sim = Simulator::new(flags(strict, st.flags_real, st.frames, st.flags_ignore, st.init));
    for &(a, w) in &st.patches {
        sim.mem[a] = Word::new_init(w);
    }
    set_regs(&mut sim, st.regs);
    sim.pc = st.pc;
    set_psr(&mut sim, st.psr);
    set_saved_sp(&mut sim, st.saved_sp);
    set_mcr(&sim, st.mcr);
    let kb = st.kb.as_ref().map(|v| keyboard(&mut sim, v));
    let ds = st.ds.then(|| display(&mut sim));
    let mut devs = vec![];
    for d in &st.devs {
        let mut s = Scripted::new(d.seed);
        s.rate = d.rate;
        s.prios = d.prios.clone();
        s.vects = d.vects;
        s.ext = d.ext;
        let id = add(&mut sim, Real(s.clone()), &d.ports);
        assert!(id.is_some(), "harness: device ports clash");
        devs.push(s);
    }
    for a in &st.unmap {
        sim.munmap_internal(*a);
    }
    for &(a, r) in &st.iregs {
        sim.mmap_internal(a, ireg(r)).expect("harness: ireg clash");
    }
    for (a, s) in &st.subs {
        sim.frame_stack.set_subroutine_def(*a, plist(s));
    }
    (sim, kb, ds, devs)
}
pub fn plist(s: &Sig) -> lc3_ensemble::sim::frame::ParameterList {
    use lc3_ensemble::sim::frame::ParameterList as P;
    match s {
        Sig::Stack(n) => P::with_calling_convention(&vec!["a"; *n]),
        Sig::Regs(v) => {
            let v: Vec<(&str, Reg)> = v.iter().map(|r| ("p", reg(*r))).collect();
            P::with_pass_by_register(&v, None)
        }
    }
}
pub fn pair(st: &State) -> Pair {
    let (mut sim, kb, ds, devs) = make_sim(st, false);
    let mut m = RefSim::new();
    for a in 0..=0xFFFFu16 {
        m.mem[a as usize] = sim.mem[a].get();
    }
    m.regs = st.regs;
    m.pc = st.pc;
    m.psr = canon_psr(st.psr);
    m.saved_sp = st.saved_sp;
    m.mcr = st.mcr;
    m.real_traps = st.flags_real;
    m.ignore_priv = st.flags_ignore;
    m.kb = st.kb.as_ref().map(|v| Kb { q: v.iter().copied().collect(), ie: false });
    m.ds = st.ds.then(Ds::default);
    let mut logs = vec![];
    for (i, d) in devs.iter().enumerate() {
        logs.push(d.log.clone());
        m.devs.push(d.twin());
        for p in &st.devs[i].ports {
            m.ports.insert(*p, i);
        }
    }
    for a in &st.unmap {
        m.iregs.remove(a);
    }
    for &(a, r) in &st.iregs {
        m.iregs.insert(a, r);
    }
    m.subs = st.subs.iter().cloned().collect();
    debug_assert_eq!(sim.psr().get(), m.psr);
    let _ = &mut sim;
    Pair { sim, m, kb, ds, logs }
}
impl Pair {
    /// Compares everything but untouched memory.
    pub fn diff_step(&mut self) -> Option<String> {
        let m = &self.m;
        let s = &mut self.sim;
        for i in 0..8 {
            let v = s.reg_file[REGS[i]].get();
            if v != m.regs[i] {
                return Some(format!("R{i} is x{v:04X}, expected x{:04X}", m.regs[i]));
            }
        }
        if s.pc != m.pc {
            return Some(format!("PC is x{:04X}, expected x{:04X}", s.pc, m.pc));
        }
        if s.psr().get() != m.psr {
            return Some(format!("PSR is x{:04X}, expected x{:04X}", s.psr().get(), m.psr));
        }
        let sp = saved_sp(s);
        if sp != m.saved_sp {
            return Some(format!("saved SP is x{sp:04X}, expected x{:04X}", m.saved_sp));
        }
        if mcr(s) != m.mcr {
            return Some(format!("MCR is {}, expected {}", mcr(s), m.mcr));
        }
        for a in m.reads.iter().chain(m.writes.iter().map(|w| &w.0)).chain(&m.mirrored) {
            let v = s.mem[*a].get();
            if v != m.mem[*a as usize] {
                return Some(format!("mem[x{a:04X}] is x{v:04X}, expected x{:04X}", m.mem[*a as usize]));
            }
        }
        if let (Some(k), Some(q)) = (&m.kb, &self.kb) {
            if *q.read().unwrap() != k.q {
                return Some(format!("keyboard queue is {:?}, expected {:?}", q.read().unwrap(), k.q));
            }
        }
        if let (Some(d), Some(o)) = (&m.ds, &self.ds) {
            if *o.read().unwrap() != d.out {
                return Some(format!("display is {:?}, expected {:?}", o.read().unwrap(), d.out));
            }
        }
        for (i, l) in self.logs.iter().enumerate() {
            let (a, b) = (l.lock().unwrap(), m.devs[i].log.lock().unwrap());
            if *a != *b {
                let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
                return Some(format!("device {i} saw {:?}, expected {:?}", a.get(k), b.get(k)));
            }
        }
        None
    }
    /// Moves both machines elsewhere: another PC, register, and often another mode.
    pub fn kick(&mut self, r: &mut Rng, st: &State) {
        let pc = st.pc.wrapping_add(r.below(50) as u16);
        self.sim.pc = pc;
        self.m.pc = pc;
        let (q, v) = (r.below(8), if r.pct(40) { edge(r) } else { st.pc.wrapping_add(r.below(400) as u16) });
        self.sim.reg_file[REGS[q]] = Word::new_init(v);
        self.m.regs[q] = v;
        let user = (0x3000..0xFE00).contains(&pc) && r.pct(85);
        if user == !self.m.user() {
            let psr = (self.m.psr ^ 0x8000) & if r.pct(70) { 0x80FF } else { 0xFFFF };
            set_psr(&mut self.sim, psr);
            self.m.psr = psr;
        }
    }
    pub fn diff_mem(&self) -> Option<String> {
        for a in 0..=0xFFFFu16 {
            let v = self.sim.mem[a].get();
            if v != self.m.mem[a as usize] {
                return Some(format!("mem[x{a:04X}] is x{v:04X}, expected x{:04X} (untouched by this step)", self.m.mem[a as usize]));
            }
        }
        None
    }
}

/// Makes the machine strict, with most of memory initialised and some words and registers not.
pub fn partly_initialised(p: &mut Pair, r: &mut Rng, st: &State) {
    let every = 2 + r.below(12);
    for a in 0..=0xFFFFu16 {
        let code = a.wrapping_sub(st.pc) < 64;
        if a >= 0xFE00 || (code && r.pct(97)) || r.below(every) != 0 {
            let w = p.sim.mem[a].get();
            p.sim.mem[a] = w.into();
        } else {
            p.sim.mem[a].clear_init();
        }
    }
    for q in REGS {
        if r.pct(20) {
            p.sim.reg_file[q].clear_init();
        }
    }
    p.sim.flags.strict = true;
}

// ---------------------------------------------------------------- random states

pub const EDGES: [u16; 30] = [
    0x0000, 0x0001, 0x0002, 0x0020, 0x0025, 0x0100, 0x0101, 0x0102, 0x01FF, 0x0200, 0x2FFE, 0x2FFF, 0x3000, 0x3001,
    0x7FFF, 0x8000, 0xFDFE, 0xFDFF, 0xFE00, 0xFE01, 0xFE02, 0xFE04, 0xFE06, 0xFE08, 0xFE10, 0xFFFC, 0xFFFD, 0xFFFE,
    0xFFFF, 0x01FE,
];
pub fn edge(r: &mut Rng) -> u16 {
    let e = *r.pick(&EDGES);
    if r.pct(30) { e.wrapping_add(r.below(9) as u16).wrapping_sub(4) } else { e }
}
/// A canonical instruction word with small offsets, biased to all opcodes.
pub fn instr_word(r: &mut Rng) -> u16 {
    let (a, b, c) = (r.reg() as u16, r.reg() as u16, r.reg() as u16);
    let off = |r: &mut Rng, n: u32| -> u16 {
        let lim = 1i64 << (n - 1);
        let v = match r.below(5) {
            0 => r.range(-lim, lim - 1),
            _ => r.range(-(lim.min(12)), lim.min(12) - 1),
        };
        (v as u16) & ((1u32 << n) - 1) as u16
    };
    match r.below(22) {
        0 => (a << 9) | off(r, 9),
        1 => 0x1000 | (a << 9) | (b << 6) | c,
        2 => 0x1020 | (a << 9) | (b << 6) | off(r, 5),
        3 => 0x5000 | (a << 9) | (b << 6) | c,
        4 => 0x5020 | (a << 9) | (b << 6) | off(r, 5),
        5 => 0x903F | (a << 9) | (b << 6),
        6 => 0x2000 | (a << 9) | off(r, 9),
        7 => 0x3000 | (a << 9) | off(r, 9),
        8 => 0xA000 | (a << 9) | off(r, 9),
        9 => 0xB000 | (a << 9) | off(r, 9),
        10 | 11 => 0x6000 | (a << 9) | (b << 6) | off(r, 6),
        12 | 13 => 0x7000 | (a << 9) | (b << 6) | off(r, 6),
        14 => 0xE000 | (a << 9) | off(r, 9),
        15 => 0x4800 | off(r, 11),
        16 => 0x4000 | (b << 6),
        17 => 0xC000 | (b << 6),
        18 => 0xC1C0,
        19 => 0xF000 | match r.below(3) { 0 => r.below(256) as u16, 1 => 0x20 + r.below(6) as u16, _ => 0x40 + r.below(8) as u16 },
        20 => 0x8000,
        _ => 0x1020 | (a << 9) | (a << 6) | off(r, 5),
    }
}
/// One bit away from canonical, reserved, or anything.
pub fn hostile_word(r: &mut Rng) -> u16 {
    match r.below(4) {
        0 => instr_word(r) ^ (1 << r.below(16)),
        1 => 0xD000 | r.u16() & 0xFFF,
        2 => r.u16(),
        _ => instr_word(r),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Everything random.
    Wild,
    /// Valid instructions in user space, handlers in the supervisor space, sane stacks.
    Sane,
    /// Sane with hostile registers and pointers.
    Mixed,
}
/// A random machine state. `devices` attaches scripted devices with interrupts.
pub fn state(r: &mut Rng, kind: Kind, devices: bool) -> State {
    let init = match (kind, r.below(3)) {
        (Kind::Wild, 0 | 1) => MachineInitStrategy::Seeded { seed: r.next() },
        _ => MachineInitStrategy::Known { value: if r.pct(50) { 0 } else { r.u16() } },
    };
    let mut patches = vec![];
    let sup = r.pct(if kind == Kind::Sane { 20 } else { 35 });
    // Code areas
    let user_pc = match r.below(8) {
        0 => 0x3000 + r.below(4) as u16,
        1 => 0xFDF0 + r.below(16) as u16,
        _ => 0x3000 + r.below(0xCC00) as u16,
    };
    let pc = match (kind, sup) {
        (Kind::Wild, _) if r.pct(30) => edge(r),
        (Kind::Wild, _) if r.pct(20) => r.u16(),
        (Kind::Mixed, _) if r.pct(5) => edge(r),
        (_, true) if r.pct(60) => 0x0400 + r.below(0x2000) as u16,
        _ => user_pc,
    };
    let code_len = 40 + r.below(60) as u16;
    let code = pc.wrapping_sub(r.below(30) as u16);
    for i in 0..code_len {
        let a = code.wrapping_add(i);
        let w = if kind == Kind::Wild || (kind == Kind::Mixed && r.pct(4)) { hostile_word(r) } else { instr_word(r) };
        if kind == Kind::Sane && a >= 0xFE00 {
            continue;
        }
        patches.push((a, w));
    }
    // Pointer words and data near the code.
    let data = user_pc.wrapping_add(0x100) & !0xF;
    let ptr = |r: &mut Rng| -> u16 {
        match (kind, r.below(8)) {
            (Kind::Wild | Kind::Mixed, 0 | 1) => edge(r),
            (Kind::Wild, 2) => r.u16(),
            (_, 3) => *r.pick(&[0xFE00, 0xFE02, 0xFE04, 0xFE06, 0xFE10, 0xFE20, 0xFFFC, 0xFFFE]),
            (_, 4) => code.wrapping_add(r.below(40) as u16),
            _ => data.wrapping_add(r.below(48) as u16),
        }
    };
    for i in 0..12u16 {
        // sprinkle pointers inside the code, for LDI/STI
        let a = code.wrapping_add(code_len).wrapping_add(i);
        let v = ptr(r);
        patches.push((a, v));
        if r.pct(30) {
            let a = code.wrapping_add(r.below(code_len as usize) as u16);
            let v = ptr(r);
            patches.push((a, v));
        }
    }
    for i in 0..32u16 {
        let v = if r.pct(30) { ptr(r) } else { r.u16() };
        patches.push((data.wrapping_add(i), v));
    }
    // Handlers for traps x40-x47, exceptions (sometimes) and interrupts.
    let mut h = 0x1000u16;
    let mut handler = |r: &mut Rng, patches: &mut Vec<(u16, u16)>| -> u16 {
        let at = h;
        let n = r.below(6);
        for _ in 0..n {
            let mut w = instr_word(r);
            if w >> 12 == 0x8 || w >> 12 == 0xC || w >> 12 == 0 {
                w = 0x5020;
            }
            patches.push((h, w));
            h += 1;
        }
        patches.push((h, 0x8000));
        h += 1;
        at
    };
    for v in 0x40..0x48u16 {
        let a = handler(r, &mut patches);
        patches.push((v, a));
    }
    if r.pct(50) {
        for v in [0x100, 0x101, 0x102] {
            let a = handler(r, &mut patches);
            patches.push((v, a));
        }
    }
    for _ in 0..6 {
        let v = 0x180 + r.below(16) as u16;
        let a = handler(r, &mut patches);
        patches.push((v, a));
    }
    if kind == Kind::Wild && r.pct(20) {
        let v = r.below(0x200) as u16;
        let w = edge(r);
        patches.push((v, w));
    }
    let mut regs: [u16; 8] = std::array::from_fn(|_| 0);
    for x in &mut regs {
        *x = match r.below(4) {
            0 => r.u16(),
            1 => *r.pick(&[0, 1, 0xFFFF, 0x7FFF, 0x8000]),
            _ => ptr(r),
        };
    }
    let ssp = match (kind, r.below(6)) {
        (Kind::Wild, 0 | 1) | (Kind::Mixed, 0) => edge(r),
        (_, 2) => 0x3000,
        _ => 0x2000 + r.below(0xF00) as u16,
    };
    let usp = match (kind, r.below(6)) {
        (Kind::Wild, 0 | 1) | (Kind::Mixed, 0) => edge(r),
        _ => 0xF000 + r.below(0xE00) as u16,
    };
    let prio = r.below(8) as u16;
    let prio = if r.pct(50) { 0 } else { prio };
    let psr = (if sup { 0 } else { 0x8000 }) | (prio << 8) | *r.pick(&[1, 2, 4]);
    let saved_sp;
    if sup {
        regs[6] = ssp;
        saved_sp = usp;
        // something to RTI to
        let to = match r.below(4) {
            0 => edge(r),
            1 => code,
            _ => user_pc,
        };
        let p = if r.pct(60) { 0x8000 } else { 0 } | ((r.below(8) as u16) << 8) | *r.pick(&[1, 2, 4]);
        if kind == Kind::Wild || ssp < 0xFD00 {
            patches.push((ssp, to));
            patches.push((ssp.wrapping_add(1), p));
        }
    } else {
        regs[6] = usp;
        saved_sp = ssp;
    }
    let kb = r.pct(80).then(|| (0..r.below(6)).map(|_| r.u8()).collect());
    let mut devs = vec![];
    if devices {
        // Priorities never tie with each other or with the keyboard (4).
        let prios: [&[u8]; 3] = [&[0, 1, 5], &[2, 6], &[3, 7]];
        let n = r.below(4);
        for (i, p) in prios.iter().enumerate().take(n) {
            let base = 0xFE10 + 0x10 * i as u16;
            devs.push(DevSpec {
                seed: r.next(),
                rate: *r.pick(&[0, 0, 1, 2, 4, 8, 16]),
                prios: p.to_vec(),
                vects: *r.pick(&[(0x80, 0x8F), (0x00, 0x03), (0x00, 0xFF)]),
                ext: false,
                ports: (0..1 + r.below(4) as u16).map(|k| base + k).collect(),
            });
        }
        if r.pct(5) {
            devs = vec![DevSpec { seed: r.next(), rate: 20, prios: vec![0], vects: (0, 0), ext: true, ports: vec![0xFE10] }];
        }
    }
    let mut iregs = vec![];
    let mut unmap = vec![];
    if r.pct(25) {
        for k in [IReg::Pc, IReg::Psr, IReg::Mcr, IReg::SavedSp] {
            if r.pct(40) {
                iregs.push((*r.pick(&[0xFE10, 0xFE00, 0xFE06, 0xFF00, 0xFE20, 0xFFFD]), k));
            }
        }
        iregs.sort_by_key(|x| x.0);
        iregs.dedup_by_key(|x| x.0);
        if r.pct(20) {
            unmap.push(0xFFFC);
        }
        if r.pct(20) {
            unmap.push(0xFFFE);
        }
    }
    let mut subs = vec![];
    if r.pct(40) {
        for _ in 0..12 {
            let a = if r.pct(20) { 0x180 + r.below(16) as u16 } else { code.wrapping_add(r.below(code_len as usize) as u16) };
            let s = if r.pct(50) { Sig::Stack(r.below(5)) } else { Sig::Regs((0..r.below(4)).map(|_| r.reg()).collect()) };
            subs.push((a, s));
        }
        subs.sort_by_key(|x| x.0);
        subs.dedup_by_key(|x| x.0);
    }
    State {
        flags_real: r.pct(50),
        flags_ignore: r.pct(15),
        frames: r.pct(70),
        init,
        patches,
        regs,
        pc,
        psr,
        saved_sp,
        mcr: r.pct(50),
        kb,
        ds: r.pct(80),
        devs,
        iregs,
        unmap,
        subs,
    }
}
/// Short description for reports.
pub fn show(st: &State) -> String {
    let mut s = format!("{st:04X?}");
    if s.len() > 6000 {
        s.truncate(6000);
    }
    s
}

/// Assembly source with exactly this image (`None`: reserved), one block per run of addresses.
/// Addresses from xFE00 are left out.
pub fn image_text(image: &std::collections::BTreeMap<u16, Option<u16>>) -> String {
    let mut t = String::new();
    let mut prev: Option<u16> = None;
    let mut res = 0u32;
    let flush = |t: &mut String, res: &mut u32| {
        if *res > 0 {
            t.push_str(&format!(".blkw {res}\n"));
            *res = 0;
        }
    };
    for (&a, &w) in image.range(..0xFE00) {
        if prev != Some(a.wrapping_sub(1)) || prev.is_none() {
            flush(&mut t, &mut res);
            if prev.is_some() {
                t.push_str(".end\n");
            }
            t.push_str(&format!(".orig x{a:04X}\n"));
        }
        match w {
            None => res += 1,
            Some(w) => {
                flush(&mut t, &mut res);
                t.push_str(&format!(".fill x{w:04X}\n"));
            }
        }
        prev = Some(a);
    }
    flush(&mut t, &mut res);
    if prev.is_some() {
        t.push_str(".end\n");
    }
    t
}
/// Assembles text without debug symbols.
pub fn obj_of(text: &str) -> Result<lc3_ensemble::asm::ObjectFile, String> {
    let ast = lc3_ensemble::parse::parse_ast(text).map_err(|e| format!("{e:?}"))?;
    lc3_ensemble::asm::assemble(ast).map_err(|e| format!("{e:?}"))
}
