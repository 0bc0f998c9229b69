//! No machine state makes the simulator panic.
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::TimerDevice;
use lc3_ensemble::sim::frame::ParameterList;
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimErr, SimFlags, Simulator};
use mon::simutil::*;
use mon::*;

const ERRS: &[&str] = &[
    "illegal opcode", "invalid format", "privilege", "access", "interrupt", "strict reg set", "strict mem set", "strict io set",
    "strict jmp addr", "strict sr addr", "strict mem addr", "strict pc curr", "strict pc next", "strict psr set",
];
/// Uses everything that a failed call reports.
fn query(sim: &mut Simulator, res: &Result<(), SimErr>) -> (u16, Option<&'static str>) {
    let a = sim.prefetch_pc();
    let _ = (sim.hit_halt(), sim.hit_breakpoint(), sim.default_mem_ctx());
    let kind = res.as_ref().err().map(|e| {
        let _ = (format!("{e}"), format!("{e:?}"));
        err_kind(e)
    });
    (a, kind)
}
fn look(sim: &mut Simulator) {
    let _ = format!("{:?} {:?} {:?}", sim.psr(), sim.frame_stack.len(), sim.frame_stack.frames().map(|f| f.last().cloned()));
    let _ = format!("{:?}", sim.reg_file);
    let _ = sim.observer.get_mem_accesses(sim.pc);
    let _: usize = sim.observer.take_mem_accesses().map(|x| x.1.modified() as usize).sum();
}
fn word(r: &mut Rng) -> u16 {
    match r.below(8) {
        0 => r.u16(),
        1 => edge(r),
        2 => hostile_word(r),
        3 => 0xF000 | r.u8() as u16,
        _ => instr_word(r),
    }
}
fn init(r: &mut Rng) -> MachineInitStrategy {
    match r.below(8) {
        0 => MachineInitStrategy::Known { value: 0 },
        1 | 2 => {
            let value = word(r);
            MachineInitStrategy::Known { value }
        }
        3 => MachineInitStrategy::Unseeded,
        _ => MachineInitStrategy::Seeded { seed: r.next() },
    }
}
fn rflags(r: &mut Rng) -> SimFlags {
    let (a, b, c, d, i) = (r.pct(30), r.pct(50), r.pct(50), r.pct(40), init(r));
    flags(a, b, c, d, i)
}
fn timer(r: &mut Rng) -> TimerDevice {
    let seed = r.pct(70).then(|| r.next());
    let lo = *r.pick(&[0u32, 0, 1, 2, 5, 50]);
    let (v, p) = (r.u8(), r.u8() & 7);
    let mut t = match r.below(6) {
        0 => TimerDevice::new(seed, .., v, p),
        1 => TimerDevice::new(seed, lo.., v, p),
        2 => TimerDevice::new(seed, ..lo + 1, v, p),
        3 => TimerDevice::new(seed, lo..=u32::MAX, v, p),
        4 => TimerDevice::new(seed, lo..=lo, v, p),
        _ => TimerDevice::new(seed, lo..lo + 1 + r.below(9) as u32, v, p),
    };
    t.enabled = r.pct(85);
    if r.pct(20) {
        t.set_exact(*r.pick(&[0, 1, 2, 7, u32::MAX]));
    }
    t
}
fn params(r: &mut Rng) -> ParameterList {
    let names = ["a"; 40];
    if r.pct(50) {
        ParameterList::with_calling_convention(&names[..r.below(40)])
    } else {
        let v: Vec<_> = (0..r.below(12)).map(|_| ("p", REGS[r.below(8)])).collect();
        ParameterList::with_pass_by_register(&v, Some(REGS[r.below(8)]))
    }
}
fn mess(r: &mut Rng, sim: &mut Simulator) {
    // memory and registers
    let density = *r.pick(&[0, 0, 1, 4, 100]);
    for a in 0..=0xFFFFu16 {
        if density == 100 || (density > 0 && r.pct(density)) {
            let w = word(r);
            sim.mem[a] = Word::new_init(w);
        }
    }
    for _ in 0..r.below(200) {
        let (a, w) = (edge(r), word(r));
        sim.mem[a] = Word::new_init(w);
    }
    for q in REGS {
        if r.pct(85) {
            let v = if r.pct(50) { edge(r) } else { r.u16() };
            sim.reg_file[q] = Word::new_init(v);
        }
    }
}
/// An object file with hostile blocks, also past xFFFF (as only a reader of files can make them).
fn forged(r: &mut Rng) -> Option<lc3_ensemble::asm::ObjectFile> {
    use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat};
    let mut b = b"obj\x21\x10\x00\x01".to_vec();
    for _ in 0..1 + r.below(4) {
        let at = match r.below(4) {
            0 => 0xFFFF - r.below(40) as u16,
            1 => edge(r),
            2 => r.below(4) as u16,
            _ => r.u16(),
        };
        let n = match r.below(8) {
            0 => 0,
            1 => (0x10000 - at as usize).min(0xFFFF),
            2 => r.below(0x10000),
            _ => r.below(60),
        };
        b.push(0);
        b.extend(at.to_le_bytes());
        b.extend((n as u16).to_le_bytes());
        for _ in 0..n {
            let w = word(r);
            b.extend(if r.pct(70) { [0xFF, w as u8, (w >> 8) as u8] } else { [0; 3] });
        }
    }
    BinaryFormat::deserialize(&b)
}
fn go(r: &mut Rng, l: &mut Local, calls: usize) {
    let f = rflags(r);
    let mut log = vec![format!("{f:?}")];
    let at = std::cell::Cell::new((0u16, 0u16));
    let out = guard(|| {
        let mut sim = Simulator::new(f);
        mess(r, &mut sim);
        let mut loaded = 0;
        if r.pct(30) {
            if let Some(o) = forged(r) {
                let _ = sim.load_obj_file(&o);
                loaded += 1;
            }
        }
        let kb = if r.pct(70) {
            let b: Vec<u8> = (0..r.below(20)).map(|_| r.u8()).collect();
            Some(keyboard(&mut sim, &b))
        } else {
            None
        };
        let ds = r.pct(70).then(|| display(&mut sim));
        for _ in 0..*r.pick(&[0, 0, 1, 2, 5]) {
            let t = timer(r);
            log.push(format!("timer {t:?}"));
            let ports: Vec<u16> = if r.pct(30) { vec![0xFE10 + r.below(16) as u16] } else { vec![] };
            add(&mut sim, t, &ports);
        }
        if r.pct(30) {
            let mut s = refsim::Scripted::new(r.next());
            s.rate = 5;
            s.prios = (0..8).collect();
            s.vects = (0, 255);
            add(&mut sim, Real(s), &[0xFE40, 0xFE41, 0xFFFF]);
        }
        for _ in 0..*r.pick(&[0, 0, 2, 6]) {
            let a = 0xFE00 + r.below(0x200) as u16;
            let k = *r.pick(&[InternalRegister::PC, InternalRegister::PSR, InternalRegister::MCR, InternalRegister::SavedSP]);
            let _ = sim.mmap_internal(a, k);
            log.push(format!("{k:?} at x{a:04X}"));
        }
        for _ in 0..*r.pick(&[0, 0, 4]) {
            let a = if r.pct(50) { 0x100 + r.below(256) as u16 } else { edge(r) };
            sim.frame_stack.set_subroutine_def(a, params(r));
        }
        add(&mut sim, fuse(20_000), &[]);
        let mut kinds = std::collections::BTreeMap::new();
        kinds.insert("forged files loaded", loaded);
        for _ in 0..calls {
            if r.pct(40) {
                sim.pc = match r.below(4) {
                    0 => 0xFFFF,
                    1 => r.u16(),
                    2 => (r.below(256) as u16) << 8 | *r.pick(&[0, 0xFF]),
                    _ => edge(r),
                };
            }
            if r.pct(30) {
                let v = r.u16();
                set_psr(&mut sim, v);
            }
            if r.pct(10) {
                let v = edge(r);
                set_saved_sp(&mut sim, v);
            }
            if r.pct(5) {
                let q = REGS[r.below(8)];
                sim.reg_file[q].clear_init();
            }
            if r.pct(5) {
                sim.flags = rflags(r);
            }
            if r.pct(2) {
                sim.instructions_run = match r.below(3) {
                    0 => r.next(),
                    1 => (1u64 << (8 * (1 + r.below(7)))).wrapping_sub(r.below(20) as u64),
                    _ => u64::MAX - r.below(20) as u64,
                };
            }
            at.set((sim.pc, sim.mem[sim.pc].get()));
            let n = sim.instructions_run;
            let (a, v) = (edge(r), r.u16());
            let ctx = MemAccessCtx { privileged: r.pct(50), strict: r.pct(50), io_effects: r.pct(50), track_access: r.pct(50) };
            let op = r.below(24);
            let res = match op {
                0 => sim.run_with_limit(r.below(300) as u64),
                1 => sim.run_while(|_| r.pct(95)),
                2 => {
                    sim.breakpoints.clear();
                    sim.breakpoints.insert(Breakpoint::PC(sim.pc.wrapping_add(3)));
                    sim.run_with_limit(500)
                }
                3 => {
                    sim.breakpoints.clear();
                    sim.breakpoints.insert(Breakpoint::Reg { reg: REGS[r.below(8)], value: Comparator::Gt(v) });
                    sim.breakpoints.insert(Breakpoint::Mem { addr: a, value: Comparator::Ne(v) });
                    sim.run_with_limit(500)
                }
                4 if r.pct(10) => sim.step_over(),
                5 if r.pct(10) => sim.step_out(),
                6 => sim.call_subroutine(a),
                7 => sim.read_mem(a, ctx).map(|_| ()),
                8 => sim.write_mem(a, Word::new_init(v), ctx),
                9 if r.pct(5) => {
                    sim.reset();
                    mess(r, &mut sim);
                    Ok(())
                }
                _ => sim.step_in(),
            };
            let (p, k) = query(&mut sim, &res);
            if r.pct(10) {
                look(&mut sim);
            }
            if let Some(k) = k {
                *kinds.entry(k).or_insert(0u64) += 1;
                if p == 0xFFFF && sim.pc == 0 {
                    *kinds.entry("faults at xFFFF").or_insert(0) += 1;
                }
            }
            *kinds.entry("instructions").or_insert(0) += Some(sim.instructions_run.wrapping_sub(n)).filter(|n| *n < 1 << 20).unwrap_or(0);
            *kinds.entry("calls").or_insert(0) += 1;
        }
        let _ = (kb.is_some(), ds.is_some());
        (kinds, rng::mix(sim.pc as u64 | sim.instructions_run << 16))
    });
    l.eval();
    match out {
        Ok((kinds, h)) => {
            l.distinct(h);
            for (k, n) in kinds {
                l.count(k, n);
            }
            l.sample(|| log.join("; "));
        }
        Err(e) => l.violation(format!("panic at {}", e.loc), format!("{}\nthe call started at PC x{:04X}, word x{:04X}\n{}", e.msg, at.get().0, at.get().1, log.join("\n"))),
    }
}
/// Every word at the edges of memory, in every mode.
fn words(l: &mut Local, w: u16, r: &mut Rng, sims: &mut [Simulator]) {
    for (k, sim) in sims.iter_mut().enumerate() {
        for pc in [0x0000u16, 0x2FFF, 0x3000, 0xFDFF, 0xFFFF, 0xFE00, 0xFFFE] {
            let out = guard(|| {
                sim.pc = pc;
                let psr = *r.pick(&[0x8002u16, 0x0002, 0x8704, 0x0701]);
                set_psr(sim, psr);
                let regs: [u16; 8] = std::array::from_fn(|_| edge(r));
                set_regs(sim, regs);
                if k & 1 == 1 {
                    sim.reg_file[REGS[r.below(8)]].clear_init();
                }
                sim.mem[pc] = Word::new_init(w);
                let a = sim.step_in();
                let (p, k) = query(sim, &a);
                // and on
                let b = sim.step_in();
                query(sim, &b);
                (p, k)
            });
            l.eval();
            match out {
                Ok((p, k)) => {
                    l.distinct((p as u64) << 32 | (w as u64) << 16 | k.map(|k| k.len()).unwrap_or(0) as u64);
                    l.count("single words executed", 1);
                }
                Err(e) => return l.violation(format!("panic at {}", e.loc), format!("{}\nword x{w:04X} at x{pc:04X}, machine {k}", e.msg)),
            }
        }
    }
}
fn main() {
    let mut c = Check::new("C16");
    c.factor(30);
    c.random("machines", 12_000, |r, l| {
        let n = 20 + r.below(400);
        go(r, l, n)
    });
    c.random("long runs", 300, |r, l| {
        let out = guard(|| {
            let kind = *r.pick(&[Kind::Wild, Kind::Mixed]);
            let st = state(r, kind, true);
            let (mut sim, ..) = make_sim(&st, r.pct(20));
            add(&mut sim, fuse(60_000), &[]);
            let mut n = 0u64;
            for _ in 0..20 {
                let res = sim.run();
                let (p, k) = query(&mut sim, &res);
                n += 1;
                if k == Some("interrupt") {
                    break;
                }
                sim.pc = p.wrapping_add(r.below(5) as u16);
            }
            (n, sim.instructions_run)
        });
        l.eval();
        match out {
            Ok((n, i)) => {
                l.count("long runs", n);
                l.count("instructions", i);
                l.distinct(i);
            }
            Err(e) => l.violation(format!("panic at {}", e.loc), e.msg),
        }
    });
    // 64 words per case
    let step = if c.quick() { 4 } else { 1 };
    c.exhaustive("single words", 1024, |i, r, l| {
        let mut sims: Vec<Simulator> = (0..8)
            .map(|k| {
                let mut s = Simulator::new(flags(k & 1 == 1, k & 2 == 2, r.pct(70), k & 4 == 4, MachineInitStrategy::Seeded { seed: r.next() }));
                keyboard(&mut s, &[0x41; 64]);
                display(&mut s);
                s
            })
            .collect();
        for k in 0..64 / step {
            let w = i * 64 + k * step + r.below(step as usize) as u64;
            words(l, w as u16, r, &mut sims);
        }
    });
    let mins: Vec<(&str, u64)> = ERRS.iter().map(|k| (*k, 20)).chain([("faults at xFFFF", 50), ("forged files loaded", 1_000), ("instructions", 1_000_000), ("single words executed", 500_000)]).collect();
    c.finish(
        "random flags, full-memory images, forged object files, registers, PSR, devices, timers, register mappings; steps, runs, breakpoints, host accesses and resets, each followed by the faulting address, the error text and frame queries, under a panic, hang and overflow monitor; every word at the edges of memory; distinct by end state",
        &["host objects handed to the simulator (predicates, devices) do not panic themselves"],
        &mins,
    )
}
