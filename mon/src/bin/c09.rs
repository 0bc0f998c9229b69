//! Monitor over user-mode steps: nothing outside x3000-xFDFF is touched, every attempt is reported.
use lc3_ensemble::sim::SimErr;
use mon::refsim::*;
use mon::simutil::*;
use mon::*;

fn in_user(a: u16) -> bool {
    (0x3000..0xFE00).contains(&a)
}
/// What executing `word` at `pc` in user mode tries to do outside of its rights.
/// `peek` gives the plain memory value of a user address.
fn attempt(pc: u16, regs: &[u16; 8], peek: impl Fn(u16) -> u16) -> Result<Option<Fault>, Fault> {
    if !in_user(pc) {
        return Ok(Some(Fault::Acv));
    }
    let op = decode(peek(pc))?; // Err: not an instruction
    let rel = |o: i16| pc.wrapping_add(1).wrapping_add(o as u16);
    let base = |b: u8, o: i16| regs[b as usize].wrapping_add(o as u16);
    let acc: Vec<u16> = match op {
        Op::Ld(_, o) | Op::St(_, o) => vec![rel(o)],
        Op::Ldr(_, b, o) | Op::Str(_, b, o) => vec![base(b, o)],
        Op::Ldi(_, o) | Op::Sti(_, o) => {
            let p = rel(o);
            if in_user(p) { vec![p, peek(p)] } else { vec![p] }
        }
        Op::Rti => return Ok(Some(Fault::Priv)),
        _ => vec![],
    };
    Ok(acc.iter().any(|a| !in_user(*a)).then_some(Fault::Acv))
}

fn outside(sim: &lc3_ensemble::sim::Simulator) -> Vec<u16> {
    (0..0x3000u16).chain(0xFE00..=0xFFFF).map(|a| sim.mem[a].get()).collect()
}
fn addr_of(k: usize) -> u16 {
    if k < 0x3000 { k as u16 } else { (k - 0x3000 + 0xFE00) as u16 }
}

fn case(r: &mut Rng, l: &mut Local, wild: bool) {
    let mut st = state(r, if wild { Kind::Wild } else { Kind::Mixed }, false);
    st.flags_ignore = false;
    st.psr |= 0x8000;
    st.saved_sp = 0x2800 + r.below(0x700) as u16;
    if !in_user(st.pc) && r.pct(80) {
        st.pc = 0x3000 + r.below(0xCC00) as u16;
    }
    st.iregs.clear();
    if r.pct(30) {
        st.iregs.push((0xFE30, *r.pick(&[IReg::Pc, IReg::Psr, IReg::Mcr, IReg::SavedSp])));
    }
    // devices that record every access, never interrupting
    st.kb = Some((0..4).map(|_| r.u8()).collect());
    st.ds = true;
    for i in 0..3u16 {
        st.devs.push(DevSpec { seed: r.next(), rate: 0, prios: vec![0], vects: (0, 0), ext: false, ports: (0..8).map(|k| 0xFE08 + i * 8 + k).collect() });
    }
    let strict = r.pct(25);
    let (mut sim, kb, ds, devs) = make_sim(&st, strict);
    let kb = kb.unwrap();
    let ds = ds.unwrap();
    let code = st.pc;
    for k in 0..60 {
        // (re)enter user mode somewhere interesting
        if sim.psr().privileged() || r.pct(25) {
            set_psr(&mut sim, 0x8000 | ((r.below(8) as u16) << 8) | *r.pick(&[1, 2, 4]));
            sim.pc = match r.below(10) {
                0 => edge(r),
                1 => *r.pick(&[0x2FFF, 0x3000, 0xFDFF, 0xFE00, 0xFFFF, 0]),
                _ => code.wrapping_add(r.below(60) as u16),
            };
            for q in 0..8 {
                if r.pct(40) {
                    sim.reg_file[REGS[q]] = edge(r).into();
                }
            }
            set_saved_sp(&mut sim, st.saved_sp);
            if in_user(sim.pc) && r.pct(60) {
                // an access aimed at an edge: PC-relative ones from next to the border, others through registers
                let w = match r.below(6) {
                    0 => 0x2000 | r.u16() & 0xFFF,
                    1 => 0x3000 | r.u16() & 0xFFF,
                    2 => 0x6000 | r.u16() & 0xFFF,
                    3 => 0x7000 | r.u16() & 0xFFF,
                    4 => *r.pick(&[0xA000u16, 0xB000]) | r.u16() & 0xFFF,
                    _ => 0x8000,
                };
                if r.pct(40) {
                    sim.pc = if r.pct(50) { 0x3000 + r.below(255) as u16 } else { 0xFDFF - r.below(255) as u16 };
                }
                let pc = sim.pc;
                sim.mem[pc] = w.into();
                if w >> 13 == 5 {
                    let p = pc.wrapping_add(1).wrapping_add(sext(w, 9) as u16);
                    if in_user(p) && p != pc {
                        sim.mem[p] = edge(r).into();
                    }
                }
            }
        }
        let pc = sim.pc;
        let rg = regs(&sim);
        let want = attempt(pc, &rg, |a| sim.mem[a].get());
        let before = outside(&sim);
        let sp0 = saved_sp(&mut sim);
        let psr0 = sim.psr().get();
        let logs0: Vec<usize> = devs.iter().map(|d| d.log.lock().unwrap().len()).collect();
        let mcr0 = mcr(&sim);
        let io0 = (kb.read().unwrap().clone(), ds.read().unwrap().clone());
        let uw = (want == Ok(Some(Fault::Acv))).then(|| (0x3000..0xFE00u16).map(|a| sim.mem[a].get()).collect::<Vec<_>>());
        let word = sim.mem[pc].get();
        let res = sim.step_in();
        l.eval();
        let ctx = format!("pc x{pc:04X} word x{word:04X} regs {rg:04X?} psr x{psr0:04X} saved sp x{sp0:04X} real traps {} strict {strict} result {:?}\n{}", st.flags_real, res.as_ref().map_err(err_kind), show(&st));
        // device state
        let logs1: Vec<usize> = devs.iter().map(|d| d.log.lock().unwrap().len()).collect();
        let io1 = (kb.read().unwrap().clone(), ds.read().unwrap().clone());
        if logs0 != logs1 || io0 != io1 || mcr0 != mcr(&sim) {
            return l.violation("a user-mode step reached a device", ctx);
        }
        // memory outside of user space
        let after = outside(&sim);
        let changed: Vec<u16> = (0..after.len()).filter(|k| before[*k] != after[*k]).map(addr_of).collect();
        let strict_err = matches!(&res, Err(e) if strict && is_strict_err(e));
        let entry = (res.is_ok() || strict_err) && sim.psr().privileged();
        let is_trap = want == Ok(None) && word >> 12 == 0xF;
        let stack = [sp0.wrapping_sub(1), sp0.wrapping_sub(2)];
        if changed.iter().any(|a| !(entry && stack.contains(a))) {
            return l.violation("a user-mode step changed memory outside user space", format!("{changed:04X?}\n{ctx}"));
        }
        // accesses seen by the observer
        let mut acc: Vec<(u16, bool, bool)> = sim.observer.take_mem_accesses().map(|(a, s)| (a, s.read(), s.written())).collect();
        acc.retain(|(a, ..)| !in_user(*a));
        let vect = match want {
            Ok(Some(f)) => Some(f.vector()),
            Err(f) => Some(f.vector()),
            Ok(None) if is_trap => Some(word & 0xFF),
            _ => None,
        };
        acc.retain(|(a, rd, wr)| !(entry && (stack.contains(a) && !rd || Some(*a) == vect && !wr)));
        if !acc.is_empty() {
            return l.violation("a user-mode step accessed memory outside user space", format!("{acc:04X?}\n{ctx}"));
        }
        match want {
            Ok(Some(f)) => {
                l.count(&format!("attempts {f:?}{}", if st.flags_real { " (vectored)" } else { "" }), 1);
                if let Some(u) = uw {
                    if (0x3000..0xFE00u16).any(|a| sim.mem[a].get() != u[(a - 0x3000) as usize]) {
                        return l.violation("a rejected access changed memory", ctx);
                    }
                }
                if strict_err {
                    l.count("attempts rejected by strict mode first", 1);
                } else if st.flags_real {
                    if !entry || sim.pc != sim.mem[f.vector()].get() {
                        return l.violation(format!("{f:?} was not vectored to the OS handler"), ctx);
                    }
                } else {
                    match &res {
                        Err(SimErr::AccessViolation) if f == Fault::Acv => {}
                        Err(SimErr::PrivilegeViolation) if f == Fault::Priv => {}
                        _ => return l.violation(format!("{f:?} was not reported"), ctx),
                    }
                    if regs(&sim) != rg || sim.psr().get() != psr0 {
                        return l.violation(format!("{f:?} changed registers"), ctx);
                    }
                }
            }
            Ok(None) => {
                if entry != (is_trap && word != 0xF025 || is_trap && st.flags_real) && !strict_err {
                    return l.violation("a permitted instruction changed the privilege level (or a trap did not)", ctx);
                }
                if !(strict_err || res.is_ok()) {
                    return l.violation("a permitted instruction was rejected", ctx);
                }
                l.count("permitted steps", 1);
            }
            Err(_) => l.count("non-instructions", 1),
        }
        l.distinct(rng::mix(word as u64 | (pc as u64) << 16 | (want.ok().flatten().map_or(0, |f| f.vector()) as u64) << 32) ^ rng::mix(rg[(word >> 6 & 7) as usize] as u64));
        if k == 0 {
            l.sample(|| format!("pc x{pc:04X} word x{word:04X} regs {rg:04X?}: attempt {want:?} -> {:?}", res.as_ref().map_err(err_kind)));
        }
    }
}

fn main() {
    let mut c = Check::new("C09");
    c.factor(40);
    c.random("aimed", 7_000, |r, l| case(r, l, false));
    c.random("wild", 5_000, |r, l| case(r, l, true));
    c.finish(
        "user-mode steps from random states aimed at the borders of user space (PC-relative, base+offset, indirect, fetch, RTI), with recording devices on the I/O ports; monitored: supervisor and I/O memory before and after, device logs, observer, reported error or vectored handler; distinct by (word, address, base register, kind of attempt)",
        &["privilege checks enabled", "saved supervisor stack pointer inside supervisor memory"],
        &[("attempts Acv", 10_000), ("attempts Acv (vectored)", 10_000), ("attempts Priv", 1_000), ("attempts Priv (vectored)", 1_000), ("permitted steps", 20_000)],
    )
}
