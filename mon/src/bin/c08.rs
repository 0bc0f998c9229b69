//! Lockstep of the simulator with the reference machine.
use lc3_ensemble::sim::SimErr;
use mon::refsim::*;
use mon::simutil::*;
use mon::*;

fn lockstep(r: &mut Rng, l: &mut Local, kind: Kind, steps: usize) {
    let mut st = state(r, kind, true);
    if kind == Kind::Sane && r.pct(50) {
        st.iregs.clear();
        st.unmap.clear();
    }
    run_state(r, l, &st, steps, 0);
}
fn run_state(r: &mut Rng, l: &mut Local, st: &State, steps: usize, salt: u64) {
    let mut p = pair(st);
    let mut sup = 0;
    for k in 0..steps {
        let word = p.m.mem[p.m.pc as usize];
        let user = p.m.user();
        let out = p.m.step();
        let res = p.sim.step_in();
        if p.m.odd {
            l.count("stopped: ISA leaves the step open", 1);
            return;
        }
        l.eval();
        let at = p.m.at;
        let fail = |l: &mut Local, what: String| {
            l.violation(what.clone(), format!("{what}\nstep {k} at x{at:04X}, word x{word:04X}, user {user}, {:?}\n{}", p.m.did, show(st)))
        };
        match (&out, &res) {
            (Out::Ok | Out::Halt, Ok(())) => {}
            (Out::External, Err(SimErr::Interrupt(_))) => {}
            (Out::Fault(f), Err(e)) if fault_of(e) == Some(*f) => {
                if p.sim.prefetch_pc() != at {
                    let w = format!("error reported at another address: x{:04X}", p.sim.prefetch_pc());
                    return fail(l, w);
                }
                // where the PC is left by an error is not part of the ISA
                p.m.pc = p.sim.pc;
            }
            _ => return fail(l, format!("step outcome {:?}, expected {out:?}", res.as_ref().map_err(err_kind))),
        }
        if let Some(d) = p.diff_step() {
            let m = &p.m;
            return l.violation(
                format!("state differs after a step: {}", d.split(" is ").next().unwrap_or("")),
                format!("{d}\nstep {k} at x{at:04X}, word x{word:04X}, user {user}, {:?}\n{}", m.did, show(st)),
            );
        }
        if k % 16 == 15 || k + 1 == steps {
            if let Some(d) = p.diff_mem() {
                return l.violation("memory differs in a word the step did not touch", format!("{d}\nstep {k} at x{at:04X} {:?}\n{}", p.m.did, show(st)));
            }
        }
        let key = match p.m.did {
            Did::Instr(op) => {
                let s = format!("{op:?}");
                format!("{}{}", s.split('(').next().unwrap(), if user { " (user)" } else { " (supervisor)" })
            }
            Did::Interrupt(..) => format!("interrupt entries{}", if user { " (user)" } else { " (supervisor)" }),
            Did::Exception(f) => format!("exception {f:?} {}", if st.flags_real { "vectored" } else { "reported" }),
            Did::Nothing => "external interrupts".into(),
        };
        l.count(&key, 1);
        if matches!(p.m.did, Did::Instr(Op::Rti)) && p.m.user() {
            l.count("RTI into user mode", 1);
        }
        if p.m.reads.iter().any(|a| *a >= 0xFE00) {
            l.count("steps reading I/O", 1);
        }
        if p.m.writes.iter().any(|a| a.0 >= 0xFE00) {
            l.count("steps writing I/O", 1);
        }
        let mut h = rng::mix(((word as u64) << 32) | ((p.m.psr as u64) << 16) | at as u64) ^ salt;
        for v in p.m.regs {
            h = rng::mix(h ^ v as u64);
        }
        l.distinct(h);
        sup = if p.m.user() { 0 } else { sup + 1 };
        if matches!(out, Out::Fault(_) | Out::Halt) || sup > 30 || r.pct(2) {
            sup = 0;
            p.kick(r, st);
        }
    }
    if let Some(d) = p.diff_mem() {
        l.violation("memory differs in a word no step touched", format!("{d}\n{}", show(st)));
    }
    l.sample(|| format!("pc x{:04X} psr x{:04X} regs {:04X?} real_traps {} steps {}", st.pc, st.psr, st.regs, st.flags_real, steps));
}
/// Each of the 65536 words, executed once per mode with several register files.
fn words(i: u64, r: &mut Rng, l: &mut Local) {
    // 32 words per case, sharing one machine description
    for user in [true, false] {
        let mut st = state(r, Kind::Mixed, false);
        st.init = lc3_ensemble::sim::mem::MachineInitStrategy::Known { value: r.u16() };
        st.iregs.clear();
        st.unmap.clear();
        st.psr = (if user { 0x8000 } else { 0 }) | (st.psr & 0x0707);
        let mut p = pair(&st);
        for j in 0..32u64 {
            let w = (i * 32 + j) as u16;
            let pc = 0x3000 + r.below(0xCDF0) as u16;
            for _ in 0..2 {
                let mut regs = st.regs;
                for x in &mut regs {
                    if r.pct(50) {
                        *x = if r.pct(30) { edge(r) } else { r.u16() };
                    }
                }
                set_regs(&mut p.sim, regs);
                p.m.regs = regs;
                let psr = (st.psr & 0x8700) | *r.pick(&[1u16, 2, 4]);
                set_psr(&mut p.sim, psr);
                p.m.psr = psr;
                p.sim.pc = pc;
                p.m.pc = pc;
                let sp = 0x2000 + r.below(0x800) as u16;
                set_saved_sp(&mut p.sim, sp);
                p.m.saved_sp = sp;
                if !user {
                    let v = *r.pick(&[0x8001u16, 0x8102, 0x0004, 0x0702]);
                    let s = regs[6];
                    for (a, v) in [(s, r.u16()), (s.wrapping_add(1), v)] {
                        p.sim.mem[a] = v.into();
                        p.m.mem[a as usize] = v;
                    }
                }
                p.sim.mem[pc] = w.into();
                p.m.mem[pc as usize] = w;
                let out = p.m.step();
                let res = p.sim.step_in();
                if p.m.odd {
                    // resynchronise
                    for a in 0..=0xFFFFu16 {
                        p.m.mem[a as usize] = p.sim.mem[a].get();
                    }
                    if p.sim.mem[0xFE00].get() & 0x4000 != 0 {
                        return;
                    }
                    continue;
                }
                l.eval();
                let ok = match (&out, &res) {
                    (Out::Ok | Out::Halt, Ok(())) => true,
                    (Out::Fault(f), Err(e)) => fault_of(e) == Some(*f) && p.sim.prefetch_pc() == pc,
                    _ => false,
                };
                if !ok {
                    return l.violation(
                        format!("outcome {:?} for word x{w:04X}, expected {out:?}", res.as_ref().map_err(err_kind)),
                        format!("at x{pc:04X}, reported at x{:04X}\n{}", p.sim.prefetch_pc(), show(&st)),
                    );
                }
                if let Out::Fault(_) = out {
                    p.m.pc = p.sim.pc;
                }
                if let Some(d) = p.diff_step() {
                    return l.violation(format!("word x{w:04X} has another effect"), format!("{d}\nat x{pc:04X} regs {regs:04X?} psr x{psr:04X} did {:?}\n{}", p.m.did, show(&st)));
                }
                l.distinct(rng::mix(w as u64 * 2 + user as u64));
                l.count("single words stepped", 1);
            }
        }
        if let Some(d) = p.diff_mem() {
            return l.violation("memory differs in a word no step touched", format!("{d}\nwords x{:04X}..\n{}", i * 32, show(&st)));
        }
    }
}

fn main() {
    let mut c = Check::new("C08");
    c.quick_factor(2);
    c.factor(30);
    c.exhaustive("every word", 2048, words);
    c.random("sane", 16_000, |r, l| lockstep(r, l, Kind::Sane, 300));
    c.random("mixed", 16_000, |r, l| lockstep(r, l, Kind::Mixed, 150));
    c.random("wild", 16_000, |r, l| lockstep(r, l, Kind::Wild, 80));
    c.finish(
        "steps of the simulator in lockstep with the reference machine (registers, PC, PSR, saved SP, MCR, touched memory and device traffic after each step; all memory every 16 steps): every instruction word in both modes, and random machine states (sane, mixed, wild) with handlers, devices and interrupts; distinct by (word, address, PSR, registers)",
        &["non-strict mode", "steps that pop a non-PSR value or push onto I/O addresses are left out", "the PC after a reported error is not compared"],
        &[("single words stepped", 100_000), ("interrupt entries (user)", 1_000), ("interrupt entries (supervisor)", 100), ("RTI into user mode", 1_000)],
    )
}
