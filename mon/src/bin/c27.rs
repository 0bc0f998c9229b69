//! Frame stack in lockstep with the reference machine.
use lc3_ensemble::sim::frame::FrameType;
use mon::refsim::*;
use mon::simutil::*;
use mon::*;

/// Lengths of signatures.
fn nargs(r: &mut Rng) -> usize {
    match r.below(60) {
        0 => r.below(300),
        1 => r.below(40),
        _ => r.below(6),
    }
}
fn frames_diff(p: &Pair, debug: bool) -> Option<String> {
    let fs = &p.sim.frame_stack;
    if fs.len() != p.m.depth {
        return Some(format!("depth is {}, expected {}", fs.len(), p.m.depth));
    }
    if fs.is_empty() != (p.m.depth == 0) {
        return Some("is_empty disagrees with the depth".into());
    }
    let Some(got) = fs.frames() else {
        return debug.then(|| "no frame list although debug frames are on".into());
    };
    if !debug {
        return Some("frame list although debug frames are off".into());
    }
    if got.len() != p.m.frames.len() {
        return Some(format!("{} frames listed, expected {}", got.len(), p.m.frames.len()));
    }
    // the bottom of a deep list is checked when it was pushed
    for (i, (g, w)) in got.iter().zip(&p.m.frames).enumerate().rev().take(12) {
        let kind = match g.frame_type {
            FrameType::Subroutine => FrKind::Sub,
            FrameType::Trap => FrKind::Trap,
            FrameType::Interrupt => FrKind::Int,
        };
        if g.caller_addr != w.caller {
            return Some(format!("caller of frame {i} is x{:04X}, expected x{:04X}", g.caller_addr, w.caller));
        }
        if g.callee_addr != w.callee {
            return Some(format!("callee of frame {i} is x{:04X}, expected x{:04X}", g.callee_addr, w.callee));
        }
        if kind != w.kind {
            return Some(format!("kind of frame {i} is {kind:?}, expected {:?}", w.kind));
        }
        let args: Vec<u16> = g.arguments.iter().map(|a| a.get()).collect();
        if args != w.args {
            return Some(format!("arguments of frame {i} are {args:04X?}, expected {:04X?}", w.args));
        }
    }
    None
}

fn case(r: &mut Rng, l: &mut Local, kind: Kind, steps: usize) {
    let mut st = state(r, kind, true);
    st.frames = r.pct(80);
    // plenty of calls and returns
    for k in 0..st.patches.len().min(60) {
        if r.pct(35) {
            let w = match r.below(8) {
                0 | 1 => 0x4800 | (r.below(60) as u16).wrapping_sub(30) & 0x7FF,
                2 => 0x4000 | (r.reg() as u16) << 6,
                3 | 4 => 0xC1C0,
                5 => 0xC000 | (r.reg() as u16) << 6,
                6 => 0xF040 + r.below(8) as u16,
                _ => 0xF020 + r.below(6) as u16,
            };
            st.patches[k].1 = w;
        }
    }
    if st.subs.is_empty() || r.pct(50) {
        for k in 0..80u16 {
            if r.pct(40) {
                let a = st.pc.wrapping_sub(20).wrapping_add(k);
                let s = if r.pct(50) { Sig::Stack(nargs(r)) } else { Sig::Regs((0..nargs(r)).map(|_| r.reg()).collect()) };
                st.subs.push((a, s));
            }
        }
        for v in 0..16u16 {
            if r.pct(30) {
                st.subs.push((0x180 + v, Sig::Regs(vec![r.reg()])));
            }
        }
        st.subs.sort_by_key(|x| x.0);
        st.subs.dedup_by_key(|x| x.0);
    }
    let mut p = pair(&st);
    let mut sup = 0;
    for k in 0..steps {
        let out = p.m.step();
        let was = p.sim.frame_stack.len();
        let res = p.sim.step_in();
        if p.m.odd {
            return;
        }
        l.eval();
        if let Some(d) = frames_diff(&p, st.frames) {
            return l.violation(
                format!("frame stack: {}", d.split(|c: char| c.is_ascii_digit()).next().unwrap_or("")),
                format!("{d}\nstep {k} at x{:04X} {:?} -> {:?}, depth before {was}\n{}", p.m.at, p.m.did, res.as_ref().map_err(err_kind), show(&st)),
            );
        }
        if p.sim.pc != p.m.pc && !matches!(out, Out::Fault(_)) {
            // not about frames: other checks report it
            l.inconclusive();
            return;
        }
        p.m.pc = p.sim.pc;
        if p.m.depth as u64 > was {
            let f = p.m.frames.last().unwrap();
            l.count(&format!("{:?} frames entered", f.kind), 1);
            l.count("arguments compared", f.args.len() as u64);
            if matches!(p.m.did, Did::Exception(_)) {
                l.count("exception frames entered", 1);
            }
            l.distinct(rng::mix((f.caller as u64) << 32 | (f.callee as u64) << 8 | f.kind as u64) ^ rng::mix(rng::hash_bytes(f.args.len() as u64, format!("{:?}", f.args).as_bytes())));
        } else if p.m.depth < was {
            l.count("frames left", 1);
        } else if matches!(p.m.did, Did::Instr(Op::Rti | Op::Jmp(7))) && was == 0 {
            l.count("returns at depth 0", 1);
        }
        sup = if p.m.user() { 0 } else { sup + 1 };
        if matches!(out, Out::Fault(_) | Out::Halt) || sup > 30 || r.pct(2) {
            sup = 0;
            p.kick(r, &st);
        }
    }
    l.sample(|| format!("pc x{:04X}, depth reached {}, last frame {:?}", st.pc, p.m.depth, p.m.frames.last()));
}

/// Strict mode on partly initialised machines: a call or return that is rejected is not entered.
fn strict(r: &mut Rng, l: &mut Local) {
    let mut st = state(r, Kind::Sane, true);
    st.frames = r.pct(80);
    for k in 0..st.patches.len().min(60) {
        if r.pct(40) {
            st.patches[k].1 = match r.below(6) {
                0 | 1 => 0x4800 | (r.below(60) as u16).wrapping_sub(30) & 0x7FF,
                2 => 0x4000 | (r.reg() as u16) << 6,
                3 => 0xC1C0,
                _ => 0xF040 + r.below(8) as u16,
            };
        }
    }
    let mut p = pair(&st);
    partly_initialised(&mut p, r, &st);
    for k in 0..60 {
        let was = p.sim.frame_stack.len();
        let list = p.sim.frame_stack.frames().map(|f| f.len());
        let pc0 = p.sim.pc;
        let out = p.m.step();
        let res = p.sim.step_in();
        if p.m.odd {
            return;
        }
        l.eval();
        let tell = |d: &str, p: &Pair| format!("{d}\nstep {k} at x{:04X} {:?} -> {:?}, partly initialised, strict\n{}", p.m.at, p.m.did, res.as_ref().map_err(err_kind), show(&st));
        if res.as_ref().is_err_and(is_strict_err) {
            // nothing was entered or left as long as the PC did not go there
            if p.sim.pc != pc0 && p.sim.pc != pc0.wrapping_add(1) {
                return;
            }
            if p.sim.frame_stack.len() != was || p.sim.frame_stack.frames().map(|f| f.len()) != list {
                let d = format!("depth goes from {was} to {} in a step that strict mode rejects", p.sim.frame_stack.len());
                return l.violation("frame stack: a rejected step changes the depth", tell(&d, &p));
            }
            l.count("strict rejections", 1);
            if matches!(p.m.did, Did::Interrupt(..) | Did::Instr(Op::Jsr(_) | Op::Jsrr(_) | Op::Trap(_) | Op::Rti | Op::Jmp(7))) {
                l.count("calls and returns rejected", 1);
            }
            return;
        }
        if let Some(d) = frames_diff(&p, st.frames) {
            return l.violation(format!("frame stack: {}", d.split(|c: char| c.is_ascii_digit()).next().unwrap_or("")), tell(&d, &p));
        }
        if p.sim.pc != p.m.pc || out != Out::Ok {
            return;
        }
    }
}

/// Reset gives an empty stack, and keeps counting afterwards.
fn resets(r: &mut Rng, l: &mut Local) {
    let st = state(r, Kind::Sane, false);
    let mut p = pair(&st);
    for _ in 0..r.below(40) {
        let _ = p.sim.step_in();
    }
    p.sim.reset();
    l.eval();
    if p.sim.frame_stack.len() != 0 || p.sim.frame_stack.frames().is_some_and(|f| !f.is_empty()) {
        l.violation("frames left after a reset", show(&st));
    }
    // call_subroutine by the host
    let a = 0x3000 + r.below(0x1000) as u16;
    p.sim.pc = 0x4000 + r.below(0x1000) as u16;
    let sig = if r.pct(50) { Sig::Stack(nargs(r)) } else { Sig::Regs((0..nargs(r)).map(|_| r.reg()).collect()) };
    p.sim.frame_stack.set_subroutine_def(a, plist(&sig));
    for q in 0..8 {
        p.sim.reg_file[REGS[q]] = r.u16().into();
    }
    if p.sim.call_subroutine(a).is_ok() {
        if p.sim.frame_stack.len() != 1 {
            return l.violation("call_subroutine does not count as one call", show(&st));
        }
        if let Some(f) = p.sim.frame_stack.frames() {
            let rg = regs(&p.sim);
            let want: Vec<u16> = match &sig {
                Sig::Stack(n) => (0..*n as u16).map(|i| p.sim.mem[rg[6].wrapping_add(i)].get()).collect(),
                Sig::Regs(v) => v.iter().map(|q| rg[*q as usize]).collect(),
            };
            let got: Vec<u16> = f[0].arguments.iter().map(|w| w.get()).collect();
            if f[0].callee_addr != a || got != want {
                l.violation("call_subroutine pushes another frame", format!("{:?} expected callee x{a:04X} args {want:04X?}", f[0]));
            }
        }
        l.count("host calls", 1);
    }
}

/// More than 65536 calls deep, and back.
fn deep(r: &mut Rng, l: &mut Local) {
    let st = State { devs: vec![], iregs: vec![], unmap: vec![], patches: vec![], frames: r.pct(50), ..state(r, Kind::Sane, false) };
    let mut p = pair(&st);
    let a = 0x3000 + r.below(0x8000) as u16;
    // JSR to itself, then RET to itself
    p.sim.mem[a] = 0x4FFFu16.into();
    p.sim.mem[a.wrapping_add(1)] = 0xC1C0u16.into();
    p.sim.pc = a;
    let n = 0x10000 + 1 + r.below(5_000) as u64;
    let mut at = p.sim.frame_stack.len();
    for k in 0..2 * n + 5 {
        if k == n {
            p.sim.pc = a.wrapping_add(1);
        }
        at = if k < n { at + 1 } else { at.saturating_sub(1) };
        if p.sim.step_in().is_err() {
            return l.inconclusive();
        }
        l.eval();
        let listed = p.sim.frame_stack.frames().map(|f| (f.len() as u64, f.last().map(|f| (f.caller_addr, f.callee_addr))));
        if p.sim.frame_stack.len() != at || listed.is_some_and(|f| f != (at, (at != 0).then_some((a, a)))) {
            return l.violation("frame stack: depth of many calls", format!("depth {} and list {listed:X?} after {} calls and {} returns", p.sim.frame_stack.len(), (k + 1).min(n), (k + 1).saturating_sub(n)));
        }
    }
    l.count("deep call chains", 1);
}

fn main() {
    let mut c = Check::new("C27");
    c.quick_factor(4);
    c.factor(40);
    c.random("sane", 12_000, |r, l| case(r, l, Kind::Sane, 250));
    c.random("mixed", 8_000, |r, l| case(r, l, Kind::Mixed, 150));
    c.random("wild", 4_000, |r, l| case(r, l, Kind::Wild, 60));
    c.random("strict", 4_000, strict);
    c.random("resets", 1_500, resets);
    c.random("deep", 4, deep);
    c.finish(
        "steps in lockstep with the reference frame model (depth, and the top 12 frames of the list after each step): calls, returns, traps, interrupts, exceptions, signatures of both kinds; distinct by (caller, callee, kind, arguments)",
        &["exceptions under real traps count as traps entered", "the frame pointer field is not compared"],
        &[("Sub frames entered", 20_000), ("Trap frames entered", 10_000), ("Int frames entered", 5_000), ("frames left", 20_000), ("arguments compared", 10_000), ("returns at depth 0", 500), ("calls and returns rejected", 300), ("deep call chains", 4)],
    )
}
