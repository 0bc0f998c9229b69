//! Access observer in lockstep with the reference machine's access log.
use mon::refsim::*;
use mon::simutil::*;
use mon::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
struct Want {
    reads: BTreeSet<u16>,
    writes: BTreeSet<u16>,
    changed: BTreeSet<u16>,
    /// Accesses of an instruction that faulted: may be recorded.
    maybe: BTreeSet<u16>,
}
impl Want {
    fn add(&mut self, m: &RefSim) {
        let io = |a: &u16| *a >= 0xFE00;
        if let Did::Exception(_) = m.did {
            // the entry's own accesses are the last ones
            let n = m.reads.len();
            let own = if m.real_traps { n - 1 } else { n };
            self.maybe.extend(m.reads[..own].iter().filter(|a| !io(a)));
            self.reads.extend(m.reads[own..].iter().filter(|a| !io(a)));
        } else {
            self.reads.extend(m.reads.iter().filter(|a| !io(a)));
        }
        for (a, old, new) in &m.writes {
            if !io(a) {
                self.writes.insert(*a);
                if old != new {
                    self.changed.insert(*a);
                }
            }
        }
    }
    fn check(&self, got: &BTreeMap<u16, (bool, bool, bool)>) -> Option<String> {
        for a in &self.reads {
            if !got.get(a).is_some_and(|g| g.0) {
                return Some(format!("x{a:04X} was read but not marked as read"));
            }
        }
        for a in &self.writes {
            if !got.get(a).is_some_and(|g| g.1) {
                return Some(format!("x{a:04X} was written but not marked as written"));
            }
        }
        for a in &self.changed {
            if !got.get(a).is_some_and(|g| g.2) {
                return Some(format!("x{a:04X} changed but is not marked as modified"));
            }
        }
        for (a, (rd, wr, md)) in got {
            if *a >= 0xFE00 {
                continue;
            }
            if *rd && !self.reads.contains(a) && !self.maybe.contains(a) {
                return Some(format!("x{a:04X} marked as read but not read"));
            }
            if *wr && !self.writes.contains(a) {
                return Some(format!("x{a:04X} marked as written but not written"));
            }
            if *md && !self.writes.contains(a) {
                return Some(format!("x{a:04X} marked as modified but not written"));
            }
        }
        None
    }
}
fn observed(p: &mut Pair, r: &mut Rng) -> Result<BTreeMap<u16, (bool, bool, bool)>, String> {
    let m: BTreeMap<u16, (bool, bool, bool)> = if r.pct(90) {
        p.sim.observer.take_mem_accesses().map(|(a, s)| (a, (s.read(), s.written(), s.modified()))).collect()
    } else {
        let all: BTreeMap<u16, (bool, bool, bool)> = (0..=0xFFFFu16)
            .map(|a| (a, p.sim.observer.get_mem_accesses(a)))
            .filter(|(_, s)| s.accessed())
            .map(|(a, s)| (a, (s.read(), s.written(), s.modified())))
            .collect();
        if r.pct(70) {
            // what is left has to be gone after the next step or run
            return Ok(all);
        }
        let t: BTreeMap<u16, (bool, bool, bool)> = p.sim.observer.take_mem_accesses().map(|(a, s)| (a, (s.read(), s.written(), s.modified()))).collect();
        if t != all {
            return Err("the two views of the observer differ".into());
        }
        all
    };
    Ok(m)
}
fn initialise_all(p: &mut Pair) {
    for a in 0..=0xFFFFu16 {
        let w = p.sim.mem[a].get();
        p.sim.mem[a] = w.into();
    }
}
fn host_noise(p: &mut Pair, r: &mut Rng) {
    // untracked host accesses
    for _ in 0..r.below(4) {
        let a = r.below(0xFE00) as u16;
        let _ = p.sim.read_mem(a, host());
        if r.pct(50) {
            let a = r.below(0xFE00) as u16;
            let v = r.u16();
            let _ = p.sim.write_mem(a, v.into(), host());
            p.m.mem[a as usize] = v;
        }
        if r.pct(10) {
            let _ = p.sim.read_mem(a, lc3_ensemble::sim::MemAccessCtx::omnipotent());
        }
    }
}
fn case(r: &mut Rng, l: &mut Local, kind: Kind, steps: usize) {
    let mut st = state(r, kind, true);
    st.unmap.clear();
    let mut p = pair(&st);
    let strict = kind == Kind::Sane && r.pct(40);
    if strict {
        initialise_all(&mut p);
        p.sim.flags.strict = true;
    }
    let noise = r.pct(50);
    let mut sup = 0;
    for k in 0..steps {
        if noise {
            host_noise(&mut p, r);
        }
        let bulk = r.pct(15);
        let mut w = Want::default();
        let mut did = String::new();
        let mut out = Out::Ok;
        let res;
        if bulk {
            let n = 1 + r.below(30);
            let mut left = n;
            let mut odd = false;
            p.m.mcr = true;
            let mut done = 0;
            let mut pcs: Vec<u16> = vec![];
            while p.m.mcr && left > 0 {
                out = p.m.step();
                odd |= p.m.odd;
                if odd {
                    return;
                }
                w.add(&p.m);
                did = format!("{:?}", p.m.did);
                left -= 1;
                done += 1;
                pcs.push(p.m.pc);
                if out != Out::Ok {
                    break;
                }
            }
            p.m.mcr = false;
            // the run is ended by the predicate, the step limit or a breakpoint
            let last = pcs.pop();
            p.sim.breakpoints.clear();
            let mut left = n;
            res = match last {
                Some(a) if out == Out::Ok && !pcs.contains(&a) && r.pct(50) => {
                    p.sim.breakpoints.insert(lc3_ensemble::sim::debug::Breakpoint::PC(a));
                    l.count("runs to a breakpoint", 1);
                    // (a limit only in case that the breakpoint is missed)
                    left += 50;
                    p.sim.run_while(|_| {
                        left = left.wrapping_sub(1);
                        left != usize::MAX
                    })
                }
                _ => p.sim.run_while(|_| {
                    left = left.wrapping_sub(1);
                    left != usize::MAX
                }),
            };
            l.count("runs", 1);
            l.count("steps in runs", done);
        } else {
            out = p.m.step();
            res = p.sim.step_in();
            if p.m.odd {
                return;
            }
            w.add(&p.m);
        }
        if strict && res.as_ref().is_err_and(is_strict_err) {
            // (strict mode is the subject of another check)
            return;
        }
        l.eval();
        if noise && r.pct(50) {
            host_noise(&mut p, r);
        }
        let tell = |d: &str, p: &Pair| format!("{d}\nstep {k} bulk {bulk} at x{:04X} {:?} {did} strict {strict}\n{}", p.m.at, p.m.did, show(&st));
        let got = match observed(&mut p, r) {
            Ok(g) => g,
            Err(e) => return l.violation(e.clone(), tell(&e, &p)),
        };
        if p.sim.pc != p.m.pc && !matches!(out, Out::Fault(_)) {
            l.inconclusive();
            return;
        }
        if let Some(d) = w.check(&got) {
            return l.violation(format!("observer: {}", &d[6..]), tell(&d, &p));
        }
        l.count("reads compared", w.reads.len() as u64);
        l.count("writes compared", w.writes.len() as u64);
        l.count("writes of the same value", (w.writes.len() - w.changed.len()) as u64);
        if !bulk {
            let key = match p.m.did {
                Did::Instr(Op::Ldi(..) | Op::Sti(..)) => "indirect steps",
                Did::Instr(Op::Rti) => "RTI steps",
                Did::Instr(Op::Trap(_)) => "trap steps",
                Did::Interrupt(..) => "interrupt entries",
                Did::Exception(_) => "exceptions",
                _ => "other steps",
            };
            l.count(key, 1);
            l.distinct(rng::mix((p.m.mem[p.m.at as usize] as u64) << 16 | p.m.at as u64) ^ rng::mix(w.reads.iter().fold(1, |h, a| h * 31 + *a as u64)));
        }
        p.m.pc = p.sim.pc;
        sup = if p.m.user() { 0 } else { sup + 1 };
        if out != Out::Ok || sup > 30 || r.pct(2) {
            sup = 0;
            p.kick(r, &st);
        }
        l.sample(|| format!("x{:04X} {:?}: reads {:04X?} writes {:04X?}", p.m.at, p.m.did, w.reads, w.writes));
    }
}
/// Strict mode on partly initialised machines: what a rejected instruction did not do is not marked.
fn strict(r: &mut Rng, l: &mut Local) {
    let mut st = state(r, Kind::Sane, true);
    st.unmap.clear();
    let mut p = pair(&st);
    partly_initialised(&mut p, r, &st);
    for k in 0..60 {
        let out = p.m.step();
        if p.m.odd {
            return;
        }
        let was: Vec<_> = p.m.writes.iter().map(|w| (w.0, p.sim.mem[w.0])).collect();
        let res = p.sim.step_in();
        let got = match observed(&mut p, r) {
            Ok(g) => g,
            Err(e) => return l.violation(e, show(&st)),
        };
        let tell = |d: &str, p: &Pair| format!("{d}\nstep {k} at x{:04X} {:?}, {:?}, partly initialised, strict\n{}", p.m.at, p.m.did, res.as_ref().map_err(err_kind), show(&st));
        l.eval();
        if res.as_ref().is_err_and(is_strict_err) {
            for &(a, old) in was.iter().filter(|w| w.0 < 0xFE00) {
                let now = p.sim.mem[a];
                let (_, wr, md) = got.get(&a).copied().unwrap_or_default();
                if now.get() != old.get() && !(wr && md) {
                    let d = format!("x{a:04X} changed in a rejected step but is not marked as modified");
                    return l.violation(format!("observer: {}", &d[6..]), tell(&d, &p));
                }
                let new = p.m.writes.iter().find(|w| w.0 == a).unwrap().2;
                if wr && now == old && new != old.get() {
                    let d = format!("x{a:04X} marked as written but the write was rejected");
                    return l.violation(format!("observer: {}", &d[6..]), tell(&d, &p));
                }
                l.count("rejected writes compared", 1);
            }
            for (a, (rd, wr, md)) in &got {
                if *a >= 0xFE00 {
                    continue;
                }
                if (*wr || *md) && !was.iter().any(|w| w.0 == *a) {
                    let d = format!("x{a:04X} marked as written in a rejected step that does not write it");
                    return l.violation(format!("observer: {}", &d[6..]), tell(&d, &p));
                }
                if *rd && !p.m.reads.contains(a) {
                    let d = format!("x{a:04X} marked as read in a rejected step that does not read it");
                    return l.violation(format!("observer: {}", &d[6..]), tell(&d, &p));
                }
            }
            l.count("strict rejections", 1);
            l.distinct(rng::mix((p.m.mem[p.m.at as usize] as u64) << 16 | p.m.at as u64));
            return;
        }
        if p.sim.pc != p.m.pc && !matches!(out, Out::Fault(_)) {
            l.inconclusive();
            return;
        }
        let mut w = Want::default();
        w.add(&p.m);
        if let Some(d) = w.check(&got) {
            return l.violation(format!("observer: {}", &d[6..]), tell(&d, &p));
        }
        if out != Out::Ok {
            return;
        }
    }
}
fn main() {
    let mut c = Check::new("C28");
    c.factor(40);
    c.random("sane", 10_000, |r, l| case(r, l, Kind::Sane, 150));
    c.random("mixed", 8_000, |r, l| case(r, l, Kind::Mixed, 100));
    c.random("wild", 4_000, |r, l| case(r, l, Kind::Wild, 60));
    c.random("strict", 4_000, strict);
    c.finish(
        "access observer after each step (and after runs of up to 30 steps, some ended by a breakpoint) against the reference machine's access log, with untracked host accesses in between, strict mode on initialised machines included, and on partly initialised ones up to the first rejected step; distinct by (word, address, reads)",
        &["I/O addresses are ignored", "reads of an instruction that faults or is rejected by strict mode may or may not be recorded"],
        &[("reads compared", 200_000), ("writes compared", 20_000), ("writes of the same value", 1_000), ("indirect steps", 5_000), ("RTI steps", 2_000), ("trap steps", 2_000), ("interrupt entries", 2_000), ("runs", 5_000), ("runs to a breakpoint", 2_000), ("strict rejections", 1_000), ("rejected writes compared", 200)],
    )
}
