//! Mutations that break (or stress) the well-formedness of a program.
use crate::gen;
use crate::model::*;
use crate::rng::Rng;

pub fn positions(p: &[St], f: impl Fn(&St) -> bool) -> Vec<usize> {
    (0..p.len()).filter(|&i| f(&p[i])).collect()
}
pub fn all_labels(p: &[St]) -> Vec<String> {
    p.iter().flat_map(|s| s.labels.iter().cloned()).collect()
}
pub fn is_orig(s: &St) -> bool {
    matches!(s.nuc, Nuc::D(Dir::Orig(_)))
}
/// (start, end) of the blocks.
pub fn blocks(p: &[St]) -> Vec<(i64, i64)> {
    let mut v = vec![];
    let mut cur: Option<(i64, i64)> = None;
    for s in p {
        match &s.nuc {
            Nuc::D(Dir::Orig(a)) => {
                v.extend(cur);
                cur = Some((*a as i64, *a as i64));
            }
            Nuc::D(Dir::End) => v.extend(cur.take()),
            _ => {
                if let Some(c) = &mut cur {
                    c.1 += s.size() as i64;
                }
            }
        }
    }
    v.extend(cur);
    v
}
pub fn some_stmt(r: &mut Rng) -> St {
    match r.below(6) {
        0 => sd(Dir::Fill(r.u16())),
        1 => sd(Dir::Blkw(1 + r.below(5) as u16)),
        2 => sd(Dir::Stringz("ab".into())),
        3 => sd(Dir::FillLab("NOWHERE".into())),
        _ => si(gen::any_ins(r)),
    }
}
pub fn with_target(r: &mut Rng, l: String) -> St {
    let t = Tgt::Lab(l);
    let a = r.reg();
    si(match r.below(8) {
        0 => Ins::Br(1 + r.below(7) as u8, t),
        1 => Ins::Ld(a, t),
        2 => Ins::Ldi(a, t),
        3 => Ins::Lea(a, t),
        4 => Ins::St(a, t),
        5 => Ins::Sti(a, t),
        6 => Ins::Nop(t),
        _ => Ins::Jsr(t),
    })
}
pub fn mutate(r: &mut Rng, p: &mut Vec<St>) {
    let any = |r: &mut Rng, p: &Vec<St>| r.below(p.len() + 1);
    match r.below(22) {
        // block structure
        0 => {
            let v = positions(p, |s| matches!(s.nuc, Nuc::D(Dir::End)));
            if !v.is_empty() {
                p.remove(*r.pick(&v));
            }
        }
        1 => {
            let v = positions(p, is_orig);
            if !v.is_empty() {
                p.remove(*r.pick(&v));
            }
        }
        2 => {
            let k = any(r, p);
            p.insert(k, sd(Dir::Orig(0x3000 + r.below(0x4000) as u16)));
        }
        3 => {
            let k = any(r, p);
            p.insert(k, sd(Dir::End));
        }
        // statements and labels outside of blocks
        4 | 5 => {
            let v: Vec<usize> = (0..=p.len()).filter(|&k| k == 0 || matches!(p[k - 1].nuc, Nuc::D(Dir::End | Dir::External(_)))).collect();
            let k = *r.pick(&v);
            let mut s = some_stmt(r);
            if r.pct(50) {
                s = sd(Dir::External("EXT_OUT".into())).lab("OUTER");
                if r.pct(50) {
                    s = sd(Dir::Orig(0x5000)).lab("OUTER");
                    p.insert(k, sd(Dir::End));
                }
            }
            p.insert(k, s);
        }
        // duplicate label
        6 | 7 => {
            let ls = all_labels(p);
            if !ls.is_empty() && !p.is_empty() {
                let l = r.pick(&ls).clone();
                let k = r.below(p.len());
                let l = gen::respell(r, &l);
                p[k].labels.push(l);
            }
        }
        // undefined operand
        8 => {
            let k = any(r, p);
            let s = with_target(r, "UNDEFINED".into());
            p.insert(k, s);
        }
        9 => {
            // a label loses its definition
            let v = positions(p, |s| !s.labels.is_empty());
            if !v.is_empty() {
                let k = *r.pick(&v);
                p[k].labels.pop();
            }
        }
        // externals
        10 => {
            let k = any(r, p);
            let s = with_target(r, "EXTN".into());
            p.insert(k, s);
            let k = any(r, p);
            p.insert(k, sd(Dir::External("extn".into())));
        }
        11 => {
            let ls = all_labels(p);
            if !ls.is_empty() {
                let l = r.pick(&ls).clone();
                let l = gen::respell(r, &l);
                let k = any(r, p);
                p.insert(k, sd(Dir::External(l)));
            }
        }
        12 => {
            let k = any(r, p);
            p.insert(k, sd(Dir::External("EXTN".into())));
            let k = any(r, p);
            p.insert(k, sd(Dir::FillLab("Extn".into())));
        }
        // block placement
        13..=17 => {
            let v = positions(p, is_orig);
            if v.is_empty() {
                return;
            }
            let bs = blocks(p);
            let j = r.below(v.len());
            let (s, e) = bs[j.min(bs.len() - 1)];
            let size = e - s;
            let dlt = r.range(-2, 2);
            let other = *r.pick(&bs);
            let to = match r.below(6) {
                0 => 0xFE00 - size + dlt,
                1 => 0x1_0000 - size + dlt,
                2 => other.1 + dlt,
                3 => other.0 - size + dlt,
                4 => other.0 + dlt,
                _ => *r.pick(&[0, 1, 0xFDFF, 0xFE00, 0xFE01, 0xFFFE, 0xFFFF, 0x7FFF, 0x8000]),
            };
            p[v[j]].nuc = Nuc::D(Dir::Orig(to.clamp(0, 0xFFFF) as u16));
        }
        // sizes
        18 => {
            let k = any(r, p);
            let n = *r.pick(&[1u16, 0xFDFF, 0xFE00, 0xFFFF, 0x8000, 0x4000, 1000]);
            p.insert(k, sd(Dir::Blkw(n)));
        }
        // a block that lies inside, around or between others
        19 => {
            let bs = blocks(p);
            if bs.is_empty() {
                return;
            }
            let o = *r.pick(&bs);
            let n = r.below(4);
            let at = (o.0 + r.range(-3, (o.1 - o.0).max(1) + 3)).clamp(0, 0xFFFF) as u16;
            let mut b = vec![sd(Dir::Orig(at))];
            for _ in 0..n {
                b.push(some_stmt(r));
            }
            b.push(sd(Dir::End));
            let ends: Vec<usize> = (0..=p.len()).filter(|&k| k == 0 || matches!(p[k - 1].nuc, Nuc::D(Dir::End))).collect();
            let k = *r.pick(&ends);
            p.splice(k..k, b);
        }
        // far operands
        20 => {
            let bs = blocks(p);
            let ls = all_labels(p);
            if bs.is_empty() || ls.is_empty() {
                return;
            }
            let k = any(r, p);
            let l = r.pick(&ls).clone();
            let s = with_target(r, l);
            p.insert(k, s);
        }
        _ => {
            let k = any(r, p);
            let s = some_stmt(r);
            p.insert(k, s);
        }
    }
}

