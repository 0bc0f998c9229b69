//! External references: fail to load until resolved, and resolve to the label's address.
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::ObjectFile;
use lc3_ensemble::sim::mem::MachineInitStrategy;
use lc3_ensemble::sim::{SimErr, Simulator};
use mon::files::*;
use mon::gen;
use mon::model::*;
use mon::refasm::upper;
use mon::render::Style;
use mon::simutil::flags;
use mon::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

thread_local!(static SIM: RefCell<Option<Simulator>> = const { RefCell::new(None) });
/// Loads into a reused machine; reads words back through `f`.
fn load<T>(o: &ObjectFile, f: impl FnOnce(&Simulator) -> T) -> Result<T, SimErr> {
    SIM.with_borrow_mut(|s| {
        let s = s.get_or_insert_with(|| Simulator::new(flags(false, false, false, false, MachineInitStrategy::Known { value: 0x5A5A })));
        s.load_obj_file(o)?;
        Ok(f(s))
    })
}
/// Sends a file through a format.
fn trip(r: &mut Rng, l: &mut Local, o: ObjectFile) -> ObjectFile {
    if !r.pct(35) {
        return o;
    }
    // (a failing round trip is another property's business)
    let out = if r.pct(50) {
        guard(|| BinaryFormat::deserialize(&BinaryFormat::serialize(&o))).ok().flatten()
    } else {
        guard(|| TextFormat::deserialize(&TextFormat::serialize(&o))).ok().flatten()
    };
    match out {
        Some(x) => {
            l.count("files that went through a format", 1);
            x
        }
        None => o,
    }
}
/// Judges the load of a (linked) file made of `fs`.
fn judge(l: &mut Local, o: &ObjectFile, fs: &[&File], how: &str) {
    // label -> address, over the files whose labels can be seen by the linker
    let mut defs: BTreeMap<String, (u16, bool)> = BTreeMap::new();
    let mut exts: BTreeSet<String> = BTreeSet::new();
    for f in fs {
        let seen = f.obj.symbol_table().is_some();
        for (n, &(a, e)) in &f.refo.labels {
            if e {
                exts.insert(n.clone());
            } else {
                let d = defs.entry(n.clone()).or_insert((a, false));
                d.1 |= seen;
            }
        }
    }
    let uses: Vec<(u16, &String)> = fs.iter().flat_map(|f| f.refo.relocs.iter().map(|(a, n)| (*a, n))).collect();
    let undefined: Vec<_> = uses.iter().filter(|(_, n)| !defs.contains_key(*n)).collect();
    let stripped: Vec<_> = uses.iter().filter(|(_, n)| defs.get(*n).is_some_and(|d| !d.1)).collect();
    let resolved: Vec<(u16, u16)> = uses.iter().filter_map(|(a, n)| defs.get(*n).filter(|d| d.1).map(|d| (*a, d.0))).collect();
    let show = || format!("{how}\n{}", show_set(fs));
    // the image
    let img: BTreeMap<u16, Option<u16>> = o.addr_iter().collect();
    for (a, v) in &resolved {
        l.eval();
        if img.get(a) != Some(&Some(*v)) {
            return l.violation("a linked external reference does not hold the label's address", format!("x{a:04X}: {:04X?}, expected x{v:04X}\n{}", img.get(a), show()));
        }
    }
    l.count("references resolved by linking", resolved.len() as u64);
    l.count("references that stay undefined", undefined.len() as u64);
    let got = guard(|| {
        load(o, |s| {
            let look = |a: u16| (s.mem[a].get(), s.mem[a].is_init());
            uses.iter().map(|(a, _)| (*a, look(*a))).collect::<BTreeMap<_, _>>()
        })
    });
    l.eval();
    match got {
        Err(p) => l.violation(format!("loading panicked at {}", p.loc), format!("{}\n{}", p.msg, show())),
        Ok(Err(SimErr::UnresolvedExternal(n))) => {
            if uses.iter().all(|(a, n)| resolved.contains(&(*a, defs.get(*n).map_or(0, |d| d.0)))) && exts.iter().all(|n| defs.get(n).is_some_and(|d| d.1)) && !uses.is_empty() {
                return l.violation("a fully resolved file cannot be loaded", format!("{n}\n{}", show()));
            }
            if undefined.is_empty() && !stripped.is_empty() && exts.iter().all(|n| defs.contains_key(n)) {
                l.violation_sig("stripped-definer", "references stay unresolved after linking a definer without debug symbols", format!("{n}\n{}", show()));
                return;
            }
            l.count("loads refused", 1);
            if !undefined.is_empty() {
                l.count("loads refused for an undefined reference", 1);
                if !exts.contains(&upper(&n)) || defs.get(&upper(&n)).is_some_and(|d| d.1) {
                    l.violation("the unresolved-external error names another label", format!("{n:?}\n{}", show()));
                }
            }
        }
        Ok(Err(e)) => {
            if !uses.is_empty() {
                l.violation("loading fails with another error", format!("{e:?}\n{}", show()));
            }
        }
        Ok(Ok(m)) => {
            if !undefined.is_empty() {
                return l.violation("a file with an undefined external reference loads", format!("{undefined:04X?}\n{}", show()));
            }
            for (a, n) in &stripped {
                if m[a] != (defs[*n].0, true) {
                    return l.violation("a file with an unresolved external reference loads", format!("x{a:04X} {n}\n{}", show()));
                }
            }
            for (a, v) in &resolved {
                if m[a] != (*v, true) {
                    return l.violation("a loaded external reference does not hold the label's address", format!("x{a:04X}: {:04X?}, expected x{v:04X}\n{}", m[a], show()));
                }
            }
            if !resolved.is_empty() {
                l.count("loads of resolved files", 1);
            }
        }
    }
}
/// Where declarations lie relative to uses.
fn placement(l: &mut Local, f: &File) {
    let idx = |p: &dyn Fn(&St) -> Option<String>| -> Vec<(usize, String)> { f.prog.iter().enumerate().filter_map(|(i, s)| p(s).map(|n| (i, upper(&n)))).collect() };
    let decl = idx(&|s| match &s.nuc {
        Nuc::D(Dir::External(n)) => Some(n.clone()),
        _ => None,
    });
    let uses = idx(&|s| match &s.nuc {
        Nuc::D(Dir::FillLab(n)) => Some(n.clone()),
        _ => None,
    });
    for (d, n) in &decl {
        let (b, a) = (uses.iter().any(|(u, m)| m == n && u < d), uses.iter().any(|(u, m)| m == n && u > d));
        let k = match (b, a) {
            (true, true) => "between its uses",
            (true, false) => "after its uses",
            (false, true) => "before its uses",
            (false, false) => "unused",
        };
        l.count(&format!("declared {k}, {}", if f.debug { "debug" } else { "stripped" }), 1);
    }
}
fn links(r: &mut Rng, l: &mut Local, fs: &[&File]) {
    for f in fs {
        placement(l, f);
        judge(l, &f.obj, &[f], "alone");
    }
    if fs.len() < 2 {
        return;
    }
    let mut all: Vec<Tree> = perms(fs.len()).iter().flat_map(|p| trees(p)).collect();
    if fs.len() > 3 {
        r.shuffle(&mut all);
        all.truncate(12);
    }
    let mut judged = BTreeSet::new();
    for t in &all {
        fn go(t: &Tree, fs: &[&File], r: &mut Rng, l: &mut Local, judged: &mut BTreeSet<String>) -> Option<ObjectFile> {
            match t {
                Tree::Leaf(i) => Some(trip(r, l, fs[*i].obj.clone())),
                Tree::Node(a, b) => {
                    let (a, b) = (go(a, fs, r, l, judged)?, go(b, fs, r, l, judged)?);
                    let o = guard(|| ObjectFile::link(a, b)).ok()?.ok();
                    let Some(o) = o else {
                        l.count("links refused", 1);
                        return None;
                    };
                    let o = trip(r, l, o);
                    if judged.insert(expr(t)) {
                        let sub: Vec<&File> = leaves(t).iter().map(|i| fs[*i]).collect();
                        judge(l, &o, &sub, &format!("linked {}", expr(t)));
                    }
                    Some(o)
                }
            }
        }
        go(t, fs, r, l, &mut judged);
    }
    let texts: Vec<&str> = fs.iter().map(|f| f.r.text.as_str()).collect();
    l.distinct_str(&texts.concat());
    l.sample(|| show_set(fs));
}
fn sets(r: &mut Rng, l: &mut Local, n: usize, big: u32) {
    let (debug, undefined) = (*r.pick(&[0, 50, 100]), *r.pick(&[0, 0, 20, 60]));
    match set(r, &SetOpts { n, conflict: 0, overlap: 2, debug, undefined, hostile: 0, rich: 15, huge: big, many: big / 2 }) {
        Err(e) => {
            l.inconclusive();
            l.sample(|| e);
        }
        Ok(fs) => links(r, l, &fs.iter().collect::<Vec<_>>()),
    }
}
/// One user and one definer with many labels; declarations placed everywhere.
fn many(r: &mut Rng, l: &mut Local) {
    let mut used = BTreeSet::new();
    let top = if r.pct(10) { 120 } else { 12 };
    let n = 1 + r.below(top);
    let names: Vec<String> = (0..n).map(|_| gen::label_name(r, &mut used, true)).collect();
    // user: several blocks
    let mut p: Vec<St> = vec![];
    let nb = 1 + r.below(3);
    let org = *r.pick(&[0x0000u16, 0x0001, 0x3000, 0x8000]);
    let mut at = org;
    for b in 0..nb {
        p.push(sd(Dir::Orig(at)));
        let k = 1 + r.below(2 * n + 2);
        for _ in 0..k {
            let nuc = match r.below(5) {
                0 => Nuc::D(Dir::Fill(gen::word(r))),
                1 if r.pct(30) => Nuc::D(Dir::Blkw(1 + r.below(4) as u16)),
                _ => {
                    let x = r.pick(&names).clone();
                    Nuc::D(Dir::FillLab(gen::respell(r, &x)))
                }
            };
            let s = St { labels: vec![], nuc };
            at += s.size() as u16;
            p.push(s);
        }
        p.push(sd(Dir::End));
        if b + 1 < nb {
            at += r.below(4) as u16 * 5;
        }
    }
    for x in &names {
        for _ in 0..if r.pct(8) { 2 } else { 1 } {
            let i = r.below(p.len() + 1);
            let x = gen::respell(r, x);
            p.insert(i, sd(Dir::External(x)));
        }
    }
    // definers
    let parts = 1 + r.below(3);
    let mut q: Vec<Vec<St>> = (0..parts).map(|k| vec![sd(Dir::Orig(0xA000 + 0x1000 * k as u16))]).collect();
    let skip = r.pct(30);
    for x in &names {
        if skip && r.pct(20) {
            continue;
        }
        let k = r.below(parts);
        for _ in 0..r.below(3) {
            q[k].push(sd(Dir::Fill(gen::word(r))));
        }
        let x = gen::respell(r, x);
        if r.pct(50) && q[k].len() > 1 {
            q[k].last_mut().unwrap().labels.push(x);
        } else {
            q[k].push(sd(Dir::Blkw(1)).lab(&x));
        }
    }
    let style = if r.pct(50) { Style::plain() } else { Style::random(r) };
    let ud = r.pct(50);
    let mut fs = vec![];
    for (i, mut x) in std::iter::once(p).chain(q).enumerate() {
        if i > 0 {
            x.push(sd(Dir::End));
        }
        let d = if i == 0 { ud } else { r.pct(85) };
        match build(r, x, &style, d) {
            Ok(f) => fs.push(f),
            Err(e) => {
                l.inconclusive();
                return l.sample(|| e);
            }
        }
    }
    links(r, l, &fs.iter().collect::<Vec<_>>());
}
fn main() {
    let mut c = Check::new("C21");
    c.factor(30);
    c.random("single files", 60_000, |r, l| sets(r, l, 1, 0));
    c.random("pairs", 40_000, |r, l| sets(r, l, 2, 0));
    c.random("triples", 15_000, |r, l| sets(r, l, 3, 0));
    c.random("many labels", 20_000, many);
    c.random("large files", 200, |r, l| {
        let n = 1 + r.below(2);
        sets(r, l, n, 60)
    });
    c.finish(
        "generated sets of 1-4 files with .external before, between and after the .fill uses, in random letter cases, with and without debug symbols; every file loaded alone and after every link, also after a trip through a file format; load results, images and machine memory compared with the model",
        &["an external label that is never used need not stop a load"],
        &[
            ("references resolved by linking", 20_000),
            ("loads refused for an undefined reference", 20_000),
            ("loads of resolved files", 5_000),
            ("declared after its uses, stripped", 1_000),
            ("declared after its uses, debug", 1_000),
            ("declared before its uses, stripped", 1_000),
            ("declared between its uses, stripped", 500),
            ("files that went through a format", 2_000),
        ],
    )
}
