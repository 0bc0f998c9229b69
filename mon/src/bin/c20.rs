//! Linking: unions, resolution and order-independence.
use lc3_ensemble::asm::{AsmErr, ObjectFile};
use mon::files::*;
use mon::*;
use std::collections::BTreeMap;

/// Links along a tree; every intermediate result is judged once.
type Memo<'a> = BTreeMap<String, Result<ObjectFile, ()>>;
fn eval(t: &Tree, fs: &[&File], memo: &mut Memo, l: &mut Local) -> Result<ObjectFile, ()> {
    if let Tree::Leaf(i) = t {
        return Ok(fs[*i].obj.clone());
    }
    let key = expr(t);
    if let Some(x) = memo.get(&key) {
        return x.clone();
    }
    let Tree::Node(a, b) = t else { unreachable!() };
    let out = match (eval(a, fs, memo, l), eval(b, fs, memo, l)) {
        (Ok(a), Ok(b)) => {
            let got: Result<ObjectFile, AsmErr> = ObjectFile::link(a, b);
            l.eval();
            let sub: Vec<&File> = leaves(t).iter().map(|i| fs[*i]).collect();
            let want = ref_link(&sub);
            match (&got, &want) {
                (Ok(o), Ok(w)) => {
                    l.count("links that succeed", 1);
                    l.count("relocations resolved", sub.iter().map(|f| f.refo.relocs.len()).sum::<usize>() as u64 - w.pending.as_ref().map_or(0, |p| p.len()) as u64);
                    l.count("relocations pending", w.pending.as_ref().map_or(0, |p| p.len()) as u64);
                    match observe(o) {
                        Err(e) => l.violation("a link result is inconsistent", format!("{key}: {e}\n{}", show_set(fs))),
                        Ok(g) => {
                            let d = if g.image != w.image {
                                let a = g.image.iter().find(|(a, v)| w.image.get(a) != Some(v)).or(w.image.iter().find(|(a, v)| g.image.get(a) != Some(v)));
                                Some(("the image of a link differs from the union with resolved externals", format!("first at {a:04X?}: linked {:04X?}, expected {:04X?}", a.and_then(|a| g.image.get(a.0)), a.and_then(|a| w.image.get(a.0)))))
                            } else if g.labels != w.labels {
                                Some(("the labels of a link differ", format!("{:04X?}, expected {:04X?}", g.labels, w.labels)))
                            } else if !g.same_pending(w) {
                                Some(("the pending relocations of a link differ", format!("{:04X?}, expected {:04X?}", g.pending, w.pending)))
                            } else {
                                None
                            };
                            if let Some((what, d)) = d {
                                l.violation(what, format!("{key}: {d}\n{}", show_set(fs)));
                            }
                        }
                    }
                }
                (Err(e), Err(w)) => {
                    l.count(&format!("refused: {w}"), 1);
                    let _ = e;
                }
                (Ok(_), Err(w)) => l.violation(format!("a link succeeds although {w}"), format!("{key}\n{}", show_set(fs))),
                (Err(e), Ok(_)) => l.violation(format!("a link is refused without a reason: {:?}", e.kind), format!("{key}\n{}", show_set(fs))),
            }
            got.map_err(|_| ())
        }
        _ => Err(()),
    };
    memo.insert(key, out.clone());
    out
}
fn one(r: &mut Rng, l: &mut Local, o: &SetOpts) {
    let fs = match set(r, o) {
        Ok(f) => f,
        Err(e) => {
            l.inconclusive();
            return l.sample(|| e);
        }
    };
    let fs: Vec<&File> = fs.iter().filter(|f| f.obj.symbol_table().is_some()).collect();
    if fs.len() < 2 {
        return l.count("fewer than two files with symbol tables", 1);
    }
    // each file alone is as modelled
    for f in &fs {
        match (observe(&f.obj), ref_link(&[f])) {
            (Ok(g), Ok(w)) if g.same(&w) => {}
            (g, w) => return l.violation("an assembled file has another image, label or relocation", format!("{g:04X?}\nexpected {w:04X?}\n{}", f.r.text)),
        }
    }
    let mut defs: BTreeMap<&String, Vec<u16>> = BTreeMap::new();
    for f in &fs {
        for (n, (a, e)) in &f.refo.labels {
            if !e {
                defs.entry(n).or_default().push(*a);
            }
        }
    }
    l.count("labels defined at one address in two files", defs.values().filter(|v| v.len() > 1 && v.iter().all(|a| *a == v[0])).count() as u64);
    let mut memo = Memo::new();
    let ok = ref_link(&fs).is_ok();
    for p in perms(fs.len()) {
        for t in trees(&p) {
            let got = eval(&t, &fs, &mut memo, l);
            l.count("orders and groupings", 1);
            if got.is_ok() != ok {
                return l.violation("the order or grouping of links changes whether they succeed", format!("{}: {}\n{}", expr(&t), got.is_ok(), show_set(&fs)));
            }
        }
    }
    l.count(if ok { "linkable sets" } else { "unlinkable sets" }, 1);
    let texts: Vec<&str> = fs.iter().map(|f| f.r.text.as_str()).collect();
    l.distinct_str(&texts.concat());
    l.sample(|| show_set(&fs));
}
fn main() {
    let mut c = Check::new("C20");
    c.factor(30);
    c.random("pairs", 50_000, |r, l| one(r, l, &SetOpts { n: 2, ..SetOpts::default() }));
    c.random("triples", 25_000, |r, l| {
        let debug = *r.pick(&[100, 50, 0]);
        one(r, l, &SetOpts { n: 3, debug, ..SetOpts::default() })
    });
    c.random("quadruples", 8_000, |r, l| {
        let debug = *r.pick(&[100, 80]);
        one(r, l, &SetOpts { n: 4, conflict: 12, overlap: 10, debug, ..SetOpts::default() })
    });
    c.random("hundreds of references", 300, |r, l| {
        let n = 2 + r.below(2);
        one(r, l, &SetOpts { n, conflict: 5, overlap: 2, many: 40, ..SetOpts::default() })
    });
    c.finish(
        "generated sets of 2-4 files with shared, conflicting and external labels and touching or overlapping blocks, linked in every order and bracketing; every intermediate image, label table and relocation table compared with a reference linker; distinct by sources",
        &["kinds of link errors are not compared", "files without a symbol table are left out"],
        &[("relocations resolved", 10_000), ("relocations pending", 10_000), ("refused: blocks overlap", 1_000), ("refused: label defined twice", 1_000), ("labels defined at one address in two files", 300), ("linkable sets", 5_000), ("unlinkable sets", 2_000)],
    )
}
