//! Debug information of linked files.
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::ObjectFile;
use mon::files::*;
use mon::gen;
use mon::model::*;
use mon::refasm::upper;
use mon::render::Style;
use mon::*;
use std::collections::{BTreeMap, BTreeSet};

/// What a file says about its addresses and labels.
struct Facts {
    /// First address of each statement -> trimmed text of its line.
    lines: BTreeMap<u16, String>,
    labels: BTreeSet<String>,
    /// Spans of label tokens in the text.
    tokens: Vec<(String, usize, usize)>,
}
fn facts(f: &File) -> Facts {
    let text: Vec<&str> = f.r.text.split('\n').collect();
    let mut x = Facts { lines: BTreeMap::new(), labels: f.refo.labels.keys().cloned().collect(), tokens: vec![] };
    for (k, s) in f.prog.iter().enumerate() {
        let i = &f.r.stmts[k];
        if s.size() > 0 {
            x.lines.insert(f.refo.addr[k].unwrap(), text[i.line].trim().to_string());
        }
        for (n, sp) in s.labels.iter().zip(&i.label_spans) {
            x.tokens.push((upper(n), sp.start, sp.end));
        }
        if let (Some(n), Some(sp)) = (s.operand_label(), &i.operand_span) {
            x.tokens.push((upper(n), sp.start, sp.end));
        }
        if let (Nuc::D(Dir::External(n)), Some(sp)) = (&s.nuc, &i.operand_span) {
            x.tokens.push((upper(n), sp.start, sp.end));
        }
    }
    x
}
fn trip(r: &mut Rng, l: &mut Local, o: ObjectFile) -> ObjectFile {
    if !r.pct(20) {
        return o;
    }
    let out = if r.pct(50) {
        guard(|| BinaryFormat::deserialize(&BinaryFormat::serialize(&o))).ok().flatten()
    } else {
        guard(|| TextFormat::deserialize(&TextFormat::serialize(&o))).ok().flatten()
    };
    match out {
        Some(x) if x == o => {
            l.count("files that went through a format", 1);
            x
        }
        // another property's business
        _ => o,
    }
}
fn judge(l: &mut Local, o: &ObjectFile, order: &[usize], fs: &[&File], fx: &[Facts], how: &str) {
    let show = || format!("{how}\n{}", show_set(fs));
    let Some(t) = o.symbol_table() else {
        return l.violation("a link of files with debug symbols has no symbol table", show());
    };
    let Some(src) = t.source_info() else {
        return l.violation("a link of files with debug symbols has no source", show());
    };
    let mut want: BTreeMap<u16, &String> = BTreeMap::new();
    for i in order {
        want.extend(fx[*i].lines.iter().map(|(a, t)| (*a, t)));
    }
    // addresses
    let mut addrs: BTreeSet<u16> = want.keys().copied().collect();
    for i in order {
        addrs.extend(fs[*i].refo.image.keys().take(200));
    }
    let near: Vec<u16> = want.keys().flat_map(|a| [a.wrapping_sub(1), a.wrapping_add(1)]).collect();
    addrs.extend(near);
    for a in addrs {
        let got = guard(|| t.rev_lookup_line(a).map(|n| (n, src.read_line(n).map(|s| s.to_string()), t.lookup_line(n))));
        l.eval();
        match (got, want.get(&a)) {
            (Err(p), _) => return l.violation(format!("a debug query panicked at {}", p.loc), format!("x{a:04X}: {}\n{}", p.msg, show())),
            (Ok(None), None) => {}
            (Ok(None), Some(w)) => return l.violation("an address of a file lost its source line in a link", format!("x{a:04X}: {w:?}\n{}", show())),
            (Ok(Some(g)), None) => return l.violation("a link reports a source line for an address that starts no statement", format!("x{a:04X}: {g:?}\n{}", show())),
            (Ok(Some((n, text, back))), Some(w)) => {
                if text.as_ref() != Some(w) {
                    return l.violation("a link reports another source line", format!("x{a:04X}: line {n} {text:?}, expected {w:?}\n{}", show()));
                }
                if back != Some(a) {
                    return l.violation("the line reported by a link maps to another address", format!("x{a:04X}: line {n}, back {back:04X?}\n{}", show()));
                }
                l.count("addresses with their line", 1);
            }
        }
    }
    // labels: a token of the label, in the place its file has in the combined source
    let joined: String = order.iter().map(|i| fs[*i].r.text.as_str()).collect::<Vec<_>>().join("\n");
    let mut places: BTreeMap<&String, BTreeSet<(usize, usize)>> = BTreeMap::new();
    if src.source() == joined {
        l.count("links whose source is the files in order", 1);
        let mut base = 0;
        for i in order {
            for (n, s, e) in &fx[*i].tokens {
                places.entry(n).or_default().insert((base + s, base + e));
            }
            base += fs[*i].r.text.len() + 1;
        }
    }
    let labels: BTreeSet<&String> = order.iter().flat_map(|i| fx[*i].labels.iter()).collect();
    for n in labels {
        l.eval();
        match guard(|| t.get_label_source(n)) {
            Err(p) => return l.violation(format!("get_label_source panicked at {}", p.loc), format!("{n}: {}\n{}", p.msg, show())),
            Ok(None) => return l.violation("a label of a link has no source span", format!("{n}\n{}", show())),
            Ok(Some(sp)) => {
                let text = src.source().get(sp.clone());
                if text.map(upper).as_ref() != Some(n) {
                    return l.violation("the source span of a label does not cover its text in the combined source", format!("{n}: {sp:?} is {text:?}\n{}", show()));
                }
                if !places.is_empty() && !places.get(n).is_some_and(|p| p.contains(&(sp.start, sp.end))) {
                    return l.violation("the source span of a label is not an occurrence of the label", format!("{n}: {sp:?} is {text:?}\n{}", show()));
                }
                l.count("labels with their span", 1);
            }
        }
    }
    // every listed line
    let list: Vec<(usize, u16)> = match guard(|| t.line_iter().collect()) {
        Ok(v) => v,
        Err(p) => return l.violation(format!("line_iter panicked at {}", p.loc), format!("{}\n{}", p.msg, show())),
    };
    for (n, a) in list {
        if !want.get(&a).is_some_and(|w| src.read_line(n) == Some(w.as_str())) {
            return l.violation("a link lists a line whose text is another statement", format!("line {n} x{a:04X}\n{}", show()));
        }
    }
}
fn links(r: &mut Rng, l: &mut Local, fs: &[&File], all: &[Tree]) {
    let fx: Vec<Facts> = fs.iter().map(|f| facts(f)).collect();
    for (i, f) in fs.iter().enumerate() {
        if f.obj.symbol_table().and_then(|s| s.source_info()).map(|s| s.source()) != Some(f.r.text.as_str()) {
            return l.violation("an assembled file does not hold its source", f.r.text.clone());
        }
        judge(l, &f.obj, &[i], fs, &fx, "alone");
    }
    let mut judged = BTreeSet::new();
    struct Cx<'a> {
        fs: &'a [&'a File],
        fx: &'a [Facts],
        judged: &'a mut BTreeSet<String>,
    }
    fn go(t: &Tree, c: &mut Cx, r: &mut Rng, l: &mut Local) -> Option<ObjectFile> {
        match t {
            Tree::Leaf(i) => {
                let o = c.fs[*i].obj.clone();
                Some(trip(r, l, o))
            }
            Tree::Node(a, b) => {
                let (a, b) = (go(a, c, r, l)?, go(b, c, r, l)?);
                let Ok(Ok(o)) = guard(|| ObjectFile::link(a, b)) else {
                    l.count("links refused", 1);
                    return None;
                };
                let o = trip(r, l, o);
                let k = expr(t);
                if c.judged.insert(k.clone()) {
                    l.count("links judged", 1);
                    judge(l, &o, &leaves(t), c.fs, c.fx, &format!("linked {k}"));
                }
                Some(o)
            }
        }
    }
    let mut c = Cx { fs, fx: &fx, judged: &mut judged };
    for t in all {
        go(t, &mut c, r, l);
    }
    let texts: Vec<&str> = fs.iter().map(|f| f.r.text.as_str()).collect();
    l.distinct_str(&texts.concat());
    l.sample(|| show_set(fs));
}
fn sets(r: &mut Rng, l: &mut Local, n: usize, big: u32) {
    let hostile = *r.pick(&[0, 0, 40]);
    let rich = *r.pick(&[0, 50]);
    match set(r, &SetOpts { n, conflict: 2, overlap: 2, debug: 100, undefined: 20, hostile, rich, huge: big, many: big / 5 }) {
        Err(e) => {
            l.inconclusive();
            l.sample(|| e);
        }
        Ok(fs) => {
            let fs: Vec<&File> = fs.iter().collect();
            let mut all: Vec<Tree> = perms(fs.len()).iter().flat_map(|p| trees(p)).collect();
            if n > 3 {
                r.shuffle(&mut all);
                all.truncate(12);
            }
            links(r, l, &fs, &all);
        }
    }
}
/// Independent files (also empty ones, and ones that are only text), linked in a random shape.
fn heaps(r: &mut Rng, l: &mut Local) {
    let n = 2 + r.below(9);
    let mut used = BTreeSet::new();
    let mut fs = vec![];
    for k in 0..n {
        let lo = 0x1000 + 0x1000 * k as u16;
        let g = gen::Opts { max_blocks: 3, max_stmts: 6, externals: true, lo, hi: lo + 0xE00, big: false, avoid: used.clone(), label_pct: 40, ..gen::Opts::default() };
        let p = match r.below(6) {
            0 => vec![],
            _ => gen::program(r, &g),
        };
        if p.iter().any(|s| matches!(s.nuc, Nuc::D(Dir::Orig(a)) if a < lo || a > lo + 0xF00)) {
            continue;
        }
        for s in &p {
            used.extend(s.labels.iter().map(|x| upper(x)).chain(s.operand_label().map(upper)));
            if let Nuc::D(Dir::External(x)) = &s.nuc {
                used.insert(upper(x));
            }
        }
        let mut style = if r.pct(30) { Style::plain() } else { Style::random(r) };
        if r.pct(25) {
            style.hostile = 60;
            style.comments = 100;
        }
        match build(r, p, &style, true) {
            Ok(f) => fs.push(f),
            Err(e) => {
                l.inconclusive();
                return l.sample(|| e);
            }
        }
    }
    let fs: Vec<&File> = fs.iter().collect();
    if fs.len() < 2 {
        return;
    }
    let mut all = vec![];
    for _ in 0..2 {
        let mut ix: Vec<usize> = (0..fs.len()).collect();
        r.shuffle(&mut ix);
        fn shape(r: &mut Rng, xs: &[usize]) -> Tree {
            if xs.len() == 1 {
                return Tree::Leaf(xs[0]);
            }
            let k = match r.below(3) {
                0 => 1,
                1 => xs.len() - 1,
                _ => 1 + r.below(xs.len() - 1),
            };
            Tree::Node(Box::new(shape(r, &xs[..k])), Box::new(shape(r, &xs[k..])))
        }
        all.push(shape(r, &ix));
    }
    links(r, l, &fs, &all);
}
fn main() {
    let mut c = Check::new("C22");
    c.quick_factor(2);
    c.factor(30);
    c.random("pairs", 30_000, |r, l| sets(r, l, 2, 0));
    c.random("triples", 12_000, |r, l| sets(r, l, 3, 0));
    c.random("quadruples", 4_000, |r, l| sets(r, l, 4, 0));
    c.random("heaps of files", 8_000, heaps);
    c.random("large files", 60, |r, l| {
        let n = 2 + r.below(2);
        sets(r, l, n, 50)
    });
    c.finish(
        "generated sets of 2-10 files with debug symbols in random layouts, linked in every order and bracketing (2-3 files) or random ones; after every link each address's line text, each label's span and each listed line compared with the original texts",
        &["line texts are compared without surrounding white space", "an address inside of a multi-word statement has no line"],
        &[("addresses with their line", 200_000), ("labels with their span", 100_000), ("links judged", 50_000)],
    )
}
