//! Spans of assembler and linker errors.
use lc3_ensemble::asm::{assemble, assemble_debug, AsmErr, AsmErrKind as K, ObjectFile, SymbolTable};
use lc3_ensemble::err::Error;
use lc3_ensemble::parse::parse_ast;
use mon::model::*;
use mon::mutate::mutate;
use mon::refasm::upper;
use mon::render::{render, Style};
use mon::*;
use std::collections::BTreeSet;
use std::ops::Range;

/// Queries everything an error offers.
fn spans(l: &mut Local, e: &AsmErr, what: &str, src: &str) -> Option<Vec<Range<usize>>> {
    let r = guard(|| {
        let s = e.span().expect("an error has spans");
        let first = s.first();
        let all: Vec<Range<usize>> = s.iter().cloned().collect();
        let own: Vec<Range<usize>> = e.span.iter().cloned().collect();
        let _ = (e.to_string(), e.help().map(|h| h.to_string()), format!("{e:?}"), e.span.first());
        (first, all, own)
    });
    l.eval();
    match r {
        Err(p) => {
            l.violation(format!("{what}: querying the spans of {:?} panicked at {}", e.kind, p.loc), format!("{}\n{src}", p.msg));
            None
        }
        Ok((first, all, own)) => {
            if all.first() != Some(&first) || own != all {
                l.violation(format!("{what}: the first span of {:?} is not the first of its spans", e.kind), format!("{first:?} {all:?}\n{src}"));
                return None;
            }
            l.count(&format!("{what}: {} span(s)", all.len().min(4)), 1);
            Some(all)
        }
    }
}
fn label_char(r: &mut Rng) -> char {
    *r.pick(&['ß', 'ŉ', 'ǰ', 'ΐ', 'ﬁ', 'é', 'ı', 'ſ', 'K', '中', 'ᾳ'])
}
/// Renames a label everywhere, to a name whose upper-case form has another length.
fn odd_rename(r: &mut Rng, p: &mut [St]) {
    let ls = mutate::all_labels(p);
    if ls.is_empty() {
        return;
    }
    let from = upper(r.pick(&ls));
    let mut to = String::from("q_");
    for _ in 0..1 + r.below(3) {
        to.push(label_char(r));
    }
    let fix = |x: &mut String| {
        if upper(x) == from {
            *x = to.clone();
        }
    };
    for s in p {
        s.labels.iter_mut().for_each(fix);
        match &mut s.nuc {
            Nuc::D(Dir::FillLab(x) | Dir::External(x)) => fix(x),
            Nuc::I(i) => {
                if let Some((Tgt::Lab(x), _)) = i.tgt() {
                    let mut x = x.clone();
                    fix(&mut x);
                    gen::set_tgt(i, Tgt::Lab(x));
                }
            }
            _ => {}
        }
    }
}
/// Gives one label operand such a name, that nothing defines.
fn odd_operand(r: &mut Rng, p: &mut [St]) {
    let n = p.iter().filter(|s| s.operand_label().is_some()).count();
    if n == 0 {
        return;
    }
    let k = r.below(n);
    let mut to = String::from("w_");
    for _ in 0..1 + r.below(4) {
        to.push(if r.pct(70) { label_char(r) } else { 'x' });
    }
    let s = p.iter_mut().filter(|s| s.operand_label().is_some()).nth(k).unwrap();
    match &mut s.nuc {
        Nuc::D(Dir::FillLab(x)) => *x = to,
        Nuc::I(i) => gen::set_tgt(i, Tgt::Lab(to)),
        _ => {}
    }
}
use mon::mutate;
fn source_err(l: &mut Local, p: &[St], src: &str, e: &AsmErr, what: &str) {
    let Some(all) = spans(l, e, what, src) else { return };
    let bad = |l: &mut Local, m: &str| l.violation(format!("{what}: {:?}: {m}", e.kind), format!("{all:?}\n{src}\n{src:?}"));
    for s in &all {
        if s.start > s.end || s.end > src.len() {
            return bad(l, "a span does not lie within the source");
        }
        if !src.is_char_boundary(s.start) || !src.is_char_boundary(s.end) {
            return bad(l, "a span splits a character of the source");
        }
    }
    let text: Vec<&str> = all.iter().map(|s| &src[s.clone()]).collect();
    let operands: BTreeSet<&str> = p.iter().filter_map(|s| s.operand_label()).collect();
    let defs: BTreeSet<&str> = p.iter().flat_map(|s| s.labels.iter().map(|x| x.as_str())).collect();
    let decls: BTreeSet<&str> = p.iter().filter_map(|s| if let Nuc::D(Dir::External(x)) = &s.nuc { Some(x.as_str()) } else { None }).collect();
    let has = |set: &BTreeSet<&str>, x: &str| set.iter().any(|y| upper(y) == upper(x));
    let ok = match &e.kind {
        K::UndetAddrLabel => text.iter().all(|t| defs.contains(t)),
        K::OverlappingLabels => {
            text.iter().all(|t| (defs.contains(t) || decls.contains(t)) && upper(t) == upper(text[0]))
        }
        K::OffsetExternal => text.iter().all(|t| operands.contains(t) && has(&decls, t)),
        K::OffsetNewErr(_) => text.iter().all(|t| operands.contains(t) && (has(&defs, t) || has(&decls, t))),
        K::CouldNotFindLabel => text.iter().all(|t| operands.contains(t) && !has(&defs, t) && !has(&decls, t)),
        _ => true,
    };
    if !ok {
        return bad(l, &format!("a span does not cover a spelling of the offending label: {text:?}"));
    }
    l.count(&format!("{:?}", std::mem::discriminant(&e.kind)).replace("Discriminant", "error kind "), 1);
    if matches!(e.kind, K::UndetAddrLabel | K::OverlappingLabels | K::OffsetExternal | K::OffsetNewErr(_) | K::CouldNotFindLabel) {
        l.count("label errors", 1);
        l.count("undefined non-ASCII names", (matches!(e.kind, K::CouldNotFindLabel) && text.iter().any(|t| !t.is_ascii())) as u64);
        l.count("label errors at non-ASCII names", text.iter().any(|t| !t.is_ascii()) as u64);
    }
}
fn one_source(r: &mut Rng, l: &mut Local, o: &gen::Opts, huge: u32) {
    let mut p = gen::program(r, o);
    for _ in 0..1 + r.below(3) {
        mutate::mutate(r, &mut p);
    }
    if r.pct(40) {
        odd_rename(r, &mut p);
    }
    if r.pct(20) {
        odd_operand(r, &mut p);
    }
    let st = if r.pct(50) { Style::plain() } else { Style::random(r) };
    let rd = render(&p, r, &Style { huge, ..st });
    let Ok(ast) = parse_ast(&rd.text) else { return l.count("skipped: did not parse", 1) };
    let parsed: Vec<St> = ast.iter().map(from_crate).collect();
    for k in 0..4 {
        let (what, res) = match k {
            0 => ("assemble", guard(|| assemble(ast.clone()).err())),
            1 => ("assemble_debug", guard(|| assemble_debug(ast.clone(), &rd.text).err())),
            2 => ("SymbolTable::new", guard(|| SymbolTable::new(&ast, None).err())),
            _ => ("SymbolTable::new with source", guard(|| SymbolTable::new(&ast, Some(&rd.text)).err())),
        };
        match res {
            Err(e) => return l.violation(format!("{what} panicked at {}", e.loc), format!("{}\n{}", e.msg, rd.text)),
            Ok(Some(e)) => {
                source_err(l, &parsed, &rd.text, &e, what);
                l.distinct_str(&rd.text);
                l.sample(|| format!("{e:?}\n{}", rd.text));
            }
            Ok(None) => l.count("no error", 1),
        }
    }
}
/// Files that are likely not to link.
fn link(r: &mut Rng, l: &mut Local) {
    let base = *r.pick(&[0x3000u16, 0x3004, 0xFDF0, 0]);
    let n = 2 + r.below(3);
    let mut names: Vec<String> = ["Alpha", "beta", "Strasse_ß", "g_ŉ", "X_1"].iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut names);
    let mut files = vec![];
    for _ in 0..n {
        let mut p = vec![];
        let mut used = BTreeSet::new();
        let mut at = base as usize + if r.pct(40) { r.below(0x200) } else { r.below(8) };
        for _ in 0..1 + r.below(2) {
            if at > 0xFDF0 {
                break;
            }
            p.push(sd(Dir::Orig(at as u16)));
            let k = 1 + r.below(3);
            for _ in 0..k {
                let mut s = sd(Dir::Fill(r.u16()));
                let x = r.pick(&names).clone();
                if r.pct(60) && used.insert(upper(&x)) {
                    s.labels.push(if r.pct(50) { x } else { gen::respell(r, &x) });
                }
                p.push(s);
            }
            p.push(sd(Dir::End));
            at += k + if r.pct(50) { 0 } else { 1 + r.below(40) };
        }
        for x in &names {
            if r.pct(25) && used.insert(upper(x)) {
                p.push(sd(Dir::External(x.clone())));
                p.push(sd(Dir::Orig(at.min(0xFDFF) as u16)));
                p.push(sd(Dir::FillLab(x.clone())));
                p.push(sd(Dir::End));
                at += 1;
            }
        }
        let st = if r.pct(50) { Style::plain() } else { Style::random(r) };
        let t = render(&p, r, &st).text;
        let Ok(ast) = parse_ast(&t) else { return l.count("skipped: did not parse", 1) };
        let o = match r.pct(70) {
            true => assemble_debug(ast, &t),
            false => assemble(ast),
        };
        let Ok(o) = o else { return l.count("skipped: did not assemble", 1) };
        files.push((o, t));
    }
    let (mut acc, mut srcs) = files.remove(0);
    for (f, t) in files {
        let a = acc.clone();
        srcs.push_str("\n-----\n");
        srcs.push_str(&t);
        let swap = r.pct(50);
        match guard(|| if swap { ObjectFile::link(f, a) } else { ObjectFile::link(a, f) }) {
            Err(e) => return l.violation(format!("link panicked at {}", e.loc), format!("{}\n{srcs}", e.msg)),
            Ok(Ok(o)) => {
                l.count("linked", 1);
                acc = o;
            }
            Ok(Err(e)) => {
                spans(l, &e, "link", &srcs);
                l.count(&format!("link: {:?}", e.kind), 1);
                l.distinct_str(&srcs);
            }
        }
    }
}
fn main() {
    let mut c = Check::new("C26");
    c.quick_factor(6);
    c.factor(40);
    let o = gen::Opts { max_stmts: 8, label_pct: 40, ..gen::Opts::default() };
    let near = gen::Opts { max_stmts: 5, label_pct: 50, lo: 0x3000, hi: 0x3080, big: false, ..gen::Opts::default() };
    c.random("assembling", 60_000, |r, l| {
        let o = *r.pick(&[&o, &near]);
        one_source(r, l, o, 0);
    });
    c.random("linking", 30_000, |r, l| link(r, l));
    c.random("assembling long sources", 12, |r, l| one_source(r, l, &o, 100));
    c.finish(
        "mutated programs (also with labels whose upper-case form has another length) assembled in four ways, and files with clashing blocks and labels linked; spans of every error queried, compared with the source and with the offending label; distinct by source text",
        &["the span of a label error covers exactly a spelling of the label"],
        &[("label errors", 20_000), ("label errors at non-ASCII names", 2_000), ("undefined non-ASCII names", 500), ("link: OverlappingLabels", 500), ("link: OverlappingBlocks", 500)],
    )
}
