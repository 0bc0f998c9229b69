//! Label queries of symbol tables.
use lc3_ensemble::asm::{assemble_debug, SymbolTable};
use lc3_ensemble::parse::parse_ast;
use mon::model::*;
use mon::refasm::{analyze, upper};
use mon::render::{render, Rendered, Style};
use mon::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;

/// First binding occurrence of each label: definition or `.external`.
fn first_spans(p: &[St], rd: &Rendered) -> BTreeMap<String, Range<usize>> {
    let mut m: BTreeMap<String, Range<usize>> = BTreeMap::new();
    for (s, i) in p.iter().zip(&rd.stmts) {
        for (n, sp) in s.labels.iter().zip(&i.label_spans) {
            m.entry(upper(n)).or_insert(sp.clone());
        }
        if let Nuc::D(Dir::External(n)) = &s.nuc {
            m.entry(upper(n)).or_insert(i.operand_span.clone().unwrap());
        }
    }
    m
}
fn query(l: &mut Local, r: &mut Rng, p: &[St], rd: &Rendered, t: &SymbolTable, from: &str, spans: bool) {
    let (_, want) = analyze(p);
    let first = first_spans(p, rd);
    l.eval();
    let bad = |l: &mut Local, what: &str, d: String| l.violation(format!("{from}: {what}"), format!("{d}\n{}", rd.text));
    let mut by_addr: BTreeMap<u16, BTreeSet<String>> = BTreeMap::new();
    for (n, (a, _)) in &want.labels {
        by_addr.entry(*a).or_default().insert(n.clone());
    }
    // spellings that occur in the program, and others
    for (n, (a, ext)) in &want.labels {
        let mut names = vec![n.clone(), n.to_lowercase()];
        for s in p {
            for x in s.labels.iter().map(|s| s.as_str()).chain(s.operand_label()) {
                if upper(x) == *n {
                    names.push(x.to_string());
                }
            }
        }
        for _ in 0..3 {
            names.push(gen::respell(r, n));
        }
        for q in names {
            if upper(&q) != *n {
                continue;
            }
            l.count("spellings queried", 1);
            match guard(|| (t.lookup_label(&q), t.get_label_source(&q))) {
                Err(e) => return bad(l, &format!("label query panicked at {}", e.loc), format!("{q:?}: {}", e.msg)),
                Ok((ga, gs)) => {
                    let wa = if *ext { 0 } else { *a };
                    if ga != Some(wa) {
                        return bad(l, "address lookup of a label is wrong", format!("{q:?}: got {ga:04X?}, expected x{wa:04X}"));
                    }
                    if spans && gs.as_ref() != Some(&first[n]) {
                        return bad(l, "source lookup of a label is not its first occurrence", format!("{q:?}: got {gs:?}, expected {:?}", first[n]));
                    }
                    if gs.is_none() {
                        return bad(l, "source lookup of a label gives nothing", format!("{q:?}"));
                    }
                }
            }
        }
        l.count("external labels", *ext as u64);
    }
    // reverse lookups
    let mut addrs: BTreeSet<u16> = by_addr.keys().copied().collect();
    for a in by_addr.keys() {
        addrs.insert(a.wrapping_add(1));
        addrs.insert(a.wrapping_sub(1));
    }
    addrs.extend(want.image.keys().take(50));
    addrs.extend([0, 0xFFFF, 0x3000]);
    addrs.insert(r.u16());
    for a in addrs {
        match guard(|| t.rev_lookup_label(a).map(|s| s.to_string())) {
            Err(e) => return bad(l, &format!("reverse lookup panicked at {}", e.loc), format!("x{a:04X}")),
            Ok(g) => {
                let ok = match (&g, by_addr.get(&a)) {
                    (None, None) => true,
                    (Some(g), Some(s)) => s.contains(&upper(g)),
                    _ => false,
                };
                if !ok {
                    return bad(l, "reverse lookup does not return a label recorded at the address", format!("x{a:04X}: got {g:?}, recorded {:?}", by_addr.get(&a)));
                }
                l.count("reverse lookups", 1);
            }
        }
    }
    // listing
    let list: Vec<(String, u16, bool)> = t.label_iter().map(|(n, a, e)| (upper(n), a, e)).collect();
    let mut sorted = list.clone();
    sorted.sort();
    let exp: Vec<(String, u16, bool)> = want.labels.iter().map(|(n, (a, e))| (n.clone(), *a, *e)).collect();
    if sorted != exp {
        return bad(l, "label listing is not the program's labels", format!("got {sorted:?}\nexpected {exp:?}"));
    }
    // names that are not in the program
    let mut others = vec![String::new(), " ".into(), "ADD".into(), "R0".into(), "nope_".into(), ".end".into()];
    for n in want.labels.keys().take(6) {
        others.push(format!("{n}_"));
        others.push(format!(" {n}"));
        others.push(format!("{n}:"));
        others.push(n.chars().skip(1).collect());
        others.push(n.chars().take(n.chars().count() - 1).collect());
    }
    for q in others {
        if want.labels.contains_key(&upper(&q)) {
            continue;
        }
        l.count("absent names queried", 1);
        match guard(|| (t.lookup_label(&q), t.get_label_source(&q))) {
            Ok((None, None)) => {}
            Ok(x) => return bad(l, "a name that is not in the program gives a result", format!("{q:?}: {x:?}")),
            Err(e) => return bad(l, &format!("label query panicked at {}", e.loc), format!("{q:?}")),
        }
    }
}
fn main() {
    let mut c = Check::new("C23");
    c.factor(60);
    let o = gen::Opts { max_stmts: 12, label_pct: 45, big: false, ..gen::Opts::default() };
    let many = gen::Opts { max_stmts: 200, label_pct: 60, ..gen::Opts::default() };
    let run = |r: &mut Rng, l: &mut Local, huge: bool| {
        let opts = if r.pct(3) { &many } else { &o };
        let p = gen::program(r, opts);
        let st = if r.pct(40) { Style::plain() } else { Style::random(r) };
        let st = if huge { Style { huge: 100, ..st } } else { st };
        let rd = render(&p, r, &st);
        let Ok(ast) = parse_ast(&rd.text) else { return l.count("skipped: did not parse", 1) };
        let obj = match guard(|| assemble_debug(ast.clone(), &rd.text)) {
            Ok(Ok(o)) => o,
            _ => return l.count("skipped: did not assemble", 1),
        };
        let has = !analyze(&p).1.labels.is_empty();
        match obj.symbol_table() {
            Some(t) => query(l, r, &p, &rd, t, "assembled with debug symbols", true),
            None => l.violation("a file assembled with debug symbols has no symbol table", rd.text.clone()),
        }
        if let Ok(Ok(t)) = guard(|| SymbolTable::new(&ast, Some(&rd.text))) {
            query(l, r, &p, &rd, &t, "symbol table with source", true);
        }
        if let Ok(Ok(t)) = guard(|| SymbolTable::new(&ast, None)) {
            // Without the source, a spelling of another length cannot be measured.
            let ascii = rd.text.is_ascii();
            query(l, r, &p, &rd, &t, "symbol table without source", ascii);
        }
        if has {
            l.distinct_str(&rd.text);
            l.sample(|| rd.text.clone());
        }
    };
    c.random("labels of programs", 30_000, |r, l| run(r, l, false));
    c.random("long sources", 60, |r, l| run(r, l, true));
    c.finish(
        "random programs with many labels (several per statement, aliases of one address, externals, non-ASCII letters); all labels under several spellings, absent names, labelled and unlabelled addresses and the listing compared with the program; distinct by source text",
        &["the first occurrence of a label is the first place that defines or declares it"],
        &[("spellings queried", 200_000), ("reverse lookups", 100_000), ("absent names queried", 100_000), ("external labels", 5_000)],
    )
}
