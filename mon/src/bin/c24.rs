//! Line <-> address mapping of debug symbols.
use lc3_ensemble::asm::{assemble_debug, SymbolTable};
use lc3_ensemble::parse::parse_ast;
use mon::model::*;
use mon::refasm::analyze;
use mon::render::{render, Style};
use mon::*;
use std::collections::BTreeMap;

fn check(l: &mut Local, r: &mut Rng, t: &SymbolTable, want: &BTreeMap<usize, u16>, lines: usize, image: &[u16], text: &str) {
    l.eval();
    for line in 0..lines + 3 {
        match guard(|| t.lookup_line(line)) {
            Err(e) => return l.violation(format!("lookup_line panicked at {}", e.loc), format!("line {line}\n{text}")),
            Ok(g) => {
                let w = want.get(&line).copied();
                if g != w {
                    let what = if w.is_none() { "a line without memory maps to an address" } else { "a line does not map to the address of its statement" };
                    return l.violation(what, format!("line {line}: got {g:04X?}, expected {w:04X?}\n{text}"));
                }
                l.count(if w.is_some() { "lines with an address" } else { "lines without an address" }, 1);
            }
        }
    }
    for line in [usize::MAX, usize::MAX - 1, lines + 70_000] {
        match guard(|| t.lookup_line(line)) {
            Ok(None) => {}
            Ok(g) => return l.violation("a line past the end maps to an address", format!("line {line}: {g:?}\n{text}")),
            Err(e) => return l.violation(format!("lookup_line panicked at {}", e.loc), format!("line {line}\n{text}")),
        }
    }
    let back: BTreeMap<u16, usize> = want.iter().map(|(k, v)| (*v, *k)).collect();
    let mut addrs: Vec<u16> = image.iter().copied().take(3000).collect();
    for a in back.keys() {
        addrs.extend([*a, a.wrapping_sub(1), a.wrapping_add(1)]);
    }
    for _ in 0..8 {
        addrs.push(r.u16());
    }
    addrs.extend([0, 0xFFFF]);
    for a in addrs {
        match guard(|| t.rev_lookup_line(a)) {
            Err(e) => return l.violation(format!("rev_lookup_line panicked at {}", e.loc), format!("x{a:04X}\n{text}")),
            Ok(g) => {
                let w = back.get(&a).copied();
                if g != w {
                    let what = if w.is_none() { "an address that starts no statement maps to a line" } else { "an address does not map back to its line" };
                    return l.violation(what, format!("x{a:04X}: got {g:?}, expected {w:?}\n{text}"));
                }
                l.count("addresses looked up", 1);
            }
        }
    }
    let mut it: Vec<(usize, u16)> = match guard(|| t.line_iter().collect()) {
        Ok(v) => v,
        Err(e) => return l.violation(format!("line_iter panicked at {}", e.loc), text),
    };
    it.sort();
    let exp: Vec<(usize, u16)> = want.iter().map(|(a, b)| (*a, *b)).collect();
    if it != exp {
        l.violation("line listing is not the program's lines", format!("got {it:04X?}\nexpected {exp:04X?}\n{text}"));
    }
}
fn main() {
    let mut c = Check::new("C24");
    c.factor(60);
    let o = gen::Opts { max_stmts: 12, label_pct: 30, ..gen::Opts::default() };
    let near = gen::Opts { max_stmts: 4, max_blocks: 7, label_pct: 15, big: false, lo: 0x3000, hi: 0x3060, ..gen::Opts::default() };
    let long = gen::Opts { max_stmts: 300, label_pct: 10, max_blocks: 3, ..gen::Opts::default() };
    let top = gen::Opts { max_stmts: 6, lo: 0xFD00, big: false, ..gen::Opts::default() };
    let bottom = gen::Opts { max_stmts: 6, hi: 0x100, big: false, ..gen::Opts::default() };
    let blocks = gen::Opts { max_blocks: 400, max_stmts: 2, label_pct: 5, big: false, ..gen::Opts::default() };
    let run = |r: &mut Rng, l: &mut Local, huge: bool, blk: bool| {
        let opts = match r.below(20) {
            0 => &long,
            1..=4 => &near,
            5 | 6 => &top,
            7 | 8 => &bottom,
            _ => &o,
        };
        let opts = if blk { &blocks } else { opts };
        let p = gen::program(r, opts);
        let st = if r.pct(30) { Style::plain() } else { Style::random(r) };
        let st = if huge { Style { huge: 100, ..st } } else { st };
        let rd = render(&p, r, &st);
        let Ok(ast) = parse_ast(&rd.text) else { return l.count("skipped: did not parse", 1) };
        let obj = match guard(|| assemble_debug(ast, &rd.text)) {
            Ok(Ok(o)) => o,
            Ok(Err(_)) => return l.count("skipped: did not assemble", 1),
            Err(e) => return l.violation(format!("assembling with debug symbols panicked at {}", e.loc), format!("{}\n{}", e.msg, rd.text)),
        };
        let Some(t) = obj.symbol_table() else {
            return l.violation("a file assembled with debug symbols has no symbol table", rd.text);
        };
        let (_, obj) = analyze(&p);
        let mut want = BTreeMap::new();
        for (k, s) in p.iter().enumerate() {
            if s.size() > 0 {
                want.insert(rd.stmts[k].line, obj.addr[k].unwrap());
            }
        }
        let image: Vec<u16> = obj.image.keys().copied().collect();
        let lines = rd.text.matches('\n').count() + 1;
        check(l, r, t, &want, lines, &image, &rd.text);
        if !want.is_empty() {
            l.distinct_str(&rd.text);
            l.sample(|| rd.text.clone());
        }
    };
    c.random("programs", 150_000, |r, l| run(r, l, false, false));
    c.random("long sources", 60, |r, l| run(r, l, true, false));
    c.random("many blocks", 100, |r, l| run(r, l, false, true));
    c.finish(
        "random programs (several blocks in any address order, own-line labels, comments, blank lines, externals inside of blocks, multi-word directives); every line and every occupied or neighbouring address compared with the program; distinct by source text",
        &["a statement is on the line of its instruction or directive text"],
        &[("lines with an address", 100_000), ("lines without an address", 100_000), ("addresses looked up", 500_000)],
    )
}
