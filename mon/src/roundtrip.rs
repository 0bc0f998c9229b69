//! Round trips of object files through a format.
use crate::files::{self, observe, SetOpts};
use crate::gen;
use crate::model::*;
use crate::render::Style;
use crate::{guard, Check, Local, Rng};
use lc3_ensemble::asm::ObjectFile;
use lc3_ensemble::parse::parse_ast;

pub trait Trip: Sync {
    /// Serializes and reads back.
    fn trip(&self, o: &ObjectFile) -> Option<ObjectFile>;
    fn text(&self, o: &ObjectFile) -> String;
}
/// First difference in what two object files show.
fn differ(a: &ObjectFile, b: &ObjectFile) -> Option<String> {
    let (x, y) = match (observe(a), observe(b)) {
        (Ok(x), Ok(y)) => (x, y),
        (x, y) => return Some(format!("inconsistent: {x:?} / {y:?}")),
    };
    if x.image != y.image {
        let k = x.image.iter().find(|(k, v)| y.image.get(k) != Some(v)).or(y.image.iter().find(|(k, v)| x.image.get(k) != Some(v)));
        return Some(format!("memory image, at {k:04X?}"));
    }
    if x.labels != y.labels {
        return Some(format!("labels {:04X?} became {:04X?}", x.labels, y.labels));
    }
    if !x.same_pending(&y) {
        return Some(format!("relocations {:04X?} became {:04X?}", x.pending, y.pending));
    }
    let (Some(s), Some(t)) = (a.symbol_table(), b.symbol_table()) else {
        return match (a.symbol_table().is_some(), b.symbol_table().is_some()) {
            (p, q) if p != q => Some(format!("symbol table: {p} became {q}")),
            _ => None,
        };
    };
    for l in x.labels.keys() {
        let (p, q) = (s.get_label_source(l), t.get_label_source(l));
        if p != q {
            return Some(format!("span of {l}: {p:?} became {q:?}"));
        }
    }
    let (p, q): (Vec<_>, Vec<_>) = (s.line_iter().collect(), t.line_iter().collect());
    if p != q {
        return Some(format!("line table {p:04X?} became {q:04X?}"));
    }
    for i in x.image.keys() {
        if s.rev_lookup_line(*i) != t.rev_lookup_line(*i) {
            return Some(format!("line of x{i:04X}"));
        }
    }
    match (s.source_info(), t.source_info()) {
        (None, None) => None,
        (Some(p), Some(q)) => {
            if p.source() != q.source() {
                return Some(format!("source {:?} became {:?}", p.source(), q.source()));
            }
            (p.count_lines() != q.count_lines() || (0..p.count_lines()).any(|i| p.line_span(i) != q.line_span(i))).then(|| "lines of the source".into())
        }
        (p, q) => Some(format!("source present: {} became {}", p.is_some(), q.is_some())),
    }
}
/// Judges one object file.
pub fn judge(t: &dyn Trip, l: &mut Local, o: &ObjectFile, src: &str, definer: Option<&ObjectFile>) {
    l.eval();
    let back = match guard(|| t.trip(o)) {
        Ok(b) => b,
        Err(e) => return l.violation(format!("panic at {}", e.loc), format!("{}\n{src}", e.msg)),
    };
    let form = || guard(|| t.text(o)).unwrap_or_default();
    let Some(b) = back else {
        return l.violation("the reader rejects what the writer wrote", format!("{src}\n--- written\n{}", form()));
    };
    if let Some(d) = differ(o, &b) {
        return l.violation("reading back gives another object file", format!("{d}\n{src}\n--- written\n{}", form()));
    }
    if *o != b {
        return l.violation("reading back gives an unequal object file", format!("{src}\n--- written\n{}", form()));
    }
    if let Some(d) = definer {
        // both resolve the same way
        let (x, y) = (ObjectFile::link(o.clone(), d.clone()), ObjectFile::link(b.clone(), d.clone()));
        match (x, y) {
            (Ok(x), Ok(y)) => {
                if let Some(d) = differ(&x, &y) {
                    return l.violation("after reading back, linking gives another object file", format!("{d}\n{src}"));
                }
                l.count("linked after reading back", 1);
            }
            (x, y) if x.is_ok() != y.is_ok() => return l.violation("after reading back, linking ends differently", src.to_string()),
            _ => {}
        }
    }
    // what it is
    let ext = o.symbol_table().map(|s| s.label_iter().filter(|x| x.2).count()).unwrap_or(0);
    l.count("with external labels", (ext > 0) as u64);
    l.count("without a symbol table", o.symbol_table().is_none() as u64);
    l.count("with source", o.symbol_table().is_some_and(|s| s.source_info().is_some()) as u64);
    l.distinct_str(src);
}
fn single(t: &dyn Trip, r: &mut Rng, l: &mut Local, large: bool) {
    let mut o = gen::Opts { big: r.pct(15), ..gen::Opts::default() };
    if large && r.pct(50) {
        o = gen::Opts { big: false, max_blocks: 400, max_stmts: 2, ..gen::Opts::default() };
    }
    let p = gen::program(r, &o);
    let mut st = if r.pct(20) { Style::plain() } else { Style::random(r) };
    if r.pct(60) {
        st.hostile = *r.pick(&[20, 100]);
        st.comments = *r.pick(&[50, 100]);
    }
    if large {
        st.huge = 50;
    }
    let debug = r.pct(75);
    match files::build(r, p, &st, debug) {
        Ok(f) => {
            l.count("relocations", f.refo.relocs.len() as u64);
            l.count("hostile sources", (f.debug && st.hostile > 0) as u64);
            // a definer of all externals
            let mut d = String::from(".orig xF000\n");
            let mut any = false;
            for (n, (_, e)) in &f.refo.labels {
                if *e {
                    d.push_str(&format!("{n} .fill 1\n"));
                    any = true;
                }
            }
            d.push_str(".end\n");
            let definer = if any { parse_ast(&d).ok().and_then(|a| lc3_ensemble::asm::assemble_debug(a, &d).ok()) } else { None };
            judge(t, l, &f.obj, &f.r.text, definer.as_ref());
            l.sample(|| f.r.text.clone());
        }
        Err(e) => {
            l.inconclusive();
            l.sample(|| e);
        }
    }
}
fn linked(t: &dyn Trip, r: &mut Rng, l: &mut Local, big: u32) {
    let (n, debug, hostile) = (2 + r.below(3), *r.pick(&[100, 100, 70, 30, 0]), *r.pick(&[0, 100]));
    let o = SetOpts { n, conflict: 5, overlap: 5, debug, undefined: *r.pick(&[10, 60]), hostile, rich: 50, huge: big, many: big / 2 };
    let fs = match files::set(r, &o) {
        Ok(f) => f,
        Err(e) => {
            l.inconclusive();
            return l.sample(|| e);
        }
    };
    let src: Vec<&files::File> = fs.iter().collect();
    let src = files::show_set(&src);
    let mut objs: Vec<ObjectFile> = fs.iter().map(|f| f.obj.clone()).collect();
    while objs.len() > 1 {
        let a = objs.swap_remove(r.below(objs.len()));
        let b = objs.swap_remove(r.below(objs.len()));
        match ObjectFile::link(a, b) {
            Ok(c) => {
                judge(t, l, &c, &src, None);
                l.count("linked files", 1);
                l.count("linked files with relocations", files::pending(&c).is_some_and(|p| !p.is_empty()) as u64);
                objs.push(c);
            }
            Err(_) => return l.count("links refused", 1),
        }
    }
}
/// Sources that consist of little but odd characters.
fn odd(t: &dyn Trip, r: &mut Rng, l: &mut Local) {
    let mut s = String::new();
    let with = r.pct(80);
    let nl = |r: &mut Rng| *r.pick(&["\n", "\r\n", "\n\n", "\n \n", "\n\t\r\n", "\r\n\r\n"]);
    let filler = |r: &mut Rng, s: &mut String| {
        for _ in 0..r.below(4) {
            if r.pct(60) {
                s.push(';');
                for _ in 0..r.below(10) {
                    s.push(crate::render::hostile_char(r));
                }
            }
            s.push_str(*r.pick(&["", " ", "\t", "   "]));
            s.push_str(nl(r));
        }
    };
    filler(r, &mut s);
    if with {
        s.push_str(".orig x3000");
        s.push_str(nl(r));
        for k in 0..r.below(6) {
            filler(r, &mut s);
            let n = crate::render::hostile_char(r);
            match r.below(4) {
                0 => s.push_str(&format!("L{k} .stringz \"a{}b\"", if matches!(n, '"' | '\\' | '\r') { '~' } else { n })),
                1 => s.push_str("ADD R0, R0, #1"),
                2 => s.push_str(&format!("M{k}: .blkw 2")),
                _ => s.push_str(".fill x1234"),
            }
            s.push_str(*r.pick(&["", " ", "\t"]));
            s.push_str(nl(r));
        }
        s.push_str(".end");
        if r.pct(60) {
            s.push_str(nl(r));
            filler(r, &mut s);
        }
        if r.pct(30) {
            s.push(';');
            s.push(crate::render::hostile_char(r));
        }
    }
    let Ok(ast) = parse_ast(&s) else { return l.count("skipped: did not parse", 1) };
    match lc3_ensemble::asm::assemble_debug(ast, &s) {
        Ok(o) => {
            judge(t, l, &o, &s, None);
            l.count("odd sources", 1);
            l.sample(|| s);
        }
        Err(_) => l.count("skipped: did not assemble", 1),
    }
}
/// One character in every place of a source.
fn every_char(t: &dyn Trip, l: &mut Local, c: char) {
    if c == '\n' {
        return;
    }
    for s in [format!(";{c}\n.orig x3000\nHALT\n.end ;{c}"), format!(".orig x3000\nA HALT ; {c}{c} x\n;{c}\n.end\n"), format!(";{c}")] {
        if let Some(o) = parse_ast(&s).ok().and_then(|a| lc3_ensemble::asm::assemble_debug(a, &s).ok()) {
            judge(t, l, &o, &s, None);
            l.count("single characters", 1);
        }
    }
}
fn giants(t: &dyn Trip, l: &mut Local) {
    let asm = |s: &str, debug: bool| {
        let a = parse_ast(s).ok()?;
        if debug { lc3_ensemble::asm::assemble_debug(a, s).ok() } else { lc3_ensemble::asm::assemble(a).ok() }
    };
    let long = "L".repeat(70_000);
    let cases = [
        String::new(),
        "\n".into(),
        "\r\n".into(),
        " ".into(),
        "\n\n\n".into(),
        ";".into(),
        ".external X".into(),
        ".external X\n".into(),
        format!("{}.orig x3000\nA .fill X\n.end\n.external X", "\n".repeat(70_000)),
        format!(".orig x3000\n{long} HALT\n.fill {long}\n.end\n"),
        format!(".orig x3000\n.fill {long}\n.end\n.external {long}\n"),
        ".orig x0000\n.blkw xFE00\n.end\n".into(),
        ".orig x0000\n.blkw 1\n.end\n.orig xFDFF\nZ .fill Z\n.end".into(),
        format!(".orig x0000\n{}.end\n", "HALT\n".repeat(0xFE00)),
        format!(".orig x1000\n.stringz \"{}\"\n.end\n", "é".repeat(20_000)),
        ".orig x3000\n.end\n".into(),
        ".orig x3000\nA .end\n".into(),
        "; no final newline \\".into(),
        ";\r\r\n;\\r\\n\n".into(),
        ".orig x3000\n.end\n# not a comment".replace('#', ";"),
    ];
    for s in &cases {
        for debug in [true, false] {
            match asm(s, debug) {
                Some(o) => {
                    let show: String = s.chars().take(300).collect();
                    judge(t, l, &o, &show, None);
                    l.count("special sources", 1);
                    // linked with itself moved away, and with an empty file
                    for x in [ObjectFile::link(o.clone(), ObjectFile::empty()), ObjectFile::link(ObjectFile::empty(), o.clone())].into_iter().flatten() {
                        judge(t, l, &x, &show, None);
                    }
                }
                None => l.inconclusive(),
            }
        }
    }
    judge(t, l, &ObjectFile::empty(), "empty object file", None);
}
pub fn run(prop: &'static str, t: &dyn Trip) -> ! {
    let mut c = Check::new(prop);
    c.factor(40);
    c.random("assembled", 40_000, |r, l| single(t, r, l, false));
    c.random("assembled, large", 150, |r, l| single(t, r, l, true));
    c.random("linked", 12_000, |r, l| linked(t, r, l, 0));
    c.random("linked, large", 80, |r, l| linked(t, r, l, 40));
    c.random("odd sources", 40_000, |r, l| odd(t, r, l));
    c.exhaustive("characters", 0x1100, |i, _, l| {
        for k in 0..0x100 {
            // every character below x3000 and a part of the others
            let v = i as u32 * 0x100 + k;
            if v < 0x3000 || k % 64 == 63 || v & 0xFF00 == 0xFE00 || v & 0xFFE0 == 0xFFE0 {
                if let Some(ch) = char::from_u32(v) {
                    every_char(t, l, ch);
                }
            }
        }
    });
    c.once("special sources", |_, l| giants(t, l));
    c.finish(
        "object files of generated programs (with and without debug symbols, externals anywhere, hostile characters in comments and strings, all newline forms), links of 2-4 of them, every character in comments, giant and degenerate sources: written, read back, compared field by field and by equality, and linked again; distinct by source",
        &["the source passed to the assembler is the text that was parsed"],
        &[("with external labels", 10_000), ("without a symbol table", 3_000), ("linked files with relocations", 3_000), ("hostile sources", 5_000), ("odd sources", 20_000), ("single characters", 20_000), ("linked after reading back", 5_000), ("special sources", 30)],
    )
}
