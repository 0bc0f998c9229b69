//! Source position queries against direct computation on the text.
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::{assemble_debug, ObjectFile, SourceInfo};
use lc3_ensemble::parse::parse_ast;
use mon::*;

fn text(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => r.below(3),
        1 => 200 + r.below(2000),
        _ => r.below(60),
    };
    let ws = r.below(60) as u32;
    let mut s = String::new();
    for _ in 0..n {
        let c = if r.pct(ws) {
            *r.pick(&['\n', '\n', ' ', '\t', '\r', '\u{b}', '\u{c}', '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}', '\u{2028}', '\u{feff}', '\0'])
        } else {
            *r.pick(&['a', 'Z', ';', '.', '"', 'é', 'λ', '中', '💥', '0', 'x', '\u{301}', '\u{7f}'])
        };
        s.push(c);
        if r.pct(4) {
            s.push_str(*r.pick(&["\r\n", "\n\n", "\n \n", "  \n", "\n\t"]));
        }
    }
    s
}
fn check(l: &mut Local, r: &mut Rng, src: &str, info: &SourceInfo, from: &str) {
    l.eval();
    l.distinct_str(src);
    if info.source() != src {
        return l.violation(format!("{from}: source() is not the source text"), format!("{src:?}\n{:?}", info.source()));
    }
    let mut starts = vec![0usize];
    starts.extend(src.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
    let n = starts.len();
    let err = |l: &mut Local, what: &str, d: String| l.violation(format!("{from}: {what}"), format!("{d}\n{src:?}"));
    match guard(|| info.count_lines()) {
        Ok(k) if k == n => {}
        Ok(k) => return err(l, "line count is not the number of newlines plus one", format!("got {k}, expected {n}")),
        Err(e) => return err(l, &format!("count_lines panicked at {}", e.loc), e.msg),
    }
    for (i, &a) in starts.iter().enumerate() {
        let e = starts.get(i + 1).map_or(src.len(), |x| x - 1);
        let raw = &src[a..e];
        let t = raw.trim();
        let (span, line) = match guard(|| (info.line_span(i), info.read_line(i).map(|s| s.to_string()))) {
            Ok(x) => x,
            Err(e) => return err(l, &format!("line query panicked at {}", e.loc), format!("line {i}: {}", e.msg)),
        };
        l.count("lines compared", 1);
        let (Some(span), Some(line)) = (span, line) else {
            return err(l, "a line that exists has no span or text", format!("line {i}"));
        };
        if line != t {
            return err(l, "text of a line is not the line without surrounding whitespace", format!("line {i}: got {line:?}, expected {t:?}"));
        }
        let ok = if t.is_empty() {
            span.is_empty() && span.start >= a && span.end <= src.len().min(e + 1)
        } else {
            let s0 = a + (raw.len() - raw.trim_start().len());
            span == (s0..s0 + t.len())
        };
        if !ok {
            return err(l, "span of a line is not the line without surrounding whitespace", format!("line {i}: got {span:?}, text {t:?}"));
        }
    }
    for i in [n, n + 1, n + 7, usize::MAX] {
        match guard(|| (info.line_span(i), info.read_line(i).is_some())) {
            Ok((None, false)) => {}
            Ok(x) => return err(l, "a line past the end has a span or text", format!("line {i} of {n}: {x:?}")),
            Err(e) => return err(l, &format!("line query panicked at {}", e.loc), format!("line {i} of {n}: {}", e.msg)),
        }
    }
    // positions
    let mut idx: Vec<usize> = if src.len() < 400 {
        (0..=src.len() + 3).collect()
    } else {
        (0..100).map(|_| r.below(src.len() + 3)).chain(starts.iter().flat_map(|s| [s.saturating_sub(1), *s, s + 1])).collect()
    };
    idx.extend([src.len(), src.len() + 1, src.len() + 1000, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
    for i in idx {
        let line = starts.partition_point(|s| *s <= i) - 1;
        let want = (line, i - starts[line]);
        match guard(|| info.get_pos_pair(i)) {
            Ok(p) if p == want => {}
            Ok(p) => return err(l, "position of an index is wrong", format!("index {i} (length {}): got {p:?}, expected {want:?}", src.len())),
            Err(e) => return err(l, &format!("get_pos_pair panicked at {}", e.loc), format!("index {i} (length {}): {}", src.len(), e.msg)),
        }
        l.count("positions compared", 1);
        l.count("positions past the end", (i > src.len()) as u64);
    }
    l.sample(|| format!("{src:?}"));
}
fn info_of<'a>(o: &'a ObjectFile) -> Option<&'a SourceInfo> {
    o.symbol_table()?.source_info()
}
fn main() {
    let mut c = Check::new("C25");
    c.factor(40);
    c.random("random texts", 200_000, |r, l| {
        let s = text(r);
        let info = match guard(|| SourceInfo::new(&s)) {
            Ok(i) => i,
            Err(e) => return l.violation(format!("SourceInfo::new panicked at {}", e.loc), format!("{s:?}")),
        };
        check(l, r, &s, &info, "SourceInfo::new");
    });
    // all texts over a small alphabet
    c.exhaustive("short texts", 5u64.pow(7), |i, r, l| {
        let mut i = i;
        let mut s = String::new();
        while i > 0 {
            s.push(['\n', ' ', 'a', '\r', 'é'][(i % 5) as usize]);
            i /= 5;
        }
        let info = SourceInfo::new(&s);
        check(l, r, &s, &info, "SourceInfo::new");
    });
    c.random("long texts", 40, |r, l| {
        // past 65535 lines, or characters
        let n = *r.pick(&[32_766, 65_530, 66_000]) + r.below(10);
        let unit = *r.pick(&["\n", "\n", " \n", "x\n", "é\r\n", "-", "\u{2003}", "é"]);
        let s = format!("{}{}{}", text(r), unit.repeat(n), text(r));
        check(l, r, &s, &SourceInfo::new(&s), "SourceInfo::new");
        l.count("long texts", 1);
    });
    let o = gen::Opts { max_stmts: 10, ..gen::Opts::default() };
    c.random("sources of object files", 2_000, |r, l| {
        let p = gen::program(r, &o);
        let st = render::Style::random(r);
        let mut t = render::render(&p, r, &st).text;
        if r.pct(50) {
            t.push_str(*r.pick(&["\n", "\n\n", "  ", "\n ;x\u{2003}", ";\u{a0}\n\t"]));
        }
        let Ok(ast) = parse_ast(&t) else { return l.count("skipped: did not parse", 1) };
        let Ok(obj) = assemble_debug(ast, &t) else { return l.count("skipped: did not assemble", 1) };
        let Some(i) = info_of(&obj) else { return l.count("skipped: no source", 1) };
        check(l, r, &t, i, "assembled file");
        l.count("sources of object files", 1);
        if let Ok(Some(o2)) = guard(|| BinaryFormat::deserialize(&BinaryFormat::serialize(&obj))) {
            if let Some(i) = info_of(&o2) {
                let s = i.source().to_string();
                check(l, r, &s, i, "file read from the binary format");
            }
        }
        if let Ok(Some(o2)) = guard(|| TextFormat::deserialize(&TextFormat::serialize(&obj))) {
            if let Some(i) = info_of(&o2) {
                let s = i.source().to_string();
                check(l, r, &s, i, "file read from the text format");
            }
        }
        // linked with itself moved elsewhere: the combined source
        let other = ".orig xFD00\n.fill 3\n.end";
        if let Ok(Ok(b)) = guard(|| assemble_debug(parse_ast(other).unwrap(), other)) {
            for (x, y) in [(obj.clone(), b.clone()), (b, obj)] {
                if let Ok(Ok(k)) = guard(|| ObjectFile::link(x, y)) {
                    if let Some(i) = info_of(&k) {
                        let s = i.source().to_string();
                        check(l, r, &s, i, "linked file");
                    }
                }
            }
        }
    });
    c.finish(
        "random texts with mixed newlines, CR, Unicode whitespace and multi-byte characters, all texts up to 7 characters over {LF, space, a, CR, é}, and sources of assembled, deserialized and linked files; every line and every index (also past the end) compared with direct computation; distinct by text",
        &["the span of a blank line only has to be empty and inside of that line"],
        &[("lines compared", 100_000), ("positions compared", 1_000_000), ("positions past the end", 100_000), ("sources of object files", 500)],
    )
}
