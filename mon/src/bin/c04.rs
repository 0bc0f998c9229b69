//! Parsing arbitrary text.
use lc3_ensemble::err::Error;
use lc3_ensemble::parse::parse_ast;
use mon::render::{render, Style};
use mon::*;
use std::process::{Command, Stdio};

fn parse(l: &mut Local, s: &str) {
    l.eval();
    let r = guard(|| match parse_ast(s) {
        Ok(a) => Ok(a.len()),
        Err(e) => {
            let sp = e.span().expect("a parse error has a span");
            let _ = (e.to_string(), format!("{e:?}"), e.help().map(|h| h.to_string()));
            let mut v: Vec<_> = sp.iter().cloned().collect();
            v.push(sp.first());
            Err(v)
        }
    });
    match r {
        Err(p) => l.violation(format!("parsing panicked at {}", p.loc), format!("{}\n{s:?}", p.msg)),
        Ok(Ok(n)) => {
            l.count("parsed", 1);
            l.count("parsed to statements", (n > 0) as u64);
        }
        Ok(Err(v)) => {
            l.count("rejected", 1);
            for sp in v {
                if sp.start > sp.end || sp.end > s.len() {
                    l.violation("the span of a parse error lies outside of the input", format!("{sp:?}, input of {} bytes\n{s:?}", s.len()));
                    break;
                }
                l.count("rejected at the very end", (sp.end == s.len()) as u64);
            }
        }
    }
    if s.len() > 2 {
        l.distinct_str(s);
    }
    l.sample(|| format!("{s:?}"));
}

const PIECES: &[&str] = &[
    "\"", "\\", "\\\"", "\\n", "\n", "\r\n", "\r", " ", "\t", ";", ":", ",", ".", "#", "-", "x", "X", "R", "r", "0", "7", "9", "8", "65535", "65536", "-32768",
    "-32769", "xFFFF", "x10000", "x-8000", "x-8001", "#-", "--", "##", "#x1", "x#1", "-#1", "+", "+1", "0x1", "1e5", "R0", "R7", "R8", "R99999999999999999999",
    "é", "λ", "💥", "\u{0}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{301}", "\u{10FFFF}", "٣", "²", "ß", "_", "a", "LABEL", "ADD", "add", "BRnzp", "BR", "LD", "JSR", "TRAP",
    "NOP", "HALT", "RET", ".orig", ".ORIG", ".end", ".fill", ".blkw", ".stringz", ".external", ".x", "..", ".orig x3000", ".stringz \"", ".fill ", "ADD R0, R0, ", "LD R0, ", "'", "(", "/", "@", "&", "%",
    "99999999999999999999999999999999999999", "x99999999999999999999999999999999", "-99999999999999999999999999999999999",
];
fn pieces(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = 1 + r.below(14);
    for _ in 0..n {
        if r.pct(8) {
            // any character
            let c = loop {
                let v = match r.below(3) {
                    0 => r.below(0x300) as u32,
                    1 => r.below(0x1_0000) as u32,
                    _ => r.below(0x11_0000) as u32,
                };
                if let Some(c) = char::from_u32(v) {
                    break c;
                }
            };
            s.push(c);
        } else {
            s.push_str(r.pick(PIECES));
            if r.pct(25) {
                s.push(' ');
            }
        }
    }
    s
}
/// Character-level damage to a text that parses.
fn damage(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(4) {
        let k = r.below(v.len() + 1);
        match r.below(6) {
            0 if k < v.len() => {
                v.remove(k);
            }
            1 => v.truncate(k),
            2 => {
                let p: Vec<char> = r.pick(PIECES).chars().collect();
                v.splice(k..k, p);
            }
            3 if !v.is_empty() => {
                let j = r.below(v.len());
                if k < v.len() {
                    v.swap(j, k);
                }
            }
            4 if k < v.len() => v[k] = *r.pick(&['"', '\\', 'é', '\n', '\0', ';', ',', '9', '-', '\r', '💥']),
            _ => {
                let e = (k + r.below(20)).min(v.len());
                let d: Vec<char> = v[k..e].to_vec();
                let j = r.below(v.len() + 1);
                v.splice(j..j, d);
            }
        }
    }
    v.into_iter().collect()
}

const KINDS: &[&str] = &[
    "label", "ulabel", "num", "hex", "neg", "hash", "reg", "dir", "str", "strq", "stre", "space", "tab", "comment", "ucomment", "nl", "crlf", "colon", "comma", "quote", "dot", "minus", "labels", "stmts",
    "negs", "backslashes", "under", "zeros", "hexneg", "junk",
];
fn huge(kind: &str, n: usize) -> String {
    match kind {
        "label" => "a".repeat(n),
        "ulabel" => format!("a{}", "é".repeat(n)),
        "num" => "9".repeat(n),
        "hex" => format!("x{}", "F".repeat(n)),
        "neg" => format!("-{}", "9".repeat(n)),
        "hash" => "#".repeat(n),
        "reg" => format!("R{}", "1".repeat(n)),
        "dir" => format!(".{}", "z".repeat(n)),
        "str" => format!(".stringz \"{}\"", "s".repeat(n)),
        "strq" => format!(".stringz \"{}", "s".repeat(n)),
        "stre" => format!(".stringz \"{}\"", "\\n".repeat(n)),
        "space" => " ".repeat(n),
        "tab" => "\t".repeat(n),
        "comment" => format!(";{}", "c".repeat(n)),
        "ucomment" => format!(";{}", "💥".repeat(n)),
        "nl" => "\n".repeat(n),
        "crlf" => "\r\n".repeat(n),
        "colon" => ":".repeat(n),
        "comma" => ",".repeat(n),
        "quote" => "\"".repeat(n),
        "dot" => ".".repeat(n),
        "minus" => "-".repeat(n),
        "labels" => "ab ".repeat(n),
        "stmts" => "HALT\n".repeat(n),
        "negs" => "-1 ".repeat(n),
        "backslashes" => format!(".stringz \"{}", "\\".repeat(n)),
        "under" => "_".repeat(n),
        "zeros" => format!("#{}1", "0".repeat(n)),
        "hexneg" => format!("x-{}", "0".repeat(n)),
        _ => "@".repeat(n),
    }
}
/// Child mode: parse one huge input; exit 0 when the result is in order, 3 when it is not.
fn child(kind: &str, n: usize) -> ! {
    let s = huge(kind, n);
    let ok = match parse_ast(&s) {
        Ok(_) => true,
        Err(e) => e.span().map_or(false, |sp| sp.iter().all(|x| x.start <= x.end && x.end <= s.len())),
    };
    std::process::exit(if ok { 0 } else { 3 })
}
fn spawn(l: &mut Local, exe: &str, build: &str, kind: &str, n: usize) {
    l.eval();
    let mut c = match Command::new(exe).args(["child", kind, &n.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => panic!("cannot start {exe}: {e}"),
    };
    let st = c.wait().expect("child status");
    l.distinct_str(&format!("{build}{kind}{n}"));
    l.count(&format!("huge inputs, {build} build"), 1);
    let what = match st.code() {
        Some(0) => return,
        Some(3) => "the span of a parse error lies outside of a huge input".to_string(),
        Some(101) => "parsing a huge input panicked".to_string(),
        _ => format!("parsing a huge input crashed ({st})"),
    };
    let detail = format!("{build} build; kind {kind}, {n} repetitions; run: target/{}/c04 child {kind} {n}", if build == "unoptimised" { "debug" } else { "release" });
    // The stack overflow of the unoptimised lexer in very long single tokens is a known finding.
    if build == "unoptimised" && st.code().is_none() && n > 15_000 {
        l.violation_sig(&format!("dev-token-{kind}"), what, detail);
    } else {
        l.violation(what, detail);
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 && a[1] == "child" {
        child(&a[2], a[3].parse().unwrap());
    }
    let mut c = Check::new("C04");
    c.factor(60);
    c.random("token soups", 300_000, |r, l| {
        let s = pieces(r);
        parse(l, &s);
    });
    let o = gen::Opts { max_stmts: 6, max_blocks: 2, ..gen::Opts::default() };
    c.random("damaged programs", 80_000, |r, l| {
        let p = gen::program(r, &o);
        let st = Style::random(r);
        let t = render(&p, r, &st).text;
        let d = damage(r, &t);
        parse(l, &d);
    });
    const AL: [&str; 16] = ["\"", "\\", "\n", "\r", " ", ";", "é", "x", "-", "#", "R", "9", ".", ":", "a", "\u{85}"];
    c.exhaustive("short strings", 16u64.pow(5), |i, _, l| {
        let mut s = String::new();
        let mut i = i;
        for _ in 0..5 {
            s.push_str(AL[(i % 16) as usize]);
            i /= 16;
        }
        parse(l, &s);
        if s.contains('"') || s.contains('\\') {
            parse(l, &format!(".stringz \"{s}"));
        }
    });
    // single tokens of 1..400 characters, mixing widths of characters within the token
    c.random("long tokens", 120_000, |r, l| {
        let most = *r.pick(&[12, 40, 130, 400]);
        let n = 1 + r.below(most);
        let al: &[char] = match r.below(6) {
            0 => &['0'],
            1 => &['0', '1', '9'],
            2 => &['0', 'f', 'A', '7', 'g'],
            3 => &['é', 'a', '0', 'λ', '字'],
            4 => &['é', '字', '٣', '²', '_', '𝒙', 'ß'],
            _ => &['a', 'Z', '_', '5', 'n', 'z', 'p', '-', '#', '\\', '"', '💥'],
        };
        let mut t = r.pick(&["", "x", "X", "x-", "-", "#", "#-", "R", "r", ".", "x0", "\"", ";", ".stringz \"", "BR", "a", "_"]).to_string();
        for _ in 0..n {
            t.push(*r.pick(al));
        }
        let t = match r.below(5) {
            0 => format!("ADD R0, R0, {t}"),
            1 => format!(".fill {t}\nHALT"),
            2 => format!("{t} HALT"),
            3 => format!("LD R1, {t} ; c"),
            _ => t,
        };
        l.count("long tokens", 1);
        parse(l, &t);
    });
    // strings and lines at length limits
    c.exhaustive("long literals", 600, |i, r, l| {
        let n = *r.pick(&[65_533usize, 65_534, 65_535, 65_536, 65_537, 70_000, 131_072]);
        let unit = *r.pick(&["s", "é", "\\n", "\\\\", "\\q", "💥", "\\é", "\\\""]);
        let mut t = format!(".stringz \"{}", unit.repeat(n / if i % 2 == 0 { 1 } else { unit.len() }));
        t.push_str(*r.pick(&["\"", "", "\\", "\\\"", "\"\n", "\n\"", "\"\r\n", "\r", "é", "\\é\""]));
        parse(l, &t);
    });
    let me = std::env::current_exe().expect("own path").to_string_lossy().into_owned();
    let dev = std::env::var("C04_DEV").ok();
    let sizes: &[usize] = if c.quick() { &[200, 5_000, 40_000, 300_000] } else { &[200, 5_000, 40_000, 300_000, 2_000_000, 10_000_000] };
    c.exhaustive("huge inputs", (KINDS.len() * sizes.len()) as u64, |i, _, l| {
        let (k, n) = (KINDS[i as usize % KINDS.len()], sizes[i as usize / KINDS.len()]);
        spawn(l, &me, "optimised", k, n);
        if let Some(d) = &dev {
            if n <= 300_000 {
                spawn(l, d, "unoptimised", k, n);
            }
        }
    });
    c.finish(
        "random token soups, damaged programs, all 5-character strings over a hostile alphabet, single tokens of up to 400 characters of mixed widths, string literals at length limits, and huge single tokens/repetitions in separate processes of an optimised and an unoptimised build; no panic or crash, and every error span inside of the input; distinct by text",
        &["sizes are bounded: 300k repetitions (10M in the thorough tier)"],
        &[("parsed to statements", 5_000), ("rejected", 100_000), ("long tokens", 10_000), ("huge inputs, optimised build", 100), ("huge inputs, unoptimised build", 100)],
    )
}
