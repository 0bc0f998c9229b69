//! Parsed statements, spans and layout-insensitivity.
use lc3_ensemble::asm::{assemble, assemble_debug};
use lc3_ensemble::parse::parse_ast;
use mon::model::*;
use mon::refasm;
use mon::render::{render, Rendered, Style};
use mon::*;
use std::collections::BTreeMap;

/// Statements in any order, not necessarily a program that assembles.
fn soup(r: &mut Rng) -> Vec<St> {
    let mut used = Default::default();
    let n = r.below(14);
    (0..n)
        .map(|_| {
            let nuc = match r.below(24) {
                0..=12 => {
                    let mut i = gen::any_ins(r);
                    if r.pct(40) {
                        let l = gen::label_name(r, &mut used, true);
                        gen::set_tgt(&mut i, Tgt::Lab(l));
                    }
                    Nuc::I(i)
                }
                13 => Nuc::D(Dir::Orig(gen::word(r))),
                14 => Nuc::D(Dir::End),
                15 | 16 => Nuc::D(Dir::Fill(gen::word(r))),
                17 => Nuc::D(Dir::FillLab(gen::label_name(r, &mut used, true))),
                18 => Nuc::D(Dir::Blkw(gen::word(r).max(1))),
                19 => Nuc::D(Dir::External(gen::label_name(r, &mut used, true))),
                _ => {
                    let m = *r.pick(&[4, 20, 200]);
                    Nuc::D(Dir::Stringz(gen::string(r, true, m)))
                }
            };
            let mut labels = vec![];
            let most = if r.pct(2) { 40 } else { 5 };
            while r.pct(if most > 5 { 90 } else { 30 }) && labels.len() < most {
                labels.push(gen::label_name(r, &mut used, true));
            }
            St { labels, nuc }
        })
        .collect()
}

fn compare(l: &mut Local, p: &[St], rd: &Rendered) -> bool {
    l.eval();
    let ast = match guard(|| parse_ast(&rd.text)) {
        Err(e) => {
            l.violation(format!("parser panicked at {}", e.loc), format!("{}\n{:?}", e.msg, rd.text));
            return false;
        }
        Ok(Err(e)) => {
            l.violation("parser rejects text written in the grammar", format!("{e:?}\n{:?}\n{}", rd.text, rd.text));
            return false;
        }
        Ok(Ok(a)) => a,
    };
    let got: Vec<St> = ast.iter().map(from_crate).collect();
    if got.len() != p.len() {
        l.violation("parser returns another number of statements", format!("got {}, wrote {}\n{}", got.len(), p.len(), rd.text));
        return false;
    }
    for (k, (g, w)) in got.iter().zip(p).enumerate() {
        if g != w {
            l.violation("parsed statement differs from the written one", format!("statement {k}: got {g:?}\nwrote {w:?}\n{}", rd.text));
            return false;
        }
        // span: covers the text of the nucleus and no other statement's text
        let s = &ast[k].span;
        let want = &rd.stmts[k].span;
        let lo = if k == 0 { 0 } else { rd.stmts[k - 1].span.end };
        let hi = rd.stmts.get(k + 1).map_or(rd.text.len(), |n| n.label_spans.first().map_or(n.span.start, |x| x.start));
        let lo = rd.stmts[k].label_spans.last().map_or(lo, |x| x.end.max(lo));
        if s.start > want.start || s.end < want.end || s.start < lo || s.end > hi {
            l.violation(
                "span of a statement does not cover its instruction or directive text",
                format!("statement {k} {w:?}: got {s:?}, text is at {want:?}\n{}", rd.text),
            );
            return false;
        }
        // labels carry the span of their name
        for (x, ws) in ast[k].labels.iter().zip(&rd.stmts[k].label_spans) {
            if x.span() != *ws {
                l.violation("span of a label is not its text", format!("label {}: got {:?}, text is at {ws:?}\n{}", x.name, x.span(), rd.text));
                return false;
            }
        }
        l.count("spans compared", 1 + ast[k].labels.len() as u64);
        l.count(
            match &w.nuc {
                Nuc::I(_) => "instructions compared",
                Nuc::D(Dir::Stringz(_)) => "string literals compared",
                Nuc::D(_) => "directives compared",
            },
            1,
        );
    }
    true
}

type Image = (BTreeMap<u16, Option<u16>>, BTreeMap<String, (u16, bool)>);
fn build(text: &str) -> Result<Image, String> {
    let ast = parse_ast(text).map_err(|e| e.to_string())?;
    assemble(ast.clone()).map_err(|e| e.to_string())?;
    let o = assemble_debug(ast, text).map_err(|e| e.to_string())?;
    let labels = match o.symbol_table() {
        Some(t) => t.label_iter().map(|(n, a, e)| (refasm::upper(n), (a, e))).collect(),
        None => BTreeMap::new(),
    };
    Ok((o.addr_iter().collect(), labels))
}

fn main() {
    let mut c = Check::new("C03");
    c.quick_factor(4);
    c.factor(60);
    c.random("statement soups", 150_000, |r, l| {
        let p = soup(r);
        let st = Style::random(r);
        let rd = render(&p, r, &st);
        if compare(l, &p, &rd) {
            l.distinct_str(&rd.text);
            l.sample(|| rd.text.clone());
        }
    });
    let o = gen::Opts { max_stmts: 14, ..gen::Opts::default() };
    c.random("programs in several layouts", 20_000, |r, l| {
        let p = gen::program(r, &o);
        let mut first: Option<(Result<Image, String>, String)> = None;
        for k in 0..4 {
            let st = match k {
                0 => Style::plain(),
                1 => Style { crlf: 100, ..Style::plain() },
                _ => Style::random(r),
            };
            let rd = render(&p, r, &st);
            if !compare(l, &p, &rd) {
                return;
            }
            let im = match guard(|| build(&rd.text)) {
                Ok(im) => im,
                Err(e) => return l.violation(format!("assembling panicked at {}", e.loc), rd.text),
            };
            l.distinct_str(&rd.text);
            match &first {
                None => first = Some((im, rd.text)),
                Some((f, t)) => {
                    l.eval();
                    l.count("images of two layouts compared", 1);
                    if *f != im {
                        return l.violation("changing the layout changes the assembled image or the labels", format!("{f:?}\n{t}\n-----\n{im:?}\n{}", rd.text));
                    }
                }
            }
        }
    });
    // Every instruction and directive form in every style, one statement per text.
    c.random("single statements", 200_000, |r, l| {
        let p: Vec<St> = loop {
            let p = soup(r);
            if !p.is_empty() {
                break vec![p[0].clone()];
            }
        };
        let st = Style::random(r);
        let rd = render(&p, r, &st);
        if compare(l, &p, &rd) {
            l.distinct_str(&rd.text);
        }
    });
    c.random("long sources", 30, |r, l| {
        let p = soup(r);
        let mut st = Style::random(r);
        st.huge = 100;
        let rd = render(&p, r, &st);
        if compare(l, &p, &rd) {
            l.distinct_str(&rd.text);
        }
    });
    // literals and labels of up to tens of thousands of characters
    c.random("long tokens", 150, |r, l| {
        let mut p = soup(r);
        let at = r.below(p.len() + 1);
        let n = match r.below(4) {
            0 => *r.pick(&[255, 256, 257, 4095, 4096, 32_766, 32_767, 32_768, 65_533, 65_534]),
            1 => r.below(65_535),
            _ => r.below(3_000),
        };
        let mut s = String::new();
        if r.pct(70) {
            let unicode = r.pct(50);
            while s.len() < n {
                s += &gen::string(r, unicode, 40);
            }
            while s.len() > n {
                s.pop();
            }
            p.insert(at, St { labels: vec![], nuc: Nuc::D(Dir::Stringz(s)) });
        } else {
            s.push('L');
            while s.len() < n {
                s.push(*r.pick(&['A', 'c', '0', '_', 'K', 'é']));
            }
            if r.pct(50) || p.is_empty() {
                p.insert(at, St { labels: vec![s], nuc: Nuc::D(Dir::End) });
            } else {
                let k = r.below(p.len());
                p[k].labels.insert(0, s.clone());
                p.insert(at, St { labels: vec![], nuc: Nuc::D(Dir::FillLab(s)) });
            }
        }
        let mut st = Style::random(r);
        st.huge = 20;
        let rd = render(&p, r, &st);
        if compare(l, &p, &rd) {
            l.distinct_str(&rd.text);
        }
    });
    c.finish(
        "random statement lists (any statement kind, labels, operands, notations) rendered with random case, spacing, tabs, comments, blank lines, CRLF, colons, own-line labels; parsed statements and spans compared with what was written, and images/labels compared between layouts; distinct by source text",
        &["label names avoid spellings that the grammar reads as keywords, registers or hex numbers"],
        &[("spans compared", 100_000), ("string literals compared", 5_000), ("images of two layouts compared", 5_000)],
    )
}
