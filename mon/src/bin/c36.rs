//! Print, reparse, compare.
use lc3_ensemble::ast::asm::{Directive, Stmt, StmtKind};
use lc3_ensemble::parse::parse_ast;
use mon::model::*;
use mon::render::{render, Style};
use mon::*;

fn printable(s: &str) -> bool {
    s.chars().all(|c| (' '..='~').contains(&c) || matches!(c, '\t' | '\n' | '\r' | '\0'))
}
fn in_scope(s: &Stmt) -> bool {
    !matches!(&s.nucleus, StmtKind::Directive(Directive::Stringz(t)) if !printable(t))
}
fn check_stmt(l: &mut Local, s: &Stmt, src: &str) {
    if !in_scope(s) {
        return l.count("skipped: string outside of the property", 1);
    }
    l.eval();
    let text = match guard(|| s.to_string()) {
        Ok(t) => t,
        Err(e) => return l.violation(format!("printing panicked at {}", e.loc), format!("{s:?}")),
    };
    let want = from_crate(s);
    match guard(|| parse_ast(&text)) {
        Err(e) => l.violation(format!("parsing a printed statement panicked at {}", e.loc), text.clone()),
        Ok(Err(e)) => l.violation("a printed statement does not parse", format!("{e:?}\nprinted: {text:?}\nstatement: {want:?}\nsource: {src}")),
        Ok(Ok(v)) => {
            if v.len() != 1 || from_crate(&v[0]) != want {
                l.violation(
                    "a printed statement parses to another statement",
                    format!("printed: {text:?}\nstatement: {want:?}\nreparsed: {:?}\nsource: {src}", v.iter().map(from_crate).collect::<Vec<_>>()),
                );
            }
        }
    }
    l.distinct_str(&text);
    l.count(
        match &want.nuc {
            Nuc::I(_) => "instructions",
            Nuc::D(Dir::Stringz(_)) => "string directives",
            Nuc::D(_) => "other directives",
        },
        1,
    );
    l.count("statements with labels", !want.labels.is_empty() as u64);
    l.sample(|| text);
}
fn string_char(r: &mut Rng) -> char {
    match r.below(6) {
        0 => *r.pick(&['\n', '\t', '\r', '\0', '"', '\\']),
        1 => *r.pick(&['n', 'r', 't', '0', '\'', ';', '{', 'u', 'x']),
        _ => (0x20 + r.below(0x5f) as u8) as char,
    }
}
fn stmt(r: &mut Rng) -> St {
    let mut used = Default::default();
    let nuc = match r.below(20) {
        0..=8 => {
            let mut i = gen::any_ins(r);
            if r.pct(40) {
                let l = gen::label_name(r, &mut used, true);
                gen::set_tgt(&mut i, Tgt::Lab(l));
            }
            Nuc::I(i)
        }
        9 => Nuc::D(Dir::Orig(gen::word(r))),
        10 => Nuc::D(Dir::End),
        11 | 12 => Nuc::D(Dir::Fill(gen::word(r))),
        13 => Nuc::D(Dir::FillLab(gen::label_name(r, &mut used, true))),
        14 => Nuc::D(Dir::Blkw(gen::word(r).max(1))),
        15 => Nuc::D(Dir::External(gen::label_name(r, &mut used, true))),
        _ => {
            let m = *r.pick(&[3, 8, 30, 300]);
            let n = r.below(m);
            Nuc::D(Dir::Stringz((0..n).map(|_| string_char(r)).collect()))
        }
    };
    let mut labels = vec![];
    while r.pct(35) && labels.len() < 5 {
        labels.push(gen::label_name(r, &mut used, true));
    }
    St { labels, nuc }
}
fn run(l: &mut Local, r: &mut Rng, p: &[St]) {
    let st = if r.pct(50) { Style::plain() } else { Style::random(r) };
    let rd = render(p, r, &st);
    match parse_ast(&rd.text) {
        Ok(ast) => {
            for s in &ast {
                check_stmt(l, s, &rd.text);
            }
        }
        Err(_) => l.count("skipped: did not parse", 1),
    }
}
fn main() {
    let mut c = Check::new("C36");
    c.quick_factor(4);
    c.factor(60);
    c.random("random statements", 60_000, |r, l| {
        let p = vec![stmt(r)];
        run(l, r, &p);
    });
    c.random("strings from raw literals", 30_000, |r, l| {
        // literal text with arbitrary (also unknown) escapes
        let mut t = String::from(".stringz \"");
        for _ in 0..r.below(12) {
            match r.below(3) {
                0 => {
                    t.push('\\');
                    t.push(*r.pick(&['n', 'r', 't', '\\', '0', '"', 'q', 'x', 'u', ' ', '\'', 'N', '1']));
                }
                1 => t.push('\t'),
                _ => {
                    let c = (0x20 + r.below(0x5f) as u8) as char;
                    if c != '"' && c != '\\' {
                        t.push(c);
                    }
                }
            }
        }
        t.push('"');
        match parse_ast(&t) {
            Ok(ast) => ast.iter().for_each(|s| check_stmt(l, s, &t)),
            Err(_) => l.count("skipped: did not parse", 1),
        }
    });
    // all values of all numeric operands
    c.exhaustive("operand values", 65536, |i, r, l| {
        let mut p = vec![sd(Dir::Fill(i as u16)), sd(Dir::Orig(i as u16))];
        if i > 0 {
            p.push(sd(Dir::Blkw(i as u16)));
        }
        let (a, b) = (r.reg(), r.reg());
        if i < 32 {
            p.push(si(Ins::Add(a, b, Src2::Imm(i as i32 - 16))));
            p.push(si(Ins::And(a, b, Src2::Imm(i as i32 - 16))));
        }
        if i < 64 {
            p.push(si(Ins::Ldr(a, b, i as i32 - 32)));
            p.push(si(Ins::Str(a, b, i as i32 - 32)));
        }
        if i < 256 {
            p.push(si(Ins::Trap(i as u16)));
            if i < 127 {
                // strings of one and two ASCII characters
                if let Some(c) = char::from_u32(i as u32) {
                    p.push(sd(Dir::Stringz(c.to_string())));
                    p.push(sd(Dir::Stringz(format!("\\{c}"))));
                    p.push(sd(Dir::Stringz(format!("{c}\\"))));
                    p.push(sd(Dir::Stringz(format!("{c}{c}0"))));
                }
            }
        }
        if i < 512 {
            let o = Tgt::Off(i as i32 - 256);
            for mut ins in [
                Ins::Br(1 + (i % 7) as u8, o.clone()),
                Ins::Ld(a, o.clone()),
                Ins::Ldi(a, o.clone()),
                Ins::Lea(a, o.clone()),
                Ins::St(a, o.clone()),
                Ins::Sti(a, o.clone()),
                Ins::Nop(o.clone()),
            ] {
                p.push(si(ins.clone()));
                gen::set_tgt(&mut ins, Tgt::Lab("Lbl_9".into()));
                p.push(si(ins));
            }
        }
        if i < 2048 {
            p.push(si(Ins::Jsr(Tgt::Off(i as i32 - 1024))));
        }
        for s in p {
            // strings with characters that the literal cannot carry raw are fine: the renderer escapes
            run(l, r, &[s]);
        }
    });
    c.finish(
        "statements obtained from the parser (random ones, literals with all escapes, every value of every numeric operand), printed, reparsed and compared ignoring spans; distinct by printed text",
        &["strings with characters outside printable ASCII, tab, newline, CR and NUL are out of the property"],
        &[("string directives", 10_000), ("instructions", 10_000), ("statements with labels", 5_000)],
    )
}
