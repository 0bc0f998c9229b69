//! Disassemble every word, print, reassemble.
use lc3_ensemble::asm::assemble;
use lc3_ensemble::ast::asm::{disassemble, disassemble_line, try_disassemble_line, Stmt};
use lc3_ensemble::parse::parse_ast;
use mon::model::*;
use mon::{refsim, *};

fn alias(w: u16) -> Option<Ins> {
    Some(match w {
        0xC1C0 => Ins::Ret,
        0xF020 => Ins::Getc,
        0xF021 => Ins::Putc,
        0xF022 => Ins::Puts,
        0xF023 => Ins::In,
        0xF024 => Ins::Putsp,
        0xF025 => Ins::Halt,
        0x8000 => Ins::Rti,
        _ => return None,
    })
}
fn alias_text(w: u16) -> Option<&'static [&'static str]> {
    Some(match w {
        0xC1C0 => &["RET"],
        0xF020 => &["GETC"],
        0xF021 => &["OUT", "PUTC"],
        0xF022 => &["PUTS"],
        0xF023 => &["IN"],
        0xF024 => &["PUTSP"],
        0xF025 => &["HALT"],
        0x8000 => &["RTI"],
        _ => return None,
    })
}
fn words(text: &str) -> Result<Vec<(u16, Option<u16>)>, String> {
    let ast = parse_ast(text).map_err(|e| format!("{e:?}"))?;
    Ok(assemble(ast).map_err(|e| format!("{:?}", e.kind))?.addr_iter().collect())
}
fn one(w: u16, r: &mut Rng, l: &mut Local) {
    l.eval();
    l.distinct(w as u64);
    let s: Stmt = match guard(|| disassemble_line(w)) {
        Ok(s) => s,
        Err(e) => return l.violation(format!("disassembling panicked at {}", e.loc), format!("x{w:04X}")),
    };
    let text = match guard(|| s.to_string()) {
        Ok(t) => t,
        Err(e) => return l.violation(format!("printing panicked at {}", e.loc), format!("x{w:04X}")),
    };
    let m = from_crate(&s);
    let is_fill = matches!(m.nuc, Nuc::D(Dir::Fill(_)));
    let ins = w >= 0x0200 && refsim::decode(w).is_ok();
    if !ins && !is_fill {
        return l.violation("a word that is no instruction or below x0200 is not shown as .fill", format!("x{w:04X}: {text}"));
    }
    if ins && is_fill {
        return l.violation("an instruction is shown as .fill", format!("x{w:04X}: {text}"));
    }
    l.count(if is_fill { ".fill" } else { "instructions" }, 1);
    if let Some(a) = alias(w) {
        l.count("aliases", 1);
        let same = m.nuc == Nuc::I(a.clone()) || (a == Ins::Putc && m.nuc == Nuc::I(Ins::Out));
        if !same || !alias_text(w).unwrap().contains(&text.trim()) {
            return l.violation("an alias is not shown by name", format!("x{w:04X}: {text}"));
        }
    }
    match guard(|| try_disassemble_line(w)) {
        Ok(t) => {
            if t.is_some() != ins || t.as_ref().is_some_and(|t| from_crate(t) != m) {
                return l.violation("try_disassemble_line disagrees with disassemble_line", format!("x{w:04X}: {t:?} / {text}"));
            }
        }
        Err(e) => return l.violation(format!("try_disassemble_line panicked at {}", e.loc), format!("x{w:04X}")),
    }
    // reassemble: several addresses, alone and after other statements
    let at = [0u16, 0x3000, 0xFDFE, r.u16() % 0xFDFE, 0x0200];
    for a in at {
        l.count("reassembled", 1);
        let src = match r.below(3) {
            0 => format!(".orig x{a:04X}\n{text}\n.end\n"),
            1 => format!("  .ORIG x{a:04X}\r\nLAB {text}\r\n.END"),
            _ => format!(".orig x{a:04X}\n{text}\nADD R0, R0, #1\n.end"),
        };
        match guard(|| words(&src)) {
            Err(e) => return l.violation(format!("reassembling panicked at {}", e.loc), src),
            Ok(Err(e)) => return l.violation("the printed statement does not assemble", format!("x{w:04X}: {e}\n{src}")),
            Ok(Ok(v)) => {
                if v.first() != Some(&(a, Some(w))) {
                    return l.violation("the printed statement assembles to another word", format!("x{w:04X}: {v:04X?}\n{src}"));
                }
            }
        }
    }
    if w % 9000 == 7 {
        l.sample(|| format!("x{w:04X}: {text}"));
    }
}
fn main() {
    let mut c = Check::new("C07");
    c.exhaustive("every word", 65536, |i, r, l| one(i as u16, r, l));
    c.random("whole images", 3000, |r, l| {
        let n = 1 + r.below(200);
        let data: Vec<u16> = (0..n).map(|_| r.u16()).collect();
        l.eval();
        let st = match guard(|| disassemble(&data)) {
            Ok(s) => s,
            Err(e) => return l.violation(format!("disassembling panicked at {}", e.loc), format!("{data:04X?}")),
        };
        let at = r.u16() % 0xFC00;
        let mut src = format!(".orig x{at:04X}\n");
        for s in &st {
            src.push_str(&format!("{s}\n"));
        }
        src.push_str(".end\n");
        l.distinct_str(&src);
        match guard(|| words(&src)) {
            Err(e) => l.violation(format!("reassembling panicked at {}", e.loc), src),
            Ok(Err(e)) => l.violation("a disassembled image does not assemble", format!("{e}\n{src}")),
            Ok(Ok(v)) => {
                let want: Vec<(u16, Option<u16>)> = data.iter().enumerate().map(|(i, w)| (at + i as u16, Some(*w))).collect();
                if v != want {
                    l.violation("a disassembled image assembles to another image", src);
                }
                l.count("images reassembled", 1);
            }
        }
    });
    c.finish(
        "all 65536 words disassembled, printed and reassembled at five addresses; random images as a whole; distinct = word or image",
        &["x8000 prints as RTI"],
        &[("instructions", 10_000), (".fill", 4_000), ("reassembled", 300_000), ("aliases", 8)],
    )
}
