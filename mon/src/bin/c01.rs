use lc3_ensemble::asm::{assemble, assemble_debug};
use lc3_ensemble::parse::parse_ast;
use mon::render::{render, Style};
use mon::*;
use std::collections::BTreeMap;

fn one(r: &mut Rng, l: &mut Local, o: &gen::Opts, style: &Style) {
    let prog = gen::program(r, o);
    judge(&prog, r, l, style);
}
fn judge(prog: &[model::St], r: &mut Rng, l: &mut Local, style: &Style) {
    let rd = render(prog, r, style);
    let (conds, want) = refasm::analyze(prog);
    assert!(conds.is_empty(), "generator made an ill-formed program: {conds:?}\n{}", model::show(prog));
    l.eval();
    let ast = match parse_ast(&rd.text) {
        Ok(a) => a,
        Err(e) => return l.violation(format!("parser rejects a well-formed program: {e}"), rd.text),
    };
    let with_debug = r.pct(50);
    let obj = if with_debug { assemble_debug(ast.clone(), &rd.text) } else { assemble(ast.clone()) };
    let obj = match obj {
        Ok(o) => o,
        Err(e) => return l.violation(format!("assembler rejects a well-formed program: {e}"), rd.text),
    };
    // image
    let mut got: BTreeMap<u16, Option<u16>> = BTreeMap::new();
    for (a, w) in obj.addr_iter() {
        if got.insert(a, w).is_some() {
            return l.violation("an address is reported twice by the object file", format!("x{a:04X}\n{}", rd.text));
        }
    }
    for (a, w) in &want.image {
        match got.get(a) {
            None => return l.violation("an address of a statement is missing from the object file", format!("x{a:04X}\n{}", rd.text)),
            Some(g) if g != w => {
                return l.violation("a word differs from the LC-3 encoding", format!("x{a:04X}: got {g:04X?}, expected {w:04X?}\n{}", rd.text))
            }
            _ => {}
        }
    }
    if let Some(a) = got.keys().find(|a| !want.image.contains_key(a)) {
        return l.violation("the object file defines an address no statement occupies", format!("x{a:04X}\n{}", rd.text));
    }
    // labels
    let sym_holder;
    let sym = match obj.symbol_table() {
        Some(s) => s,
        None => {
            sym_holder = lc3_ensemble::asm::SymbolTable::new(&ast, None).unwrap();
            &sym_holder
        }
    };
    for (name, (a, _)) in &want.labels {
        if sym.lookup_label(name) != Some(*a) {
            return l.violation(
                "a label does not map to the address of its statement",
                format!("{name}: got {:04X?}, expected {a:04X}\n{}", sym.lookup_label(name), rd.text),
            );
        }
    }
    l.count("words compared", want.image.len() as u64);
    l.count("labels compared", want.labels.len() as u64);
    l.count("uninitialised words", want.image.values().filter(|w| w.is_none()).count() as u64);
    l.count("label operands", prog.iter().filter(|s| s.operand_label().is_some()).count() as u64);
    if !want.image.is_empty() {
        l.distinct_str(&rd.text);
        l.sample(|| rd.text.clone());
    }
}

/// Every field value of every instruction, at addresses where the label offset takes that value.
fn grid(i: u64, r: &mut Rng, l: &mut Local) {
    use model::*;
    // offsets -1024..=1023 for JSR; 9-bit ones for the others
    let off = i as i64 - 1024;
    let mut prog = vec![];
    let at = 0x3400i64;
    let kinds: Vec<Ins> = vec![
        Ins::Jsr(Tgt::Off(0)),
        Ins::Br(1 + (i % 7) as u8, Tgt::Off(0)),
        Ins::Ld((i % 8) as u8, Tgt::Off(0)),
        Ins::Ldi((i % 8) as u8, Tgt::Off(0)),
        Ins::Lea((i % 8) as u8, Tgt::Off(0)),
        Ins::St((i % 8) as u8, Tgt::Off(0)),
        Ins::Sti((i % 8) as u8, Tgt::Off(0)),
        Ins::Nop(Tgt::Off(0)),
    ];
    for k in kinds {
        let n = k.tgt().unwrap().1;
        if off < -(1 << (n - 1)) || off >= (1 << (n - 1)) {
            continue;
        }
        prog.clear();
        let mut ins = k.clone();
        gen::set_tgt(&mut ins, Tgt::Lab("Targ".into()));
        let la = at + 1 + off;
        if la == at {
            prog.push(sd(Dir::Orig(at as u16)));
            prog.push(si(ins).lab("TARG"));
            prog.push(sd(Dir::End));
        } else {
            prog.push(sd(Dir::Orig(at as u16)));
            prog.push(si(ins));
            prog.push(sd(Dir::End));
            prog.push(sd(Dir::Orig(la as u16)));
            prog.push(sd(Dir::Fill(7)).lab("TARG"));
            prog.push(sd(Dir::End));
        }
        if r.pct(50) && prog.len() == 6 {
            prog.rotate_left(3);
        }
        check_fixed(l, &prog, r);
        l.count("label offsets in the grid", 1);
    }
    // all numeric encodings of the same field value
    for _ in 0..4 {
        let ins = gen::any_ins(r);
        let prog = vec![sd(Dir::Orig(r.u16() % 0xFDFF)), si(ins), sd(Dir::End)];
        check_fixed(l, &prog, r);
    }
}
fn check_fixed(l: &mut Local, prog: &[model::St], r: &mut Rng) {
    let rd = render(prog, r, &Style::plain());
    let (c, want) = refasm::analyze(prog);
    assert!(c.is_empty());
    l.eval();
    let obj = match parse_ast(&rd.text).map_err(|e| e.to_string()).and_then(|a| assemble(a).map_err(|e| e.to_string())) {
        Ok(o) => o,
        Err(e) => return l.violation(format!("rejects a well-formed program: {e}"), rd.text),
    };
    let got: BTreeMap<u16, Option<u16>> = obj.addr_iter().collect();
    if got != want.image {
        l.violation("image differs from the LC-3 encoding", format!("got {got:04X?}\nexpected {:04X?}\n{}", want.image, rd.text));
    }
    l.distinct_str(&rd.text);
}

/// Data directives of notable lengths, with labels and label operands on both sides of them.
fn big_data(r: &mut Rng, l: &mut Local) {
    use model::*;
    let mut len = || -> usize {
        let n = match r.below(6) {
            0 => 1 + r.below(300),
            1 => 1usize << r.range(4, 15),
            2 => (1usize << r.range(4, 15)) + 1,
            3 => (1usize << r.range(4, 15)) - 1,
            4 => 0x1000 * (1 + r.below(15)),
            _ => 1 + r.below(0xFDF0),
        };
        n
    };
    let (mut n1, n2) = (len(), len());
    let two = n1 + n2 + 32 < 0xFE00;
    if n1 + 32 >= 0xFE00 {
        n1 = 0xFD00;
    }
    let total = n1 + if two { n2 } else { 0 } + 32;
    let at = r.below(0xFE00 - total + 1) as u16;
    let mut data = |r: &mut Rng, n: usize| -> Nuc {
        if n > 1 && n < 20_000 && r.pct(35) {
            let wide = r.pct(30);
            let mut t = String::new();
            while t.len() < n - 1 {
                let c = if wide { *r.pick(&['x', 'é', '→', '🦀', ' ']) } else { (b' ' + (r.below(90) as u8)) as char };
                if t.len() + c.len_utf8() <= n - 1 && c != '"' && c != '\\' {
                    t.push(c);
                } else if t.len() + 1 <= n - 1 {
                    t.push('o');
                }
            }
            Nuc::D(Dir::Stringz(t))
        } else {
            Nuc::D(Dir::Blkw(n as u16))
        }
    };
    let small = |r: &mut Rng| if r.pct(50) { si(gen::any_ins(r)) } else { sd(Dir::Fill(r.u16())) };
    let mut prog = vec![sd(Dir::Orig(at))];
    for _ in 0..r.below(3) {
        prog.push(small(r));
    }
    prog.push(sd(Dir::FillLab("AFTER".into())).lab("HEAD"));
    let mut d = sd(Dir::Fill(0)).lab("DATA");
    d.nuc = data(r, n1);
    prog.push(d);
    prog.push(si(Ins::Ld(r.reg(), Tgt::Lab("LATER".into()))).lab("AFTER"));
    prog.push(si(Ins::Jsr(Tgt::Lab("AFTER".into()))));
    if two {
        let mut d = sd(Dir::Fill(0)).lab("MORE");
        d.nuc = data(r, n2);
        let near = n2 < 240;
        prog.push(sd(Dir::FillLab("LAST".into())).lab("LATER"));
        prog.push(d);
        prog.push(if near { si(Ins::Lea(r.reg(), Tgt::Lab("LATER".into()))) } else { small(r) }.lab("LAST"));
    } else {
        prog.push(small(r).lab("LATER"));
    }
    prog.push(sd(Dir::FillLab(r.pick(&["HEAD", "DATA", "AFTER", "LATER"]).to_string())));
    prog.push(sd(Dir::End));
    l.count("long data directives", 1 + two as u64);
    judge(&prog, r, l, &Style::plain());
}

fn main() {
    let mut c = Check::new("C01");
    c.quick_factor(3);
    c.factor(60);
    let o = gen::Opts::default();
    c.random("plain style", 12_000, |r, l| one(r, l, &o, &Style::plain()));
    c.random("random style", 12_000, |r, l| {
        let st = Style::random(r);
        one(r, l, &o, &st)
    });
    let big = gen::Opts { max_stmts: 300, label_pct: 12, max_blocks: 2, ..o.clone() };
    c.random("long programs", 600, |r, l| one(r, l, &big, &Style::plain()));
    c.exhaustive("offset grid", 2048, grid);
    c.random("long data", 700, big_data);
    let huge = Style { huge: 100, ..Style::plain() };
    c.random("long sources", 60, |r, l| one(r, l, &o, &huge));
    let blocks = gen::Opts { max_blocks: 400, max_stmts: 2, big: false, ..o.clone() };
    c.random("many blocks", 100, |r, l| one(r, l, &blocks, &Style::plain()));
    c.finish(
        "random well-formed programs (blocks at edge/adjacent/random addresses, every statement kind, labels, externals, far label operands) rendered to text, parsed and assembled; plus every representable label offset of every PC-relative instruction; non-trivial = occupies memory, distinct by source text",
        &["the reference encoder in mon/src/refasm.rs is the LC-3 encoding table", "label/PC distances are taken as plain differences"],
        &[("words compared", 10_000), ("label operands", 1_000), ("long data directives", 200)],
    )
}
