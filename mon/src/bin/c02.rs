//! Accept/reject decision of the assembler against the independent well-formedness rules.
use lc3_ensemble::asm::{assemble, assemble_debug};
use lc3_ensemble::parse::parse_ast;
use mon::model::*;
use mon::mutate::mutate;
use mon::refasm::{analyze, cond_of};
use mon::render::{render, Style};
use mon::*;
use std::collections::BTreeMap;

fn judge(r: &mut Rng, l: &mut Local, p: &[St], style: &Style) {
    let (conds, want) = analyze(p);
    if want.ambiguous {
        l.count("skipped: verdict left open by the property", 1);
        return;
    }
    let rd = render(p, r, style);
    let ast = match parse_ast(&rd.text) {
        Ok(a) => a,
        // Whether this parses is the subject of C03.
        Err(_) => return l.count("skipped: did not parse", 1),
    };
    // The verdict is about the parsed program.
    let parsed: Vec<St> = ast.iter().map(from_crate).collect();
    if parsed != p {
        return l.count("skipped: parsed differently", 1);
    }
    for debug in [false, true] {
        l.eval();
        let res = guard(|| if debug { assemble_debug(ast.clone(), &rd.text) } else { assemble(ast.clone()) });
        let what = if debug { "assemble_debug" } else { "assemble" };
        match res {
            Err(e) => return l.violation(format!("{what} panicked at {}", e.loc), format!("{}\n{}", e.msg, rd.text)),
            Ok(Ok(obj)) => {
                if !conds.is_empty() {
                    return l.violation(format!("{what} accepts an ill-formed program"), format!("violated: {conds:?}\n{}", rd.text));
                }
                let got: BTreeMap<u16, Option<u16>> = obj.addr_iter().collect();
                if got != want.image {
                    return l.violation(format!("{what}: accepted, but with a different image"), rd.text);
                }
                l.count("accepted", 1);
            }
            Ok(Err(e)) => {
                if conds.is_empty() {
                    return l.violation(format!("{what} rejects a well-formed program: {:?}", e.kind), rd.text);
                }
                let c = cond_of(&e.kind);
                if !conds.contains(&c) {
                    return l.violation(
                        format!("{what} reports {:?}, which the program does not violate", e.kind),
                        format!("violated: {conds:?}\n{}", rd.text),
                    );
                }
                l.count(&format!("rejected: {c:?}"), 1);
                if conds.len() == 1 {
                    l.count(&format!("only {c:?} violated"), 1);
                }
            }
        }
    }
    l.distinct_str(&rd.text);
    l.sample(|| format!("{conds:?}\n{}", rd.text));
}

/// A label operand at an exact distance, around the limits of the field.
fn limits(i: u64, r: &mut Rng, l: &mut Local) {
    let dist = {
        let c: [i64; 10] = [-1026, -1024, -258, -256, -1, 0, 255, 256, 1022, 1023];
        c[(i % 10) as usize] + r.range(0, 2)
    };
    for k in 0..8 {
        let t = Tgt::Lab("Target".into());
        let ins = [
            Ins::Br(7, t.clone()),
            Ins::Ld(1, t.clone()),
            Ins::Ldi(2, t.clone()),
            Ins::Lea(3, t.clone()),
            Ins::St(4, t.clone()),
            Ins::Sti(5, t.clone()),
            Ins::Nop(t.clone()),
            Ins::Jsr(t),
        ][k]
            .clone();
        let at: i64 = *r.pick(&[0x3000, 0x0500, 0xF000, 0x8000, 0x7FF0, 0xFDFF, 1025]);
        let la = at + 1 + dist;
        if !(0..0xFE00).contains(&la) {
            continue;
        }
        let mut p = vec![];
        let same_block = r.pct(50);
        if same_block && dist > 0 {
            p.extend([sd(Dir::Orig(at as u16)), si(ins), sd(Dir::Blkw(dist as u16)), sd(Dir::Fill(1)).lab("TARGET"), sd(Dir::End)]);
        } else if same_block && dist < -2 {
            p.extend([sd(Dir::Orig(la as u16)), sd(Dir::Fill(1)).lab("TARGET"), sd(Dir::Blkw((-dist - 2) as u16)), si(ins), sd(Dir::End)]);
        } else if dist == -1 {
            p.extend([sd(Dir::Orig(at as u16)), si(ins).lab("target"), sd(Dir::End)]);
        } else {
            let a = [sd(Dir::Orig(at as u16)), si(ins), sd(Dir::End)];
            let b = [sd(Dir::Orig(la as u16)), sd(Dir::Fill(9)).lab("tARGET"), sd(Dir::End)];
            if r.pct(50) {
                p.extend(a);
                p.extend(b);
            } else {
                p.extend(b);
                p.extend(a);
            }
        }
        judge(r, l, &p, &Style::plain());
        l.count("label distances at field limits", 1);
    }
}

/// Two or three small blocks at every relative position.
fn placement(i: u64, r: &mut Rng, l: &mut Local) {
    let base: i64 = *r.pick(&[0x3000, 0xFDF8, 0xFFF0, 0, 0x7FFC, 0x10]);
    let n = 2 + (i % 3) as usize;
    let mut p = vec![];
    for _ in 0..n {
        let s = (base + r.range(0, 14)).clamp(0, 0xFFFF) as u16;
        p.push(sd(Dir::Orig(s)));
        match r.below(5) {
            0 => {}
            1 => p.push(sd(Dir::Stringz("abc".into()))),
            2 => p.push(sd(Dir::Blkw(1 + r.below(8) as u16))),
            _ => {
                for _ in 0..1 + r.below(3) {
                    p.push(sd(Dir::Fill(r.u16())));
                }
            }
        }
        p.push(sd(Dir::End));
    }
    judge(r, l, &p, &Style::plain());
}

fn main() {
    let mut c = Check::new("C02");
    c.quick_factor(2);
    c.factor(40);
    c.exhaustive("label distance limits", 4000, limits);
    c.random("small block placements", 40_000, |r, l| {
        let i = r.next();
        placement(i, r, l)
    });
    let o = gen::Opts { max_stmts: 8, label_pct: 40, ..gen::Opts::default() };
    let ob = gen::Opts { max_stmts: 30, ..gen::Opts::default() };
    let near = gen::Opts { max_stmts: 6, lo: 0x3000, hi: 0x3080, big: false, ..gen::Opts::default() };
    c.random("mutated programs", 100_000, |r, l| {
        let o = *r.pick(&[&o, &o, &ob, &near]);
        let mut p = gen::program(r, o);
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 2, 3]) {
            mutate(r, &mut p);
        }
        judge(r, l, &p, &Style::plain());
    });
    let huge = Style { huge: 100, ..Style::plain() };
    c.random("long sources", 40, |r, l| {
        let mut p = gen::program(r, &o);
        for _ in 0..r.below(3) {
            mutate(r, &mut p);
        }
        judge(r, l, &p, &huge);
    });
    let blocks = gen::Opts { max_blocks: 400, max_stmts: 2, big: false, ..gen::Opts::default() };
    c.random("many blocks", 150, |r, l| {
        let mut p = gen::program(r, &blocks);
        for _ in 0..r.below(3) {
            mutate(r, &mut p);
        }
        judge(r, l, &p, &Style::plain());
    });
    c.finish(
        "well-formed random programs with 0-3 mutations of block structure, block placement, labels, externals and operands, plus label operands at every field limit and small blocks at all relative positions; verdict and error kind compared with the independently computed set of violated conditions; distinct by source text",
        &["programs whose verdict the property leaves open (label distances that only fit modulo 2^16, a label both external and defined at x0000) are skipped", "with several violated conditions any of them may be reported"],
        &[
            ("accepted", 10_000),
            ("only UndetAddrLabel violated", 100),
            ("only UndetAddrStmt violated", 100),
            ("only UnclosedOrig violated", 100),
            ("only UnopenedOrig violated", 100),
            ("only OverlappingOrig violated", 100),
            ("only OverlappingLabels violated", 100),
            ("only BlockInIO violated", 100),
            ("only OverlappingBlocks violated", 100),
            ("only OffsetNewErr violated", 100),
            ("only OffsetExternal violated", 100),
            ("only CouldNotFindLabel violated", 100),
            ("rejected: WrappingBlock", 100),
        ],
    )
}
