//! Initialization tracking of word arithmetic.
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{SimFlags, Simulator};
use mon::simutil::REGS;
use mon::*;

/// A word whose initialized bits are exactly `m` (as far as the operators allow).
fn raw(d: u16, m: u16) -> Word {
    if m == 0xFFFF {
        return Word::new_init(d);
    }
    let mut filler = !d;
    // initialized zeros where ones are wanted, complemented, then initialized zeros where zeros are wanted
    !(Word::new_uninit(&mut filler) & Word::new_init(!(m & d))) & Word::new_init(!(m & !d))
}
/// As `raw`, judging the operators used: exactly the bits of `m` do not depend on the uninitialized word.
fn make(l: &mut Local, d: u16, m: u16) -> Word {
    let w = raw(d, m);
    if mask(w) & !m != 0 {
        l.violation(
            "!(u & a) & b: a result bit is reported as initialized although it depends on the uninitialized word u",
            format!("a = {:04X}, b = {:04X} -> {w:?}; bits that are constant: {m:04X}", !(m & d), !(m & !d)),
        );
    } else if (w.get() ^ d) & mask(w) != 0 {
        l.violation("!(u & a) & b: an initialized result bit has the wrong value", format!("a = {:04X}, b = {:04X} -> {w:?}, expected {d:04X}", !(m & d), !(m & !d)));
    }
    w
}
/// The initialized bits of a word.
fn mask(w: Word) -> u16 {
    let s = format!("{w:?}");
    let field = |k: &str| -> Option<u16> {
        let t = &s[s.find(k)? + k.len()..];
        let e = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
        t[..e].parse().ok()
    };
    if let (Some(d), Some(i)) = (field("data: "), field("init: ")) {
        if d == w.get() && (i == 0xFFFF) == w.is_init() {
            return i;
        }
    }
    // No readable mask: only what is_init tells.
    if w.is_init() { 0xFFFF } else { 0 }
}
fn readable() -> bool {
    mask(raw(0x1234, 0x0FF0)) == 0x0FF0
}

/// Bits that have the same value for every choice of uninitialized bits: (constant, value).
fn add_const(a: (u16, u16), b: (u16, u16), sub: bool) -> (u16, u16) {
    let (mut cst, mut val) = (0u16, 0u16);
    let mut carry = [true, false]; // possible carries: [0, 1]
    for i in 0..16 {
        let set = |w: (u16, u16)| {
            let d = w.0 >> i & 1;
            if w.1 >> i & 1 == 1 { [d == 0, d == 1] } else { [true, true] }
        };
        let (sa, sb) = (set(a), set(b));
        let (mut out, mut nc) = ([false; 2], [false; 2]);
        for x in 0..2i32 {
            for y in 0..2i32 {
                for c in 0..2i32 {
                    if sa[x as usize] && sb[y as usize] && carry[c as usize] {
                        let s = if sub { x - y - c } else { x + y + c };
                        out[(s & 1) as usize] = true;
                        nc[(if sub { s < 0 } else { s > 1 }) as usize] = true;
                    }
                }
            }
        }
        if out[0] != out[1] {
            cst |= 1 << i;
            val |= (out[1] as u16) << i;
        }
        carry = nc;
    }
    (cst, val)
}
fn and_const(a: (u16, u16), b: (u16, u16)) -> (u16, u16) {
    let z = (a.1 & !a.0) | (b.1 & !b.0);
    let both = a.1 & b.1;
    (z | both, a.0 & b.0 & both)
}
type Bits = (u16, u16);
#[allow(clippy::too_many_arguments)]
fn judge(l: &mut Local, name: &str, got: Word, (cst, val): Bits, full: bool, exact: u16, ops: &str, partial: bool) {
    l.eval();
    let (d, m) = (got.get(), mask(got));
    if m & !cst != 0 {
        return l.violation(
            format!("{name}: a result bit is reported as initialized although it depends on uninitialized bits"),
            format!("{ops} -> data {d:04X} init {m:04X}; bits that are constant: {cst:04X}"),
        );
    }
    if (d ^ val) & m & cst != 0 {
        return l.violation(
            format!("{name}: an initialized result bit has the wrong value"),
            format!("{ops} -> data {d:04X} init {m:04X}; constant bits {cst:04X} = {val:04X}"),
        );
    }
    if full {
        l.count("fully initialized operands", 1);
        if !got.is_init() || m != 0xFFFF {
            return l.violation(format!("{name}: initialized operands give a result that is not fully initialized"), format!("{ops} -> init {m:04X}"));
        }
        if d != exact {
            return l.violation(format!("{name}: wrong value"), format!("{ops} -> {d:04X}, expected {exact:04X}"));
        }
    } else {
        l.count("results with uninitialized bits in the operands", 1);
        l.count("bits reported as initialized there", m.count_ones() as u64);
        if partial {
            l.count("partially initialized results", (m != 0 && m != 0xFFFF) as u64);
        }
    }
}
fn all_ops(l: &mut Local, a: Word, b: Word) {
    let (pa, pb): (Bits, Bits) = ((a.get(), mask(a)), (b.get(), mask(b)));
    let full = pa.1 == 0xFFFF && pb.1 == 0xFFFF;
    let ops = format!("a = {:04X}/{:04X}, b = {:04X}/{:04X}", pa.0, pa.1, pb.0, pb.1);
    let sum = add_const(pa, pb, false);
    let dif = add_const(pa, pb, true);
    let and = and_const(pa, pb);
    let (es, ed, ea) = (pa.0.wrapping_add(pb.0), pa.0.wrapping_sub(pb.0), pa.0 & pb.0);
    judge(l, "a + b", a + b, sum, full, es, &ops, true);
    judge(l, "a - b", a - b, dif, full, ed, &ops, true);
    judge(l, "a & b", a & b, and, full, ea, &ops, true);
    judge(l, "!a", !a, (pa.1, !pa.0), pa.1 == 0xFFFF, !pa.0, &ops, true);
    let mut x = a;
    x += b;
    judge(l, "a += b", x, sum, full, es, &ops, true);
    let mut x = a;
    x -= b;
    judge(l, "a -= b", x, dif, full, ed, &ops, true);
    let mut x = a;
    x &= b;
    judge(l, "a &= b", x, and, full, ea, &ops, true);
    // with plain numbers
    let q: Bits = (pb.0, 0xFFFF);
    let (sum, dif) = (add_const(pa, q, false), add_const(pa, q, true));
    let full = pa.1 == 0xFFFF;
    let mut x = a;
    x += pb.0;
    judge(l, "a += u16", x, sum, full, es, &ops, true);
    let mut x = a;
    x += pb.0 as i16;
    judge(l, "a += i16", x, sum, full, es, &ops, true);
    let mut x = a;
    x -= pb.0;
    judge(l, "a -= u16", x, dif, full, ed, &ops, true);
    let mut x = a;
    x -= pb.0 as i16;
    judge(l, "a -= i16", x, dif, full, ed, &ops, true);
    // conversions
    l.eval();
    if Word::from(pa.0).get() != pa.0 || !Word::from(pa.0).is_init() || Word::from(pb.0 as i16).get() != pb.0 {
        l.violation("a word made from a number is not that initialized number", ops);
    }
}
fn edge_mask(r: &mut Rng) -> u16 {
    match r.below(8) {
        0 => 0,
        1 | 2 => 0xFFFF,
        3 => 0xFFFF << r.below(16),
        4 => 0xFFFF >> r.below(16),
        5 => !(1 << r.below(16)),
        6 => 1 << r.below(16),
        _ => r.u16(),
    }
}
fn data(r: &mut Rng) -> u16 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, 0xFFFF, 0x8000, 0x7FFF, 0x00FF]),
        1 => r.u16() & r.u16() & r.u16(),
        2 => r.u16() | r.u16() | r.u16(),
        _ => r.u16(),
    }
}
fn instr(l: &mut Local, r: &mut Rng, sim: &mut Simulator) {
    let (d, s1, s2) = (r.below(8), r.below(8), r.below(8));
    for k in REGS {
        sim.reg_file[k] = make(l, data(r), edge_mask(r));
    }
    let imm = r.range(-16, 15) as i16;
    let (w, name): (u16, &str) = match r.below(5) {
        0 => (0x1000 | s2 as u16, "ADD register"),
        1 => (0x1020 | (imm as u16 & 0x1F), "ADD immediate"),
        2 => (0x5000 | s2 as u16, "AND register"),
        3 => (0x5020 | (imm as u16 & 0x1F), "AND immediate"),
        _ => (0x903F, "NOT"),
    };
    let w = w | (d as u16) << 9 | (s1 as u16) << 6;
    sim.pc = 0x3000;
    sim.mem[0x3000] = Word::new_init(w);
    let a = sim.reg_file[REGS[s1]];
    let b = if name.ends_with("register") { sim.reg_file[REGS[s2]] } else { Word::new_init(imm as u16) };
    let (pa, pb): (Bits, Bits) = ((a.get(), mask(a)), (b.get(), mask(b)));
    match guard(|| sim.step_in()) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return l.violation(format!("{name} instruction fails"), format!("x{w:04X}: {e:?}")),
        Err(e) => return l.violation(format!("step panicked at {}", e.loc), format!("x{w:04X}")),
    }
    let got = sim.reg_file[REGS[d]];
    let full = pa.1 == 0xFFFF && pb.1 == 0xFFFF;
    let ops = format!("x{w:04X}: a = {:04X}/{:04X}, b = {:04X}/{:04X}", pa.0, pa.1, pb.0, pb.1);
    l.count("instructions executed", 1);
    match &name[..3] {
        "ADD" => judge(l, name, got, add_const(pa, pb, false), full, pa.0.wrapping_add(pb.0), &ops, true),
        "AND" => judge(l, name, got, and_const(pa, pb), full, pa.0 & pb.0, &ops, true),
        _ => judge(l, name, got, (pa.1, !pa.0), pa.1 == 0xFFFF, !pa.0, &ops, true),
    }
}
fn main() {
    let mut c = Check::new("C15");
    c.factor(60);
    let has_mask = readable();
    // All data/mask combinations of two 4-bit fields at each bit position, in both a known and an unknown context.
    c.exhaustive("4-bit fields", 65536, |i, r, l| {
        let (d1, m1, d2, m2) = ((i & 15) as u16, (i >> 4 & 15) as u16, (i >> 8 & 15) as u16, (i >> 12 & 15) as u16);
        let sh = r.below(13) as u32;
        let rest = !(0xFu16 << sh);
        let ctx = match r.below(4) {
            0 => (0, 0xFFFF, 0, 0xFFFF),
            1 => (0xFFFF, 0xFFFF, data(r), 0xFFFF),
            2 => (data(r), edge_mask(r), data(r), edge_mask(r)),
            _ => (data(r), 0xFFFF, data(r), 0xFFFF),
        };
        let a = make(l, (ctx.0 & rest) | d1 << sh, (ctx.1 & rest) | m1 << sh);
        let b = make(l, (ctx.2 & rest) | d2 << sh, (ctx.3 & rest) | m2 << sh);
        all_ops(l, a, b);
        l.distinct(i);
    });
    c.random("random words", 400_000, |r, l| {
        let a = make(l, data(r), edge_mask(r));
        let b = make(l, data(r), edge_mask(r));
        l.distinct((a.get() as u64) << 48 | (b.get() as u64) << 32 | (mask(a) as u64) << 16 | mask(b) as u64);
        all_ops(l, a, b);
        l.sample(|| format!("{a:?} op {b:?}"));
        // results as operands
        let e = if r.pct(50) { a & b } else { a + b };
        all_ops(l, e, a);
        all_ops(l, b, e);
    });
    c.random("instructions", 300, |r, l| {
        let mut sim = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() });
        for _ in 0..400 {
            instr(l, r, &mut sim);
        }
    });
    let min_partial = if has_mask { 10_000 } else { 0 };
    c.finish(
        "words with arbitrary data and initialization masks under +, -, &, !, their assignment forms and the ADD/AND/NOT instructions; each result compared with the exact set of result bits that do not depend on uninitialized operand bits; distinct = operand pair",
        &["masks are read from the Debug output of a word; without it only is_init() would be observed"],
        &[("fully initialized operands", 10_000), ("results with uninitialized bits in the operands", 100_000), ("partially initialized results", min_partial), ("instructions executed", 50_000)],
    )
}
