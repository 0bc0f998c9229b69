//! Decoder and encoder against the LC-3 encoding table.
use lc3_ensemble::ast::sim::SimInstr as S;
use lc3_ensemble::ast::{ImmOrReg, Offset, Reg};
use lc3_ensemble::sim::SimErr;
use mon::refsim::{self, Fault, Op, S2};
use mon::*;

fn reg(n: u8) -> Reg {
    Reg::try_from(n).expect("register 0-7")
}
fn n(r: Reg) -> u8 {
    r.reg_no()
}
fn off<const N: u32>(v: i16) -> Offset<i16, N> {
    Offset::new(v).expect("offset in range")
}
fn src2(s: S2) -> ImmOrReg<5> {
    match s {
        S2::R(q) => ImmOrReg::Reg(reg(q)),
        S2::I(v) => ImmOrReg::Imm(off(v)),
    }
}
fn to_crate(o: &Op) -> S {
    match *o {
        Op::Br(cc, o) => S::BR(cc, off(o)),
        Op::Add(a, b, c) => S::ADD(reg(a), reg(b), src2(c)),
        Op::And(a, b, c) => S::AND(reg(a), reg(b), src2(c)),
        Op::Not(a, b) => S::NOT(reg(a), reg(b)),
        Op::Ld(a, o) => S::LD(reg(a), off(o)),
        Op::Ldi(a, o) => S::LDI(reg(a), off(o)),
        Op::Lea(a, o) => S::LEA(reg(a), off(o)),
        Op::St(a, o) => S::ST(reg(a), off(o)),
        Op::Sti(a, o) => S::STI(reg(a), off(o)),
        Op::Ldr(a, b, o) => S::LDR(reg(a), reg(b), off(o)),
        Op::Str(a, b, o) => S::STR(reg(a), reg(b), off(o)),
        Op::Jsr(o) => S::JSR(ImmOrReg::Imm(off(o))),
        Op::Jsrr(b) => S::JSR(ImmOrReg::Reg(reg(b))),
        Op::Jmp(b) => S::JMP(reg(b)),
        Op::Rti => S::RTI,
        Op::Trap(v) => S::TRAP(Offset::new(v as u16).expect("vector in range")),
    }
}
fn s2_of(c: &ImmOrReg<5>) -> S2 {
    match c {
        ImmOrReg::Reg(q) => S2::R(n(*q)),
        ImmOrReg::Imm(v) => S2::I(v.get()),
    }
}
/// Reads the fields of a crate instruction one by one.
fn of_crate(i: &S) -> Op {
    match i {
        S::BR(cc, o) => Op::Br(*cc, o.get()),
        S::ADD(a, b, c) => Op::Add(n(*a), n(*b), s2_of(c)),
        S::AND(a, b, c) => Op::And(n(*a), n(*b), s2_of(c)),
        S::NOT(a, b) => Op::Not(n(*a), n(*b)),
        S::LD(a, o) => Op::Ld(n(*a), o.get()),
        S::LDI(a, o) => Op::Ldi(n(*a), o.get()),
        S::LEA(a, o) => Op::Lea(n(*a), o.get()),
        S::ST(a, o) => Op::St(n(*a), o.get()),
        S::STI(a, o) => Op::Sti(n(*a), o.get()),
        S::LDR(a, b, o) => Op::Ldr(n(*a), n(*b), o.get()),
        S::STR(a, b, o) => Op::Str(n(*a), n(*b), o.get()),
        S::JSR(ImmOrReg::Imm(o)) => Op::Jsr(o.get()),
        S::JSR(ImmOrReg::Reg(b)) => Op::Jsrr(n(*b)),
        S::JMP(b) => Op::Jmp(n(*b)),
        S::RTI => Op::Rti,
        S::TRAP(v) => Op::Trap(v.get() as u8),
    }
}
/// The encoding table, field by field.
fn table(o: &Op) -> u16 {
    let r = |x: u8, sh: u32| (x as u16) << sh;
    let f = |v: i16, n: u32| (v as u16) & ((1u16 << n) - 1);
    let s = |s: S2| match s {
        S2::R(q) => q as u16,
        S2::I(v) => 0x20 | f(v, 5),
    };
    match *o {
        Op::Br(cc, o) => r(cc, 9) | f(o, 9),
        Op::Add(a, b, c) => 0x1000 | r(a, 9) | r(b, 6) | s(c),
        Op::And(a, b, c) => 0x5000 | r(a, 9) | r(b, 6) | s(c),
        Op::Not(a, b) => 0x903F | r(a, 9) | r(b, 6),
        Op::Ld(a, o) => 0x2000 | r(a, 9) | f(o, 9),
        Op::Ldi(a, o) => 0xA000 | r(a, 9) | f(o, 9),
        Op::Lea(a, o) => 0xE000 | r(a, 9) | f(o, 9),
        Op::St(a, o) => 0x3000 | r(a, 9) | f(o, 9),
        Op::Sti(a, o) => 0xB000 | r(a, 9) | f(o, 9),
        Op::Ldr(a, b, o) => 0x6000 | r(a, 9) | r(b, 6) | f(o, 6),
        Op::Str(a, b, o) => 0x7000 | r(a, 9) | r(b, 6) | f(o, 6),
        Op::Jsr(o) => 0x4800 | f(o, 11),
        Op::Jsrr(b) => 0x4000 | r(b, 6),
        Op::Jmp(b) => 0xC000 | r(b, 6),
        Op::Rti => 0x8000,
        Op::Trap(v) => 0xF000 | v as u16,
    }
}
fn all_ops() -> Vec<Op> {
    let mut v = vec![];
    let r8 = 0..8u8;
    for a in r8.clone() {
        for o in -256..256i16 {
            v.extend([Op::Br(a, o), Op::Ld(a, o), Op::Ldi(a, o), Op::Lea(a, o), Op::St(a, o), Op::Sti(a, o)]);
        }
        v.extend([Op::Jsrr(a), Op::Jmp(a)]);
        for b in r8.clone() {
            for c in r8.clone() {
                v.extend([Op::Add(a, b, S2::R(c)), Op::And(a, b, S2::R(c))]);
            }
            for i in -16..16i16 {
                v.extend([Op::Add(a, b, S2::I(i)), Op::And(a, b, S2::I(i))]);
            }
            for o in -32..32i16 {
                v.extend([Op::Ldr(a, b, o), Op::Str(a, b, o)]);
            }
            v.push(Op::Not(a, b));
        }
    }
    v.extend((-1024..1024i16).map(Op::Jsr));
    v.push(Op::Rti);
    v.extend((0..=255u8).map(Op::Trap));
    v
}
fn main() {
    let mut c = Check::new("C06");
    c.exhaustive("every word", 65536, |i, _, l| {
        let w = i as u16;
        l.eval();
        l.distinct(i);
        let want = refsim::decode(w);
        match (guard(|| S::decode(w)), want) {
            (Err(e), _) => l.violation(format!("decode panicked at {}", e.loc), format!("x{w:04X}: {}", e.msg)),
            (Ok(Ok(g)), Ok(o)) => {
                l.count("words decoded", 1);
                if of_crate(&g) != o || g != to_crate(&o) {
                    return l.violation("a word decodes to another instruction", format!("x{w:04X}: got {g:?}, expected {o:?}"));
                }
                match guard(|| g.encode()) {
                    Ok(b) if b == w => {}
                    Ok(b) => l.violation("re-encoding a decoded instruction gives another word", format!("x{w:04X} -> {g:?} -> x{b:04X}")),
                    Err(e) => l.violation(format!("encode panicked at {}", e.loc), format!("{g:?}")),
                }
            }
            (Ok(Ok(g)), Err(f)) => l.violation("a word that encodes no instruction decodes", format!("x{w:04X}: got {g:?}, expected {f:?}")),
            (Ok(Err(e)), Ok(o)) => l.violation("a canonical encoding is rejected", format!("x{w:04X}: got {e:?}, expected {o:?}")),
            (Ok(Err(e)), Err(f)) => {
                l.count(if f == Fault::InvFmt { "invalid formats" } else { "reserved opcodes" }, 1);
                let ok = match f {
                    Fault::InvFmt => matches!(e, SimErr::InvalidInstrFormat),
                    _ => matches!(e, SimErr::IllegalOpcode),
                };
                if !ok {
                    l.violation("a word is rejected with the wrong kind of error", format!("x{w:04X}: got {e:?}, expected {f:?}"));
                }
            }
        }
    });
    let ops = all_ops();
    c.exhaustive("every instruction", ops.len() as u64, |i, _, l| {
        let o = &ops[i as usize];
        let s = to_crate(o);
        l.eval();
        l.distinct(0x10_0000 + i);
        l.count("instructions encoded", 1);
        let w = match guard(|| s.encode()) {
            Ok(w) => w,
            Err(e) => return l.violation(format!("encode panicked at {}", e.loc), format!("{s:?}")),
        };
        if w != table(o) {
            return l.violation("an instruction is not encoded as the table says", format!("{s:?}: got x{w:04X}, expected x{:04X}", table(o)));
        }
        match guard(|| S::decode(w)) {
            Ok(Ok(b)) if b == s => {}
            Ok(b) => l.violation("decoding an encoded instruction gives another one", format!("{s:?} -> x{w:04X} -> {b:?}")),
            Err(e) => l.violation(format!("decode panicked at {}", e.loc), format!("x{w:04X}")),
        }
        if i % 4000 == 0 {
            l.sample(|| format!("{s:?} -> x{w:04X}"));
        }
    });
    c.finish(
        "all 65536 words decoded and re-encoded; all representable instructions encoded and decoded; observed results compared with an independent encoding table; distinct = word or instruction",
        &["condition codes of BR are 0..=7"],
        &[("words decoded", 10_000), ("invalid formats", 1_000), ("reserved opcodes", 4096), ("instructions encoded", 10_000)],
    )
}
