//! Reference assembler: written from the LC-3 encoding tables and the well-formedness rules.
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Cond {
    UndetAddrLabel,
    UndetAddrStmt,
    UnclosedOrig,
    UnopenedOrig,
    OverlappingOrig,
    OverlappingLabels,
    WrappingBlock,
    BlockInIO,
    OverlappingBlocks,
    OffsetNewErr,
    OffsetExternal,
    CouldNotFindLabel,
}
#[derive(Clone, Debug, Default)]
pub struct RefObj {
    pub image: BTreeMap<u16, Option<u16>>,
    /// Upper-case name -> (address, external).
    pub labels: BTreeMap<String, (u16, bool)>,
    /// Address of the `.fill` -> upper-case external name.
    pub relocs: BTreeMap<u16, String>,
    /// Address of each statement (None outside of blocks).
    pub addr: Vec<Option<u16>>,
    /// (start, length) of non-empty blocks in source order.
    pub blocks: Vec<(u16, usize)>,
    /// The statement of the property leaves the verdict open.
    pub ambiguous: bool,
}
pub fn upper(s: &str) -> String {
    s.to_uppercase()
}
fn fits(v: i64, n: u32) -> bool {
    v >= -(1i64 << (n - 1)) && v < (1i64 << (n - 1))
}

/// Encoding of an instruction whose PC-relative operand (if any) is `off`.
pub fn encode(ins: &Ins, off: i32) -> u16 {
    let r = |x: u8, sh: u32| (x as u16) << sh;
    let f = |v: i32, n: u32| (v as u32 & ((1u32 << n) - 1)) as u16;
    let s2 = |s: &Src2| match s {
        Src2::Reg(q) => *q as u16,
        Src2::Imm(v) => 0x20 | f(*v, 5),
    };
    match ins {
        Ins::Add(a, b, c) => 0x1000 | r(*a, 9) | r(*b, 6) | s2(c),
        Ins::And(a, b, c) => 0x5000 | r(*a, 9) | r(*b, 6) | s2(c),
        Ins::Br(cc, _) => ((*cc as u16) << 9) | f(off, 9),
        Ins::Nop(_) => f(off, 9),
        Ins::Jmp(a) => 0xC000 | r(*a, 6),
        Ins::Ret => 0xC1C0,
        Ins::Jsr(_) => 0x4800 | f(off, 11),
        Ins::Jsrr(a) => 0x4000 | r(*a, 6),
        Ins::Ld(a, _) => 0x2000 | r(*a, 9) | f(off, 9),
        Ins::Ldi(a, _) => 0xA000 | r(*a, 9) | f(off, 9),
        Ins::Ldr(a, b, o) => 0x6000 | r(*a, 9) | r(*b, 6) | f(*o, 6),
        Ins::Lea(a, _) => 0xE000 | r(*a, 9) | f(off, 9),
        Ins::Not(a, b) => 0x903F | r(*a, 9) | r(*b, 6),
        Ins::Rti => 0x8000,
        Ins::St(a, _) => 0x3000 | r(*a, 9) | f(off, 9),
        Ins::Sti(a, _) => 0xB000 | r(*a, 9) | f(off, 9),
        Ins::Str(a, b, o) => 0x7000 | r(*a, 9) | r(*b, 6) | f(*o, 6),
        Ins::Trap(v) => 0xF000 | v,
        Ins::Getc => 0xF020,
        Ins::Out | Ins::Putc => 0xF021,
        Ins::Puts => 0xF022,
        Ins::In => 0xF023,
        Ins::Putsp => 0xF024,
        Ins::Halt => 0xF025,
    }
}

/// Violated well-formedness conditions; the object is meaningful when there are none.
pub fn analyze(prog: &[St]) -> (BTreeSet<Cond>, RefObj) {
    let mut c = BTreeSet::new();
    let mut o = RefObj::default();
    let mut lc: Option<(u64, u64)> = None; // (start, current)
    let mut bound: BTreeMap<String, (u16, bool)> = BTreeMap::new();
    let mut declared: BTreeSet<String> = BTreeSet::new();
    let mut defined: BTreeSet<String> = BTreeSet::new();
    let mut blocks: Vec<(u64, u64, usize, usize)> = vec![]; // start, end, stmt range
    let mut first = 0;
    for (k, s) in prog.iter().enumerate() {
        for l in &s.labels {
            match lc {
                None => {
                    c.insert(Cond::UndetAddrLabel);
                }
                Some((_, a)) => {
                    let a = a as u16;
                    defined.insert(upper(l));
                    let e = bound.entry(upper(l)).or_insert((a, false));
                    if e.0 != a {
                        c.insert(Cond::OverlappingLabels);
                    }
                }
            }
        }
        o.addr.push(lc.map(|(_, a)| a as u16));
        match &s.nuc {
            Nuc::D(Dir::Orig(a)) => {
                if let Some((st, e)) = lc {
                    c.insert(Cond::OverlappingOrig);
                    // the extent of the unclosed block may be reported too
                    blocks.push((st, e, first, k));
                }
                lc = Some((*a as u64, *a as u64));
                first = k + 1;
            }
            Nuc::D(Dir::End) => match lc.take() {
                None => {
                    c.insert(Cond::UnopenedOrig);
                }
                Some((st, e)) => blocks.push((st, e, first, k)),
            },
            Nuc::D(Dir::External(l)) => {
                declared.insert(upper(l));
                let e = bound.entry(upper(l)).or_insert((0, true));
                if e.0 != 0 {
                    c.insert(Cond::OverlappingLabels);
                }
            }
            _ => match &mut lc {
                None => {
                    c.insert(Cond::UndetAddrStmt);
                }
                Some((_, a)) => *a += s.size() as u64,
            },
        }
    }
    if let Some((st, e)) = lc {
        c.insert(Cond::UnclosedOrig);
        blocks.push((st, e, first, prog.len()));
    }
    for (i, &(s, e, ..)) in blocks.iter().enumerate() {
        if s == e {
            continue;
        }
        if e > 0xFE00 {
            c.insert(Cond::BlockInIO);
        }
        // A block that ends exactly at the end of memory may be reported either way.
        if e >= 0x1_0000 {
            c.insert(Cond::WrappingBlock);
        }
        for &(s2, e2, ..) in &blocks[..i] {
            if s2 < e2 {
                // compare as sets of (wrapped) addresses
                let hit = |s: u64, e: u64, a: u64| (s <= a && a < e) || (s <= a + 0x1_0000 && a + 0x1_0000 < e);
                if hit(s, e, s2) || hit(s2, e2, s) {
                    c.insert(Cond::OverlappingBlocks);
                }
            }
        }
    }
    // Declared external and defined at x0000.
    for l in &declared {
        if defined.contains(l) && bound[l].0 == 0 {
            o.ambiguous = true;
        }
    }
    o.labels = bound.clone();
    // Words
    for &(s, e, a, b) in &blocks {
        if s != e {
            o.blocks.push((s as u16, (e - s) as usize));
        }
        let mut pc = s;
        for st in &prog[a..b] {
            macro_rules! put {
                ($w:expr) => {{
                    let w: Option<u16> = $w;
                    o.image.insert(pc as u16, w);
                    pc += 1;
                }};
            }
            match &st.nuc {
                Nuc::I(ins) => {
                    let mut off = 0;
                    if let Some((t, n)) = ins.tgt() {
                        match t {
                            Tgt::Off(v) => off = *v,
                            Tgt::Lab(l) => match bound.get(&upper(l)) {
                                None => {
                                    c.insert(Cond::CouldNotFindLabel);
                                }
                                Some((_, true)) => {
                                    c.insert(Cond::OffsetExternal);
                                }
                                Some((la, false)) => {
                                    if declared.contains(&upper(l)) {
                                        c.insert(Cond::OffsetExternal);
                                    }
                                    let dd = *la as i64 - ((pc as u16).wrapping_add(1)) as i64;
                                    off = dd as i32;
                                    if !fits(dd, n) && fits((dd as i16) as i64, n) {
                                        o.ambiguous = true;
                                    }
                                    if !fits(dd, n) {
                                        c.insert(Cond::OffsetNewErr);
                                    }
                                }
                            },
                        }
                    }
                    put!(Some(encode(ins, off)));
                }
                Nuc::D(Dir::Fill(v)) => put!(Some(*v)),
                Nuc::D(Dir::FillLab(l)) => {
                    let w = match bound.get(&upper(l)) {
                        None => {
                            c.insert(Cond::CouldNotFindLabel);
                            0
                        }
                        Some((a, _)) => *a,
                    };
                    if bound.get(&upper(l)).is_some_and(|x| x.1) {
                        o.relocs.insert(pc as u16, upper(l));
                    }
                    put!(Some(w));
                }
                Nuc::D(Dir::Blkw(n)) => {
                    for _ in 0..*n {
                        put!(None);
                    }
                }
                Nuc::D(Dir::Stringz(t)) => {
                    for b in t.bytes() {
                        put!(Some(b as u16));
                    }
                    put!(Some(0));
                }
                Nuc::D(_) => {}
            }
        }
    }
    // Operands of statements outside of blocks
    for (k, s) in prog.iter().enumerate() {
        if o.addr[k].is_none() || lc.is_some() {
            if let Some(l) = s.operand_label() {
                if !bound.contains_key(&upper(l)) {
                    c.insert(Cond::CouldNotFindLabel);
                }
            }
        }
    }
    (c, o)
}

pub fn cond_of(k: &lc3_ensemble::asm::AsmErrKind) -> Cond {
    use lc3_ensemble::asm::AsmErrKind as K;
    match k {
        K::UndetAddrLabel => Cond::UndetAddrLabel,
        K::UndetAddrStmt => Cond::UndetAddrStmt,
        K::UnclosedOrig => Cond::UnclosedOrig,
        K::UnopenedOrig => Cond::UnopenedOrig,
        K::OverlappingOrig => Cond::OverlappingOrig,
        K::OverlappingLabels => Cond::OverlappingLabels,
        K::WrappingBlock => Cond::WrappingBlock,
        K::BlockInIO => Cond::BlockInIO,
        K::OverlappingBlocks => Cond::OverlappingBlocks,
        K::OffsetNewErr(_) => Cond::OffsetNewErr,
        K::OffsetExternal => Cond::OffsetExternal,
        K::CouldNotFindLabel => Cond::CouldNotFindLabel,
    }
}
