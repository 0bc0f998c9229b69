//! Generators of program models.
use crate::model::*;
use crate::refasm::upper;
use crate::rng::Rng;
use std::collections::BTreeSet;

const KEYWORDS: &[&str] = &[
    "ADD", "AND", "NOT", "BR", "BRP", "BRZ", "BRZP", "BRN", "BRNP", "BRNZ", "BRNZP", "JMP", "JSR", "JSRR", "LD", "LDI",
    "LDR", "LEA", "ST", "STI", "STR", "TRAP", "NOP", "RET", "RTI", "GETC", "OUT", "PUTC", "PUTS", "IN", "PUTSP", "HALT",
];
/// Whether a name is lexed as a label.
pub fn valid_label(s: &str) -> bool {
    let u = upper(s);
    if KEYWORDS.contains(&u.as_str()) {
        return false;
    }
    let b = u.as_bytes();
    if b[0] == b'X' && b.len() > 1 && b[1].is_ascii_hexdigit() {
        return false;
    }
    if b[0] == b'R' && b.len() > 1 && b[1..].iter().all(|c| c.is_ascii_digit()) {
        return false;
    }
    b[0].is_ascii_alphabetic() || b[0] == b'_'
}
pub fn label_name(r: &mut Rng, used: &mut BTreeSet<String>, unicode: bool) -> String {
    loop {
        let mut s = String::new();
        match r.below(13) {
            // names that share a prefix with another, or extend it
            12 if !used.is_empty() => {
                let k = r.below(used.len());
                s.push_str(used.iter().nth(k).unwrap());
                if r.pct(40) {
                    s.pop();
                }
                if r.pct(10) {
                    let n = r.below(120);
                    s.extend(std::iter::repeat_n('k', n));
                }
                s.push(*r.pick(&['A', '0', '1', '_', 's', 'E']));
            }
            // near-keywords, near-hex and near-register names
            0 => {
                s.push_str(r.pick(&["ADDS", "BRA", "HALTED", "RETI", "NOPE", "XYZ", "X_1", "R1A", "R", "X", "_", "R_", "BRPZ", "GETCHAR", "ORIG", "END", "FILL", "LABEL", "ADDR", "EXT", "INDEX", "LINE", "SOURCE", "TEXT", "SYMBOL", "DEBUG", "LINKER_INFO", "EXTERNAL", "STRINGZ", "BLKW"]));
                if r.pct(50) {
                    s.push((b'0' + r.below(10) as u8) as char);
                }
            }
            _ => {
                s.push(*r.pick(&['A', 'b', 'L', 'm', 'T', '_', 'z', 'q', 'W', 'x', 'R']));
                let n = match r.below(20) {
                    0 if r.pct(10) => 60 + r.below(240),
                    0 => r.below(40),
                    1..=4 => 0,
                    _ => r.below(6),
                };
                for _ in 0..n {
                    if unicode && r.pct(15) {
                        s.push(*r.pick(&['é', 'λ', 'Ж', '中']));
                    } else {
                        s.push(*r.pick(&['A', 'c', 'E', 'o', '0', '1', '9', '_', 'K', 'n', 'S']));
                    }
                }
            }
        }
        if valid_label(&s) && used.insert(upper(&s)) {
            return s;
        }
    }
}
/// Another letter-case spelling of a label.
pub fn respell(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| match (r.below(3), c) {
            (0, c) if c.is_ascii() => c.to_ascii_uppercase(),
            (1, c) if c.is_ascii() => c.to_ascii_lowercase(),
            (0, 'é') => 'É',
            (0, 'λ') => 'Λ',
            (0, 'Ж') => 'ж',
            (_, c) => c,
        })
        .collect()
}

#[derive(Clone)]
pub struct Opts {
    pub max_blocks: usize,
    pub max_stmts: usize,
    pub externals: bool,
    pub unicode: bool,
    /// Allowed address range of blocks.
    pub lo: u16,
    pub hi: u16,
    pub label_pct: u32,
    /// Large `.blkw` / `.stringz` allowed.
    pub big: bool,
    /// External labels used in PC-relative operands never occur; labels of other files to declare.
    pub foreign: Vec<String>,
    /// Names that must not be defined.
    pub avoid: BTreeSet<String>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_blocks: 4,
            max_stmts: 24,
            externals: true,
            unicode: true,
            lo: 0,
            hi: 0xFDFF,
            label_pct: 35,
            big: true,
            foreign: vec![],
            avoid: BTreeSet::new(),
        }
    }
}
pub fn imm(r: &mut Rng, n: u32) -> i32 {
    let (lo, hi) = (-(1i64 << (n - 1)), (1i64 << (n - 1)) - 1);
    match r.below(6) {
        0 => lo as i32,
        1 => hi as i32,
        2 => *r.pick(&[0, -1, 1]),
        _ => r.range(lo, hi) as i32,
    }
}
pub fn word(r: &mut Rng) -> u16 {
    match r.below(8) {
        0 => *r.pick(&[0u16, 1, 0x7FFF, 0x8000, 0xFFFF, 0x00FF, 0xFF00]),
        1 => r.below(64) as u16,
        _ => r.u16(),
    }
}
pub fn string(r: &mut Rng, unicode: bool, max: usize) -> String {
    let n = if r.pct(10) { 0 } else { r.below(max) };
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(14) {
            0 => *r.pick(&['\n', '\t', '\r', '\0', '"', '\\']),
            1 if unicode => *r.pick(&['é', 'λ', '中', '💥', '\u{7f}', '\u{85}', '“', '\u{301}']),
            2 => *r.pick(&[';', ':', ',', '.', '#', '\'', '-', '=', '>', '<', '{', '}', 'n', '0', 'x', 'u']),
            _ => (0x20 + r.below(0x5f) as u8) as char,
        };
        s.push(c);
    }
    s
}
fn tgt(r: &mut Rng, n: u32) -> Tgt {
    Tgt::Off(imm(r, n))
}
/// Any instruction, with numeric operands only.
pub fn any_ins(r: &mut Rng) -> Ins {
    let (a, b, c) = (r.reg(), r.reg(), r.reg());
    match r.below(26) {
        0 => Ins::Add(a, b, Src2::Reg(c)),
        1 => Ins::Add(a, b, Src2::Imm(imm(r, 5))),
        2 => Ins::And(a, b, Src2::Reg(c)),
        3 => Ins::And(a, b, Src2::Imm(imm(r, 5))),
        4 | 5 => Ins::Br(1 + r.below(7) as u8, tgt(r, 9)),
        6 => Ins::Jmp(a),
        7 => Ins::Jsr(tgt(r, 11)),
        8 => Ins::Jsrr(a),
        9 => Ins::Ld(a, tgt(r, 9)),
        10 => Ins::Ldi(a, tgt(r, 9)),
        11 => Ins::Ldr(a, b, imm(r, 6)),
        12 => Ins::Lea(a, tgt(r, 9)),
        13 => Ins::Not(a, b),
        14 => Ins::Ret,
        15 => Ins::Rti,
        16 => Ins::St(a, tgt(r, 9)),
        17 => Ins::Sti(a, tgt(r, 9)),
        18 => Ins::Str(a, b, imm(r, 6)),
        19 => Ins::Trap(r.below(256) as u16),
        20 => Ins::Nop(if r.pct(50) { Tgt::Off(0) } else { tgt(r, 9) }),
        21 => Ins::Lea(a, tgt(r, 9)),
        22 => Ins::Ld(a, tgt(r, 9)),
        _ => r.pick(&[Ins::Getc, Ins::Out, Ins::Putc, Ins::Puts, Ins::In, Ins::Putsp, Ins::Halt]).clone(),
    }
}
pub fn set_tgt(ins: &mut Ins, t: Tgt) {
    match ins {
        Ins::Br(_, x) | Ins::Nop(x) | Ins::Ld(_, x) | Ins::Ldi(_, x) | Ins::Lea(_, x) | Ins::St(_, x) | Ins::Sti(_, x) | Ins::Jsr(x) => *x = t,
        _ => {}
    }
}

/// A well-formed program.
pub fn program(r: &mut Rng, o: &Opts) -> Vec<St> {
    let mut used: BTreeSet<String> = o.avoid.clone();
    for f in &o.foreign {
        used.insert(upper(f));
    }
    let nb = match r.below(10) {
        0 if o.max_blocks > 1 => 0,
        _ => 1 + r.below(o.max_blocks),
    };
    // Statements of each block, without label operands.
    let mut blocks: Vec<Vec<St>> = vec![];
    let mut externals: Vec<String> = vec![];
    let ext_on = o.externals && r.pct(50);
    if ext_on {
        for _ in 0..r.below(4) {
            externals.push(label_name(r, &mut used, o.unicode));
        }
        for f in &o.foreign {
            if r.pct(70) {
                externals.push(f.clone());
            }
        }
    }
    let mut defined: Vec<String> = vec![];
    for _ in 0..nb {
        let n = match r.below(12) {
            0 => 0,
            1 => 1,
            _ => r.below(o.max_stmts) + 1,
        };
        let mut b = vec![];
        for _ in 0..n {
            let nuc = match r.below(100) {
                0..=64 => Nuc::I(any_ins(r)),
                65..=74 => Nuc::D(Dir::Fill(word(r))),
                75..=82 => Nuc::D(Dir::FillLab(String::new())),
                83..=90 => {
                    let k = match r.below(10) {
                        0 if o.big => *r.pick(&[200, 252, 253, 254, 255, 256, 257, 1020, 1021, 1022, 1023, 1024, 1025]),
                        _ => 1 + r.below(6) as u16,
                    };
                    Nuc::D(Dir::Blkw(k))
                }
                _ => Nuc::D(Dir::Stringz(string(r, o.unicode, 12))),
            };
            let mut s = St { labels: vec![], nuc };
            let most = if o.label_pct > 0 && r.pct(2) { 30 } else { 4 };
            while r.pct(if most > 4 { 85 } else { o.label_pct }) && s.labels.len() < most {
                let l = label_name(r, &mut used, o.unicode);
                s.labels.push(l.clone());
                defined.push(l);
                if r.pct(3) {
                    // the same label twice at the same address
                    let l2 = respell(r, s.labels.last().unwrap());
                    s.labels.push(l2);
                }
            }
            b.push(s);
        }
        let mut e = sd(Dir::End);
        if r.pct(8) {
            let l = label_name(r, &mut used, o.unicode);
            e.labels.push(l.clone());
            defined.push(l);
        }
        b.push(e);
        blocks.push(b);
    }
    // Addresses: order along memory, then gaps.
    let sizes: Vec<usize> = blocks.iter().map(|b| b.iter().map(St::size).sum()).collect();
    let mut order: Vec<usize> = (0..blocks.len()).collect();
    r.shuffle(&mut order);
    let total: usize = sizes.iter().sum();
    let room = (o.hi as usize + 1 - o.lo as usize).saturating_sub(total);
    let mut cuts: Vec<usize> = (0..order.len())
        .map(|_| match r.below(6) {
            0 => 0,
            1 => room,
            2 => 0x3000usize.saturating_sub(o.lo as usize).min(room),
            3 => (0x3000usize.saturating_sub(o.lo as usize) + r.below(600)).min(room),
            _ => r.below(room + 1),
        })
        .collect();
    cuts.sort();
    let mut start = vec![0usize; blocks.len()];
    let mut acc = o.lo as usize;
    for (j, &b) in order.iter().enumerate() {
        start[b] = acc + cuts[j];
        acc += sizes[b];
    }
    // Label addresses.
    let mut addr: Vec<(String, i64)> = vec![];
    for (bi, b) in blocks.iter().enumerate() {
        let mut a = start[bi] as i64;
        for s in b {
            for l in &s.labels {
                addr.push((l.clone(), a));
            }
            a += s.size() as i64;
        }
    }
    // Operands.
    for (bi, b) in blocks.iter_mut().enumerate() {
        let mut a = start[bi] as i64;
        for s in b {
            let size = s.size() as i64;
            match &mut s.nuc {
                Nuc::I(ins) => {
                    if let Some((_, n)) = ins.tgt() {
                        if r.pct(65) {
                            let (lo, hi) = (-(1i64 << (n - 1)), (1i64 << (n - 1)) - 1);
                            let mut c: Vec<&(String, i64)> =
                                addr.iter().filter(|(_, la)| (lo..=hi).contains(&(la - (a + 1)))).collect();
                            if !c.is_empty() {
                                if r.pct(30) {
                                    // the farthest one
                                    c.sort_by_key(|(_, la)| (la - a).abs());
                                    c.drain(..c.len() - 1);
                                }
                                let l = r.pick(&c).0.clone();
                                set_tgt(ins, Tgt::Lab(respell(r, &l)));
                            }
                        }
                    }
                }
                Nuc::D(Dir::FillLab(x)) => {
                    let n = addr.len() + externals.len() * 3;
                    if n == 0 {
                        s.nuc = Nuc::D(Dir::Fill(word(r)));
                    } else {
                        let k = r.below(n);
                        let l = if k < addr.len() { addr[k].0.clone() } else { externals[(k - addr.len()) % externals.len()].clone() };
                        *x = respell(r, &l);
                    }
                }
                _ => {}
            }
            a += size;
        }
    }
    // Flatten, insert `.external` anywhere.
    let mut out = vec![];
    for (bi, b) in blocks.into_iter().enumerate() {
        out.push(sd(Dir::Orig(start[bi] as u16)));
        out.extend(b);
    }
    for e in externals {
        let n = if r.pct(5) { 2 } else { 1 };
        for _ in 0..n {
            let p = match r.below(4) {
                0 => 0,
                1 => out.len(),
                _ => r.below(out.len() + 1),
            };
            let st = sd(Dir::External(respell(r, &e)));
            out.insert(p, st);
        }
    }
    out
}
