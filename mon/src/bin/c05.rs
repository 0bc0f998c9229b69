//! Numeric and register tokens against their written values.
use lc3_ensemble::parse::parse_ast;
use mon::model::*;
use mon::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Signed(u32),
    Unsigned(u32),
    NonZero,
    Either,
}
struct Field {
    pre: &'static str,
    kind: Kind,
    get: fn(&Nuc) -> Option<i64>,
}
fn off(t: &Tgt) -> Option<i64> {
    match t {
        Tgt::Off(v) => Some(*v as i64),
        _ => None,
    }
}
fn fields() -> Vec<Field> {
    fn im(n: &Nuc) -> Option<i64> {
        match n {
            Nuc::I(Ins::Add(1, 2, Src2::Imm(v)) | Ins::And(1, 2, Src2::Imm(v))) => Some(*v as i64),
            _ => None,
        }
    }
    fn o6(n: &Nuc) -> Option<i64> {
        match n {
            Nuc::I(Ins::Ldr(3, 4, v) | Ins::Str(3, 4, v)) => Some(*v as i64),
            _ => None,
        }
    }
    fn pc(n: &Nuc) -> Option<i64> {
        match n {
            Nuc::I(i) => i.tgt().and_then(|(t, _)| off(t)),
            _ => None,
        }
    }
    let f = |pre, kind, get| Field { pre, kind, get };
    use Kind::*;
    vec![
        f(".fill ", Either, |n| match n {
            Nuc::D(Dir::Fill(v)) => Some(*v as i64),
            _ => None,
        }),
        f(".orig ", Unsigned(16), |n| match n {
            Nuc::D(Dir::Orig(v)) => Some(*v as i64),
            _ => None,
        }),
        f(".blkw ", NonZero, |n| match n {
            Nuc::D(Dir::Blkw(v)) => Some(*v as i64),
            _ => None,
        }),
        f("TRAP ", Unsigned(8), |n| match n {
            Nuc::I(Ins::Trap(v)) => Some(*v as i64),
            _ => None,
        }),
        f("ADD R1, R2, ", Signed(5), im),
        f("AND R1, R2, ", Signed(5), im),
        f("LDR R3, R4, ", Signed(6), o6),
        f("STR R3, R4, ", Signed(6), o6),
        f("JSR ", Signed(11), pc),
        f("BR ", Signed(9), pc),
        f("BRnz ", Signed(9), pc),
        f("LD R0, ", Signed(9), pc),
        f("LDI R0, ", Signed(9), pc),
        f("LEA R0, ", Signed(9), pc),
        f("ST R0, ", Signed(9), pc),
        f("STI R0, ", Signed(9), pc),
        f("NOP ", Signed(9), pc),
    ]
}
/// `v`: written value; `neg`: signed form.
fn expect(kind: Kind, v: i64, neg: bool) -> Option<i64> {
    let lexes = if neg { (-32768..=32767).contains(&v) } else { (0..=65535).contains(&v) };
    if !lexes {
        return None;
    }
    match kind {
        Kind::Either => Some(v & 0xFFFF),
        Kind::NonZero => (1..=65535).contains(&v).then_some(v),
        Kind::Unsigned(n) => (0..(1i64 << n)).contains(&v).then_some(v),
        Kind::Signed(n) => (-(1i64 << (n - 1))..(1i64 << (n - 1))).contains(&v).then_some(v),
    }
}
fn try_one(l: &mut Local, f: &Field, lit: &str, v: i64, neg: bool, r: &mut Rng) {
    let want = expect(f.kind, v, neg);
    let tail = match r.below(8) {
        0 => ";c",
        1 => " ; c",
        2 => "\n",
        3 => "\r\n",
        4 => "\nHALT",
        _ => "",
    };
    let text = format!("{}{lit}{tail}", f.pre);
    l.eval();
    l.distinct_str(&text);
    match guard(|| parse_ast(&text)) {
        Err(e) => l.violation(format!("parser panicked at {}", e.loc), text),
        Ok(Ok(a)) => {
            let got = (!a.is_empty()).then(|| (f.get)(&from_crate(&a[0]).nuc)).flatten();
            if want.is_none() {
                l.violation(format!("a value that does not fit is accepted by {}", f.pre.trim()), format!("{text:?}: parsed {got:?}"));
            } else if got != want {
                l.violation(format!("a literal denotes another value in {}", f.pre.trim()), format!("{text:?}: got {got:?}, expected {want:?}"));
            }
            l.count("accepted", 1);
        }
        Ok(Err(e)) => {
            if want.is_some() {
                l.violation(format!("a value that fits is rejected by {}", f.pre.trim()), format!("{text:?}: {e:?}"));
            }
            l.count("rejected", 1);
        }
    }
}
fn literals(v: i64, r: &mut Rng) -> Vec<(String, bool)> {
    let a = v.unsigned_abs();
    let z = "0".repeat(r.below(8));
    let mut o = vec![];
    if v >= 0 {
        o.push((format!("{a}"), false));
        o.push((format!("#{z}{a}"), false));
        o.push((format!("x{a:X}"), false));
        o.push((format!("X{z}{a:x}"), false));
        o.push((format!("x{a:04X}"), false));
        o.push((format!("{z}{a}"), false));
    }
    if v <= 0 {
        o.push((format!("-{a}"), true));
        o.push((format!("#-{z}{a}"), true));
        o.push((format!("x-{a:X}"), true));
        o.push((format!("X-{z}{a:x}"), true));
        o.push((format!("-{z}{a}"), true));
    }
    o
}
/// Register operands: text with `@` for the register, and where it ends up.
type RegGet = fn(&Nuc) -> Option<u8>;
fn reg_sites() -> Vec<(&'static str, RegGet)> {
    vec![
        ("ADD @, R1, R2", |n| match n { Nuc::I(Ins::Add(a, 1, Src2::Reg(2))) => Some(*a), _ => None }),
        ("ADD R1, @, R2", |n| match n { Nuc::I(Ins::Add(1, a, Src2::Reg(2))) => Some(*a), _ => None }),
        ("ADD R1, R2, @", |n| match n { Nuc::I(Ins::Add(1, 2, Src2::Reg(a))) => Some(*a), _ => None }),
        ("AND @, R1, #3", |n| match n { Nuc::I(Ins::And(a, 1, Src2::Imm(3))) => Some(*a), _ => None }),
        ("AND R1,@,R2", |n| match n { Nuc::I(Ins::And(1, a, Src2::Reg(2))) => Some(*a), _ => None }),
        ("AND R1,R2,@", |n| match n { Nuc::I(Ins::And(1, 2, Src2::Reg(a))) => Some(*a), _ => None }),
        ("NOT @, R3", |n| match n { Nuc::I(Ins::Not(a, 3)) => Some(*a), _ => None }),
        ("NOT R3, @", |n| match n { Nuc::I(Ins::Not(3, a)) => Some(*a), _ => None }),
        ("LD @, #1", |n| match n { Nuc::I(Ins::Ld(a, Tgt::Off(1))) => Some(*a), _ => None }),
        ("LDI @, #1", |n| match n { Nuc::I(Ins::Ldi(a, Tgt::Off(1))) => Some(*a), _ => None }),
        ("LEA @, #1", |n| match n { Nuc::I(Ins::Lea(a, Tgt::Off(1))) => Some(*a), _ => None }),
        ("ST @, #1", |n| match n { Nuc::I(Ins::St(a, Tgt::Off(1))) => Some(*a), _ => None }),
        ("STI @, #1", |n| match n { Nuc::I(Ins::Sti(a, Tgt::Off(1))) => Some(*a), _ => None }),
        ("LDR @, R5, #1", |n| match n { Nuc::I(Ins::Ldr(a, 5, 1)) => Some(*a), _ => None }),
        ("LDR R5, @, #1", |n| match n { Nuc::I(Ins::Ldr(5, a, 1)) => Some(*a), _ => None }),
        ("STR @, R5, #1", |n| match n { Nuc::I(Ins::Str(a, 5, 1)) => Some(*a), _ => None }),
        ("STR R5, @, #1", |n| match n { Nuc::I(Ins::Str(5, a, 1)) => Some(*a), _ => None }),
        ("JMP @", |n| match n { Nuc::I(Ins::Jmp(a)) => Some(*a), _ => None }),
        ("JSRR @", |n| match n { Nuc::I(Ins::Jsrr(a)) => Some(*a), _ => None }),
        // not places for a register, or for anything that starts like one
        ("LEA R0, @", |_| None),
        (".fill @", |_| None),
        ("@ HALT", |_| None),
        (".external @", |_| None),
    ]
}
fn reg_one(l: &mut Local, t: &str, get: RegGet, digits: &str, r: &mut Rng) {
    let v: Option<u8> = digits.trim_start_matches('0').parse::<u8>().ok().or_else(|| digits.bytes().all(|c| c == b'0').then_some(0));
    let v = v.filter(|x| *x < 8);
    let none = matches!(t, "LEA R0, @" | ".fill @" | "@ HALT" | ".external @");
    let reg = format!("{}{digits}", if r.pct(50) { 'R' } else { 'r' });
    let text = t.replace('@', &reg);
    l.eval();
    l.distinct_str(&text);
    let want = if none { None } else { v };
    match guard(|| parse_ast(&text)) {
        Err(e) => l.violation(format!("parser panicked at {}", e.loc), text),
        Ok(Ok(a)) => {
            let got = (!a.is_empty()).then(|| get(&from_crate(&a[0]).nuc)).flatten();
            match want {
                None => l.violation("a register that does not exist (or does not belong there) is accepted", format!("{text:?}: {a:?}")),
                Some(w) => {
                    if got != Some(w) {
                        l.violation("a register token names another register", format!("{text:?}: got {got:?}, expected R{w}"));
                    }
                }
            }
            l.count("registers accepted", 1);
        }
        Ok(Err(e)) => {
            if let Some(w) = want {
                l.violation("a register is rejected", format!("{text:?}, expected R{w}: {e:?}"));
            }
            l.count("registers rejected", 1);
        }
    }
}
fn main() {
    let mut c = Check::new("C05");
    let fs = fields();
    let deep = !c.quick();
    c.exhaustive("values", 210_001, |i, r, l| {
        let v = i as i64 - 70_000;
        // all fields near their limits and near the 16-bit limits, .fill and some others elsewhere
        let near = v.abs() < 3000 || [32768i64, 65536, 131072].iter().any(|e| (v.abs() - e).abs() < 300);
        for (k, f) in fs.iter().enumerate() {
            let lits = literals(v, r);
            if near || k == 0 || deep {
                for (s, neg) in lits {
                    try_one(l, f, &s, v, neg, r);
                }
            } else {
                let (s, neg) = r.pick(&lits).clone();
                try_one(l, f, &s, v, neg, r);
            }
        }
        if i % 50_000 == 3 {
            l.sample(|| format!("{v} in all fields"));
        }
    });
    c.random("huge values", 20_000, |r, l| {
        // values around powers of two (truncation), and long digit strings
        let f = r.pick(&fs);
        let sh = 16 + r.below(48) as u32;
        let low = match r.below(3) {
            0 => r.below(40) as i128,
            1 => r.u16() as i128,
            _ => -(r.below(40) as i128),
        };
        let mut v: i128 = (1i128 << sh) + low;
        if r.pct(30) {
            v *= 1i128 << (16 + r.below(20));
        }
        let hex = r.pct(50);
        let neg = r.pct(40);
        let z = "0".repeat(r.below(6));
        let s = match (hex, neg) {
            (true, false) => format!("x{z}{v:X}"),
            (true, true) => format!("x-{z}{v:X}"),
            (false, false) => format!("#{z}{v}"),
            (false, true) => format!("#-{z}{v}"),
        };
        let w = v.clamp(-(1 << 40), 1 << 40) as i64;
        try_one(l, f, &s, if neg { -w } else { w }, neg, r);
    });
    c.random("long digit strings", 40_000, |r, l| {
        // up to 300 digits: zeros before a value, or leading digits that a fixed window would miss
        let f = r.pick(&fs);
        let hex = r.pct(50);
        let neg = r.pct(40);
        let most = if r.pct(50) { 40 } else { 300 };
        let n = 1 + r.below(most);
        let low = match r.below(3) {
            0 => r.below(40) as u64,
            1 => r.u16() as u64,
            _ => r.below(0x200) as u64,
        };
        let digits = if hex { format!("{low:0n$X}") } else { format!("{low:0n$}") };
        let (s, w) = if r.pct(50) {
            (digits, low as i64)
        } else {
            let mut d: Vec<u8> = digits.into_bytes();
            let room = d.len().saturating_sub(5);
            if room == 0 {
                (String::from_utf8(d).unwrap(), low as i64)
            } else {
                // nonzero digit beyond every 16-bit number
                for _ in 0..1 + r.below(3) {
                    let k = r.below(room);
                    d[k] = *r.pick(if hex { &b"123456789ABCDEFabcdef"[..] } else { &b"123456789"[..] });
                }
                (String::from_utf8(d).unwrap(), 1 << 40)
            }
        };
        let pre = if hex { *r.pick(&["x", "X"]) } else { *r.pick(&["", "#"]) };
        let t = format!("{pre}{}{s}", if neg { "-" } else { "" });
        l.count("long digit strings", 1);
        try_one(l, f, &t, if neg { -w } else { w }, neg, r);
    });
    let rs = reg_sites();
    c.exhaustive("registers", 1200, |i, r, l| {
        for (t, g) in &rs {
            reg_one(l, t, *g, &i.to_string(), r);
            if i < 300 {
                let zeros = 1 + if r.pct(80) { r.below(5) } else { r.below(300) };
                reg_one(l, t, *g, &format!("{}{i}", "0".repeat(zeros)), r);
            }
            // values that truncate to a valid number
            for sh in [8, 16, 32, 64] {
                let v = (1u128 << sh) + (i % 8) as u128;
                reg_one(l, t, *g, &v.to_string(), r);
            }
        }
    });
    c.finish(
        "every value -70000..=140000 in decimal, # and x notations (signed and unsigned forms, leading zeros) in every numeric field; wider values; digit strings of up to 300 digits; registers 0..1200 in every register position; acceptance and value compared with integer arithmetic; distinct by source text",
        &["-0 denotes 0, in unsigned fields too", "a register number may be written with leading zeros"],
        &[("accepted", 100_000), ("rejected", 100_000), ("long digit strings", 10_000), ("registers accepted", 150), ("registers rejected", 1_000)],
    )
}
