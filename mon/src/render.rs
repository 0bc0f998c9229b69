//! Renders a program model as source text in a random surface style, recording where things are.
use crate::model::*;
use crate::rng::Rng;
use std::ops::Range;

#[derive(Clone, Debug)]
pub struct StInfo {
    /// Instruction or directive text.
    pub span: Range<usize>,
    /// Line (0-based) of the instruction or directive text.
    pub line: usize,
    pub label_spans: Vec<Range<usize>>,
    /// Span of the label operand (or of the label of `.external`).
    pub operand_span: Option<Range<usize>>,
}
pub struct Rendered {
    pub text: String,
    pub stmts: Vec<StInfo>,
}

/// Probabilities (percent) of the surface features.
#[derive(Clone, Debug)]
pub struct Style {
    pub crlf: u32,
    pub comments: u32,
    pub blanks: u32,
    pub tabs: u32,
    pub colon: u32,
    pub own_line: u32,
    pub rand_case: u32,
    pub indent: u32,
    /// Notation: 0 = canonical, else percent of odd numeric notations.
    pub notation: u32,
    pub tight: u32,
    pub unicode: u32,
    pub final_newline: u32,
    /// Arbitrary characters in comments.
    pub hostile: u32,
    /// Percent of texts with a gap of tens of thousands of characters or lines in front of a statement.
    pub huge: u32,
}
impl Style {
    pub fn plain() -> Self {
        Style { crlf: 0, comments: 0, blanks: 0, tabs: 0, colon: 0, own_line: 0, rand_case: 0, indent: 0, notation: 0, tight: 0, unicode: 0, final_newline: 100, hostile: 0, huge: 0 }
    }
    pub fn random(r: &mut Rng) -> Self {
        let p = |r: &mut Rng| *r.pick(&[0u32, 10, 30, 60, 100]);
        Style {
            crlf: *r.pick(&[0, 0, 50, 100]),
            comments: p(r),
            blanks: *r.pick(&[0, 10, 30, 50]),
            tabs: p(r),
            colon: p(r),
            own_line: *r.pick(&[0, 10, 40, 80]),
            rand_case: p(r),
            indent: p(r),
            notation: *r.pick(&[0, 50, 100]),
            tight: *r.pick(&[0, 20, 60]),
            unicode: *r.pick(&[0, 0, 20, 60]),
            final_newline: *r.pick(&[0, 100]),
            hostile: 0,
            huge: 0,
        }
    }
}

/// Any character but a newline.
pub fn hostile_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(8) {
            0 => Some((r.below(0x20) as u8) as char),
            1 => Some((0x7f + r.below(0x40) as u8) as char),
            2 => Some(*r.pick(&['\r', '\t', '\\', '"', '\'', '|', '=', '#', '.', ' ', '{', '}', 'u', 'n', 'x', '?'])),
            3 => Some(*r.pick(&['\u{2028}', '\u{2029}', '\u{85}', '\u{a0}', '\u{feff}', '\u{200b}', '\u{fffd}', '\u{10ffff}', '\u{b}', '\u{c}', '\u{1b}'])),
            4 => char::from_u32(r.below(0x11_0000) as u32),
            5 => char::from_u32(r.below(0x3000) as u32),
            _ => Some((0x20 + r.below(0x5f) as u8) as char),
        };
        if let Some(c) = c {
            if c != '\n' {
                return c;
            }
        }
    }
}
pub fn rand_case(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| {
            if c.is_ascii() && r.pct(50) {
                if r.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
            } else {
                c
            }
        })
        .collect()
}

struct W<'a> {
    o: String,
    r: &'a mut Rng,
    st: &'a Style,
    line: usize,
}
impl W<'_> {
    fn nl(&mut self) {
        if self.r.pct(self.st.crlf) {
            self.o.push('\r');
        }
        self.o.push('\n');
        self.line += 1;
    }
    fn blank_char(&mut self) -> char {
        if self.r.pct(self.st.tabs) { '\t' } else { ' ' }
    }
    /// Mandatory whitespace.
    fn ws(&mut self) {
        let n = if self.r.pct(self.st.indent) { 1 + self.r.below(4) } else { 1 };
        for _ in 0..n {
            let c = self.blank_char();
            self.o.push(c);
        }
    }
    /// Optional whitespace.
    fn ows(&mut self) {
        if self.r.pct(self.st.indent) {
            for _ in 0..self.r.below(4) {
                let c = self.blank_char();
                self.o.push(c);
            }
        }
    }
    fn comment(&mut self) {
        if self.r.pct(self.st.comments) {
            self.ows();
            self.o.push(';');
            let n = if self.r.pct(1) { self.r.below(600) } else { self.r.below(12) };
            for _ in 0..n {
                let c = if self.st.hostile > 0 && self.r.pct(self.st.hostile) {
                    hostile_char(self.r)
                } else if self.r.pct(self.st.unicode) {
                    *self.r.pick(&['é', 'λ', '💥', '中', '\u{0}', '\u{7f}', '“'])
                } else {
                    *self.r.pick(&[' ', 'a', 'Z', '.', 'x', '3', '"', '\\', ';', '\t', ':', ',', '-', '#', '\'', '%', '@', '='])
                };
                self.o.push(c);
            }
        }
    }
    /// A gap that no 15- or 16-bit position reaches across.
    fn gap(&mut self) {
        let n = *self.r.pick(&[32_760, 65_530, 65_530, 70_000]) + self.r.below(12);
        match self.r.below(6) {
            0..=2 => {
                self.o.push(';');
                (0..n).for_each(|_| self.o.push('-'));
                self.nl();
            }
            3 | 4 => (0..n).for_each(|_| self.o.push(' ')),
            // (parsing takes the square of the number of lines)
            _ => (0..n).for_each(|_| self.nl()),
        }
    }
    /// Blank or comment-only lines.
    fn filler(&mut self) {
        while self.r.pct(self.st.blanks) {
            self.ows();
            self.comment();
            self.nl();
        }
    }
    fn kw(&mut self, s: &str) {
        let t = if self.r.pct(self.st.rand_case) { rand_case(self.r, s) } else { s.to_string() };
        self.o.push_str(&t);
    }
    fn reg(&mut self, n: u8) {
        let c = if self.r.pct(self.st.rand_case / 2) { 'r' } else { 'R' };
        self.o.push(c);
        if self.r.pct(self.st.notation / 10) {
            let z = 1 + self.r.below(3);
            for _ in 0..z {
                self.o.push('0');
            }
        }
        self.o.push((b'0' + n) as char);
    }
    fn comma(&mut self) {
        if self.r.pct(self.st.tight / 2) {
            self.ws();
        }
        self.o.push(',');
        if !self.r.pct(self.st.tight) {
            self.ws();
        }
    }
    /// A literal denoting `v` (0..=65535, or negative >= -32768).
    fn num(&mut self, v: i32) {
        let n = num_text(self.r, v, self.st.notation, self.st.rand_case);
        self.o.push_str(&n);
    }
}

/// A literal denoting `v`; `odd` is the percentage of unusual notations.
pub fn num_text(r: &mut Rng, v: i32, odd: u32, case: u32) -> String {
    let form = if r.pct(odd) { r.below(3) } else { 0 };
    let zeros = if r.pct(odd / 4) { "0".repeat(1 + r.below(6)) } else { String::new() };
    let neg = if v < 0 || (v == 0 && r.pct(odd / 10)) { "-" } else { "" };
    let a = v.unsigned_abs();
    match form {
        0 => format!("#{neg}{zeros}{a}"),
        1 => format!("{neg}{zeros}{a}"),
        _ => {
            let h = if r.pct(50) { format!("{a:X}") } else { format!("{a:x}") };
            let h = if r.pct(case) { rand_case(r, &h) } else { h };
            let x = if r.pct(case) { 'X' } else { 'x' };
            format!("{x}{neg}{zeros}{h}")
        }
    }
}

/// Surface form of a string literal.
pub fn str_text(r: &mut Rng, s: &str, escapes: u32) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\0' => o.push_str("\\0"),
            '\t' if r.pct(50) || escapes == 0 => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Renders `prog`.
pub fn render(prog: &[St], r: &mut Rng, st: &Style) -> Rendered {
    let mut w = W { o: String::new(), r, st, line: 0 };
    let mut infos = vec![];
    let n = prog.len();
    let gap = if st.huge > 0 && n > 0 && w.r.pct(st.huge) { w.r.below(n + 1) } else { n + 1 };
    for (k, s) in prog.iter().enumerate() {
        w.filler();
        if k == gap {
            w.gap();
        }
        w.ows();
        let mut label_spans = vec![];
        for l in &s.labels {
            let a = w.o.len();
            w.o.push_str(l);
            label_spans.push(a..w.o.len());
            let colon = w.r.pct(w.st.colon);
            if colon {
                w.ows();
                w.o.push(':');
            }
            if w.r.pct(w.st.own_line) {
                w.comment();
                w.nl();
                w.filler();
                w.ows();
            } else if colon && w.r.pct(w.st.tight) {
            } else {
                w.ws();
            }
        }
        let start = w.o.len();
        let line = w.line;
        let mut operand_span = None;
        let lab = |w: &mut W, l: &str| {
            let a = w.o.len();
            w.o.push_str(l);
            Some(a..w.o.len())
        };
        match &s.nuc {
            Nuc::I(ins) => {
                let mut m = ins.mnemonic();
                if let Ins::Br(7, _) = ins {
                    if w.r.pct(w.st.rand_case) {
                        m = "BR".into();
                    }
                }
                w.kw(&m);
                let mut tgt = |w: &mut W, t: &Tgt| match t {
                    Tgt::Off(o) => w.num(*o),
                    Tgt::Lab(l) => operand_span = lab(w, l),
                };
                match ins {
                    Ins::Add(a, b, c) | Ins::And(a, b, c) => {
                        w.ws();
                        w.reg(*a);
                        w.comma();
                        w.reg(*b);
                        w.comma();
                        match c {
                            Src2::Reg(q) => w.reg(*q),
                            Src2::Imm(v) => w.num(*v),
                        }
                    }
                    Ins::Br(_, t) | Ins::Jsr(t) => {
                        w.ws();
                        tgt(&mut w, t);
                    }
                    Ins::Nop(t) => {
                        if *t != Tgt::Off(0) || w.r.pct(w.st.notation) {
                            w.ws();
                            tgt(&mut w, t);
                        }
                    }
                    Ins::Jmp(a) | Ins::Jsrr(a) => {
                        w.ws();
                        w.reg(*a);
                    }
                    Ins::Ld(a, t) | Ins::Ldi(a, t) | Ins::Lea(a, t) | Ins::St(a, t) | Ins::Sti(a, t) => {
                        w.ws();
                        w.reg(*a);
                        w.comma();
                        tgt(&mut w, t);
                    }
                    Ins::Ldr(a, b, o) | Ins::Str(a, b, o) => {
                        w.ws();
                        w.reg(*a);
                        w.comma();
                        w.reg(*b);
                        w.comma();
                        w.num(*o);
                    }
                    Ins::Not(a, b) => {
                        w.ws();
                        w.reg(*a);
                        w.comma();
                        w.reg(*b);
                    }
                    Ins::Trap(v) => {
                        w.ws();
                        w.num(*v as i32);
                    }
                    Ins::Ret | Ins::Rti | Ins::Getc | Ins::Out | Ins::Putc | Ins::Puts | Ins::In | Ins::Putsp | Ins::Halt => {}
                }
            }
            Nuc::D(dir) => match dir {
                Dir::Orig(a) => {
                    w.kw(".orig");
                    w.ws();
                    if w.st.notation == 0 {
                        w.o.push_str(&format!("x{a:04X}"));
                    } else {
                        w.num(*a as i32);
                    }
                }
                Dir::Fill(v) => {
                    w.kw(".fill");
                    w.ws();
                    // a negative notation denotes the same word
                    if *v >= 0x8000 && w.r.pct(w.st.notation) {
                        w.num(*v as i16 as i32);
                    } else {
                        w.num(*v as i32);
                    }
                }
                Dir::FillLab(l) => {
                    w.kw(".fill");
                    w.ws();
                    operand_span = lab(&mut w, l);
                }
                Dir::Blkw(v) => {
                    w.kw(".blkw");
                    w.ws();
                    w.num(*v as i32);
                }
                Dir::Stringz(t) => {
                    w.kw(".stringz");
                    w.ws();
                    let lit = str_text(w.r, t, w.st.notation);
                    w.o.push_str(&lit);
                }
                Dir::End => w.kw(".end"),
                Dir::External(l) => {
                    w.kw(".external");
                    w.ws();
                    operand_span = lab(&mut w, l);
                }
            },
        }
        infos.push(StInfo { span: start..w.o.len(), line, label_spans, operand_span });
        w.ows();
        w.comment();
        if k + 1 < n || w.r.pct(w.st.final_newline) {
            w.nl();
            if k + 1 == n {
                w.filler();
            }
        }
    }
    if gap == n {
        let k = 65_530 + w.r.below(12);
        (0..k).for_each(|_| w.nl());
    }
    Rendered { text: w.o, stmts: infos }
}
pub fn plain(prog: &[St]) -> Rendered {
    render(prog, &mut Rng::new(0), &Style::plain())
}
