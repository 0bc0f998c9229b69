//! Random terminating user programs, at word level.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum End {
    Halt,
    /// Access violation by a load, a store or a fetch.
    Acv,
    Priv,
    IllOp,
    InvFmt,
    /// A trap without routine.
    BadTrap,
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub org: u16,
    pub words: Vec<u16>,
    /// Other initialized words.
    pub far: Vec<(u16, u16)>,
    pub input: Vec<u8>,
    pub end: End,
    /// Addresses of the main code and of the subroutines.
    pub code: (u16, u16),
    pub subs: Vec<u16>,
    /// Addresses the program writes to (apart from its stack).
    pub data: (u16, u16),
}
#[derive(Clone, Copy)]
pub struct ProgOpts {
    pub size: usize,
    pub output: bool,
    pub input: bool,
    pub ends: &'static [End],
    pub subs: usize,
}
impl Default for ProgOpts {
    fn default() -> Self {
        ProgOpts { size: 24, output: true, input: true, ends: &[End::Halt], subs: 3 }
    }
}
impl Prog {
    pub fn patches(&self) -> Vec<(u16, u16)> {
        let mut v: Vec<(u16, u16)> = self.words.iter().enumerate().map(|(i, w)| (self.org.wrapping_add(i as u16), *w)).collect();
        v.extend(&self.far);
        v
    }
    pub fn load(&self, sim: &mut lc3_ensemble::sim::Simulator) {
        for (a, w) in self.patches() {
            sim.mem[a] = lc3_ensemble::sim::mem::Word::new_init(w);
        }
        sim.pc = self.org;
    }
    pub fn show(&self) -> String {
        let mut s = format!("end {:?}, input {:02X?}\n", self.end, &self.input[..self.input.len().min(24)]);
        for (a, w) in self.patches() {
            s.push_str(&format!("x{a:04X}: x{w:04X}\n"));
        }
        s
    }
}

#[derive(Clone, Copy)]
enum Fix {
    /// PC-relative field of this many bits.
    Rel(u32),
    /// The whole word is the address.
    Abs,
}
struct B<'a> {
    r: &'a mut Rng,
    w: Vec<u16>,
    fix: Vec<(usize, usize, Fix)>,
    labels: Vec<Option<usize>>,
    /// Literal pool: (label, word or label).
    pool: Vec<(usize, Result<u16, usize>)>,
    slots: Vec<usize>,
    ptrs: Vec<usize>,
    subs: Vec<usize>,
    strs: Vec<u16>,
    pstrs: Vec<u16>,
    o: ProgOpts,
    inputs: usize,
}
impl B<'_> {
    fn e(&mut self, w: u16) {
        self.w.push(w);
    }
    fn label(&mut self) -> usize {
        self.labels.push(None);
        self.labels.len() - 1
    }
    fn here(&mut self, l: usize) {
        self.labels[l] = Some(self.w.len());
    }
    fn rel(&mut self, w: u16, l: usize, bits: u32) {
        self.fix.push((self.w.len(), l, Fix::Rel(bits)));
        self.w.push(w);
    }
    fn lit(&mut self, v: u16) -> usize {
        if let Some((l, _)) = self.pool.iter().find(|(_, x)| *x == Ok(v)) {
            return *l;
        }
        let l = self.label();
        self.pool.push((l, Ok(v)));
        l
    }
    fn lit_addr(&mut self, t: usize) -> usize {
        let l = self.label();
        self.pool.push((l, Err(t)));
        l
    }
    fn g(&mut self) -> u16 {
        self.r.below(5) as u16
    }
    fn imm5(&mut self) -> u16 {
        self.r.u16() & 31
    }
    fn push(&mut self, r: u16) {
        self.e(0x1DBF); // ADD R6, R6, #-1
        self.e(0x7000 | r << 9 | 6 << 6);
    }
    fn pop(&mut self, r: u16) {
        self.e(0x6000 | r << 9 | 6 << 6);
        self.e(0x1DA1); // ADD R6, R6, #1
    }
    fn simple(&mut self) {
        let (a, b, c) = (self.g(), self.g(), self.g());
        let i = self.imm5();
        match self.r.below(16) {
            0 => self.e(0x1000 | a << 9 | b << 6 | c),
            1 | 2 => self.e(0x1020 | a << 9 | b << 6 | i),
            3 => self.e(0x5000 | a << 9 | b << 6 | c),
            4 => self.e(0x5020 | a << 9 | b << 6 | i),
            5 => self.e(0x903F | a << 9 | b << 6),
            6 => {
                let l = *self.r.pick(&self.slots);
                self.rel(0x2000 | a << 9, l, 9);
            }
            7 => {
                let l = *self.r.pick(&self.slots);
                self.rel(0x3000 | a << 9, l, 9);
            }
            8 => {
                let l = *self.r.pick(&self.ptrs);
                self.rel(0xA000 | a << 9, l, 9);
            }
            9 => {
                let l = *self.r.pick(&self.ptrs);
                self.rel(0xB000 | a << 9, l, 9);
            }
            10 | 11 => {
                // base register at a slot; the slots are consecutive
                let k = self.r.below(self.slots.len());
                let l = self.slots[k];
                let j = self.r.below(self.slots.len()) as i64 - k as i64;
                let s = if a == b { (b + 1) % 5 } else { a };
                self.rel(0xE000 | b << 9, l, 9);
                let op = if self.r.pct(50) { 0x6000 } else { 0x7000 };
                self.e(op | s << 9 | b << 6 | (j as u16 & 63));
            }
            12 => {
                let v = self.r.u16();
                let l = self.lit(v);
                self.rel(0x2000 | a << 9, l, 9);
            }
            13 => {
                let l = *self.r.pick(&self.slots);
                self.rel(0xE000 | a << 9, l, 9);
                // do not keep addresses: they are fine, programs are position dependent anyway
            }
            14 => {
                self.push(a);
                if self.r.pct(60) {
                    self.e(0x1020 | b << 9 | b << 6 | i);
                }
                self.pop(c);
            }
            _ => {
                // store to the stack frame below
                self.e(0x1DBE); // ADD R6, R6, #-2
                self.e(0x7000 | a << 9 | 6 << 6 | 1);
                self.e(0x6000 | b << 9 | 6 << 6 | 1);
                self.e(0x1DA2); // ADD R6, R6, #2
            }
        }
    }
    fn io(&mut self) {
        let k = self.r.below(8);
        match k {
            0 | 1 if self.o.output => self.e(0xF021),
            2 if self.o.output => {
                let s = *self.r.pick(&self.strs);
                let l = self.lit(s);
                self.rel(0x2000, l, 9);
                self.e(0xF022);
            }
            3 if self.o.output => {
                let s = *self.r.pick(&self.pstrs);
                let l = self.lit(s);
                self.rel(0x2000, l, 9);
                self.e(0xF024);
            }
            4 | 5 if self.o.input && self.inputs > 0 => {
                self.inputs -= 1;
                self.e(0xF020);
                if self.o.output && self.r.pct(50) {
                    self.e(0xF021);
                }
            }
            6 if self.o.input && self.o.output && self.inputs > 0 => {
                self.inputs -= 1;
                self.e(0xF023);
            }
            _ => self.simple(),
        }
    }
    /// Runs of statements. Loops use R5, which nested code saves.
    fn body(&mut self, budget: usize, depth: usize, in_sub: bool) {
        let end = self.w.len() + budget;
        while self.w.len() < end {
            match self.r.below(20) {
                0..=10 => self.simple(),
                11..=13 => self.io(),
                14 | 15 => {
                    // skip on a condition
                    let l = self.label();
                    let a = self.g();
                    if self.r.pct(60) {
                        self.e(0x1020 | a << 9 | a << 6);
                    }
                    let cc = 1 + self.r.below(7) as u16;
                    self.rel(cc << 9, l, 9);
                    for _ in 0..1 + self.r.below(3) {
                        self.simple();
                    }
                    self.here(l);
                }
                16 | 17 if depth < 2 => {
                    let l = self.label();
                    let n = 1 + self.r.below(3) as u16;
                    let save = depth > 0 || in_sub;
                    if save {
                        self.push(5);
                    }
                    self.e(0x5B60); // AND R5, R5, #0
                    self.e(0x1B60 | n);
                    self.here(l);
                    let b = 2 + self.r.below(6);
                    self.body(b, depth + 1, in_sub);
                    self.e(0x1B7F); // ADD R5, R5, #-1
                    self.rel(0x0200, l, 9); // BRp
                    if save {
                        self.pop(5);
                    }
                }
                18 | 19 if !self.subs.is_empty() && !in_sub => {
                    let t = *self.r.pick(&self.subs);
                    if self.r.pct(30) {
                        let a = self.g();
                        let l = self.lit_addr(t);
                        self.rel(0x2000 | a << 9, l, 9);
                        self.e(0x4000 | a << 6);
                    } else {
                        self.rel(0x4800, t, 11);
                    }
                }
                _ => self.simple(),
            }
        }
    }
}

pub fn prog(r: &mut Rng, o: &ProgOpts) -> Prog {
    let org = match r.below(6) {
        0 => 0x3000,
        1 => 0xF000 - (r.below(0x100) as u16),
        _ => 0x3000 + r.below(0xB000) as u16,
    };
    let end = *r.pick(o.ends);
    let mut far = vec![];
    // strings live away from the code
    let sbase = if org < 0x9000 { 0xC800 } else { 0x4000 } + r.below(0x300) as u16;
    let mut at = sbase;
    let (mut strs, mut pstrs) = (vec![], vec![]);
    for k in 0..6 {
        let n = r.below(5);
        if k < 3 {
            strs.push(at);
            for _ in 0..n {
                far.push((at, 1 + r.below(255) as u16));
                at += 1;
            }
        } else {
            pstrs.push(at);
            let n = r.below(6);
            let b: Vec<u8> = (0..n).map(|_| 1 + r.below(255) as u8).collect();
            for c in b.chunks(2) {
                far.push((at, c[0] as u16 | (*c.get(1).unwrap_or(&0) as u16) << 8));
                at += 1;
            }
        }
        far.push((at, 0));
        at += 1;
    }
    let stack = match r.below(3) {
        0 => 0xFE00,
        1 => 0xF800 + r.below(0x500) as u16,
        _ => sbase.wrapping_sub(8),
    };
    let mut b = B { r, w: vec![], fix: vec![], labels: vec![], pool: vec![], slots: vec![], ptrs: vec![], subs: vec![], strs, pstrs, o: *o, inputs: 12 };
    for _ in 0..8 {
        let l = b.label();
        b.slots.push(l);
    }
    for _ in 0..3 {
        let l = b.label();
        b.ptrs.push(l);
    }
    for _ in 0..b.o.subs {
        let l = b.label();
        b.subs.push(l);
    }
    let sl = b.lit(stack);
    b.rel(0x2C00, sl, 9); // LD R6
    let size = b.o.size;
    b.body(size, 0, false);
    // the end
    let g = b.g();
    match end {
        End::Halt => b.e(0xF025),
        End::Priv => b.e(0x8000),
        End::IllOp => {
            let w = 0xD000 | b.r.u16() & 0xFFF;
            b.e(w)
        }
        End::InvFmt => {
            let w = *b.r.pick(&[0x1008, 0x5010, 0x4001, 0x9000, 0x8001, 0xC001, 0xF100, 0xC200, 0x4600]);
            b.e(w)
        }
        End::BadTrap => {
            let w = *b.r.pick(&[0xF000, 0xF01F, 0xF026, 0xF030, 0xF0FF]);
            b.e(w)
        }
        End::Acv => {
            let v = *b.r.pick(&[0x0000, 0x0200, 0x2FFF, 0xFE00, 0xFE02, 0xFE06, 0xFFFC, 0xFFFE, 0xFFFF, 0x0102]);
            let l = b.lit(v);
            match b.r.below(5) {
                0 => {
                    b.rel(0x2000 | g << 9, l, 9);
                    b.e(0x6000 | g << 9 | g << 6);
                }
                1 => {
                    b.rel(0x2000 | g << 9, l, 9);
                    b.e(0x7000 | g << 9 | g << 6);
                }
                2 => b.rel(0xA000 | g << 9, l, 9),
                3 => b.rel(0xB000 | g << 9, l, 9),
                _ => {
                    b.rel(0x2000 | g << 9, l, 9);
                    let w = if b.r.pct(50) { 0xC000 } else { 0x4000 };
                    b.e(w | g << 6);
                }
            }
        }
    }
    // never fall through
    b.e(0xF025);
    let main_end = b.w.len();
    // subroutines
    for k in 0..b.subs.len() {
        let l = b.subs[k];
        b.here(l);
        let nested = b.r.pct(40) && k > 0;
        b.push(7);
        let n = 2 + b.r.below(8);
        b.body(n, 1, true);
        if nested {
            let t = b.subs[b.r.below(k)];
            b.rel(0x4800, t, 11);
        }
        b.pop(7);
        b.e(0xC1C0);
    }
    // data
    let data0 = b.w.len();
    for k in 0..b.slots.len() {
        let l = b.slots[k];
        b.here(l);
        let v = if b.r.pct(30) { b.r.below(3) as u16 } else { b.r.u16() };
        b.e(v);
    }
    let data1 = b.w.len();
    for k in 0..b.ptrs.len() {
        let l = b.ptrs[k];
        b.here(l);
        let t = *b.r.pick(&b.slots);
        b.fix.push((b.w.len(), t, Fix::Abs));
        b.e(0);
    }
    for (l, v) in std::mem::take(&mut b.pool) {
        b.here(l);
        match v {
            Ok(v) => b.e(v),
            Err(t) => {
                b.fix.push((b.w.len(), t, Fix::Abs));
                b.e(0);
            }
        }
    }
    for &(at, l, f) in &b.fix {
        let t = b.labels[l].expect("label placed");
        match f {
            Fix::Abs => b.w[at] = org.wrapping_add(t as u16),
            Fix::Rel(bits) => {
                let d = t as i64 - at as i64 - 1;
                assert!(d >= -(1 << (bits - 1)) && d < 1 << (bits - 1), "harness: offset out of range");
                b.w[at] |= d as u16 & ((1u32 << bits) - 1) as u16;
            }
        }
    }
    let subs: Vec<u16> = b.subs.iter().map(|l| org.wrapping_add(b.labels[*l].unwrap() as u16)).collect();
    let input = (0..700).map(|_| b.r.u8()).collect();
    let words = b.w;
    Prog {
        org,
        far,
        input,
        end,
        code: (org, org + main_end as u16),
        subs,
        data: (org + data0 as u16, org + data1 as u16),
        words,
    }
}
