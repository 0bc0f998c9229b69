//! Program model, independent of the crate's AST.
use lc3_ensemble::ast as cast;
use lc3_ensemble::ast::asm::{AsmInstr as AI, Directive as CD, Stmt, StmtKind};
use std::fmt::Write;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Tgt {
    Off(i32),
    Lab(String),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Src2 {
    Reg(u8),
    Imm(i32),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ins {
    Add(u8, u8, Src2),
    And(u8, u8, Src2),
    Br(u8, Tgt),
    Jmp(u8),
    Jsr(Tgt),
    Jsrr(u8),
    Ld(u8, Tgt),
    Ldi(u8, Tgt),
    Ldr(u8, u8, i32),
    Lea(u8, Tgt),
    Not(u8, u8),
    Ret,
    Rti,
    St(u8, Tgt),
    Sti(u8, Tgt),
    Str(u8, u8, i32),
    Trap(u16),
    Nop(Tgt),
    Getc,
    Out,
    Putc,
    Puts,
    In,
    Putsp,
    Halt,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Dir {
    Orig(u16),
    /// Value of a numeric `.fill`, as the word it denotes.
    Fill(u16),
    FillLab(String),
    Blkw(u16),
    Stringz(String),
    End,
    External(String),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Nuc {
    I(Ins),
    D(Dir),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct St {
    pub labels: Vec<String>,
    pub nuc: Nuc,
}
pub fn si(ins: Ins) -> St {
    St { labels: vec![], nuc: Nuc::I(ins) }
}
pub fn sd(dir: Dir) -> St {
    St { labels: vec![], nuc: Nuc::D(dir) }
}
impl St {
    pub fn lab(mut self, s: &str) -> St {
        self.labels.push(s.to_string());
        self
    }
    /// Label used as an operand.
    pub fn operand_label(&self) -> Option<&str> {
        match &self.nuc {
            Nuc::I(ins) => match ins.tgt() {
                Some((Tgt::Lab(l), _)) => Some(l),
                _ => None,
            },
            Nuc::D(Dir::FillLab(l)) => Some(l),
            _ => None,
        }
    }
    /// Words this statement occupies.
    pub fn size(&self) -> usize {
        match &self.nuc {
            Nuc::I(_) => 1,
            Nuc::D(Dir::Fill(_) | Dir::FillLab(_)) => 1,
            Nuc::D(Dir::Blkw(n)) => *n as usize,
            Nuc::D(Dir::Stringz(s)) => s.len() + 1,
            Nuc::D(_) => 0,
        }
    }
}
impl Ins {
    /// PC-relative operand and its width.
    pub fn tgt(&self) -> Option<(&Tgt, u32)> {
        match self {
            Ins::Br(_, t) | Ins::Nop(t) => Some((t, 9)),
            Ins::Ld(_, t) | Ins::Ldi(_, t) | Ins::Lea(_, t) | Ins::St(_, t) | Ins::Sti(_, t) => Some((t, 9)),
            Ins::Jsr(t) => Some((t, 11)),
            _ => None,
        }
    }
    pub fn mnemonic(&self) -> String {
        match self {
            Ins::Add(..) => "ADD".into(),
            Ins::And(..) => "AND".into(),
            Ins::Br(cc, _) => {
                let mut s = String::from("BR");
                if cc & 4 != 0 {
                    s.push('n');
                }
                if cc & 2 != 0 {
                    s.push('z');
                }
                if cc & 1 != 0 {
                    s.push('p');
                }
                s
            }
            Ins::Jmp(_) => "JMP".into(),
            Ins::Jsr(_) => "JSR".into(),
            Ins::Jsrr(_) => "JSRR".into(),
            Ins::Ld(..) => "LD".into(),
            Ins::Ldi(..) => "LDI".into(),
            Ins::Ldr(..) => "LDR".into(),
            Ins::Lea(..) => "LEA".into(),
            Ins::Not(..) => "NOT".into(),
            Ins::Ret => "RET".into(),
            Ins::Rti => "RTI".into(),
            Ins::St(..) => "ST".into(),
            Ins::Sti(..) => "STI".into(),
            Ins::Str(..) => "STR".into(),
            Ins::Trap(_) => "TRAP".into(),
            Ins::Nop(_) => "NOP".into(),
            Ins::Getc => "GETC".into(),
            Ins::Out => "OUT".into(),
            Ins::Putc => "PUTC".into(),
            Ins::Puts => "PUTS".into(),
            Ins::In => "IN".into(),
            Ins::Putsp => "PUTSP".into(),
            Ins::Halt => "HALT".into(),
        }
    }
}

fn r(x: cast::Reg) -> u8 {
    x.reg_no()
}
fn tgt<const N: u32>(p: &cast::PCOffset<i16, N>) -> Tgt {
    match p {
        cast::PCOffset::Offset(o) => Tgt::Off(o.get() as i32),
        cast::PCOffset::Label(l) => Tgt::Lab(l.name.clone()),
    }
}
fn src2(x: &cast::ImmOrReg<5>) -> Src2 {
    match x {
        cast::ImmOrReg::Imm(o) => Src2::Imm(o.get() as i32),
        cast::ImmOrReg::Reg(q) => Src2::Reg(r(*q)),
    }
}
/// Converts a statement of the crate into the model.
pub fn from_crate(s: &Stmt) -> St {
    let nuc = match &s.nucleus {
        StmtKind::Instr(ins) => Nuc::I(match ins {
            AI::ADD(a, b, c) => Ins::Add(r(*a), r(*b), src2(c)),
            AI::AND(a, b, c) => Ins::And(r(*a), r(*b), src2(c)),
            AI::BR(cc, t) => Ins::Br(*cc, tgt(t)),
            AI::JMP(a) => Ins::Jmp(r(*a)),
            AI::JSR(t) => Ins::Jsr(tgt(t)),
            AI::JSRR(a) => Ins::Jsrr(r(*a)),
            AI::LD(a, t) => Ins::Ld(r(*a), tgt(t)),
            AI::LDI(a, t) => Ins::Ldi(r(*a), tgt(t)),
            AI::LDR(a, b, o) => Ins::Ldr(r(*a), r(*b), o.get() as i32),
            AI::LEA(a, t) => Ins::Lea(r(*a), tgt(t)),
            AI::NOT(a, b) => Ins::Not(r(*a), r(*b)),
            AI::RET => Ins::Ret,
            AI::RTI => Ins::Rti,
            AI::ST(a, t) => Ins::St(r(*a), tgt(t)),
            AI::STI(a, t) => Ins::Sti(r(*a), tgt(t)),
            AI::STR(a, b, o) => Ins::Str(r(*a), r(*b), o.get() as i32),
            AI::TRAP(v) => Ins::Trap(v.get()),
            AI::NOP(t) => Ins::Nop(tgt(t)),
            AI::GETC => Ins::Getc,
            AI::OUT => Ins::Out,
            AI::PUTC => Ins::Putc,
            AI::PUTS => Ins::Puts,
            AI::IN => Ins::In,
            AI::PUTSP => Ins::Putsp,
            AI::HALT => Ins::Halt,
        }),
        StmtKind::Directive(dd) => Nuc::D(match dd {
            CD::Orig(a) => Dir::Orig(a.get()),
            CD::Fill(cast::PCOffset::Offset(o)) => Dir::Fill(o.get()),
            CD::Fill(cast::PCOffset::Label(l)) => Dir::FillLab(l.name.clone()),
            CD::Blkw(n) => Dir::Blkw(n.get()),
            CD::Stringz(s) => Dir::Stringz(s.clone()),
            CD::End => Dir::End,
            CD::External(l) => Dir::External(l.name.clone()),
        }),
    };
    St { labels: s.labels.iter().map(|l| l.name.clone()).collect(), nuc }
}

/// Canonical one-line form for reports.
pub fn show(p: &[St]) -> String {
    let mut o = String::new();
    for s in p {
        let _ = writeln!(o, "{:?} {:?}", s.labels, s.nuc);
    }
    o
}
