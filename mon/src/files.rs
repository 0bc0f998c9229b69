//! Sets of object files that share labels, and a reference linker.
use crate::gen;
use crate::model::*;
use crate::refasm::{analyze, upper, RefObj};
use crate::render::{render, Rendered, Style};
use crate::rng::Rng;
use lc3_ensemble::asm::encoding::{ObjFileFormat, TextFormat};
use lc3_ensemble::asm::{assemble, assemble_debug, ObjectFile};
use lc3_ensemble::parse::parse_ast;
use std::collections::{BTreeMap, BTreeSet};

pub struct File {
    pub prog: Vec<St>,
    pub r: Rendered,
    pub debug: bool,
    pub obj: ObjectFile,
    pub refo: RefObj,
}
#[derive(Clone)]
pub struct SetOpts {
    pub n: usize,
    /// Percent of sets with two definitions of a label.
    pub conflict: u32,
    /// Percent of sets with overlapping blocks.
    pub overlap: u32,
    /// Percent of files with debug symbols.
    pub debug: u32,
    /// Percent of shared labels that no file defines.
    pub undefined: u32,
    /// Percent of uses before the declaration, and after.
    pub hostile: u32,
    /// Percent of files with further statements (from the general generator).
    pub rich: u32,
    /// Percent of files with a huge gap in the source.
    pub huge: u32,
    /// Percent of blocks with hundreds of references.
    pub many: u32,
}
impl Default for SetOpts {
    fn default() -> Self {
        SetOpts { n: 3, conflict: 20, overlap: 15, debug: 100, undefined: 20, hostile: 0, rich: 30, huge: 0, many: 0 }
    }
}
/// Assembles a model. `Err` if the crate rejects it.
pub fn build(r: &mut Rng, prog: Vec<St>, style: &Style, debug: bool) -> Result<File, String> {
    let (conds, refo) = analyze(&prog);
    if !conds.is_empty() || refo.ambiguous {
        return Err(format!("generated an ill-formed program: {conds:?}\n{}", show(&prog)));
    }
    let rd = render(&prog, r, style);
    let ast = parse_ast(&rd.text).map_err(|e| format!("{e:?}\n{}", rd.text))?;
    let obj = if debug { assemble_debug(ast, &rd.text) } else { assemble(ast) };
    let obj = obj.map_err(|e| format!("{e:?}\n{}", rd.text))?;
    Ok(File { prog, r: rd, debug, obj, refo })
}
/// Files over a common pool of labels, in neighbouring blocks.
pub fn set(r: &mut Rng, o: &SetOpts) -> Result<Vec<File>, String> {
    let mut used = BTreeSet::new();
    let names: Vec<String> = (0..2 + r.below(6)).map(|_| gen::label_name(r, &mut used, true)).collect();
    // Who defines what: None, one file, or (rarely) two.
    let clash = r.pct(o.conflict);
    let mut owner: Vec<Vec<usize>> = names
        .iter()
        .map(|_| if r.pct(o.undefined) { vec![] } else { vec![r.below(o.n)] })
        .collect();
    if clash && o.n > 1 {
        let k = r.below(names.len());
        let a = r.below(o.n);
        owner[k] = vec![a, (a + 1 + r.below(o.n - 1)) % o.n];
    }
    // Slots of memory, in order; each becomes a block of one file.
    let slots = o.n + r.below(4);
    let overlap = r.pct(o.overlap);
    let mut at: i64 = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 0xFD00,
        3 => 0x3000,
        _ => r.below(0xF000) as i64,
    };
    let mut progs: Vec<Vec<Vec<St>>> = vec![vec![]; o.n];
    // (label, address) bound by the previous block's end
    let mut pend: Option<String> = None;
    for s in 0..slots {
        let f = if s < o.n { s } else { r.below(o.n) };
        let mut b: Vec<St> = vec![];
        let many = o.many > 0 && r.pct(o.many);
        let len = if many { 250 + r.below(400) } else if r.pct(12) { 0 } else { 1 + r.below(7) };
        for _ in 0..len {
            let nuc = match if many && r.pct(90) { 0 } else { r.below(10) } {
                0..=4 => {
                    let l = if many { names[0].clone() } else { r.pick(&names).clone() };
                    Nuc::D(Dir::FillLab(gen::respell(r, &l)))
                }
                5 => Nuc::D(Dir::Blkw(1 + r.below(3) as u16)),
                6 => Nuc::D(Dir::Stringz(gen::string(r, true, 5))),
                7 => Nuc::D(Dir::Fill(gen::word(r))),
                _ => Nuc::I(gen::any_ins(r)),
            };
            b.push(St { labels: vec![], nuc });
        }
        b.push(sd(Dir::End));
        // the same label at the same address in two files
        if let Some(l) = pend.take() {
            let k = r.below(2).min(b.len() - 1);
            let _ = k;
            b[0].labels.push(gen::respell(r, &l));
        }
        if r.pct(15) {
            let l = gen::label_name(r, &mut used, true);
            b.last_mut().unwrap().labels.push(l.clone());
            pend = Some(l);
        }
        if r.pct(20) {
            let k = r.below(b.len());
            let l = gen::label_name(r, &mut used, true);
            b[k].labels.push(l);
        }
        let size: i64 = b.iter().map(|s| s.size() as i64).sum();
        let mut start = at;
        if pend.is_none() || size == 0 {
            // gap, or overlap with what came before
            let moved = match r.below(5) {
                0 | 1 => 0,
                2 => 1 + r.below(30) as i64,
                _ if overlap => -(r.below(6) as i64),
                _ => 0,
            };
            // a label shared with the previous block fixes the start
            if b[0].labels.is_empty() || overlap {
                start = (at + moved).max(0);
            }
        }
        if start + size > 0xFE00 {
            break;
        }
        b.insert(0, sd(Dir::Orig(start as u16)));
        at = at.max(start + size);
        if pend.is_none() && r.pct(30) {
            at += r.below(3) as i64 * 7;
        }
        progs[f].push(b);
    }
    let mut out = vec![];
    for (f, blocks) in progs.into_iter().enumerate() {
        let mut blocks = blocks;
        // definitions (an empty block can carry them too)
        for (k, who) in owner.iter().enumerate() {
            if who.contains(&f) && !blocks.is_empty() {
                let b = r.below(blocks.len());
                let n = blocks[b].len();
                let i = 1 + r.below(n - 1);
                let l = gen::respell(r, &names[k]);
                blocks[b][i].labels.push(l);
            }
        }
        r.shuffle(&mut blocks);
        let mut p: Vec<St> = vec![];
        for b in blocks {
            p.extend(b);
        }
        if r.pct(o.rich) {
            // further statements far away
            let g = gen::Opts { max_blocks: 1, max_stmts: 8, externals: true, lo: 0x1000 + 0x2000 * f as u16, hi: 0x1FFF + 0x2000 * f as u16, big: false, avoid: used.clone(), ..gen::Opts::default() };
            let q = gen::program(r, &g);
            let clear = p.iter().all(|s| match s.nuc {
                Nuc::D(Dir::Orig(a)) => a < g.lo.saturating_sub(300) || a > g.hi,
                _ => true,
            });
            if clear && at < 0xF000 {
                for s in &q {
                    for l in s.labels.iter().map(String::as_str).chain(s.operand_label()) {
                        used.insert(upper(l));
                    }
                }
                p.extend(q);
            }
        }
        // declarations of what is used (or not) and not defined here
        for (k, name) in names.iter().enumerate() {
            if owner[k].contains(&f) && p.iter().any(|s| s.labels.iter().any(|l| upper(l) == upper(name))) {
                continue;
            }
            let uses = p.iter().any(|s| s.operand_label().is_some_and(|l| upper(l) == upper(name)));
            if uses || r.pct(25) {
                for _ in 0..if r.pct(5) { 2 } else { 1 } {
                    let i = match r.below(3) {
                        0 => 0,
                        1 => p.len(),
                        _ => r.below(p.len() + 1),
                    };
                    let l = gen::respell(r, name);
                    p.insert(i, sd(Dir::External(l)));
                }
            }
        }
        let mut style = if r.pct(40) { Style::plain() } else { Style::random(r) };
        if r.pct(o.hostile) {
            style.hostile = *r.pick(&[20, 100]);
            style.comments = *r.pick(&[50, 100]);
        }
        style.huge = o.huge;
        let debug = r.pct(o.debug);
        // an external and a definition at x0000 in one file is left open by the rules
        match build(r, p, &style, debug) {
            Ok(x) => out.push(x),
            Err(e) => return Err(e),
        }
    }
    Ok(out)
}

/// A reference link result.
#[derive(Clone, Debug, Default)]
pub struct Linked {
    pub image: BTreeMap<u16, Option<u16>>,
    pub labels: BTreeMap<String, (u16, bool)>,
    /// `None`: not observable (the text writer failed).
    pub pending: Option<BTreeMap<u16, String>>,
}
impl Linked {
    pub fn same_pending(&self, o: &Linked) -> bool {
        match (&self.pending, &o.pending) {
            (Some(a), Some(b)) => a == b,
            _ => true,
        }
    }
    pub fn same(&self, o: &Linked) -> bool {
        self.image == o.image && self.labels == o.labels && self.same_pending(o)
    }
}
/// `Err` names the reason.
pub fn ref_link(fs: &[&File]) -> Result<Linked, &'static str> {
    let mut o = Linked::default();
    for f in fs {
        for (a, w) in &f.refo.image {
            if o.image.insert(*a, *w).is_some() {
                return Err("blocks overlap");
            }
        }
        for (l, &(a, ext)) in &f.refo.labels {
            match o.labels.get(l) {
                Some(&(b, false)) if !ext && a != b => return Err("label defined twice"),
                Some(&(_, false)) => {}
                Some(_) if ext => {}
                _ => {
                    o.labels.insert(l.clone(), (a, ext));
                }
            }
        }
    }
    let mut pending = BTreeMap::new();
    let pend = fs.iter().flat_map(|f| f.refo.relocs.iter().map(|(a, l)| (*a, l.clone())));
    for (a, l) in pend {
        match o.labels.get(&l) {
            Some(&(v, false)) => {
                o.image.insert(a, Some(v));
            }
            _ => {
                pending.insert(a, l);
            }
        }
    }
    o.pending = Some(pending);
    Ok(o)
}
/// What an object file of the crate shows.
pub fn observe(o: &ObjectFile) -> Result<Linked, String> {
    let mut x = Linked::default();
    for (a, w) in o.addr_iter() {
        if x.image.insert(a, w).is_some() {
            return Err(format!("address x{a:04X} is listed twice"));
        }
    }
    if let Some(s) = o.symbol_table() {
        for (l, a, e) in s.label_iter() {
            if x.labels.insert(l.to_string(), (a, e)).is_some() {
                return Err(format!("label {l} is listed twice"));
            }
        }
    }
    x.pending = pending(o);
    Ok(x)
}
/// Pending relocations, from the text form.
pub fn pending(o: &ObjectFile) -> Option<BTreeMap<u16, String>> {
    let t = crate::guard(|| TextFormat::serialize(o)).ok()?;
    let mut m = BTreeMap::new();
    let mut on = false;
    for l in t.lines() {
        if l.starts_with('.') {
            on = l == ".LINKER_INFO";
        } else if on {
            if let Some((a, l)) = l.split_once(" | ") {
                if a == "ADDR" {
                    continue;
                }
                let a = u16::from_str_radix(a, 16).ok()?;
                m.insert(a, l.trim_end().to_string());
            }
        }
    }
    Some(m)
}
pub fn show_set(fs: &[&File]) -> String {
    fs.iter().enumerate().map(|(i, f)| format!("--- file {i}{}\n{}\n", if f.debug { " (debug)" } else { "" }, f.r.text)).collect()
}

/// Bracketed link orders.
#[derive(Clone, Debug)]
pub enum Tree {
    Leaf(usize),
    Node(Box<Tree>, Box<Tree>),
}
pub fn trees(xs: &[usize]) -> Vec<Tree> {
    if let [x] = xs {
        return vec![Tree::Leaf(*x)];
    }
    let mut v = vec![];
    for k in 1..xs.len() {
        for a in trees(&xs[..k]) {
            for b in trees(&xs[k..]) {
                v.push(Tree::Node(Box::new(a.clone()), Box::new(b)));
            }
        }
    }
    v
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}
pub fn leaves(t: &Tree) -> Vec<usize> {
    match t {
        Tree::Leaf(i) => vec![*i],
        Tree::Node(a, b) => {
            let mut v = leaves(a);
            v.extend(leaves(b));
            v
        }
    }
}
pub fn expr(t: &Tree) -> String {
    match t {
        Tree::Leaf(i) => i.to_string(),
        Tree::Node(a, b) => format!("({} {})", expr(a), expr(b)),
    }
}
