//! Fresh machines, and what loading an object file changes.
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::ObjectFile;
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::mem::{MachineInitStrategy as Init, Word};
use lc3_ensemble::sim::{SimFlags, Simulator, _os_obj_file};
use mon::files::{build, set, SetOpts};
use mon::model::{from_crate, show as show_prog, Dir, Nuc};
use mon::prog::{prog, End, ProgOpts};
use mon::refasm::analyze;
use mon::render::Style;
use mon::simutil::*;
use mon::*;
use std::collections::BTreeMap;
use std::sync::OnceLock;

type Image = BTreeMap<u16, Option<u16>>;
/// The OS image, by the reference assembler.
fn os() -> &'static Result<Image, String> {
    static OS: OnceLock<Result<Image, String>> = OnceLock::new();
    OS.get_or_init(|| {
        let src = _os_obj_file().symbol_table().and_then(|s| s.source_info()).map(|s| s.source().to_string()).ok_or("the OS object file holds no source")?;
        let ast = parse_ast(&src).map_err(|e| format!("{e:?}"))?;
        let p: Vec<_> = ast.iter().map(from_crate).collect();
        let (c, o) = analyze(&p);
        if !c.is_empty() {
            return Err(format!("the OS breaks rules: {c:?}"));
        }
        Ok(o.image)
    })
}
fn init(r: &mut Rng) -> Init {
    match r.below(6) {
        0 => Init::Unseeded,
        1 => Init::Known { value: 0 },
        2 | 3 => {
            let v = r.u16();
            Init::Known { value: *r.pick(&[v, 0xFFFF, 0x7FFF, 0x8000, 1]) }
        }
        4 => Init::Seeded { seed: r.below(4) as u64 },
        _ => Init::Seeded { seed: r.next() },
    }
}
fn rflags(r: &mut Rng) -> SimFlags {
    let (a, b, c, d, i) = (r.pct(40), r.pct(50), r.pct(50), r.pct(40), init(r));
    flags(a, b, c, d, i)
}
fn fresh(r: &mut Rng, l: &mut Local, f: SimFlags) -> Simulator {
    let mut sim = Simulator::new(f);
    l.eval();
    judge_fresh(l, &mut sim, &f);
    let _ = r;
    sim
}
fn judge_fresh(l: &mut Local, sim: &mut Simulator, f: &SimFlags) {
    match os() {
        Err(_) => {
            // judged against the crate's own assembly only
            for (a, w) in _os_obj_file().addr_iter() {
                if sim.mem[a].is_init() != w.is_some() || w.is_some_and(|w| sim.mem[a].get() != w) {
                    return l.violation("a new machine does not hold the OS image", format!("x{a:04X}: {:?}, expected {w:04X?}\n{f:?}", sim.mem[a]));
                }
            }
        }
        Ok(img) => {
            for (&a, &w) in img {
                if sim.mem[a].is_init() != w.is_some() || w.is_some_and(|w| sim.mem[a].get() != w) {
                    return l.violation("a new machine does not hold the OS image", format!("x{a:04X}: {:?}, expected {w:04X?}\n{f:?}", sim.mem[a]));
                }
            }
            l.count("OS words seen in new machines", img.len() as u64);
        }
    }
    for a in 0xFE00..=0xFFFFu16 {
        if sim.mem[a].get() != 0 || !sim.mem[a].is_init() {
            return l.violation("a new machine has a word other than zero in the I/O page", format!("x{a:04X}: {:?}\n{f:?}", sim.mem[a]));
        }
    }
    l.count("I/O words seen in new machines", 512);
}
/// Loads `o`, whose image is `img`, and compares the whole machine.
fn load(l: &mut Local, sim: &mut Simulator, o: &ObjectFile, img: &Image, how: &str, text: &dyn Fn() -> String) -> bool {
    let before: Vec<Word> = (0..=0xFFFF).map(|a| sim.mem[a]).collect();
    let regs: Vec<Word> = REGS.iter().map(|r| sim.reg_file[*r]).collect();
    let rest = |s: &mut Simulator| (s.pc, s.psr().get(), saved_sp(s), mcr(s), s.frame_stack.len(), s.instructions_run);
    let was = rest(sim);
    l.eval();
    match guard(|| sim.load_obj_file(o)) {
        Err(p) => {
            l.violation(format!("loading panicked at {}", p.loc), format!("{how}: {}\n{}", p.msg, text()));
            return false;
        }
        Ok(Err(e)) => {
            l.violation("a file without external references cannot be loaded", format!("{how}: {e:?}\n{}", text()));
            return false;
        }
        Ok(Ok(())) => {}
    }
    let mut seen = (0, 0);
    for a in 0..=0xFFFFu16 {
        let (b, n) = (before[a as usize], sim.mem[a]);
        let d = match img.get(&a) {
            None => (b != n).then_some("a load changed a word outside of the file"),
            Some(Some(w)) => {
                seen.0 += 1;
                (n.get() != *w || !n.is_init()).then_some("a loaded word does not hold the file's value")
            }
            Some(None) => {
                seen.1 += 1;
                n.is_init().then_some("a reserved word is initialized after a load")
            }
        };
        if let Some(d) = d {
            l.violation(d, format!("{how}: x{a:04X}: {n:?}, was {b:?}, file {:04X?}\n{}", img.get(&a), text()));
            return false;
        }
    }
    let regs2: Vec<Word> = REGS.iter().map(|r| sim.reg_file[*r]).collect();
    if regs != regs2 {
        l.violation("a load changed a register", format!("{how}: {regs:?} -> {regs2:?}\n{}", text()));
        return false;
    }
    let is = rest(sim);
    if was.0 != is.0 {
        l.violation("a load changed the PC", format!("{how}: x{:04X} -> x{:04X}\n{}", was.0, is.0, text()));
        return false;
    }
    if was != is {
        l.violation("a load changed the PSR, saved stack pointer, MCR, frames or instruction count", format!("{how}: {was:04X?} -> {is:04X?}\n{}", text()));
        return false;
    }
    l.count("loads compared", 1);
    l.count(&format!("loads: {how}"), 1);
    l.count("initialized words loaded", seen.0);
    l.count("reserved words loaded", seen.1);
    true
}
/// A random object file without externals, its image, and its text.
fn file(r: &mut Rng) -> Result<(ObjectFile, Image, String), String> {
    match r.below(8) {
        // the general generator
        0..=2 => {
            let (lo, hi) = *r.pick(&[(0u16, 0xFE00u16), (0, 0x40), (0, 0x40), (0xFD00, 0xFE00), (0x2F00, 0x3100)]);
            let o = gen::Opts { max_stmts: 12, externals: false, lo, hi, big: hi > 0x100, ..gen::Opts::default() };
            let p = gen::program(r, &o);
            let style = if r.pct(60) { Style::plain() } else { Style::random(r) };
            let d = r.pct(40);
            let f = build(r, p, &style, d)?;
            Ok((f.obj, f.refo.image, f.r.text))
        }
        // a link
        3 => {
            let fs = set(r, &SetOpts { n: 2, conflict: 0, overlap: 0, undefined: 0, ..SetOpts::default() })?;
            let want = mon::files::ref_link(&fs.iter().collect::<Vec<_>>())?;
            let text = mon::files::show_set(&fs.iter().collect::<Vec<_>>());
            let o = fs.into_iter().map(|f| f.obj).reduce(|a, b| match guard(|| ObjectFile::link(a, b)) {
                Ok(Ok(o)) => o,
                _ => ObjectFile::empty(),
            });
            let o = o.ok_or("no file")?;
            if want.labels.values().any(|v| v.1) || !o.addr_iter().eq(want.image.iter().map(|(a, w)| (*a, *w))) {
                return Err("the link is another property's business".into());
            }
            Ok((o, want.image, text))
        }
        // arbitrary images: runs of initialized and reserved words anywhere, also next to each other
        4..=6 => {
            let mut m = Image::new();
            for _ in 0..1 + r.below(6) {
                let n = *r.pick(&[0usize, 1, 1, 2, 3, 8, 40, 300]) + r.below(3);
                let a = match r.below(6) {
                    0 => 0,
                    1 => 0xFE00 - n as u16,
                    2 => edge(r),
                    3 => 0x0200 + r.below(0x400) as u16,
                    _ => r.u16(),
                };
                let res = *r.pick(&[0, 30, 70, 100]);
                for k in 0..n {
                    let w = if r.pct(res) { None } else { Some(r.u16()) };
                    m.insert(a.wrapping_add(k as u16), w);
                }
            }
            m.retain(|a, _| *a < 0xFE00);
            if r.pct(2) {
                // everything that a source file can fill
                let one = r.u16();
                m = (0..0xFE00u16).map(|a| (a, r.pct(70).then_some(one ^ a))).collect();
            }
            let t = image_text(&m);
            Ok((obj_of(&t)?, m, t))
        }
        // a file not made by the assembler, up to the end of memory
        _ => {
            let mut b = b"obj\x21\x10\x00\x01".to_vec();
            let mut m = Image::new();
            let mut at = *r.pick(&[0u32, 0, 0x3000, 0xFDF0, 0xFE00, 0xFFF0]) + r.below(8) as u32;
            for _ in 0..1 + r.below(4) {
                let n = 1 + r.below(20) as u32;
                if at + n > 0x10000 {
                    break;
                }
                b.push(0);
                b.extend((at as u16).to_le_bytes());
                b.extend((n as u16).to_le_bytes());
                for k in 0..n {
                    let w = r.pct(70).then(|| r.u16());
                    b.push(if w.is_some() { 0xFF } else { 0 });
                    b.extend(w.unwrap_or(0).to_le_bytes());
                    m.insert((at + k) as u16, w);
                }
                at += n + *r.pick(&[0u32, 1, 100]);
            }
            let o = guard(|| BinaryFormat::deserialize(&b)).ok().flatten().ok_or("the file is refused")?;
            if !o.addr_iter().eq(m.iter().map(|(a, w)| (*a, *w))) {
                return Err("reading is another property's business".into());
            }
            Ok((o, m.clone(), format!("read from a file: {m:04X?}")))
        }
    }
}
/// A machine that has run something.
fn used(r: &mut Rng, l: &mut Local) -> (Simulator, String) {
    if r.pct(50) {
        let kind = *r.pick(&[Kind::Wild, Kind::Sane, Kind::Mixed]);
        let mut st = state(r, kind, true);
        if r.pct(50) {
            st.init = init(r);
        }
        let strict = r.pct(30);
        let (mut sim, ..) = make_sim(&st, strict);
        for _ in 0..r.below(60) {
            let _ = guard(|| sim.step_in());
        }
        (sim, show(&st))
    } else {
        const ENDS: &[End] = &[End::Halt, End::Acv, End::Priv, End::IllOp];
        let output = r.pct(40);
        let p = prog(r, &ProgOpts { size: 20, output, input: false, ends: ENDS, subs: 2 });
        let mut sim = Simulator::new(rflags(r));
        display(&mut sim);
        p.load(&mut sim);
        let _ = guard(|| sim.run_with_limit(400));
        l.count("programs run before a load", 1);
        (sim, p.show())
    }
}
fn main() {
    let mut c = Check::new("C29");
    c.factor(30);
    c.once("the OS image", |_, l| {
        l.eval();
        match os() {
            Ok(i) => l.count("words of the OS image", i.len() as u64),
            Err(e) => {
                l.inconclusive();
                l.sample(|| e.clone());
            }
        }
    });
    c.random("new machines", 4_000, |r, l| {
        let f = rflags(r);
        let mut sim = fresh(r, l, f);
        // with another machine alive and used before
        if r.pct(20) {
            for _ in 0..50 {
                let _ = guard(|| sim.step_in());
            }
            let f = rflags(r);
            fresh(r, l, f);
        }
        l.distinct_str(&format!("{f:?}"));
    });
    c.random("loads", 16_000, |r, l| {
        let how0 = r.below(3);
        let (mut sim, before) = match how0 {
            0 => {
                let f = rflags(r);
                (fresh(r, l, f), format!("{f:?}"))
            }
            1 => {
                // arbitrary contents, initialized and not
                let f = rflags(r);
                let mut s = Simulator::new(f);
                for _ in 0..r.below(4) {
                    let (a, n) = (edge(r), r.below(2000));
                    for k in 0..n {
                        let a = a.wrapping_add(k as u16);
                        s.mem[a].set(r.u16());
                        if r.pct(50) {
                            s.mem[a].clear_init();
                        }
                    }
                }
                for x in REGS {
                    s.reg_file[x].set(r.u16());
                    if r.pct(50) {
                        s.reg_file[x].clear_init();
                    }
                }
                s.pc = edge(r);
                set_saved_sp(&mut s, edge(r));
                let p = r.u16();
                set_psr(&mut s, p);
                (s, format!("{f:?}"))
            }
            _ => used(r, l),
        };
        let how = ["fresh", "arbitrary contents", "after execution"][how0];
        let mut last: Option<(ObjectFile, Image, String)> = None;
        for k in 0..1 + r.below(4) {
            let (o, m, t) = match (r.below(4), last.take()) {
                (0, Some(x)) => {
                    l.count("loads of the same file again", 1);
                    x
                }
                _ => match file(r) {
                    Ok(x) => x,
                    Err(e) => {
                        l.inconclusive();
                        return l.sample(|| e);
                    }
                },
            };
            let h = if k == 0 { how } else { "again" };
            let both = || format!("{t}\n--- machine\n{before}");
            if !load(l, &mut sim, &o, &m, h, &both) {
                return;
            }
            if k == 0 {
                l.distinct_str(&t);
                l.sample(|| t.clone());
            }
            if m.contains_key(&0) {
                l.count("files with x0000", 1);
            }
            if m.contains_key(&0xFDFF) {
                l.count("files ending at xFE00", 1);
            }
            if r.pct(30) {
                // run what was loaded
                sim.pc = *m.keys().next().unwrap_or(&0x3000);
                for _ in 0..r.below(30) {
                    let _ = guard(|| sim.step_in());
                }
            }
            if r.pct(15) {
                guard(|| sim.reset()).ok();
                let f = sim.flags;
                judge_fresh(l, &mut sim, &f);
            }
            // through a format
            let o2 = if r.pct(50) { guard(|| BinaryFormat::deserialize(&BinaryFormat::serialize(&o))) } else { guard(|| TextFormat::deserialize(&TextFormat::serialize(&o))) };
            let o = match o2 {
                Ok(Some(x)) if x == o => x,
                _ => o,
            };
            last = Some((o, m, t));
        }
    });
    c.random("programs with large reserved regions", 1_500, |r, l| {
        let f = rflags(r);
        let mut sim = Simulator::new(f);
        if r.pct(60) {
            // nothing in memory is uninitialized
            for a in 0..=0xFDFF {
                sim.mem[a].set(a ^ 0x5A5A);
            }
            l.count("large regions of initialized machines", 1);
        }
        let n = 1 + r.below(0xC000) as u16;
        let a = *r.pick(&[0u16, 0xFE00 - n, 0x3000, 0x200]);
        if a as u32 + n as u32 + 2 > 0xFE00 && a != 0xFE00 - n {
            return;
        }
        let mut p = vec![mon::model::sd(Dir::Orig(a)), mon::model::sd(Dir::Blkw(n))];
        if a + n < 0xFD00 {
            let room = (0xFDFF - a - n) as usize;
            let len = if r.pct(50) { 5 } else { r.below(room.min(20_000)) };
            let text: String = (0..len).map(|k| (b'a' + (k % 23) as u8) as char).collect();
            p.push(mon::model::sd(Dir::Stringz(text)));
            if r.pct(50) {
                p.swap(1, 2);
            }
        }
        p.push(mon::model::sd(Dir::End));
        debug_assert!(p.iter().all(|s| !matches!(s.nuc, Nuc::I(_))));
        match build(r, p, &Style::plain(), false) {
            Ok(x) => {
                load(l, &mut sim, &x.obj, &x.refo.image, "large regions", &|| show_prog(&x.prog));
            }
            Err(e) => {
                l.inconclusive();
                l.sample(|| e);
            }
        }
    });
    c.finish(
        "new machines of every initialization strategy; random object files (assembled, linked, read from files; blocks at x0000, ending at xFE00 and up to xFFFF; reserved words) loaded once and repeatedly into new machines, machines with arbitrary contents and machines that have run; all 65536 words, the registers and the PC compared before and after",
        &["the OS image is the reference assembler's image of the OS source that the crate publishes", "reserved words may hold any data"],
        &[("loads compared", 10_000), ("files with x0000", 1_000), ("files ending at xFE00", 1_000), ("reserved words loaded", 50_000), ("loads of the same file again", 1_000), ("I/O words seen in new machines", 100_000)],
    )
}
