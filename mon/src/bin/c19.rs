//! Hostile object files.
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::{assemble, assemble_debug, ObjectFile};
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::mem::MachineInitStrategy;
use lc3_ensemble::sim::Simulator;
use mon::files::{set, SetOpts};
use mon::render::hostile_char;
use mon::simutil::flags;
use mon::*;
use std::collections::BTreeSet;

#[derive(Clone)]
enum Input {
    Bin(Vec<u8>),
    Text(String),
}
fn show_in(i: &Input) -> String {
    match i {
        Input::Bin(b) => format!("{} bytes: {:02X?}", b.len(), &b[..b.len().min(3000)]),
        Input::Text(t) => format!("text: {:?}", t.chars().take(6000).collect::<String>()),
    }
}
const EDGE16: &[u16] = &[0, 1, 2, 0x2FFF, 0x3000, 0x3001, 0x7FFF, 0x8000, 0xFDFF, 0xFE00, 0xFFFC, 0xFFFE, 0xFFFF];
const EDGE64: &[u64] = &[0, 1, 2, 7, 255, 65535, 65536, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX];
fn e16(r: &mut Rng) -> u16 {
    match r.below(3) {
        0 => r.u16(),
        1 => 0x3000 + r.below(16) as u16,
        _ => *r.pick(EDGE16),
    }
}
fn e64(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.next(),
        1 => r.below(40) as u64,
        2 => u64::MAX - r.below(40) as u64,
        _ => *r.pick(EDGE64),
    }
}
const NAMES: &[&str] = &["A", "LOOP", "X", "FOO", "BAR", "a", "é", "", " ", "A | B", "=", "#A", ".TEXT", "L\nM", "\u{0}", "ẞ", "ADDR", "LABEL", "R0"];
fn name(r: &mut Rng) -> String {
    match r.below(12) {
        0 => (0..r.below(6)).map(|_| hostile_char(r)).collect(),
        1 if r.pct(4) => "W".repeat(65_000 + r.below(3_000)),
        _ => r.pick(NAMES).to_string(),
    }
}
fn source(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(6) {
        for _ in 0..r.below(8) {
            s.push(hostile_char(r));
        }
        s.push_str(*r.pick(&["\n", "\r\n", "", "\r", "\n\n"]));
    }
    s
}
/// A binary file of chunks with hostile fields.
fn chunks(r: &mut Rng) -> Vec<u8> {
    let mut b = b"obj\x21\x10\x00\x01".to_vec();
    let src = source(r);
    let lines = 1 + src.matches('\n').count() as u64;
    for _ in 0..r.below(9) {
        match r.below(9) {
            0..=2 => {
                b.push(0);
                b.extend(e16(r).to_le_bytes());
                let n = match r.below(12) {
                    0 => *r.pick(&[0xFFFFusize, 0xFFFE, 0x8000, 0xFE00]),
                    1 => 0,
                    _ => r.below(20),
                };
                let said = if r.pct(3) { e16(r) } else { n as u16 };
                b.extend(said.to_le_bytes());
                for _ in 0..n {
                    b.push(*r.pick(&[0xFF, 0xFF, 0, 1]));
                    b.extend(e16(r).to_le_bytes());
                }
            }
            3 | 4 => {
                b.push(1);
                b.extend(e16(r).to_le_bytes());
                b.push(*r.pick(&[0, 1, 1, 2, 255]));
                b.extend(e64(r).to_le_bytes());
                let n = name(r);
                let said = if r.pct(3) { e64(r) } else { n.len() as u64 };
                b.extend(said.to_le_bytes());
                b.extend(n.as_bytes());
            }
            5 => {
                b.push(2);
                let l = if r.pct(70) { r.below(lines as usize) as u64 } else { e64(r) };
                b.extend(l.to_le_bytes());
                let n = r.below(5);
                let said = if r.pct(3) { e16(r) } else { n as u16 };
                b.extend(said.to_le_bytes());
                let mut v: Vec<u16> = (0..n).map(|_| e16(r)).collect();
                if r.pct(70) {
                    v.sort();
                }
                for a in v {
                    b.extend(a.to_le_bytes());
                }
            }
            6 => {
                b.push(3);
                let said = if r.pct(3) { e64(r) } else { src.len() as u64 };
                b.extend(said.to_le_bytes());
                b.extend(src.as_bytes());
            }
            7 => {
                b.push(4);
                b.extend(e16(r).to_le_bytes());
                let n = name(r);
                let said = if r.pct(3) { e64(r) } else { n.len() as u64 };
                b.extend(said.to_le_bytes());
                b.extend(n.as_bytes());
            }
            _ => {
                if r.pct(5) {
                    b.push(r.u8());
                }
            }
        }
    }
    b
}
fn num(r: &mut Rng) -> String {
    match r.below(10) {
        0 => e64(r).to_string(),
        1 => format!("-{}", r.below(5)),
        2 => format!("+{}", r.below(5)),
        3 => "99999999999999999999999".into(),
        4 => String::new(),
        5 => e16(r).to_string(),
        6 => format!("0{}", r.below(5)),
        _ => r.below(6).to_string(),
    }
}
fn hex(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "????".into(),
        1 => "+123".into(),
        2 => "FFFFF".into(),
        3 => "é00".into(),
        4 => format!("{:04x}", e16(r)),
        _ => format!("{:04X}", e16(r)),
    }
}
fn escaped(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(6) {
        match r.below(12) {
            0 => s.push_str(*r.pick(&["\\", "\\u", "\\u{", "\\u{}", "\\u{110000}", "\\u{d800}", "\\u{0}", "\\x", "\\xff", "\\x7f", "\\0", "\\777", "\\q", "\\u{1F4A5}", "\\u1234", "\\uD800"])),
            1 => s.push_str("\\n"),
            2 => s.push_str("\\r\\n"),
            3 => {
                let c = hostile_char(r);
                s.push(c);
            }
            _ => s.push((0x20 + r.below(0x5f) as u8) as char),
        }
    }
    s
}
/// A text file of sections with hostile rows.
fn sections(r: &mut Rng) -> String {
    let mut t = String::from("LC-3 OBJ FILE\n");
    let nl = if r.pct(10) { "\r\n" } else { "\n" };
    for _ in 0..r.below(7) {
        match r.below(9) {
            0 | 1 => {
                t.push_str(".TEXT");
                t.push_str(nl);
                for _ in 0..r.below(4) {
                    let n = r.below(6);
                    t.push_str(&hex(r));
                    t.push_str(nl);
                    let said = if r.pct(10) { num(r) } else { n.to_string() };
                    t.push_str(&said);
                    t.push_str(nl);
                    for _ in 0..n {
                        t.push_str(&hex(r));
                        t.push_str(nl);
                    }
                }
            }
            2 | 3 => {
                t.push_str(".SYMBOL");
                t.push_str(nl);
                if r.pct(95) {
                    t.push_str("ADDR | EXT | LABEL");
                    t.push_str(nl);
                }
                for _ in 0..r.below(5) {
                    let row = match r.below(12) {
                        0 => hex(r),
                        1 => format!("{} | {}", hex(r), num(r)),
                        _ => format!("{} |   {} | {}", hex(r), r.below(2), name(r)),
                    };
                    t.push_str(&row);
                    t.push_str(nl);
                }
            }
            4 | 5 => {
                t.push_str(".LINKER_INFO");
                t.push_str(nl);
                t.push_str("ADDR | LABEL");
                t.push_str(nl);
                for _ in 0..r.below(5) {
                    let row = format!("{} | {}", hex(r), name(r));
                    t.push_str(&row);
                    t.push_str(nl);
                }
            }
            6 | 7 => {
                t.push_str(".DEBUG");
                t.push_str(nl);
                if r.pct(50) {
                    t.push_str("# comment");
                    t.push_str(nl);
                }
                if r.pct(80) {
                    t.push_str("LABEL | INDEX");
                    t.push_str(nl);
                    for _ in 0..r.below(4) {
                        let i = if r.pct(60) { num(r) } else { e64(r).to_string() };
                        let row = format!("{:5} | {:5}", name(r), i);
                        t.push_str(&row);
                        t.push_str(nl);
                    }
                }
                for _ in 0..*r.pick(&[0, 1, 1, 1, 1, 2]) {
                    t.push_str("====================");
                    t.push_str(nl);
                }
                if r.pct(85) {
                    t.push_str("LINE | ADDR | SOURCE");
                    t.push_str(nl);
                    let n = r.below(6);
                    let mut a = e16(r);
                    for i in 0..n {
                        a = if r.pct(80) { a.wrapping_add(1 + r.below(3) as u16) } else { e16(r) };
                        let l = if r.pct(3) { num(r) } else { i.to_string() };
                        let m = match r.below(4) {
                            0 => "????".to_string(),
                            1 => hex(r),
                            _ => format!("{a:04X}"),
                        };
                        let row = format!("{l:4} | {m} | {}{}", escaped(r), if r.pct(80) { "\\n" } else { "" });
                        t.push_str(&row);
                        t.push_str(nl);
                    }
                }
                for _ in 0..*r.pick(&[0, 1, 1, 1, 1, 1, 2]) {
                    t.push_str("====================");
                    t.push_str(nl);
                }
            }
            _ => {
                if r.pct(20) {
                    let c = escaped(r);
                    t.push_str(&c);
                    t.push_str(nl);
                }
            }
        }
        if r.pct(50) {
            t.push_str(nl);
        }
    }
    t
}
fn mutate_bytes(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(4) {
        if b.is_empty() {
            return;
        }
        let i = r.below(b.len());
        let n = (1 + r.below(12)).min(b.len() - i);
        match r.below(8) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = *r.pick(&[0, 1, 2, 3, 4, 5, 0x7F, 0x80, 0xFE, 0xFF]),
            2 => {
                b.drain(i..i + n);
            }
            3 => {
                let s = b[i..i + n].to_vec();
                let j = r.below(b.len());
                b.splice(j..j, s);
            }
            4 => {
                let v = e16(r).to_le_bytes();
                for (k, x) in v.iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
            }
            5 => {
                let v = e64(r).to_le_bytes();
                for (k, x) in v.iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
            }
            6 => b.truncate(i),
            _ => b.insert(i, r.u8()),
        }
    }
}
fn mutate_text(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<String> = t.split('\n').map(str::to_string).collect();
    for _ in 0..1 + r.below(4) {
        let i = r.below(v.len());
        match r.below(11) {
            0 => {
                if v.len() > 1 {
                    v.remove(i);
                }
            }
            1 => {
                let s = v[i].clone();
                let j = r.below(v.len());
                v.insert(j, s);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 => v[i] = v[i].replace("????", &hex(r)),
            4 => {
                // another number
                let s: Vec<String> = v[i].split(" | ").map(str::to_string).collect();
                let k = r.below(s.len());
                let mut s = s;
                s[k] = match r.below(3) {
                    0 => hex(r),
                    1 => num(r),
                    _ => escaped(r),
                };
                v[i] = s.join(" | ");
            }
            5 => {
                let cs: Vec<char> = v[i].chars().collect();
                if !cs.is_empty() {
                    let mut cs = cs;
                    let k = r.below(cs.len());
                    match r.below(3) {
                        0 => cs[k] = hostile_char(r),
                        1 => {
                            cs.remove(k);
                        }
                        _ => cs.insert(k, hostile_char(r)),
                    }
                    v[i] = cs.into_iter().collect();
                }
            }
            6 => v.truncate(i + 1),
            7 => v.insert(i, "====================".into()),
            8 => v.insert(i, r.pick(&[".TEXT", ".SYMBOL", ".DEBUG", ".LINKER_INFO", ".", ""]).to_string()),
            9 => {
                // a block elsewhere
                if v[i].len() == 4 {
                    v[i] = format!("{:04X}", e16(r));
                }
            }
            _ => {
                let s = escaped(r);
                v[i].push_str(&s);
            }
        }
    }
    v.join("\n")
}
fn read(i: &Input) -> Option<ObjectFile> {
    match i {
        Input::Bin(b) => BinaryFormat::deserialize(b),
        Input::Text(t) => TextFormat::deserialize(t),
    }
}
fn judge(r: &mut Rng, l: &mut Local, input: &Input, sim: &mut Simulator) -> Option<ObjectFile> {
    l.eval();
    let fail = |l: &mut Local, what: &str, e: run::Panicked, more: String| l.violation(format!("{what} panics at {}", e.loc), format!("{}\n{}\n{more}", e.msg, show_in(input)));
    let o = match guard(|| read(input)) {
        Err(e) => {
            fail(l, "reading", e, String::new());
            return None;
        }
        Ok(None) => {
            l.count("rejected", 1);
            return None;
        }
        Ok(Some(o)) => o,
    };
    l.count(if matches!(input, Input::Bin(_)) { "accepted binary files" } else { "accepted text files" }, 1);
    match input {
        Input::Bin(b) => l.distinct(rng::hash_bytes(1, b)),
        Input::Text(t) => l.distinct(rng::hash_bytes(2, t.as_bytes())),
    }
    // write in both formats, and read those
    match guard(|| (BinaryFormat::serialize(&o), TextFormat::serialize(&o))) {
        Err(e) => {
            fail(l, "writing an object file that was read", e, String::new());
            return None;
        }
        Ok((b, t)) => {
            if let Err(e) = guard(|| (BinaryFormat::deserialize(&b), TextFormat::deserialize(&t))) {
                fail(l, "reading a rewritten object file", e, String::new());
                return None;
            }
        }
    }
    // load
    match guard(|| sim.load_obj_file(&o).is_ok()) {
        Err(e) => {
            fail(l, "loading", e, String::new());
            *sim = Simulator::new(flags(false, true, false, false, MachineInitStrategy::Known { value: 0 }));
            return None;
        }
        Ok(true) => l.count("loaded", 1),
        Ok(false) => l.count("refused to load", 1),
    }
    // link with assembled files that share its labels
    let (labels, ranges) = match guard(|| {
        let v: Vec<(String, u16, bool)> = o.symbol_table().map(|s| s.label_iter().map(|(n, a, e)| (n.to_string(), a, e)).collect()).unwrap_or_default();
        let a: BTreeSet<u16> = o.addr_iter().map(|x| x.0).take(5_000).collect();
        (v, a)
    }) {
        Ok(x) => x,
        Err(_) => (vec![], BTreeSet::new()),
    };
    for _ in 0..3 {
        let free = (0..40).map(|_| e16(r)).find(|a| *a < 0xFDF0 && (0..16).all(|k| !ranges.contains(&(a + k))));
        let at = if r.pct(80) { free.unwrap_or(0x4000) } else { e16(r).min(0xFD00) };
        let mut s = format!(".orig {at}\n");
        for (n, a, _) in labels.iter().take(8) {
            if gen_valid(n) {
                match r.below(4) {
                    0 => s.push_str(&format!("{n} .fill x{a:04X}\n")),
                    1 => s.push_str(&format!(".external {n}\n.fill {n}\n")),
                    _ => {}
                }
            }
        }
        s.push_str("ZZ .fill ZZ\n.blkw 1\n.end\n");
        let debug = r.pct(60);
        let Some(f) = parse_ast(&s).ok().and_then(|a| if debug { assemble_debug(a, &s).ok() } else { assemble(a).ok() }) else {
            l.count("no partner", 1);
            continue;
        };
        let first = r.pct(50);
        let res = guard(|| {
            let res = if first { ObjectFile::link(o.clone(), f) } else { ObjectFile::link(f, o.clone()) };
            match res {
                Ok(x) => {
                    // and further
                    let _ = (BinaryFormat::serialize(&x), TextFormat::serialize(&x));
                    (true, Some(x))
                }
                Err(e) => {
                    let _ = format!("{e} {e:?}");
                    (false, None)
                }
            }
        });
        match res {
            Err(e) => {
                fail(l, "linking", e, s);
                return None;
            }
            Ok((ok, x)) => {
                l.count(if ok { "linked" } else { "links refused" }, 1);
                if let Some(x) = x {
                    if let Err(e) = guard(|| sim.load_obj_file(&x).is_ok()) {
                        fail(l, "loading a link", e, s);
                        *sim = Simulator::new(flags(false, true, false, false, MachineInitStrategy::Known { value: 0 }));
                        return None;
                    }
                }
            }
        }
    }
    l.sample(|| show_in(input));
    Some(o)
}
fn gen_valid(n: &str) -> bool {
    !n.is_empty() && n.is_ascii() && n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && gen::valid_label(n) && n.len() < 100
}
fn sim() -> Simulator {
    Simulator::new(flags(false, true, false, false, MachineInitStrategy::Known { value: 0 }))
}
fn main() {
    let mut c = Check::new("C19");
    c.factor(40);
    let many = |r: &mut Rng, l: &mut Local, n: usize, f: &mut dyn FnMut(&mut Rng) -> Input| {
        let mut s = sim();
        let mut prev: Option<ObjectFile> = None;
        for _ in 0..n {
            let i = f(r);
            if let Some(o) = judge(r, l, &i, &mut s) {
                // two hostile files with each other
                if let Some(p) = prev.take() {
                    match guard(|| ObjectFile::link(p, o.clone()).is_ok()) {
                        Err(e) => return l.violation(format!("linking two files that were read panics at {}", e.loc), format!("{}\n{}", e.msg, show_in(&i))),
                        Ok(_) => l.count("links of two hostile files", 1),
                    }
                }
                prev = Some(o);
            }
            if l.viol.len() > 3 {
                return;
            }
        }
    };
    c.random("chunks", 3_000, |r, l| many(r, l, 20, &mut |r| Input::Bin(chunks(r))));
    c.random("sections", 6_000, |r, l| many(r, l, 20, &mut |r| Input::Text(sections(r))));
    c.random("mutations", 3_000, |r, l| {
        let o = SetOpts { n: 2, conflict: 0, overlap: 0, debug: 70, undefined: 50, hostile: 40, rich: 40, huge: 0, many: 0 };
        let Ok(fs) = set(r, &o) else { return l.inconclusive() };
        let Ok((objs, bins, txts)) = guard(|| {
            let mut objs: Vec<ObjectFile> = fs.iter().map(|f| f.obj.clone()).collect();
            if let Ok(x) = ObjectFile::link(objs[0].clone(), objs[1].clone()) {
                objs.push(x);
            }
            let b: Vec<Vec<u8>> = objs.iter().map(BinaryFormat::serialize).collect();
            let t: Vec<String> = objs.iter().map(TextFormat::serialize).collect();
            (objs.len(), b, t)
        }) else {
            return l.inconclusive();
        };
        many(r, l, 25, &mut |r| {
            let k = r.below(objs);
            if r.pct(50) {
                let mut b = bins[k].clone();
                mutate_bytes(r, &mut b);
                Input::Bin(b)
            } else {
                Input::Text(mutate_text(r, &txts[k]))
            }
        });
    });
    c.random("noise", 3_000, |r, l| {
        many(r, l, 40, &mut |r| {
            if r.pct(50) {
                let mut b = if r.pct(80) { b"obj\x21\x10\x00\x01".to_vec() } else { vec![] };
                for _ in 0..r.below(40) {
                    b.push(if r.pct(50) { r.below(6) as u8 } else { r.u8() });
                }
                Input::Bin(b)
            } else {
                let mut t = if r.pct(80) { String::from("LC-3 OBJ FILE\n") } else { String::new() };
                for _ in 0..r.below(60) {
                    match r.below(6) {
                        0 => t.push_str(*r.pick(&[".TEXT\n", ".SYMBOL\n", ".DEBUG\n", ".LINKER_INFO\n", "===\n", "=", "ADDR | LABEL\n", "ADDR | EXT | LABEL\n", "LABEL | INDEX\n", "LINE | ADDR | SOURCE\n"])),
                        1 => t.push('\n'),
                        2 => t.push_str(" | "),
                        3 => {
                            let c = hostile_char(r);
                            t.push(c);
                        }
                        _ => {
                            let h = hex(r);
                            t.push_str(&h);
                        }
                    }
                }
                Input::Text(t)
            }
        });
    });
    // every truncation and every byte value at every place of a few files
    c.exhaustive("truncations and single bytes", 24, |i, r, l| {
        let o = SetOpts { n: 2, conflict: 0, overlap: 0, debug: if i % 3 == 0 { 0 } else { 100 }, undefined: 50, hostile: 0, rich: 0, huge: 0, many: 0 };
        let Ok(fs) = set(r, &o) else { return l.inconclusive() };
        let Ok((b, t)) = guard(|| (BinaryFormat::serialize(&fs[0].obj), TextFormat::serialize(&fs[0].obj))) else { return l.inconclusive() };
        let mut s = sim();
        for k in 0..b.len().min(400) {
            judge(r, l, &Input::Bin(b[..k].to_vec()), &mut s);
            for v in [0u8, 1, 2, 3, 4, 0x7F, 0x80, 0xFF, b[k].wrapping_add(1), b[k].wrapping_sub(1)] {
                let mut x = b.clone();
                x[k] = v;
                judge(r, l, &Input::Bin(x), &mut s);
            }
        }
        for (k, _) in t.char_indices().take(600) {
            judge(r, l, &Input::Text(t[..k].to_string()), &mut s);
            for v in ["", "\n", " ", "|", "=", "0", "F", ".", "\\", "é"] {
                let end = k + t[k..].chars().next().map_or(0, char::len_utf8);
                judge(r, l, &Input::Text(format!("{}{v}{}", &t[..k], &t[end..])), &mut s);
            }
        }
    });
    c.finish(
        "chunk and section files with hostile fields, mutations of valid files, noise, truncations and single-byte changes; what is accepted is rewritten in both formats, reread, loaded, and linked with assembled files that share its labels and with other accepted files, under a panic, overflow and hang monitor; distinct by accepted input",
        &["overflowing arithmetic counts as a panic (it is one in unoptimised builds)"],
        &[("accepted binary files", 10_000), ("accepted text files", 10_000), ("rejected", 10_000), ("linked", 10_000), ("loaded", 5_000), ("refused to load", 2_000), ("links of two hostile files", 5_000)],
    )
}
