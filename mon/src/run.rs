//! Case runner, verdicts, evidence and replay files.
use crate::rng::{hash_bytes, mix, Rng};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub phase: String,
    pub case: u64,
    /// Signature, to match against the known-findings file.
    pub sig: Option<String>,
    pub what: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Local {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viol: Vec<Violation>,
    phase: String,
    case: u64,
    pub harness: Vec<String>,
    inconclusive: u64,
}
impl Local {
    pub fn count(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    /// One oracle decision over an observed execution.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn distinct_str(&mut self, s: &str) {
        self.distinct(hash_bytes(1, s.as_bytes()));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 1500 {
                let mut i = 1500;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, what: impl Into<String>, detail: impl Into<String>) {
        self.viol.push(Violation {
            phase: self.phase.clone(),
            case: self.case,
            sig: None,
            what: what.into(),
            detail: detail.into(),
        });
    }
    pub fn violation_sig(&mut self, sig: &str, what: impl Into<String>, detail: impl Into<String>) {
        self.violation(what, detail);
        self.viol.last_mut().unwrap().sig = Some(sig.to_string());
    }
    pub fn inconclusive(&mut self) {
        self.inconclusive += 1;
    }
    fn merge(&mut self, o: Local) {
        self.evals += o.evals;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        if self.distinct.len() < 16_000_000 {
            self.distinct.extend(o.distinct);
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.viol.extend(o.viol);
        self.harness.extend(o.harness);
        self.inconclusive += o.inconclusive;
    }
}

pub struct Check {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub total: Local,
    threads: usize,
    phases: Vec<(String, u64, bool)>,
    replay: Option<(String, u64)>,
    phase_salt: u64,
    thorough_factor: u64,
    quick_factor: u64,
    deadline: Duration,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

fn payload(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    }
}

pub struct Panicked {
    pub msg: String,
    pub loc: String,
}
impl Panicked {
    /// Whether the panic came from the harness rather than from the code under test.
    pub fn in_harness(&self) -> bool {
        self.loc.starts_with("src/") || self.loc.contains("/mon/src/")
    }
}
/// Runs a call into the code under test, turning a panic into a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|e| {
        let (loc, _) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        Panicked { msg: payload(&*e), loc }
    })
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

impl Check {
    pub fn new(prop: &'static str) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc.clone(), String::new())));
            if !QUIET.with(|q| *q.borrow()) {
                eprintln!("panic at {loc}: {info}");
            }
        }));
        let arg = std::env::args().nth(1);
        let tier = match arg.or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let replay = std::env::var("VERIF_REPLAY").ok().and_then(|s| {
            let (p, c) = s.rsplit_once(':')?;
            Some((p.to_string(), c.parse().ok()?))
        });
        let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(8);
        Check {
            prop,
            tier,
            seed,
            start: Instant::now(),
            total: Local::default(),
            threads: if replay.is_some() { 1 } else { threads },
            phases: vec![],
            replay,
            phase_salt: 0,
            thorough_factor: 40,
            quick_factor: 1,
            deadline: if tier == Tier::Quick { Duration::from_secs(420) } else {
                let s = std::env::var("MON_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
                Duration::from_secs(s)
            },
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Sets by how much the quick tier multiplies the number of random cases.
    pub fn quick_factor(&mut self, f: u64) {
        self.quick_factor = f;
    }
    /// Sets by how much the thorough tier multiplies the number of random cases.
    pub fn factor(&mut self, f: u64) {
        self.thorough_factor = f;
    }
    /// Runs `n` random cases (multiplied in the thorough tier).
    pub fn random(&mut self, name: &str, n: u64, f: impl Fn(&mut Rng, &mut Local) + Sync) {
        let n = if self.quick() { n * self.quick_factor } else { n.saturating_mul(self.thorough_factor) };
        self.run(name, n, false, |_, r, l| f(r, l));
    }
    /// Runs all of `n` enumerated cases.
    pub fn exhaustive(&mut self, name: &str, n: u64, f: impl Fn(u64, &mut Rng, &mut Local) + Sync) {
        self.run(name, n, true, f);
    }
    fn run(&mut self, name: &str, n: u64, exhaustive: bool, f: impl Fn(u64, &mut Rng, &mut Local) + Sync) {
        self.phase_salt += 1;
        let salt = hash_bytes(mix(self.seed), format!("{}/{}", self.prop, name).as_bytes());
        let only = match &self.replay {
            Some((p, _)) if p != name => return,
            Some((_, c)) => Some(*c),
            None => None,
        };
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let finished = AtomicBool::new(false);
        let out: Mutex<Vec<Local>> = Mutex::new(vec![]);
        let start = self.start;
        let deadline = self.deadline;
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 64);
        // Watchdog state: per thread, (case number + 1) and start time in ms.
        let slots: Vec<(AtomicU64, AtomicU64, AtomicU64)> = (0..self.threads).map(|_| Default::default()).collect();
        let prop = self.prop;
        std::thread::scope(|s| {
            let (next, done, stop, out, f, slots, finished) = (&next, &done, &stop, &out, &f, &slots, &finished);
            let mut hs = vec![];
            for slot in slots {
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let tid = std::fs::read_link("/proc/thread-self").ok();
                        let tid = tid.and_then(|p| p.file_name()?.to_str()?.parse::<u64>().ok()).unwrap_or(0);
                        slot.2.store(tid, Ordering::Relaxed);
                        let mut l = Local { phase: name.to_string(), ..Default::default() };
                        'outer: while !stop.load(Ordering::Relaxed) {
                            let b = next.fetch_add(chunk, Ordering::Relaxed);
                            if b >= n || start.elapsed() > deadline {
                                break;
                            }
                            for i in b..(b + chunk).min(n) {
                                let i = only.unwrap_or(i);
                                slot.1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                                slot.0.store(i + 1, Ordering::Relaxed);
                                l.case = i;
                                let mut rng = Rng::new(salt ^ mix(i));
                                if let Err(p) = guard(|| f(i, &mut rng, &mut l)) {
                                    if p.in_harness() {
                                        l.harness.push(format!("{name}:{i}: panic at {}: {}", p.loc, p.msg));
                                        stop.store(true, Ordering::Relaxed);
                                    } else {
                                        l.violation(
                                            format!("the code under test panicked at {}", p.loc),
                                            p.msg,
                                        );
                                    }
                                }
                                slot.0.store(0, Ordering::Relaxed);
                                done.fetch_add(1, Ordering::Relaxed);
                                if l.viol.iter().filter(|v| v.sig.is_none()).count() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                                if only.is_some() {
                                    break 'outer;
                                }
                            }
                        }
                        out.lock().unwrap().push(l);
                    })
                    .unwrap();
                hs.push(h);
            }
            // Watchdog: cases take milliseconds. One that burns 90 s of CPU time does not return;
            // one that waits for 240 s without using the CPU is no answer.
            let seed = self.seed;
            let quick = self.quick();
            let w = s.spawn(move || {
                let cpu = |tid: u64| -> u64 {
                    std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat"))
                        .ok()
                        .and_then(|s| s.split_whitespace().next()?.parse::<u64>().ok())
                        .unwrap_or(0)
                };
                // (case, cpu time when first seen)
                let mut seen: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
                let mut last = Instant::now();
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    if last.elapsed() < Duration::from_secs(1) {
                        continue;
                    }
                    last = Instant::now();
                    let now = start.elapsed().as_millis() as u64;
                    for (k, slot) in slots.iter().enumerate() {
                        let c = slot.0.load(Ordering::Relaxed);
                        if c == 0 {
                            continue;
                        }
                        let t = cpu(slot.2.load(Ordering::Relaxed));
                        if seen[k].0 != c {
                            seen[k] = (c, t);
                            continue;
                        }
                        if t - seen[k].1 > 90_000_000_000 {
                            let rd = verif_dir().join("replay");
                            let _ = std::fs::create_dir_all(&rd);
                            let p = rd.join(format!("{prop}-hang.txt"));
                            let _ = std::fs::write(
                                &p,
                                format!(
                                    "property: {prop}\nwhat: a call used more than 90 s of CPU time and did not return\nreplay: VERIF_SEED={seed} VERIF_REPLAY='{name}:{}' ./check.sh {prop} {}\n",
                                    c - 1,
                                    if quick { "quick" } else { "thorough" }
                                ),
                            );
                            println!("  a call did not return [{name}:{}]", c - 1);
                            println!("VIOLATION property={prop} replay={}", p.display());
                            std::process::exit(1);
                        }
                        if now.saturating_sub(slot.1.load(Ordering::Relaxed)) > 240_000 {
                            println!("INCONCLUSIVE property={prop} phase={name} case={} did not return within 240 s", c - 1);
                            std::process::exit(3);
                        }
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            finished.store(true, Ordering::Relaxed);
            w.join().unwrap();
        });
        let d = done.load(Ordering::Relaxed);
        self.phases.push((name.to_string(), d, exhaustive && d >= n));
        for l in out.into_inner().unwrap() {
            self.total.merge(l);
        }
    }

    /// Runs a closure once on the main thread.
    pub fn once(&mut self, name: &str, f: impl FnOnce(&mut Rng, &mut Local)) {
        if self.replay.as_ref().is_some_and(|(p, _)| p != name) {
            return;
        }
        let salt = hash_bytes(mix(self.seed), format!("{}/{}", self.prop, name).as_bytes());
        let mut l = Local { phase: name.to_string(), ..Default::default() };
        let mut rng = Rng::new(salt);
        if let Err(p) = guard(|| f(&mut rng, &mut l)) {
            if p.in_harness() {
                l.harness.push(format!("{name}: panic at {}: {}", p.loc, p.msg));
            } else {
                l.violation(format!("the code under test panicked at {}", p.loc), p.msg);
            }
        }
        self.phases.push((name.to_string(), 1, false));
        self.total.merge(l);
    }

    /// Writes evidence and replay files, prints the verdict, and exits.
    /// `min` lists counters that have to reach a minimum for the run to be conclusive.
    pub fn finish(self, rule: &str, assumptions: &[&str], min: &[(&str, u64)]) -> ! {
        let dir = verif_dir();
        let known = load_known(self.prop);
        let mut fresh: Vec<&Violation> = vec![];
        let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
        for v in &self.total.viol {
            match &v.sig {
                Some(s) if known.contains_key(s) => *known_hit.entry(s.clone()).or_default() += 1,
                _ => fresh.push(v),
            }
        }
        fresh.sort_by_key(|v| (v.phase.clone(), v.case));
        let wall = self.start.elapsed().as_secs_f64();

        // Evidence
        let mut j = String::new();
        let exh = !self.phases.is_empty() && self.phases.iter().all(|p| p.2);
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"inconclusive_cases\": {},\n  \"cases_per_phase\": {{",
            js(self.prop),
            if self.quick() { "quick" } else { "thorough" },
            self.seed,
            self.total.evals,
            self.total.distinct.len(),
            js(rule),
            exh,
            self.total.inconclusive,
        );
        for (i, (n, d, _)) in self.phases.iter().enumerate() {
            let _ = write!(j, "{}{}: {}", if i > 0 { ", " } else { "" }, js(n), d);
        }
        j.push_str("},\n  \"observed\": {");
        for (i, (k, v)) in self.total.counters.iter().enumerate() {
            let _ = write!(j, "{}{}: {}", if i > 0 { ", " } else { "" }, js(k), v);
        }
        j.push_str("},\n  \"samples\": [");
        let samples: Vec<String> = if self.total.samples.is_empty() { vec!["(no case ran)".into()] } else { self.total.samples.clone() };
        for (i, s) in samples.iter().enumerate() {
            let _ = write!(j, "{}{}", if i > 0 { ", " } else { "" }, js(s));
        }
        j.push_str("]\n },\n \"assumptions\": [");
        for (i, s) in assumptions.iter().enumerate() {
            let _ = write!(j, "{}{}", if i > 0 { ", " } else { "" }, js(s));
        }
        // What check.sh ran beforehand (sanitizer builds).
        for n in std::env::var("MON_NOTES").unwrap_or_default().split(';').filter(|n| !n.is_empty()) {
            let _ = write!(j, ", {}", js(n));
        }
        let _ = write!(j, "],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, fresh.len());
        let ed = dir.join("evidence");
        let _ = std::fs::create_dir_all(&ed);
        if self.replay.is_none() {
            std::fs::write(ed.join(format!("{}.json", self.prop)), j).expect("evidence file");
        }

        for (s, n) in &known_hit {
            println!("KNOWN-FINDING: property={} {} (observed {} times)", self.prop, known[s], n);
        }
        println!(
            "{}: {} evaluations, {} distinct, {:.1}s, {:?}",
            self.prop,
            self.total.evals,
            self.total.distinct.len(),
            wall,
            self.total.counters
        );
        if !fresh.is_empty() {
            let rd = dir.join("replay");
            let _ = std::fs::create_dir_all(&rd);
            let mut seen = BTreeSet::new();
            for v in fresh.iter() {
                if !seen.insert(v.what.clone()) || seen.len() > 5 {
                    continue;
                }
                let p = rd.join(format!("{}-{}.txt", self.prop, seen.len()));
                let body = format!(
                    "property: {}\nwhat: {}\nreplay: VERIF_SEED={} VERIF_REPLAY='{}:{}' ./check.sh {} {}\n\n{}\n",
                    self.prop,
                    v.what,
                    self.seed,
                    v.phase,
                    v.case,
                    self.prop,
                    if self.quick() { "quick" } else { "thorough" },
                    v.detail
                );
                std::fs::write(&p, body).expect("replay file");
                println!("  {} [{}:{}]", v.what, v.phase, v.case);
                println!("VIOLATION property={} replay={}", self.prop, p.display());
            }
            std::process::exit(1);
        }
        if !self.total.harness.is_empty() {
            for h in self.total.harness.iter().take(5) {
                println!("HARNESS-ERROR property={} {}", self.prop, h);
            }
            std::process::exit(2);
        }
        if self.replay.is_none() {
            for (k, m) in min {
                let got = self.total.counters.get(*k).copied().unwrap_or(0);
                if got < *m {
                    println!("INCONCLUSIVE property={}: observed {got} of \"{k}\", need {m}", self.prop);
                    std::process::exit(3);
                }
            }
        }
        std::process::exit(0)
    }
}

/// Lines `known: property=C04 sig=<sig> <text>`.
fn load_known(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else { return m };
    for l in s.lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let Some((p, r)) = r.split_once(" sig=") else { continue };
        let Some((sig, text)) = r.split_once(' ') else { continue };
        if p == prop {
            m.insert(sig.to_string(), text.to_string());
        }
    }
    m
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
