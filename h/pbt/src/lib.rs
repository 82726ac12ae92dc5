//! A small property-based testing engine.
//!
//! * Every random choice of a case is drawn through [`Gen`], bounded and recorded on a tape, so a
//!   case is a pure function of its tape: replaying the tape replays the case, and shrinking edits
//!   the tape (delete, zero, halve, decrement) and keeps whatever still fails.
//! * Case `i` of property `P` under seed `S` is generated from `mix(S, P, i)` alone; the amount of
//!   work is fixed per tier and does not depend on time or on the number of threads.
//! * Cases run in a worker process with stdout closed; a worker that dies on a signal is diagnosed
//!   by re-running the cases that were in flight, one by one, in fresh processes.
//! * Exit 0: held on everything explored (known findings are printed). Exit 1: a VIOLATION line and
//!   a replay file. Exit 2: the check itself could not decide (time, memory, build).
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod json;

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // fixed-key hasher: stable across runs
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(1, 2);
    t.hash(&mut h);
    h.finish()
}

/// Source of all choices of a case.
pub struct Gen {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    pub rec: Vec<u64>,
}

const MAX_TAPE: usize = 400_000;

impl Gen {
    pub fn from_seed(seed: u64) -> Self {
        Gen { tape: vec![], pos: 0, rng: Some(seed), rec: vec![] }
    }
    pub fn from_tape(tape: Vec<u64>) -> Self {
        Gen { tape, pos: 0, rng: None, rec: vec![] }
    }
    fn raw(&mut self) -> u64 {
        if self.rec.len() > MAX_TAPE {
            panic!("pbt: tape too long");
        }
        if self.pos < self.tape.len() {
            self.pos += 1;
            self.tape[self.pos - 1]
        } else if let Some(s) = self.rng.as_mut() {
            splitmix(s)
        } else {
            0
        }
    }
    /// Any u64.
    pub fn u64(&mut self) -> u64 {
        let v = self.raw();
        self.rec.push(v);
        v
    }
    /// Uniform in [0, n); 0 is the simplest choice.
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let from_rng = self.pos >= self.tape.len() && self.rng.is_some();
        let v = self.raw();
        let v = if from_rng { ((v as u128 * n as u128) >> 64) as u64 } else { v.min(n as u64 - 1) };
        self.rec.push(v);
        v as usize
    }
    /// Uniform in [lo, hi].
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// A number in [0, max], small ones far more likely.
    pub fn small(&mut self, max: usize) -> usize {
        let cap = match self.below(8) {
            0..=3 => 3,
            4 | 5 => 8,
            6 => 24,
            _ => max,
        };
        self.below(cap.min(max) + 1)
    }
    /// True with probability num/den; false is the simplest choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index by weight; index 0 is the simplest choice.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub tags: Vec<String>,
    pub finding: Option<String>,
    pub desc: Option<String>,
    pub fp: Option<u64>,
    pub discard: bool,
    want_desc: bool,
    pub units: u64,
}

impl Ctx {
    pub fn tag(&mut self, t: impl Into<String>) {
        self.tags.push(t.into());
    }
    pub fn tag_if(&mut self, c: bool, t: &str) {
        if c {
            self.tags.push(t.to_string());
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Describe the case (evaluated only when the text is kept).
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
    /// A failure from here on is an instance of this listed finding.
    pub fn finding(&mut self, key: &str) {
        self.finding = Some(key.to_string());
    }
    pub fn no_finding(&mut self) {
        self.finding = None;
    }
}

pub type CaseFn = fn(&mut Gen, &mut Ctx) -> Result<(), String>;
/// Hand-written or enumerated cases; None past the last.
pub type DirectedFn = fn(usize, &mut Ctx) -> Option<Result<(), String>>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub case: CaseFn,
    pub directed: Option<DirectedFn>,
    pub quick: usize,
    pub thorough: usize,
    pub threads: usize,
    pub assumptions: &'static [&'static str],
    /// Smallest share (percent) of generated cases that must be non-trivial for the run to count.
    pub min_nontrivial_pct: usize,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)+) => {
        if !($c) {
            return Err(format!($($t)+));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)+) => {{
        let a = &$a;
        let b = &$b;
        if a != b {
            return Err(format!("{}: {:?} != {:?}", format!($($t)+), a, b));
        }
    }};
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if p.is_none() {
                    *p = Some(format!("{msg} at {loc}"));
                }
            }
        });
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let saved = PANIC.with(|p| p.borrow_mut().take());
    let r = catch_unwind(AssertUnwindSafe(f));
    let out = match r {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    };
    PANIC.with(|p| *p.borrow_mut() = saved);
    out
}

fn run_case(p: &Prop, g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match guarded(|| (p.case)(g, ctx)) {
        Ok(r) => r,
        Err(e) if e.contains("pbt: tape too long") => {
            ctx.discard = true;
            Ok(())
        }
        Err(e) => Err(format!("panic: {e}")),
    }
}
fn run_directed(p: &Prop, i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    let d = p.directed?;
    match guarded(|| d(i, ctx)) {
        Ok(r) => r,
        Err(e) => Some(Err(format!("panic: {e}"))),
    }
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut s = hash_of(&(seed, id, i));
    splitmix(&mut s)
}

#[derive(Clone)]
struct Failure {
    directed: bool,
    index: u64,
    tape: Vec<u64>,
    msg: String,
    desc: String,
    finding: Option<String>,
}

/// Tape shrinking: keep any simpler tape that still fails with an unlisted failure.
fn shrink(p: &Prop, f: Failure, known: &HashSet<String>, budget: usize, secs: u64) -> Failure {
    let start = Instant::now();
    let mut best = f;
    let mut tries = 0usize;
    let attempt = |tape: Vec<u64>, tries: &mut usize| -> Option<Failure> {
        *tries += 1;
        let mut g = Gen::from_tape(tape);
        let mut ctx = Ctx { want_desc: true, ..Default::default() };
        match run_case(p, &mut g, &mut ctx) {
            Err(msg) if !ctx.finding.as_ref().is_some_and(|k| known.contains(k)) => Some(Failure {
                directed: false,
                index: 0,
                tape: g.rec,
                msg,
                desc: ctx.desc.unwrap_or_default(),
                finding: ctx.finding,
            }),
            _ => None,
        }
    };
    let simpler = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    if let Some(x) = attempt(best.tape.clone(), &mut tries) {
        best = Failure { index: best.index, ..x };
    } else {
        return best; // does not reproduce from its tape: report as found
    }
    let mut improved = true;
    while improved && tries < budget && start.elapsed().as_secs() < secs {
        improved = false;
        let over = |t: usize| t >= budget || start.elapsed().as_secs() >= secs;
        // delete blocks
        let mut len = best.tape.len().next_power_of_two();
        while len >= 1 {
            let mut i = 0;
            while i < best.tape.len() && !over(tries) {
                let mut t = best.tape.clone();
                let e = (i + len).min(t.len());
                t.drain(i..e);
                match attempt(t, &mut tries) {
                    Some(x) if simpler(&x.tape, &best.tape) => {
                        best = Failure { index: best.index, ..x };
                        improved = true;
                    }
                    _ => i += len,
                }
            }
            len /= 2;
        }
        // zero blocks
        for len in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.tape.len() && !over(tries) {
                let e = (i + len).min(best.tape.len());
                if best.tape[i..e].iter().any(|&x| x != 0) {
                    let mut t = best.tape.clone();
                    t[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(x) = attempt(t, &mut tries) {
                        if simpler(&x.tape, &best.tape) {
                            best = Failure { index: best.index, ..x };
                            improved = true;
                        }
                    }
                }
                i += len;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.tape.len() && !over(tries) {
            let mut lo = 0u64;
            while i < best.tape.len() && lo < best.tape[i] && !over(tries) {
                let v = best.tape[i];
                let mid = lo + (v - lo) / 2;
                let mut t = best.tape.clone();
                t[i] = mid;
                match attempt(t, &mut tries) {
                    Some(x) if simpler(&x.tape, &best.tape) => {
                        best = Failure { index: best.index, ..x };
                        improved = true;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
    }
    best
}

struct Env {
    verif: String,
    seed: u64,
    tier: String,
}

fn known_findings(verif: &str, id: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(format!("{verif}/known_findings.jsonl")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let j = json::parse(l)?;
            if j.get("status")?.str()? != "known" || j.get("property")?.str()? != id {
                return None;
            }
            Some((j.get("key")?.str()?.to_string(), j.get("what")?.str()?.to_string()))
        })
        .collect()
}

fn write_replay(env: &Env, p: &Prop, f: &Failure) -> String {
    let dir = format!("{}/replays", env.verif);
    let _ = fs::create_dir_all(&dir);
    let kind = if f.directed { "directed" } else { "tape" };
    let path = format!("{dir}/{}-{}-{:016x}.json", p.id, kind, hash_of(&(f.directed, f.index, &f.tape)));
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"property\":\"{}\",\"kind\":\"{kind}\",\"index\":{},\"seed\":{},\"tape\":{:?},\"message\":{},\"case\":{},\"how\":\"pbt {} --replay <this file>\"}}\n",
        p.id, f.index, env.seed, f.tape, json::quote(&f.msg), json::quote(&f.desc), p.id
    );
    let _ = fs::write(&path, s);
    path
}

/// What the parent reports when the worker dies or hangs after it has found a failure.
fn fallback(env: &Env, p: &Prop, f: &Failure, progress: &str) {
    let path = write_replay(env, p, f);
    let _ = fs::write(
        format!("{progress}.fallback"),
        format!("# {}: {}\nVIOLATION property={} replay={path}\n", p.id, clip(&f.msg).replace('\n', " | "), p.id),
    );
}

const MAX_SAMPLE: usize = 1500;
fn clip(s: &str) -> String {
    if s.len() <= MAX_SAMPLE {
        return s.to_string();
    }
    let mut e = MAX_SAMPLE;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

/// The worker: runs the whole job in this process, writes its findings and evidence.
fn worker(env: &Env, p: &Prop, n: usize, progress: &str) -> i32 {
    let start = Instant::now();
    let known = known_findings(&env.verif, p.id);
    let known_keys: HashSet<String> = known.iter().map(|k| k.0.clone()).collect();
    let file = Arc::new(fs::File::create(progress).expect("progress file"));
    #[derive(Default)]
    struct Acc {
        evals: u64,
        units: u64,
        discards: u64,
        nontrivial: u64,
        nontrivial_all: u64,
        seen: HashSet<u64>,
        tags: BTreeMap<String, u64>,
        samples: Vec<(u64, String)>,
        fails: Vec<Failure>,
        found: BTreeMap<String, u64>,
    }
    let acc = Mutex::new(Acc::default());
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let threads = p.threads.max(1).min(std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4));
    let started: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let cap = Duration::from_secs(if env.tier == "thorough" { 3600 * 3 } else { 420 });
    let hang = if env.tier == "thorough" { 1200 } else { 240 };
    // directed cases first
    let mut d = 0usize;
    let dstart = Arc::new(AtomicU64::new(start.elapsed().as_secs()));
    {
        let (dstart, id) = (dstart.clone(), p.id);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let v = dstart.load(Ordering::SeqCst);
            if v == u64::MAX {
                return;
            }
            if start.elapsed().as_secs().saturating_sub(v) > hang {
                eprintln!("pbt: a directed case of {id} did not finish in {hang} s: undecided");
                std::process::exit(3);
            }
        });
    }
    let dstack = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(s, || loop {
                let _ = file.write_at(&(1u64 << 63 | d as u64).to_le_bytes(), 0);
                let mut ctx = Ctx { want_desc: true, ..Default::default() };
                dstart.store(start.elapsed().as_secs(), Ordering::SeqCst);
                let Some(r) = run_directed(p, d, &mut ctx) else { return d };
                let mut a = acc.lock().unwrap();
                a.evals += 1;
                a.units += ctx.units.max(1);
                for t in &ctx.tags {
                    *a.tags.entry(t.clone()).or_default() += 1;
                }
                if ctx.nontrivial && a.seen.insert(hash_of(&(u64::MAX, d, ctx.fp))) {
                    a.nontrivial += 1;
                }
                if let Err(msg) = r {
                    match &ctx.finding {
                        Some(k) if known_keys.contains(k) => {
                            *a.found.entry(k.clone()).or_default() += 1;
                        }
                        _ => {
                            let f = Failure {
                                directed: true,
                                index: d as u64,
                                tape: vec![],
                                msg,
                                desc: ctx.desc.unwrap_or_default(),
                                finding: ctx.finding.clone(),
                            };
                            fallback(env, p, &f, progress);
                            a.fails.push(f)
                        }
                    }
                }
                drop(a);
                d += 1;
            })
            .unwrap()
            .join()
            .unwrap_or(0)
    });
    let directed_n = dstack;
    dstart.store(u64::MAX, Ordering::SeqCst);
    if !acc.lock().unwrap().fails.is_empty() {
        stop.store(true, Ordering::SeqCst);
    }
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..threads {
            let (acc, next, stop, timed_out, started, file, known_keys) =
                (&acc, &next, &stop, &timed_out, &started, &file, &known_keys);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        while !stop.load(Ordering::SeqCst) {
                            if start.elapsed() > cap {
                                timed_out.store(true, Ordering::SeqCst);
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n {
                                break;
                            }
                            let _ = file.write_at(&(i as u64 + 1).to_le_bytes(), 8 * (t as u64 + 1));
                            started[t].store(start.elapsed().as_secs(), Ordering::SeqCst);
                            let mut g = Gen::from_seed(case_seed(env.seed, p.id, i as u64));
                            let mut ctx = Ctx { want_desc: i < 24, ..Default::default() };
                            let r = run_case(p, &mut g, &mut ctx);
                            started[t].store(u64::MAX, Ordering::SeqCst);
                            let mut a = acc.lock().unwrap();
                            a.evals += 1;
                            a.units += ctx.units.max(1);
                            if ctx.discard {
                                a.discards += 1;
                                continue;
                            }
                            for t in &ctx.tags {
                                *a.tags.entry(t.clone()).or_default() += 1;
                            }
                            a.nontrivial_all += ctx.nontrivial as u64;
                            if ctx.nontrivial && a.seen.insert(ctx.fp.unwrap_or_else(|| hash_of(&g.rec))) {
                                a.nontrivial += 1;
                                if let Some(d) = ctx.desc.take() {
                                    a.samples.push((i as u64, d));
                                }
                            }
                            if let Err(msg) = r {
                                match &ctx.finding {
                                    Some(k) if known_keys.contains(k) => {
                                        *a.found.entry(k.clone()).or_default() += 1;
                                    }
                                    _ => {
                                        let f = Failure {
                                            directed: false,
                                            index: i as u64,
                                            tape: g.rec,
                                            msg,
                                            desc: ctx.desc.unwrap_or_default(),
                                            finding: ctx.finding.clone(),
                                        };
                                        if a.fails.is_empty() {
                                            fallback(env, p, &f, progress);
                                        }
                                        a.fails.push(f);
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                        }
                        let _ = file.write_at(&0u64.to_le_bytes(), 8 * (t as u64 + 1));
                    })
                    .unwrap(),
            );
        }
        // watchdog: a case that never ends makes the check undecided
        let mut stopped = None;
        while hs.iter().any(|h| !h.is_finished()) {
            std::thread::sleep(Duration::from_millis(20));
            let now = start.elapsed().as_secs();
            if stop.load(Ordering::SeqCst) && now.saturating_sub(*stopped.get_or_insert(now)) > 60 {
                // another case failed: that failure is reported as it was found
                eprintln!("pbt: a case of {} does not end", p.id);
                std::process::exit(3);
            }
            for st in started.iter() {
                let v = st.load(Ordering::SeqCst);
                if v != u64::MAX && now.saturating_sub(v) > hang {
                    eprintln!("pbt: a case of {} did not finish in {hang} s: undecided", p.id);
                    std::process::exit(3);
                }
            }
        }
    });
    let mut a = acc.into_inner().unwrap();
    a.fails.sort_by_key(|f| (!f.directed, f.index));
    let mut report = String::new();
    let mut code = 0;
    if let Some(f) = a.fails.first().cloned() {
        let f = if f.directed {
            f
        } else {
            let (p2, kk) = (p, &known_keys);
            let first = start.elapsed().as_secs();
            std::thread::scope(|s| {
                let h = std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || shrink(p2, f, kk, 4000, 60))
                    .unwrap();
                while !h.is_finished() {
                    std::thread::sleep(Duration::from_millis(20));
                    if start.elapsed().as_secs() - first > 150 {
                        eprintln!("pbt: shrinking does not end");
                        std::process::exit(3);
                    }
                }
                h.join().unwrap()
            })
        };
        let path = write_replay(env, p, &f);
        if let Ok(t) = fs::read_to_string(format!("{progress}.fallback")) {
            // the shrunk replay takes the place of the first one
            if let Some(old) = t.split("replay=").nth(1).map(|x| x.trim()) {
                if old != path {
                    let _ = fs::remove_file(old);
                }
            }
        }
        let _ = writeln!(report, "# {}: {}", p.id, clip(&f.msg).replace('\n', " | "));
        if let Some(k) = &f.finding {
            let _ = writeln!(report, "# classified as {k}, which is not a listed finding");
        }
        let _ = writeln!(report, "VIOLATION property={} replay={}", p.id, path);
        code = 1;
    }
    for (k, _) in a.found.iter() {
        let what = known.iter().find(|x| x.0 == *k).map(|x| x.1.clone()).unwrap_or_default();
        let _ = writeln!(report, "KNOWN-FINDING: property={} {what}", p.id);
    }
    let wall = start.elapsed().as_secs_f64();
    a.samples.sort();
    let samples: Vec<String> = a.samples.iter().take(6).map(|s| json::quote(&clip(&s.1))).collect();
    let tags: Vec<String> = a.tags.iter().map(|(k, v)| format!("{}:{}", json::quote(k), v)).collect();
    let gen_n = (a.evals as usize).saturating_sub(directed_n) - a.discards as usize;
    let weak = code == 0
        && gen_n >= 50
        && (a.nontrivial_all as usize) * 100 < p.min_nontrivial_pct * gen_n;
    let ev = format!(
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"checked_units\":{},\"distinct_nontrivial\":{},\"directed_cases\":{},\"discarded\":{},\"planned\":{},\"stopped_by_time\":{},\"rule\":{},\"classes\":{{{}}},\"known_findings_hit\":{},\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        p.id,
        env.tier,
        env.seed,
        a.evals,
        a.units,
        a.nontrivial,
        directed_n,
        a.discards,
        n,
        timed_out.load(Ordering::SeqCst),
        json::quote(p.rule),
        tags.join(","),
        a.found.values().sum::<u64>(),
        samples.join(","),
        p.assumptions.iter().map(|x| json::quote(x)).collect::<Vec<_>>().join(","),
        wall,
        (code == 1) as u32
    );
    let _ = fs::create_dir_all(format!("{}/evidence", env.verif));
    let _ = fs::write(format!("{}/evidence/{}.json", env.verif, p.id), ev);
    let _ = writeln!(
        report,
        "# {} tier={} seed={} evaluations={} units={} nontrivial={} discarded={} wall={wall:.1}s",
        p.id, env.tier, env.seed, a.evals, a.units, a.nontrivial, a.discards
    );
    if weak {
        let _ = writeln!(report, "# {}: the generator produced too few non-trivial cases", p.id);
        code = 2;
    }
    let _ = fs::write(format!("{progress}.report"), report);
    code
}

/// Entry point of a harness binary: `bin <PROPERTY> [--cases N] [--replay FILE]`.
pub fn main(props: &[Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}; have {:?}", props.iter().map(|p| p.id).collect::<Vec<_>>());
        std::process::exit(2);
    };
    let env = Env {
        verif: std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough".into(),
            _ => "quick".into(),
        },
    };
    let n = get("--cases")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if env.tier == "thorough" { p.thorough } else { p.quick });
    install_hook();
    let on_big_stack = |f: Box<dyn FnOnce() -> i32 + Send>| -> ! {
        let r = std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join();
        std::process::exit(r.unwrap_or(2))
    };
    let p: &'static Prop = unsafe { &*(p as *const Prop) };
    if let Some(path) = get("--replay") {
        let text = fs::read_to_string(&path).expect("replay file");
        let j = json::parse(&text).expect("replay json");
        let directed = j.get("kind").and_then(|k| k.str()) == Some("directed");
        let index = j.get("index").and_then(|x| x.num()).unwrap_or(0) as usize;
        let tape = j.get("tape").map(|t| t.nums()).unwrap_or_default();
        let known: HashSet<String> = known_findings(&env.verif, p.id).into_iter().map(|k| k.0).collect();
        on_big_stack(Box::new(move || {
            let mut ctx = Ctx { want_desc: true, ..Default::default() };
            let r = if directed {
                run_directed(p, index, &mut ctx).unwrap_or(Ok(()))
            } else if tape.is_empty() && j.get("kind").and_then(|k| k.str()) == Some("seeded") {
                let seed = j.get("seed").and_then(|x| x.num()).unwrap_or(1);
                run_case(p, &mut Gen::from_seed(case_seed(seed, p.id, index as u64)), &mut ctx)
            } else {
                run_case(p, &mut Gen::from_tape(tape), &mut ctx)
            };
            println!("case: {}", ctx.desc.clone().unwrap_or_default());
            match r {
                Ok(()) => {
                    println!("replay of {path}: held");
                    0
                }
                Err(e) if ctx.finding.as_ref().is_some_and(|k| known.contains(k)) => {
                    println!("{e}\nKNOWN-FINDING: property={} {}", p.id, ctx.finding.unwrap());
                    0
                }
                Err(e) => {
                    println!("{e}");
                    println!("VIOLATION property={} replay={path}", p.id);
                    1
                }
            }
        }));
    }
    if let Some(i) = get("--single") {
        let i: u64 = i.parse().unwrap();
        let seed = env.seed;
        on_big_stack(Box::new(move || {
            let mut ctx = Ctx::default();
            let r = if i >> 63 == 1 {
                run_directed(p, (i & !(1 << 63)) as usize, &mut ctx).unwrap_or(Ok(()))
            } else {
                run_case(p, &mut Gen::from_seed(case_seed(seed, p.id, i)), &mut ctx)
            };
            let _ = std::io::stderr().write_all(format!("{r:?}\n").as_bytes());
            0
        }));
    }
    if let Some(progress) = get("--worker") {
        let code = worker(&env, p, n, &progress);
        std::process::exit(code);
    }
    // parent
    let dir = std::env::temp_dir().join(format!("pbt-{}-{}", p.id, std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let progress = dir.join("progress").to_string_lossy().to_string();
    let exe = std::env::current_exe().unwrap();
    let verbose = std::env::var("PBT_VERBOSE").is_ok();
    let st = Command::new(&exe)
        .args([p.id, "--worker", &progress, "--cases", &n.to_string()])
        .stdin(Stdio::null())
        .stdout(if verbose { Stdio::inherit() } else { Stdio::null() })
        .current_dir(&dir)
        .status()
        .expect("worker");
    let code = match (st.code(), st.signal()) {
        (Some(c @ (0 | 1 | 2)), _) if fs::metadata(format!("{progress}.report")).is_ok() => {
            print!("{}", fs::read_to_string(format!("{progress}.report")).unwrap_or_default());
            c
        }
        _ if fs::metadata(format!("{progress}.fallback")).is_ok() => {
            print!("{}", fs::read_to_string(format!("{progress}.fallback")).unwrap_or_default());
            println!("# {}: the worker did not end by itself ({st}); the failure is as it was found", p.id);
            1
        }
        (Some(c), _) => {
            println!("# {}: worker ended with code {c}: undecided", p.id);
            2
        }
        (None, Some(sig)) if sig == 6 || sig == 11 || sig == 4 || sig == 7 || sig == 8 => {
            // find the case that killed it
            let b = fs::read(&progress).unwrap_or_default();
            let mut ids = vec![];
            for (k, c) in b.chunks_exact(8).enumerate() {
                let v = u64::from_le_bytes(c.try_into().unwrap());
                if k == 0 {
                    ids.push(v);
                } else if v != 0 {
                    ids.push(v - 1);
                }
            }
            let mut code = 2;
            for i in ids.into_iter().rev() {
                let st = Command::new(&exe)
                    .args([p.id, "--single", &i.to_string()])
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .current_dir(&dir)
                    .status();
                if let Ok(st) = st {
                    if st.signal() == Some(sig) {
                        let directed = i >> 63 == 1;
                        let path = format!("{}/replays/{}-crash-{:x}.json", env.verif, p.id, i);
                        let _ = fs::create_dir_all(format!("{}/replays", env.verif));
                        let _ = fs::write(
                            &path,
                            format!(
                                "{{\"property\":\"{}\",\"kind\":\"{}\",\"index\":{},\"seed\":{},\"tape\":[],\"message\":\"process killed by signal {sig}\"}}\n",
                                p.id,
                                if directed { "directed" } else { "seeded" },
                                i & !(1 << 63),
                                env.seed
                            ),
                        );
                        println!("# {}: case {i:x} kills the process with signal {sig}", p.id);
                        println!("VIOLATION property={} replay={path}", p.id);
                        code = 1;
                        break;
                    }
                }
            }
            if code == 2 {
                println!("# {}: worker died on signal {sig}, not reproduced: undecided", p.id);
            }
            code
        }
        (None, s) => {
            println!("# {}: worker ended by signal {s:?}: undecided", p.id);
            2
        }
    };
    let _ = fs::remove_dir_all(&dir);
    std::process::exit(code)
}
