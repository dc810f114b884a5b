//! Shared run-time of every monitor binary: seeded randomness, case bookkeeping, the hang watchdog,
//! known findings, replay files and evidence.

use serde_json::{Value, json};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

/// splitmix64: small, seedable, and the same everywhere.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    #[allow(clippy::should_implement_trait)]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (0 when n is 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn pick_weighted<'a, T>(&mut self, xs: &'a [(u32, T)]) -> &'a T {
        let total: u32 = xs.iter().map(|x| x.0).sum();
        let mut k = self.below(total as usize) as u32;
        for (w, x) in xs {
            if k < *w {
                return x;
            }
            k -= w;
        }
        &xs[xs.len() - 1].1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static PANICS_SEEN: AtomicU64 = AtomicU64::new(0);
static ELSEWHERE: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        PANICS_SEEN.fetch_add(1, Ordering::SeqCst);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("panicked at {at}: {msg}"));
        if !QUIET.with(|q| q.get()) {
            ELSEWHERE.lock().unwrap().push(format!("panicked at {at}: {msg}"));
            eprintln!("panic (unguarded) at {at}: {msg}");
        }
    }));
}

/// Runs code under test; a panic becomes `Err(message with location)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

/// Panics on threads that did not go through `guard` (worker threads of the code under test).
pub fn take_stray_panics() -> Vec<String> {
    std::mem::take(&mut *ELSEWHERE.lock().unwrap())
}

// ---------------------------------------------------------------- several processes at once

/// Runs this program again in as many processes as there are processors to spare, each with a share
/// of the random cases, and merges what they observed. Returns only in such a process.
pub fn fan_out(prop: &str) {
    if std::env::var("VERIF_SHARD").is_ok() {
        return;
    }
    let cores = std::thread::available_parallelism().map_or(1, |n| n.get());
    let n = std::env::var("VERIF_SHARDS").ok().and_then(|v| v.parse().ok()).unwrap_or(cores.saturating_sub(1).clamp(1, 7));
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("jarl-shards-{}-{prop}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("a scratch directory");
    let me = std::env::current_exe().expect("this program");
    let mut children = vec![];
    for i in 0..n {
        let out = std::fs::File::create(dir.join(format!("{i}.log"))).expect("a scratch file");
        let c = std::process::Command::new(&me)
            .args(std::env::args_os().skip(1))
            .env("VERIF_SHARD", i.to_string())
            .env("VERIF_SHARD_DIR", &dir)
            .stdout(out)
            .spawn()
            .expect("this program runs");
        children.push(c);
    }
    // as a shell gives them: 128 and the number of the signal
    let code = |s: std::process::ExitStatus| s.code().or(std::os::unix::process::ExitStatusExt::signal(&s).map(|n| 128 + n));
    let codes: Vec<Option<i32>> = children.into_iter().map(|mut c| c.wait().ok().and_then(code)).collect();
    let (mut printed, mut verdicts) = (BTreeSet::new(), BTreeSet::new());
    for i in 0..n {
        for l in std::fs::read_to_string(dir.join(format!("{i}.log"))).unwrap_or_default().lines() {
            if l.starts_with("VIOLATION ") {
                verdicts.insert(l.to_string());
            } else if !l.starts_with(&format!("{prop}: ")) && (printed.len() < 400 && printed.insert(l.to_string()) || l.is_empty()) {
                println!("{l}");
            }
        }
    }
    let mut ev = Value::Null;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut kinds = BTreeSet::new();
    let mut samples = vec![];
    for i in 0..n {
        let Some(one) = std::fs::read_to_string(dir.join(format!("{i}.json"))).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else { continue };
        let bytes = std::fs::read(dir.join(format!("{i}.distinct"))).unwrap_or_default();
        distinct.extend(bytes.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())));
        for s in one["coverage"]["samples"].as_array().into_iter().flatten() {
            if samples.len() < 24 && kinds.insert(s["kind"].to_string()) {
                samples.push(s.clone());
            }
        }
        if ev.is_null() {
            ev = one;
            continue;
        }
        let add = |a: &Value, b: &Value| json!(a.as_u64().unwrap_or(0) + b.as_u64().unwrap_or(0));
        ev["violations"] = add(&ev["violations"], &one["violations"]);
        ev["coverage"]["evaluations"] = add(&ev["coverage"]["evaluations"], &one["coverage"]["evaluations"]);
        for (k, v) in one["coverage"]["observed"].as_object().into_iter().flatten() {
            ev["coverage"]["observed"][k] = add(&ev["coverage"]["observed"][k], v);
        }
        for k in one["known_findings_seen"].as_array().into_iter().flatten() {
            if let Some(seen) = ev["known_findings_seen"].as_array_mut()
                && !seen.contains(k)
            {
                seen.push(k.clone());
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if !ev.is_null() {
        ev["coverage"]["distinct_nontrivial"] = json!(distinct.len());
        ev["coverage"]["samples"] = json!(samples);
        ev["coverage"]["processes"] = json!(n);
        ev["wall_s"] = json!((start.elapsed().as_secs_f64() * 100.0).round() / 100.0);
        println!("{prop}: {} evaluations, {} distinct non-trivial, {:.1} s in {n} processes", ev["coverage"]["evaluations"], distinct.len(), start.elapsed().as_secs_f64());
        write_evidence(&verif, prop, ev);
    }
    for v in &verdicts {
        println!("{v}");
    }
    // one that ended abnormally counts most, then what was found, then what could not be answered
    let odd = codes.iter().position(|c| !matches!(c, Some(0..=2 | 137))).or(codes.iter().position(|c| *c == Some(137)));
    if !verdicts.is_empty() {
        std::process::exit(1);
    }
    if let Some(i) = odd {
        println!("process {i} ended with status {:?}", codes[i]);
        std::process::exit(codes[i].unwrap_or(2));
    }
    std::process::exit(codes.iter().map(|c| c.unwrap_or(2)).max().unwrap_or(2));
}

fn write_evidence(verif: &std::path::Path, prop: &str, mut ev: Value) {
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut text = serde_json::to_string_pretty(&ev).unwrap();
    if text.len() > 60_000 {
        let short: Vec<String> = ev["coverage"]["samples"].as_array().into_iter().flatten().take(6).map(|s| clip(&s.to_string(), 1500)).collect();
        ev["coverage"]["samples"] = json!(short);
        text = serde_json::to_string_pretty(&ev).unwrap();
    }
    if let Err(e) = std::fs::write(dir.join(format!("{prop}.json")), text) {
        println!("cannot write evidence: {e}");
        std::process::exit(2);
    }
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub key: String,
    pub what: String,
    pub replay: PathBuf,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub rng: Rng,
    pub start: Instant,
    pub budget: Duration,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub buckets: BTreeMap<String, u64>,
    samples: Vec<Value>,
    sample_kinds: BTreeSet<String>,
    violations: Vec<Violation>,
    known: Vec<(String, String)>,
    known_seen: BTreeSet<String>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub extra: BTreeMap<String, Value>,
    pub level: String,
    verif: PathBuf,
}

static CASE: Mutex<Option<(Instant, String)>> = Mutex::new(None);
static DONE: AtomicBool = AtomicBool::new(false);

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        install_panic_hook();
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<i64>().ok())
            .unwrap_or(1) as u64;
        let shard: u64 = std::env::var("VERIF_SHARD").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let secs = std::env::var("VERIF_BUDGET_S")
            .ok()
            .and_then(|s| s.parse::<f64>().ok())
            .unwrap_or(match tier {
                Tier::Quick => 10.0,
                Tier::Thorough => 240.0,
            });
        let mut h = DefaultHasher::new();
        prop.hash(&mut h);
        let known = std::fs::read_to_string(verif.join("known_findings.json"))
            .ok()
            .and_then(|t| serde_json::from_str::<Value>(&t).ok())
            .and_then(|v| v.get("known").cloned())
            .and_then(|v| v.as_array().cloned())
            .unwrap_or_default()
            .iter()
            .filter(|k| k["property"] == prop)
            .map(|k| {
                (
                    k["key"].as_str().unwrap_or_default().to_string(),
                    k["what"].as_str().unwrap_or_default().to_string(),
                )
            })
            .collect();
        let ctx = Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            rng: Rng::new(seed.wrapping_mul(0x1000_0001).wrapping_add(h.finish()).wrapping_add(shard.wrapping_mul(0x5851_F42D_4C95_7F2D))),
            start: Instant::now(),
            budget: Duration::from_secs_f64(secs),
            evaluations: 0,
            distinct: HashSet::new(),
            buckets: BTreeMap::new(),
            samples: vec![],
            sample_kinds: BTreeSet::new(),
            violations: vec![],
            known,
            known_seen: BTreeSet::new(),
            rule: String::new(),
            assumptions: vec![],
            extra: BTreeMap::new(),
            level: "exploration".into(),
            verif,
        };
        ctx.watchdog();
        ctx
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Scales an iteration count to the tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.quick() { quick } else { thorough }
    }

    pub fn verif_dir(&self) -> &std::path::Path {
        &self.verif
    }

    /// True while there is budget left; a fraction lets several phases share it.
    pub fn time_left(&self, upto_fraction: f64) -> bool {
        self.violations.len() < 20
            && self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * upto_fraction
    }

    fn watchdog(&self) {
        let prop = self.prop.clone();
        let dir = self.verif.join("replays");
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if DONE.load(Ordering::SeqCst) {
                    return;
                }
                let stuck = {
                    let g = CASE.lock().unwrap();
                    match &*g {
                        Some((at, what)) if at.elapsed() > Duration::from_secs(45) => {
                            Some(what.clone())
                        }
                        _ => None,
                    }
                };
                if let Some(what) = stuck {
                    let _ = std::fs::create_dir_all(&dir);
                    let path = dir.join(format!("{prop}-hang.json"));
                    let _ = std::fs::write(
                        &path,
                        json!({"property": prop, "what": "no answer within 45 s", "case": what})
                            .to_string(),
                    );
                    println!("no answer within 45 s on: {}", clip(&what, 400));
                    println!("VIOLATION property={prop} replay={}", path.display());
                    std::process::exit(1);
                }
            }
        });
    }

    /// Announces the case about to run (for the hang watchdog and crash replay).
    pub fn case(&mut self, what: impl Into<String>) {
        let what = what.into();
        *CASE.lock().unwrap() = Some((Instant::now(), what));
    }
    pub fn idle(&self) {
        *CASE.lock().unwrap() = None;
    }

    /// One monitored evaluation. `class` is its coverage bucket; `nontrivial` says whether it counts
    /// towards distinct_nontrivial, deduplicated by `ident`.
    pub fn count(&mut self, class: &str, ident: &impl Hash, nontrivial: bool) {
        self.evaluations += 1;
        *self.buckets.entry(class.to_string()).or_insert(0) += 1;
        if nontrivial && self.samples.len() < 24 && !self.sample_kinds.contains(class) {
            let case = CASE.lock().unwrap().as_ref().map(|c| clip(&c.1, 1500));
            if let Some(c) = case {
                self.sample(class, || json!(c));
            }
        }
        if nontrivial && self.distinct.len() < 4_000_000 {
            let mut h = DefaultHasher::new();
            ident.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn bump(&mut self, bucket: &str, by: u64) {
        *self.buckets.entry(bucket.to_string()).or_insert(0) += by;
    }
    pub fn distinct_len(&self) -> usize {
        self.distinct.len()
    }

    /// Keeps one written-out sample per kind, up to 24.
    pub fn sample(&mut self, kind: &str, v: impl FnOnce() -> Value) {
        if self.samples.len() < 24 && self.sample_kinds.insert(kind.to_string()) {
            self.samples.push(json!({"kind": kind, "case": v()}));
        }
    }

    /// Reports a property violation. `key` identifies the failing input and is what a known finding
    /// names; `replay` holds everything needed to run it again.
    pub fn fail(&mut self, key: &str, what: impl Into<String>, replay: Value) {
        let what = what.into();
        if let Some((_, w)) = self.known.iter().find(|(k, _)| k == key) {
            if self.known_seen.insert(key.to_string()) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.prop, w, clip(key, 160));
            }
            return;
        }
        if self.violations.iter().any(|v| v.key == key) || self.violations.len() >= std::env::var("MAXV").ok().and_then(|v| v.parse().ok()).unwrap_or(20) {
            return;
        }
        let dir = self.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let mut h = DefaultHasher::new();
        (key, &what).hash(&mut h);
        let path = dir.join(format!("{}-{:012x}.json", self.prop, h.finish() & 0xffff_ffff_ffff));
        let body = json!({
            "property": self.prop, "seed": self.seed, "tier": format!("{:?}", self.tier),
            "key": key, "what": what, "case": replay,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("violated: {}", clip(&what, 1500));
        self.violations.push(Violation { key: key.to_string(), what, replay: path });
    }

    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }

    /// Writes the evidence, prints the verdict and returns the exit code.
    pub fn finish(mut self) -> ! {
        DONE.store(true, Ordering::SeqCst);
        if self.known.len() > self.known_seen.len() && std::env::var("VERIF_SHARD").is_err() {
            for (k, w) in self.known.clone() {
                if !self.known_seen.contains(&k) {
                    println!("note: listed finding not reproduced in this run: {w} [{}]", clip(&k, 120));
                }
            }
        }
        let mut coverage = json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "samples": self.samples,
            "observed": self.buckets,
        });
        for (k, v) in std::mem::take(&mut self.extra) {
            coverage[k] = v;
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed as i64,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "known_findings_seen": self.known_seen,
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": self.violations.len(),
        });
        match (std::env::var("VERIF_SHARD"), std::env::var("VERIF_SHARD_DIR")) {
            (Ok(i), Ok(dir)) => {
                let dir = PathBuf::from(dir);
                let bytes: Vec<u8> = self.distinct.iter().flat_map(|d| d.to_le_bytes()).collect();
                let _ = std::fs::write(dir.join(format!("{i}.distinct")), bytes);
                let _ = std::fs::write(dir.join(format!("{i}.json")), ev.to_string());
            }
            _ => write_evidence(&self.verif, &self.prop, ev),
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {:.1} s",
            self.prop,
            self.evaluations,
            self.distinct.len(),
            self.start.elapsed().as_secs_f64()
        );
        if self.violations.is_empty() {
            std::process::exit(0);
        }
        for v in &self.violations {
            println!("VIOLATION property={} replay={}", self.prop, v.replay.display());
        }
        std::process::exit(1);
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        let _ = write!(t, "… (+{} chars)", s.chars().count() - n);
        t
    }
}

// ---------------------------------------------------------------- text generators

pub const ODD_CHARS: &[char] = &[
    'é', 'ß', 'λ', '中', '🌍', '👩', '\u{200d}', '\u{301}', '\u{a0}', '\u{2003}', '\u{3000}', '\u{2028}',
    '\u{85}', '\u{feff}', '\u{10ffff}', '\u{0}', '\u{7f}', '\u{b}', '\u{c}', '`', '\\',
];

pub fn odd_char(r: &mut Rng) -> char {
    *r.pick(ODD_CHARS)
}

/// Greedy delta-debugging on characters: the smallest text found that still fails.
pub fn shrink_text(text: &str, mut fails: impl FnMut(&str) -> bool) -> String {
    let mut cur: Vec<char> = text.chars().collect();
    let deadline = Instant::now() + Duration::from_secs(4);
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut shrunk = false;
        while i < cur.len() {
            if Instant::now() > deadline {
                return cur.into_iter().collect();
            }
            let hi = (i + chunk).min(cur.len());
            let cand: String = cur[..i].iter().chain(cur[hi..].iter()).collect();
            if guard(|| fails(&cand)).unwrap_or(false) {
                cur = cand.chars().collect();
                shrunk = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !shrunk {
            return cur.into_iter().collect();
        }
        if !shrunk {
            chunk = (chunk / 2).max(1);
        }
    }
}

/// Greedy removal on a list.
pub fn shrink_list<T: Clone>(items: &[T], mut fails: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = items.to_vec();
    let deadline = Instant::now() + Duration::from_secs(4);
    let mut i = 0;
    while i < cur.len() && Instant::now() < deadline {
        let mut cand = cur.clone();
        cand.remove(i);
        if guard(|| fails(&cand)).unwrap_or(false) {
            cur = cand;
            i = 0;
        } else {
            i += 1;
        }
    }
    cur
}
