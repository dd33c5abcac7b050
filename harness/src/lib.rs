//! Driver shared by all checks: exhaustive case enumeration over stages,
//! panic capture, replay files, known findings and evidence.
pub mod inputs;
pub mod tools;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type CaseResult = Result<(), String>;

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

/// Per-worker measurements and the description of the running case.
pub struct Local {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: HashSet<u64>,
    verbose: bool,
    sampling: bool,
    description: String,
    known_hits: BTreeMap<String, String>,
    counters: BTreeMap<&'static str, u64>,
    beat: Option<(Arc<Vec<(AtomicU64, AtomicU64)>>, usize, Instant)>,
}

const MAX_OUTCOMES: usize = 200_000;

impl Local {
    fn new(verbose: bool) -> Self {
        Local {
            states: 0, transitions: 0, traces: 0, outcomes: HashSet::new(),
            verbose, sampling: false, description: String::new(), known_hits: BTreeMap::new(),
            counters: BTreeMap::new(), beat: None,
        }
    }
    /// A long case is making progress.
    pub fn alive(&self) {
        if let Some((r, t, base)) = &self.beat { r[*t].1.store(base.elapsed().as_secs(), Ordering::Relaxed); }
    }
    /// Describes the current case; evaluated only when a failure is replayed
    /// or a sample is wanted.
    pub fn describe<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose { self.description = f(); }
    }
    pub fn verbose(&self) -> bool { self.verbose }
    /// Only the description is wanted (expensive cases may stop after it).
    pub fn sampling(&self) -> bool { self.sampling }
    /// Records an observed outcome (fingerprint), to show non-vacuity.
    pub fn outcome(&mut self, fp: u64) {
        if self.outcomes.len() < MAX_OUTCOMES { self.outcomes.insert(fp); }
    }
    pub fn count(&mut self, name: &'static str, by: u64) {
        *self.counters.entry(name).or_insert(0) += by;
    }
    pub fn max(&mut self, name: &'static str, v: u64) {
        let e = self.counters.entry(name).or_insert(0);
        if *e < v { *e = v; }
    }
    /// A failure identified by `key`: tolerated iff listed as known finding.
    pub fn finding(&mut self, check: &Check, key: &str, msg: String) -> CaseResult {
        if check.known.contains(key) {
            self.known_hits.insert(key.to_string(), msg);
            Ok(())
        } else {
            Err(format!("[{}] {}", key, msg))
        }
    }
}

struct StageRecord { json: String }

pub struct Check {
    pub id: &'static str,
    level: &'static str,
    pub tier: String,
    pub seed: u64,
    start: Instant,
    replay: Option<(String, u64)>,
    replay_seen: bool,
    stages: Vec<StageRecord>,
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: u64,
    cases: u64,
    samples: Vec<String>,
    assumptions: Vec<String>,
    violations: Vec<String>,
    known: HashSet<String>,
    known_hits: BTreeMap<String, String>,
    rule: String,
    only: Option<String>,
    skip: Option<String>,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

/// Whether this is the build without overflow checks (see run.sh).
pub fn plain_build() -> bool {
    std::env::var("MC_BUILD").map(|b| b == "plain").unwrap_or(false)
}

pub fn esc(s: &str) -> String {
    let mut r = String::with_capacity(s.len() + 2);
    r.push('"');
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"), '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() }
    else { s.chars().take(n).collect::<String>() + "..." }
}

/// Runs `f`, turning a panic into an Err with the panic message.
pub fn guarded<T, F: FnOnce() -> Result<T, String>>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}",
            PANIC_MSG.with(|m| m.borrow().clone()))),
    }
}

/// True iff `f` panics.
pub fn refuses<F: FnOnce()>(f: F) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else { "?".to_string() };
        let loc = info.location()
            .map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism()
            .map(|n| n.get()).unwrap_or(4)).max(1)
}

/// A single case making no progress for this long counts as a hang.
fn hang_secs(tier: &str) -> u64 { if tier == "thorough" { 7200 } else { 400 } }

impl Check {
    pub fn new(id: &'static str, level: &'static str) -> Check {
        install_hook();
        let args: Vec<String> = std::env::args().collect();
        let mut tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
        let mut replay = None;
        let mut only = None;
        let mut skip = None;
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "--tier" => { tier = args[i + 1].clone(); i += 1; }
                "--skip" => { skip = Some(args[i + 1].clone()); i += 1; }
                "--only" => { only = Some(args[i + 1].clone()); i += 1; }
                "--replay" => {
                    replay = Some((args[i + 1].clone(),
                                   args[i + 2].parse().unwrap()));
                    i += 2;
                }
                other => { eprintln!("unknown argument {}", other);
                    std::process::exit(2); }
            }
            i += 1;
        }
        if tier != "quick" && tier != "thorough" { tier = "quick".into(); }
        let seed = std::env::var("VERIF_SEED").ok()
            .and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = HashSet::new();
        if let Ok(text) = std::fs::read_to_string(
            format!("{}/known_findings.txt", verif_dir())) {
            for line in text.lines() {
                let pre = format!("known: property={} ", id);
                if let Some(rest) = line.strip_prefix(&pre) {
                    if let Some(key) = rest.split_whitespace().next() {
                        if let Some(k) = key.strip_prefix("key=") {
                            known.insert(k.to_string());
                        }
                    }
                }
            }
        }
        Check {
            id, level, tier, seed, start: Instant::now(), replay,
            replay_seen: false, stages: vec![],
            states: 0, transitions: 0, traces: 0, outcomes: 0, cases: 0,
            samples: vec![], assumptions: vec![], violations: vec![], known,
            known_hits: BTreeMap::new(), rule: String::new(), only, skip,
        }
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn rule(&mut self, s: &str) { self.rule = s.to_string(); }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.to_string()); }

    /// Executes all `cases` of a stage, in parallel, in ascending order of
    /// preference: the failing case with the smallest index is reported.
    pub fn stage<F>(&mut self, name: &str, bound: &str, cases: u64, f: F)
        where F: Fn(&Check, u64, &mut Local) -> CaseResult + Sync {
        if let Some(only) = &self.only {
            if !name.starts_with(only.as_str()) { return; }
        }
        if self.skip.as_ref().map_or(false, |s| name.starts_with(s.as_str())) { return; }
        if let Some((stage, case)) = self.replay.clone() {
            if stage == name {
                self.replay_seen = true;
                let mut l = Local::new(true);
                let r = guarded(|| f(&*self, case, &mut l));
                println!("replay {} {} case {}: {}", self.id, name, case, l.description);
                match r {
                    Ok(()) => println!("replay: passes"),
                    Err(e) => {
                        println!("replay: FAILS: {}", e);
                        self.violations.push(e);
                    }
                }
            }
            return;
        }
        if !self.violations.is_empty() { return; }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let min_fail = AtomicU64::new(u64::MAX);
        let chunk = (cases / (threads() as u64 * 64)).clamp(1, 4096);
        let total: Mutex<Local> = Mutex::new(Local::new(false));
        let this = &*self;
        let nthreads = threads().min(cases.max(1) as usize);
        let running: Arc<Vec<(AtomicU64, AtomicU64)>> =
            Arc::new((0..nthreads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
        let done = AtomicBool::new(false);
        let base = Instant::now();
        std::thread::scope(|s| {
            let mut handles = vec![];
            for t in 0..nthreads {
                let (next, min_fail, total, f, running) =
                    (&next, &min_fail, &total, &f, &running);
                handles.push(std::thread::Builder::new()
                    .stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut l = Local::new(false);
                    l.beat = Some((running.clone(), t, base));
                    loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= cases { break; }
                        for case in a..(a + chunk).min(cases) {
                            if case > min_fail.load(Ordering::Relaxed) { break; }
                            running[t].1.store(base.elapsed().as_secs(), Ordering::Relaxed);
                            running[t].0.store(case, Ordering::Relaxed);
                            if guarded(|| f(this, case, &mut l)).is_err() {
                                min_fail.fetch_min(case, Ordering::Relaxed);
                            }
                        }
                        running[t].0.store(u64::MAX, Ordering::Relaxed);
                    }
                    running[t].0.store(u64::MAX, Ordering::Relaxed);
                    let mut g = total.lock().unwrap();
                    g.states += l.states;
                    g.transitions += l.transitions;
                    g.traces += l.traces;
                    for o in l.outcomes { g.outcome(o); }
                    for (k, v) in l.known_hits { g.known_hits.insert(k, v); }
                    for (k, v) in l.counters {
                        if k.starts_with("max") { g.max(k, v); } else { g.count(k, v); }
                    }
                }).unwrap());
            }
            let (done, running, name) = (&done, &running, name);
            s.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = base.elapsed().as_secs();
                    for r in running.iter() {
                        let case = r.0.load(Ordering::Relaxed);
                        if case != u64::MAX &&
                            now > r.1.load(Ordering::Relaxed) + hang_secs(&this.tier) {
                            let path = this.write_replay(name, case,
                                "no progress (hang)", "");
                            println!("VIOLATION property={} replay={}",
                                     this.id, path);
                            println!("stage {} case {} hangs", name, case);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in handles { h.join().unwrap(); }
            done.store(true, Ordering::Relaxed);
        });
        let l = total.into_inner().unwrap();
        let fail = min_fail.load(Ordering::Relaxed);
        let mut desc = vec![];
        if fail == u64::MAX {
            for &case in &[0, cases / 2, cases.saturating_sub(1)] {
                if cases == 0 || (case == 0 && !desc.is_empty()) { continue; }
                if self.samples.len() >= 60 { break; }
                let mut v = Local::new(true);
                v.sampling = true;
                // Bounded re-execution just to obtain a written-out sample.
                let _ = guarded(|| f(&*self, case, &mut v));
                if !v.description.is_empty() {
                    desc.push(format!("{} case {}: {}", name, case,
                                      clip(&v.description, 400)));
                }
            }
            desc.dedup();
            self.samples.extend(desc);
        } else {
            let mut msgs = vec![];
            let mut description = String::new();
            for _ in 0..2 {
                let mut v = Local::new(true);
                msgs.push(match guarded(|| f(&*self, fail, &mut v)) {
                    Ok(()) => "NOT REPRODUCED".to_string(), Err(e) => e,
                });
                description = v.description;
            }
            let mut msg = msgs[0].clone();
            if msgs[0] != msgs[1] || msgs[0] == "NOT REPRODUCED" {
                msg = format!("the behaviour differs between executions of the \
                    same case: first {:?}, then {:?}", msgs[0], msgs[1]);
            }
            let path = self.write_replay(name, fail, &msg, &description);
            println!("VIOLATION property={} replay={}", self.id, path);
            println!("  stage {} case {}: {}", name, fail, clip(&description, 1500));
            println!("  {}", clip(&msg, 1500));
            self.violations.push(msg);
        }
        let secs = t0.elapsed().as_secs_f64();
        let mut extra = String::new();
        for (k, v) in l.counters.iter() {
            extra.push_str(&format!(", {}: {}", esc(k), v));
        }
        eprintln!("[{}] {:<28} cases {:>10} states {:>11} transitions {:>12} traces {:>10} outcomes {:>7} {:.1}s {}",
                  self.id, name, cases, l.states, l.transitions, l.traces,
                  l.outcomes.len(), secs, extra);
        self.stages.push(StageRecord { json: format!(
            "{{\"stage\": {}, \"bound\": {}, \"cases\": {}, \"states\": {}, \
              \"transitions\": {}, \"traces\": {}, \"distinct_outcomes\": {}, \
              \"completed\": {}, \"wall_s\": {:.3}{}}}",
            esc(name), esc(bound), cases, l.states, l.transitions, l.traces,
            l.outcomes.len(), fail == u64::MAX, secs, extra) });
        self.states += l.states;
        self.transitions += l.transitions;
        self.traces += l.traces;
        self.outcomes += l.outcomes.len() as u64;
        self.cases += cases;
        for (k, v) in l.known_hits { self.known_hits.insert(k, v); }
    }

    fn write_replay(&self, stage: &str, case: u64, msg: &str, desc: &str) -> String {
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}.json", dir, self.id);
        let body = format!(
            "{{\"property\": {}, \"tier\": {}, \"stage\": {}, \"case\": {}, \
              \"failure\": {}, \"input\": {}, \"command\": {}}}\n",
            esc(self.id), esc(&self.tier), esc(stage), case, esc(msg), esc(desc),
            esc(&format!("bash /verif/run.sh {} {} {}--replay {} {}",
                         self.id, self.tier, if plain_build() { "--build plain " } else { "" }, stage, case)));
        let _ = std::fs::write(&path, body);
        path
    }

    pub fn finish(self) -> ! {
        if self.replay.is_some() {
            if !self.replay_seen {
                println!("no such stage");
                std::process::exit(2);
            }
            std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
        }
        for (k, v) in self.known_hits.iter() {
            println!("KNOWN-FINDING: property={} {} {}", self.id, k, clip(v, 300));
        }
        let samples = self.samples.iter().map(|s| esc(s))
            .collect::<Vec<_>>().join(", ");
        let stages = self.stages.iter().map(|s| s.json.clone())
            .collect::<Vec<_>>().join(",\n   ");
        let assumptions = self.assumptions.iter().map(|s| esc(s))
            .collect::<Vec<_>>().join(", ");
        let counts = if self.level == "model_checking" {
            format!("\"states\": {}, \"transitions\": {}, \
                     \"traces_validated_against_impl\": {}",
                    self.states, self.transitions, self.traces)
        } else {
            format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}",
                    self.transitions, self.states, esc(&self.rule))
        };
        let ev = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \
              \"coverage\": {{{},\n  \"distinct_outcomes\": {}, \"exhaustive\": {},\n  \
              \"stages\": [{}],\n  \"samples\": [{}]}},\n \
              \"assumptions\": [{}],\n \"known_findings_hit\": {},\n \
              \"wall_s\": {:.3}, \"violations\": {}}}\n",
            esc(self.id), esc(&self.tier), self.seed, esc(self.level), counts,
            self.outcomes, self.violations.is_empty() && self.only.is_none() && self.skip.is_none(), stages, samples,
            assumptions, self.known_hits.len(),
            self.start.elapsed().as_secs_f64(), self.violations.len());
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}{}.json", dir, self.id, if plain_build() { ".plain" } else { "" }), ev).unwrap();
        if self.violations.is_empty() {
            println!("OK property={}{} tier={} cases={} states={} transitions={} \
                      traces={} wall={:.1}s", self.id, if plain_build() { " (plain build)" } else { "" }, self.tier, self.cases,
                     self.states, self.transitions, self.traces,
                     self.start.elapsed().as_secs_f64());
            std::process::exit(0);
        }
        std::process::exit(1);
    }
}

/// 64-bit mixing, used for fingerprints of outcomes and states.
pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 32)
}

/// Digits of `case` in base `radix`, most significant first.
pub fn digits(mut case: u64, radix: u64, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for i in (0..len).rev() {
        v[i] = (case % radix) as usize;
        case /= radix;
    }
    v
}

/// Sum of radix^k for k in 0..=len: number of words of length up to len.
pub fn words_up_to(radix: u64, len: usize) -> u64 {
    (0..=len).map(|k| radix.pow(k as u32)).sum()
}

/// The `case`-th word in length-then-lexicographic order.
pub fn word(mut case: u64, radix: u64) -> Vec<usize> {
    let mut len = 0;
    loop {
        let n = radix.pow(len as u32);
        if case < n { return digits(case, radix, len); }
        case -= n;
        len += 1;
    }
}

/// Splits a case number into mixed-radix coordinates (first varies slowest).
pub fn split(mut case: u64, radices: &[u64]) -> Vec<u64> {
    let mut v = vec![0; radices.len()];
    for i in (0..radices.len()).rev() {
        v[i] = case % radices[i];
        case /= radices[i];
    }
    assert_eq!(case, 0);
    v
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}

/// Cases that need a lot of memory take their share (in MB) of ten gigabytes first, so that a
/// stage never runs out of memory however many threads there are.
pub struct Share(u64);
static SHARES: (Mutex<u64>, std::sync::Condvar) = (Mutex::new(0), std::sync::Condvar::new());
impl Share {
    pub fn take(mb: u64) -> Share {
        let mut used = SHARES.0.lock().unwrap_or_else(|e| e.into_inner());
        while *used > 0 && *used + mb > 10_000 {
            used = SHARES.1.wait(used).unwrap_or_else(|e| e.into_inner());
        }
        *used += mb;
        Share(mb)
    }
}
impl Drop for Share {
    fn drop(&mut self) {
        *SHARES.0.lock().unwrap_or_else(|e| e.into_inner()) -= self.0;
        SHARES.1.notify_all();
    }
}
