//! A small property-based testing engine.
//!
//! Every random decision of a generator is drawn from a `Src`, which records it.  A case is a pure
//! function of the recorded choices, so a failing case is shrunk by shrinking its choices, and the
//! choices are what a replay file contains.

pub mod json;
pub mod sha256;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// SplitMix64.
pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in data {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

/// The source of all random choices of a generator.
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    rec: Vec<u64>,
    /// The tier is part of the generator's input so that it can scale sizes.
    pub thorough: bool,
}

impl Src {
    pub fn new(seed: u64, thorough: bool) -> Src {
        Src {
            state: seed,
            replay: None,
            rec: vec![],
            thorough,
        }
    }

    pub fn replay(choices: Vec<u64>, thorough: bool) -> Src {
        Src {
            state: 0,
            replay: Some(choices),
            rec: vec![],
            thorough,
        }
    }

    /// A uniform number below `n`; zero is the simplest one.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => {
                self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                mix(self.state) % n
            }
        };
        self.rec.push(v);
        v
    }

    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }

    pub fn usize(&mut self, lo: usize, hi_incl: usize) -> usize {
        self.range(lo as u64, hi_incl as u64) as usize
    }

    /// True with probability `num`/`den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }

    /// An index chosen according to the weights; shrinks to the first one.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, &w) in weights.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        0
    }

    /// A size up to `max`, small ones being as likely as large ones.
    pub fn size(&mut self, max: usize) -> usize {
        let bits = 64 - (max as u64).leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let lo = 1u64 << (b - 1);
        let hi = ((1u64 << b) - 1).min(max as u64);
        self.range(lo, hi) as usize
    }

    /// Bytes which are a function of two choices only, however many they are.
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        let seed = self.below(1 << 32);
        blob(seed, len)
    }

    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        (0..len).map(|_| self.below(256) as u8).collect()
    }
}

/// Pseudo-random data.
pub fn blob(seed: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    let mut i = 0u64;
    while v.len() < len {
        v.extend_from_slice(&mix(seed.wrapping_mul(0x1_0000_0001).wrapping_add(i)).to_le_bytes());
        i += 1;
    }
    v.truncate(len);
    v
}

/// The outcome of checking one case.
#[derive(Default)]
pub struct Outcome {
    /// The first violation of the property.
    pub violation: Option<String>,
    /// Known findings which were observed.
    pub known: Vec<String>,
    /// Something went wrong in the harness, so the case is inconclusive.
    pub error: Option<String>,
    /// Whether the case is non-trivial according to the rule.
    pub nontrivial: bool,
    /// What kind of cases this one belongs to.
    pub classes: Vec<String>,
    /// How many executions of the code under test it took, if not one.
    pub executions: u64,
}

impl Outcome {
    pub fn new() -> Outcome {
        Outcome::default()
    }
    pub fn class<S: Into<String>>(&mut self, s: S) {
        let s = s.into();
        if !self.classes.contains(&s) {
            self.classes.push(s);
        }
    }
    pub fn fail<S: Into<String>>(&mut self, s: S) {
        if self.violation.is_none() {
            self.violation = Some(s.into());
        }
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some() || self.error.is_some()
    }
}

/// The result of a step inside of a check.
pub enum Stop {
    Violation(String),
    Error(String),
}

pub type Check<T = ()> = Result<T, Stop>;

impl From<std::io::Error> for Stop {
    fn from(e: std::io::Error) -> Stop {
        Stop::Error(format!("harness I/O: {}", e))
    }
}

#[macro_export]
macro_rules! violation {
    ($($arg:tt)*) => { return Err($crate::Stop::Violation(format!($($arg)*))) }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err($crate::Stop::Violation(format!($($arg)*))); } }
}

pub trait Prop: Sync {
    type Case: Debug;
    type Ctx;

    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str;
    fn cases(&self, thorough: bool) -> u64;
    fn ctx(&self, worker: usize) -> Self::Ctx;
    fn gen(&self, s: &mut Src) -> Self::Case;
    fn check(&self, case: &Self::Case, ctx: &mut Self::Ctx, out: &mut Outcome) -> Check;
    /// How many evaluations shrinking may take.
    fn shrink_budget(&self) -> usize {
        600
    }
    fn threads(&self) -> usize {
        8
    }
    /// Whether a failing case need not fail again because of what is left to the scheduler.
    ///
    /// The history that was seen is then sufficient evidence.
    fn racy(&self) -> bool {
        false
    }
}

/// How many failures that could not be reproduced are too many to be accidents of the machine.
const ACCIDENTS: usize = 3;

/// The text of a known finding, if it is listed.
pub fn known(property: &str, key: &str) -> Option<String> {
    static LIST: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let list = LIST.get_or_init(|| {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        std::fs::read_to_string(dir + "/known_findings.txt").unwrap_or_default()
    });
    let start = format!("finding: property={} key={} ", property, key);
    list.lines()
        .find_map(|l| l.strip_prefix(&start))
        .map(|t| t.to_string())
}

pub struct Cfg {
    pub thorough: bool,
    pub seed: u64,
    pub replay: Option<PathBuf>,
    pub cases: Option<u64>,
    /// Stop generating further cases after this time.
    pub budget: Duration,
    pub verif: PathBuf,
}

impl Cfg {
    pub fn from_env() -> Cfg {
        let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let cases = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok());
        let verif = std::env::var_os("VERIF_DIR")
            .map(PathBuf::from)
            .unwrap_or_else(|| PathBuf::from("/verif"));
        let budget = std::env::var("VERIF_BUDGET")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 7200 } else { 420 });
        Cfg {
            thorough,
            seed,
            replay: None,
            cases,
            budget: Duration::from_secs(budget),
            verif,
        }
    }
}

fn id_hash(id: &str) -> u64 {
    hash_bytes(id.as_bytes())
}

fn eval<P: Prop>(p: &P, case: &P::Case, ctx: &mut P::Ctx) -> Outcome {
    let mut out = Outcome::new();
    let r = catch_unwind(AssertUnwindSafe(|| p.check(case, ctx, &mut out)));
    match r {
        Ok(Ok(())) => (),
        Ok(Err(Stop::Violation(v))) => out.fail(v),
        Ok(Err(Stop::Error(e))) => out.error = Some(e),
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            out.error = Some(format!("harness panic: {}", msg));
        }
    }
    out
}

fn gen_choices<P: Prop>(p: &P, choices: Vec<u64>, thorough: bool) -> (P::Case, Vec<u64>) {
    let mut s = Src::replay(choices, thorough);
    let c = p.gen(&mut s);
    (c, s.rec)
}

/// Simplify the choices of a failing case as long as it fails.
fn shrink<P: Prop>(
    p: &P,
    mut best: Vec<u64>,
    mut best_msg: String,
    thorough: bool,
    ctx: &mut P::Ctx,
) -> (Vec<u64>, String) {
    let start = Instant::now();
    let mut budget = p.shrink_budget();
    let limit = Duration::from_secs(if thorough { 300 } else { 60 });
    let mut seen: BTreeSet<Vec<u64>> = BTreeSet::new();
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            if budget > 0 && start.elapsed() < limit && cand != best && seen.insert(cand.clone()) {
                let (case, rec) = gen_choices(p, cand, thorough);
                // Only accept something simpler, or this might not terminate.
                let simpler = (rec.len(), &rec) < (best.len(), &best);
                if simpler {
                    budget -= 1;
                    let out = eval(p, &case, ctx);
                    if let Some(v) = out.violation {
                        best = rec;
                        best_msg = v;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    loop {
        let before = best.clone();
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                if !attempt!(c) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Delete a chunk and decrement an earlier choice, which may be its count.
        for size in [1usize, 2, 3, 4, 6, 8, 12, 16] {
            let mut i = 1;
            while i < best.len() {
                let lo = i.saturating_sub(24);
                let mut done = false;
                for j in (lo..i).rev() {
                    if j < best.len() && best[j] > 0 && i + size <= best.len() {
                        let mut c = best.clone();
                        c[j] -= 1;
                        c.drain(i..i + size);
                        if attempt!(c) {
                            done = true;
                            break;
                        }
                    }
                }
                if !done {
                    i += 1;
                }
                if budget == 0 {
                    break;
                }
            }
        }
        // Zero and lower single choices.
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 || start.elapsed() >= limit {
            break;
        }
    }
    (best, best_msg)
}

struct Totals {
    evaluations: u64,
    executions: u64,
    distinct: BTreeSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    known: BTreeMap<String, u64>,
    errors: Vec<String>,
    failure: Option<(u64, Vec<u64>, String)>,
    unreproduced: Vec<String>,
    /// A failure which is reported though it could not be reproduced.
    unique: Option<(u64, Vec<u64>, String)>,
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

/// Run a check, and exit.
pub fn run<P: Prop>(p: P, cfg: &Cfg) -> i32 {
    // Panics are reported as errors by ourselves.
    std::panic::set_hook(Box::new(|i| eprintln!("harness: {}", i)));
    let start = Instant::now();
    if let Some(path) = &cfg.replay {
        return replay(&p, path, cfg);
    }
    let n = cfg.cases.unwrap_or_else(|| p.cases(cfg.thorough));
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let out_of_time = AtomicBool::new(false);
    let errors = AtomicUsize::new(0);
    let totals = Mutex::new(Totals {
        evaluations: 0,
        executions: 0,
        distinct: BTreeSet::new(),
        classes: BTreeMap::new(),
        samples: vec![],
        known: BTreeMap::new(),
        errors: vec![],
        failure: None,
        unreproduced: vec![],
        unique: None,
    });
    let base = mix(cfg.seed) ^ id_hash(p.id());
    std::thread::scope(|scope| {
        for w in 0..p.threads() {
            let (p, next, stop, totals, errors, out_of_time) =
                (&p, &next, &stop, &totals, &errors, &out_of_time);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    let mut ctx = p.ctx(w);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if start.elapsed() > cfg.budget {
                            out_of_time.store(true, Ordering::SeqCst);
                            break;
                        }
                        let mut s = Src::new(mix(base.wrapping_add(i)), cfg.thorough);
                        let case = p.gen(&mut s);
                        let mut out = eval(p, &case, &mut ctx);
                        if out.error.is_some() {
                            // Try once more.
                            out = eval(p, &case, &mut ctx);
                        }
                        let mut reproduced = true;
                        if out.violation.is_some() {
                            reproduced = false;
                            for _ in 0..if p.racy() { 20 } else { 3 } {
                                if eval(p, &case, &mut ctx).violation.is_some() {
                                    reproduced = true;
                                    break;
                                }
                            }
                        }
                        let mut t = totals.lock().unwrap();
                        t.evaluations += 1;
                        t.executions += out.executions.max(1);
                        for c in &out.classes {
                            *t.classes.entry(c.clone()).or_insert(0) += 1;
                        }
                        for k in out.known {
                            *t.known.entry(k).or_insert(0) += 1;
                        }
                        if out.nontrivial {
                            let text = format!("{:?}", case);
                            t.distinct.insert(hash_bytes(text.as_bytes()));
                            if i < 400 && t.samples.len() < 40 {
                                t.samples.push((i, clip(&text, 1500)));
                            }
                        }
                        if let Some(e) = out.error {
                            eprintln!("case {}: {}", i, e);
                            t.errors.push(format!("case {}: {}", i, e));
                            if errors.fetch_add(1, Ordering::SeqCst) >= 20 {
                                stop.store(true, Ordering::SeqCst);
                            }
                        } else if let Some(v) = out.violation {
                            if reproduced {
                                stop.store(true, Ordering::SeqCst);
                                if t.failure.as_ref().map_or(true, |f| i < f.0) {
                                    t.failure = Some((i, s.rec, v));
                                }
                            } else {
                                eprintln!("case {}: not reproduced: {}", i, v);
                                t.unreproduced.push(format!("case {}: {}", i, clip(&v, 300)));
                                if p.racy() || t.unreproduced.len() >= ACCIDENTS {
                                    stop.store(true, Ordering::SeqCst);
                                    t.unique.get_or_insert((i, s.rec, v));
                                }
                            }
                        }
                    }
                })
                .expect("thread");
        }
    });
    let mut t = totals.into_inner().unwrap();
    t.samples.sort();
    let mut code = 0;
    let mut replay_path = None;
    if let Some((i, choices, msg)) = t.failure.take() {
        eprintln!("case {} failed: {}", i, clip(&msg, 2000));
        let mut ctx = p.ctx(0);
        let (choices, msg) = shrink(&p, choices, msg, cfg.thorough, &mut ctx);
        let path = write_replay(&p, cfg, &choices, &msg);
        eprintln!("shrunk: {}", clip(&msg, 4000));
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        replay_path = Some(path);
        code = 1;
    } else if let Some((i, choices, msg)) = t.unique.take() {
        eprintln!("case {} failed, but not again: {}", i, clip(&msg, 4000));
        let path = write_replay(&p, cfg, &choices, &msg);
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        replay_path = Some(path);
        code = 1;
    } else {
        for (k, n) in &t.known {
            println!("KNOWN-FINDING: property={} {} ({} cases)", p.id(), k, n);
        }
        if !t.errors.is_empty() {
            // An inconclusive case is not an alarm, but if there are many, nothing was checked.
            let limit = (t.evaluations / 100).max(2) as usize;
            if t.errors.len() > limit {
                eprintln!("{} errors in {} cases", t.errors.len(), t.evaluations);
                code = 2;
            }
        }
    }
    let mut cov = json::Obj::new();
    cov.num("evaluations", t.evaluations as f64);
    cov.num("executions_of_the_code", t.executions as f64);
    cov.num("distinct_nontrivial", t.distinct.len() as f64);
    cov.str("rule", p.rule());
    cov.raw(
        "samples",
        json::array(t.samples.iter().take(5).map(|s| json::string(&s.1))),
    );
    let mut classes = json::Obj::new();
    for (k, v) in &t.classes {
        classes.num(k, *v as f64);
    }
    cov.raw("classes", classes.finish());
    cov.num("planned_cases", n as f64);
    cov.raw(
        "stopped_early",
        if out_of_time.load(Ordering::SeqCst) { "true" } else { "false" }.to_string(),
    );
    cov.raw("inconclusive", json::array(t.errors.iter().take(20).map(|s| json::string(&clip(s, 500)))));
    cov.raw("unreproduced", json::array(t.unreproduced.iter().take(20).map(|s| json::string(s))));
    let mut known = json::Obj::new();
    for (k, v) in &t.known {
        known.num(k, *v as f64);
    }
    cov.raw("known_findings", known.finish());
    let mut ev = json::Obj::new();
    ev.str("property", p.id());
    ev.str("tier", if cfg.thorough { "thorough" } else { "quick" });
    ev.num("seed", cfg.seed as f64);
    ev.str("level", p.level());
    ev.raw("coverage", cov.finish());
    ev.num("wall_s", (start.elapsed().as_millis() as f64) / 1000.0);
    ev.str(
        "result",
        match code {
            0 => "held",
            1 => "violated",
            _ => "inconclusive",
        },
    );
    if let Some(path) = replay_path {
        ev.str("replay", &path.display().to_string());
    }
    let dir = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id())), ev.finish() + "\n") {
        eprintln!("cannot write evidence: {}", e);
        if code == 0 {
            code = 2;
        }
    }
    eprintln!(
        "{}: {} cases ({} distinct non-trivial, {} executions) in {:.1} s: {}",
        p.id(),
        t.evaluations,
        t.distinct.len(),
        t.executions,
        start.elapsed().as_secs_f64(),
        match code {
            0 => "held",
            1 => "violated",
            _ => "inconclusive",
        }
    );
    if std::env::var_os("VERIF_VERBOSE").is_some() {
        for (k, v) in &t.classes {
            eprintln!("  {:6} {}", v, k);
        }
    }
    code
}

fn write_replay<P: Prop>(p: &P, cfg: &Cfg, choices: &[u64], msg: &str) -> PathBuf {
    let (case, _) = gen_choices(p, choices.to_vec(), cfg.thorough);
    let mut o = json::Obj::new();
    o.str("property", p.id());
    o.str("tier", if cfg.thorough { "thorough" } else { "quick" });
    o.num("seed", cfg.seed as f64);
    o.raw(
        "choices",
        json::array(choices.iter().map(|c| format!("\"{}\"", c))),
    );
    o.str("violation", msg);
    o.str("case", &clip(&format!("{:?}", case), 200_000));
    let text = o.finish() + "\n";
    let dir = cfg.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:08x}.json", p.id(), hash_bytes(text.as_bytes()) as u32));
    if let Err(e) = std::fs::write(&path, text) {
        eprintln!("cannot write replay: {}", e);
    }
    path
}

fn replay<P: Prop>(p: &P, path: &Path, _cfg: &Cfg) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path.display(), e);
            return 2;
        }
    };
    let v = match json::parse(&text) {
        Some(v) => v,
        None => {
            eprintln!("{}: not JSON", path.display());
            return 2;
        }
    };
    let choices: Vec<u64> = v
        .get("choices")
        .map(|c| c.items().iter().filter_map(|x| x.as_str()?.parse().ok()).collect())
        .unwrap_or_default();
    let thorough = v.get("tier").and_then(|t| t.as_str().map(|s| s == "thorough")) == Some(true);
    let (case, _) = gen_choices(p, choices, thorough);
    println!("case: {:#?}", case);
    let mut ctx = p.ctx(0);
    let mut out = eval(p, &case, &mut ctx);
    for _ in 0..if p.racy() { 200 } else { 0 } {
        if out.violation.is_some() {
            break;
        }
        out = eval(p, &case, &mut ctx);
    }
    if let Some(v) = out.violation {
        println!("{}", v);
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        1
    } else if let Some(e) = out.error {
        println!("error: {}", e);
        2
    } else {
        println!("held; classes: {:?}", out.classes);
        0
    }
}

/// A readable form of some bytes.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(200) {
        for e in std::ascii::escape_default(c) {
            s.push(e as char);
        }
    }
    if b.len() > 200 {
        s.push_str(&format!("… ({} bytes)", b.len()));
    }
    s
}

/// Bytes which are shown readably.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct B(pub Vec<u8>);

impl Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.0.len() > 400 {
            write!(f, "b\"{}\"#{:016x}", show(&self.0), hash_bytes(&self.0))
        } else {
            let mut s = String::new();
            for &c in &self.0 {
                for e in std::ascii::escape_default(c) {
                    s.push(e as char);
                }
            }
            write!(f, "b\"{}\"", s)
        }
    }
}

impl std::ops::Deref for B {
    type Target = Vec<u8>;
    fn deref(&self) -> &Vec<u8> {
        &self.0
    }
}

impl From<Vec<u8>> for B {
    fn from(v: Vec<u8>) -> B {
        B(v)
    }
}

impl From<&[u8]> for B {
    fn from(v: &[u8]) -> B {
        B(v.to_vec())
    }
}

impl From<&str> for B {
    fn from(v: &str) -> B {
        B(v.as_bytes().to_vec())
    }
}

impl From<String> for B {
    fn from(v: String) -> B {
        B(v.into_bytes())
    }
}
