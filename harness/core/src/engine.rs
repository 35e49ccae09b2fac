//! A small deterministic property-testing engine.
//!
//! A case is a pure function of a sequence of choices drawn from `Src`. Random
//! cases record the choices they draw; shrinking edits the recorded sequence and
//! replays it, so every generator shrinks without writing a shrinker for it and
//! the shrunk choice sequence is the replay file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ 0x1234567);
    for c in b {
        h = mix(h ^ *c as u64);
    }
    h
}

/// Choice source.
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { state: mix(seed), replay: None, pos: 0, rec: Vec::new() }
    }
    pub fn replay(v: Vec<u64>) -> Src {
        Src { state: 0, replay: Some(v), pos: 0, rec: Vec::new() }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.state)
    }
    /// A choice in 0..bound. Zero is the simplest choice.
    pub fn below(&mut self, bound: u64) -> u64 {
        let bound = bound.max(1);
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if v < bound { v } else { v % bound }
            }
            None => ((self.raw() as u128 * bound as u128) >> 64) as u64,
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// Integer in lo..=hi.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo) as u64 + 1) as usize
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Uniform in [0, 1] with 24 bits.
    pub fn u01(&mut self) -> f64 {
        self.below((1 << 24) + 1) as f64 / (1 << 24) as f64
    }
    /// Uniform f64 in lo..=hi.
    pub fn f64(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.u01()
    }
    pub fn f32(&mut self, lo: f32, hi: f32) -> f32 {
        (self.f64(lo as f64, hi as f64) as f32).clamp(lo, hi)
    }
    /// Logarithmically distributed in lo..=hi (positive).
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + (hi.ln() - lo.ln()) * self.u01()).exp().clamp(lo, hi)
    }
    pub fn logf32(&mut self, lo: f32, hi: f32) -> f32 {
        (self.logf(lo as f64, hi as f64) as f32).clamp(lo, hi)
    }
    pub fn seed(&mut self) -> u64 {
        self.below(1 << 32)
    }
}

pub struct Fail {
    /// Short stable signature; shrinking preserves it and known findings match it.
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) { return $crate::fail($sig, format!($($arg)*)); }
    };
}

/// Per-case context: what the case looked like.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub note: String,
    pub evals: u64,
}

impl Ctx {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.note.len() < 4000 {
            if !self.note.is_empty() {
                self.note.push_str("; ");
            }
            self.note.push_str(s.as_ref());
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<bool> = RefCell::new(false);
}

/// What a worker thread is doing, for the monitor thread.
#[derive(Default)]
struct Slot {
    /// Milliseconds since start of the process plus one, or zero when idle.
    start: AtomicU64,
    /// Seed of the random case.
    seed: AtomicU64,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
static CURRENT_SUB: Mutex<&'static str> = Mutex::new("");
/// Replay files of violations found so far.
static FOUND: Mutex<Vec<String>> = Mutex::new(Vec::new());
static EPOCH: OnceLock<Instant> = OnceLock::new();
thread_local! {
    static SLOT: Arc<Slot> = {
        let s = Arc::new(Slot::default());
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}
fn millis() -> u64 { EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 }

/// Cases take milliseconds; one that has not returned after this long does not terminate.
const HANG_MS: u64 = 150_000;
/// Cases take megabytes.
const MEMORY_MB: u64 = 14_000;

fn resident_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 >> 20
}

/// Reports code that does not return or eats all memory, which no case can observe from inside.
fn monitor(id: &'static str, root: String, seed: u64, limit: u64) {
    millis();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let now = millis();
        let longest = SLOTS.lock().unwrap().iter().map(|s| (s.start.load(Ordering::SeqCst), s.seed.load(Ordering::SeqCst))).filter(|s| s.0 > 0).min();
        let busy = longest.map(|s| now.saturating_sub(s.0)).unwrap_or(0);
        let mb = resident_mb();
        let what = if busy > HANG_MS { Some("a case does not terminate") } else if mb > MEMORY_MB && busy > 1000 { Some("a case exhausts memory") } else { None };
        if let (Some(what), Some((_, case_seed))) = (what, longest) {
            let sub = *CURRENT_SUB.lock().unwrap();
            let dir = format!("{}/replays", root);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{}-hang.replay", dir, id, sub);
            let _ = std::fs::write(&path, format!("property: {}\nsub: {}\nsignature: hang\nseed: {}\nmessage: {} ({} s, {} MB)\nrandom: {}\n", id, sub, seed, what, busy / 1000, mb, case_seed));
            println!("{} {} [hang] {} ({} s, {} MB)", id, sub, what, busy / 1000, mb);
            println!("VIOLATION property={} replay={}", id, path);
            std::process::exit(1);
        }
        if now > limit * 1000 {
            // Running out of time is an error of the check, never a violation.
            eprintln!("watchdog: time limit reached, inconclusive");
            let found = FOUND.lock().unwrap();
            for p in found.iter() { println!("VIOLATION property={} replay={}", id, p); }
            std::process::exit(if found.is_empty() { 3 } else { 1 });
        }
    });
}

fn run_case(f: CaseFn, src: &mut Src) -> (Ctx, Res) {
    SLOT.with(|s| s.start.store(millis() + 1, Ordering::SeqCst));
    let r = run_case_inner(f, src);
    SLOT.with(|s| s.start.store(0, Ordering::SeqCst));
    r
}

fn run_case_inner(f: CaseFn, src: &mut Src) -> (Ctx, Res) {
    let mut ctx = Ctx::default();
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(|| f(src, &mut ctx)));
    QUIET.with(|q| *q.borrow_mut() = false);
    match r {
        Ok(r) => (ctx, r),
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            // The signature of a panic is its file name and message kind, without line numbers.
            let kind: String = m.chars().filter(|c| !c.is_ascii_digit()).take(160).collect();
            (ctx, fail(format!("panic: {}", kind), m))
        }
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let payload = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let quiet = QUIET.with(|q| *q.borrow());
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", payload, loc));
        if !quiet {
            eprintln!("harness panic: {} at {}", payload, loc);
        }
    }));
}

/// Shrinks a failing choice sequence, keeping the failure signature.
fn shrink(f: CaseFn, mut best: Vec<u64>, sig: &str, budget: usize, seconds: u64) -> (Vec<u64>, usize) {
    let mut used = 0usize;
    let start = Instant::now();
    let mut try_it = |cand: &Vec<u64>, used: &mut usize| -> Option<Vec<u64>> {
        *used += 1;
        let mut src = Src::replay(cand.clone());
        let (_, r) = run_case(f, &mut src);
        match r {
            Err(e) if e.sig == sig => {
                let mut rec = src.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some(rec)
            }
            _ => None,
        }
    };
    let less = |a: &Vec<u64>, b: &Vec<u64>| -> bool { a.len() < b.len() || (a.len() == b.len() && a < b) };
    let mut improved = true;
    while improved && used < budget && start.elapsed().as_secs() < seconds {
        improved = false;
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && used < budget && start.elapsed().as_secs() < seconds {
            let mut i = 0;
            while i < best.len() && used < budget && start.elapsed().as_secs() < seconds {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                match try_it(&c, &mut used) {
                    Some(n) if less(&n, &best) => {
                        best = n;
                        improved = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // Zero and reduce single values.
        let mut i = 0;
        while i < best.len() && used < budget && start.elapsed().as_secs() < seconds {
            let v = best[i];
            if v != 0 {
                let mut lo = 0u64;
                let mut hi = v;
                // Try zero first, then bisect.
                while lo < hi && used < budget {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() { break; }
                    c[i] = mid;
                    match try_it(&c, &mut used) {
                        Some(n) if less(&n, &best) => {
                            best = n;
                            improved = true;
                            hi = mid;
                        }
                        _ => lo = mid + 1,
                    }
                }
            }
            i += 1;
        }
    }
    (best, used)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known {
    sub: String,
    sig: String,
    what: String,
}

/// known_findings.tsv: `known<TAB>property<TAB>sub<TAB>signature prefix<TAB>what`.
fn load_known(root: &str, id: &str) -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.tsv", root)) {
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() == 5 && f[0] == "known" && f[1] == id {
                v.push(Known { sub: f[2].into(), sig: f[3].into(), what: f[4].into() });
            }
        }
    }
    v
}

#[derive(Default)]
struct SubStats {
    evals: u64,
    nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

pub fn verif_root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

pub fn main_check(check: Check) -> ! {
    install_hook();
    let root = verif_root();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let mut only: Option<String> = None;
    let mut scale = 1.0f64;
    let mut replay: Option<String> = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--only" => { only = Some(args[i + 1].clone()); i += 1; }
            "--scale" => { scale = args[i + 1].parse().unwrap(); i += 1; }
            "--replay" => { replay = Some(args[i + 1].clone()); i += 1; }
            _ => {}
        }
        i += 1;
    }
    if let Some(path) = replay {
        let s = std::fs::read_to_string(&path).expect("replay file");
        let get = |k: &str| -> String {
            s.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k))).unwrap_or("").to_string()
        };
        let name = get("sub");
        let choices: Vec<u64> = get("choices").split_whitespace().map(|x| x.parse().unwrap()).collect();
        let sub = check.subs.iter().find(|x| x.name == name).expect("sub-check");
        let mut src = match get("random").parse::<u64>() { Ok(r) => Src::random(r), _ => Src::replay(choices) };
        let (ctx, r) = run_case(sub.f, &mut src);
        println!("case: {}", ctx.note);
        match r {
            Ok(()) => { println!("holds"); std::process::exit(0) }
            Err(e) => {
                println!("fails [{}]: {}", e.sig, e.msg);
                println!("VIOLATION property={} replay={}", check.id, path);
                std::process::exit(1)
            }
        }
    }

    let limit: u64 = if tier == "quick" { 780 } else { 6 * 3600 };
    monitor(check.id, root.clone(), seed, limit);

    let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    }).clamp(1, 16);
    let start = Instant::now();
    let known = load_known(&root, check.id);
    let mut known_hit: BTreeMap<usize, u64> = BTreeMap::new();
    let mut violations: Vec<(String, String)> = Vec::new();
    let mut all: Vec<(&'static str, SubStats)> = Vec::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    // Shrinking takes at most a few minutes in total.
    struct Spent { elapsed_s: u64 }
    let mut shrink_time = Spent { elapsed_s: 0 };

    for sub in &check.subs {
        if let Some(o) = &only {
            if !sub.name.contains(o.as_str()) { continue; }
        }
        let n = (((if tier == "quick" { sub.quick } else { sub.thorough }) as f64 * scale) as u64).max(1);
        let base = hash_bytes(seed, format!("{}/{}", check.id, sub.name).as_bytes());
        let stats = Mutex::new(SubStats::default());
        let fails: Mutex<Vec<(u64, Vec<u64>, Fail, String)>> = Mutex::new(Vec::new());
        let hashes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let next = AtomicUsize::new(0);
        const CHUNK: usize = 16;
        let t0 = Instant::now();
        *CURRENT_SUB.lock().unwrap() = sub.name;
        let stop = AtomicUsize::new(usize::MAX);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || loop {
                    let lo = next.fetch_add(CHUNK, Ordering::SeqCst);
                    if lo as u64 >= n || lo > stop.load(Ordering::SeqCst) { break; }
                    let hi = (lo + CHUNK).min(n as usize);
                    let mut local = SubStats::default();
                    let mut lh = Vec::new();
                    for idx in lo..hi {
                        let case_seed = mix(base ^ (idx as u64).wrapping_mul(0x9e3779b97f4a7c15));
                        SLOT.with(|s| s.seed.store(case_seed, Ordering::SeqCst));
                        let mut src = Src::random(case_seed);
                        let (ctx, r) = run_case(sub.f, &mut src);
                        local.evals += 1 + ctx.evals;
                        for l in &ctx.labels { *local.labels.entry(l).or_insert(0) += 1; }
                        if ctx.nontrivial {
                            local.nontrivial += 1;
                            let mut h = base;
                            for v in &src.rec { h = mix(h ^ *v); }
                            lh.push(h);
                        }
                        if idx < 3 || (idx as u64) == n / 2 {
                            local.samples.push(format!("#{}: {}", idx, ctx.note));
                        }
                        if let Err(e) = r {
                            let mut f = fails.lock().unwrap();
                            f.push((idx as u64, src.rec.clone(), e, ctx.note.clone()));
                            if f.len() > 400 { stop.fetch_min(idx, Ordering::SeqCst); }
                        }
                    }
                    let mut s = stats.lock().unwrap();
                    s.evals += local.evals;
                    s.nontrivial += local.nontrivial;
                    for (k, v) in local.labels { *s.labels.entry(k).or_insert(0) += v; }
                    s.samples.extend(local.samples);
                    hashes.lock().unwrap().extend(lh);
                }).unwrap();
            }
        });
        let mut stats = stats.into_inner().unwrap();
        stats.samples.sort();
        distinct.extend(hashes.into_inner().unwrap());
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|f| f.0);
        eprintln!("{} {}: {} cases, {} non-trivial, {} failing, {:.1}s {:?}", check.id, sub.name, stats.evals, stats.nontrivial, fails.len(), t0.elapsed().as_secs_f64(), stats.labels);
        let mut seen_sigs: HashSet<String> = HashSet::new();
        for (idx, rec, e, _note) in &fails {
            if let Some((k, _)) = known.iter().enumerate().find(|(_, k)| k.sub == sub.name && e.sig == k.sig) {
                *known_hit.entry(k).or_insert(0) += 1;
                continue;
            }
            if !seen_sigs.insert(e.sig.clone()) { continue; }
            if seen_sigs.len() > 12 { continue; }
            SLOT.with(|s| s.seed.store(mix(base ^ idx.wrapping_mul(0x9e3779b97f4a7c15)), Ordering::SeqCst));
            let left = 150u64.saturating_sub(shrink_time.elapsed_s);
            let t1 = Instant::now();
            let (small, used) = shrink(sub.f, rec.clone(), &e.sig, 3000, left.min(60));
            shrink_time.elapsed_s += t1.elapsed().as_secs();
            let mut src = Src::replay(small.clone());
            let (ctx, r) = run_case(sub.f, &mut src);
            let msg = match r { Err(e) => e.msg, Ok(()) => e.msg.clone() };
            let dir = format!("{}/replays", root);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{}-{:08x}.replay", dir, check.id, sub.name, hash_bytes(0, e.sig.as_bytes()) as u32);
            let body = format!(
                "property: {}\nsub: {}\nsignature: {}\nseed: {}\ncase: {}\nshrink_steps: {}\ndescription: {}\nmessage: {}\nchoices: {}\n",
                check.id, sub.name, e.sig.replace('\n', " "), seed, idx, used, ctx.note.replace('\n', " "), msg.replace('\n', " "),
                small.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
            );
            let _ = std::fs::write(&path, body);
            println!("{} {} [{}] {} || {}", check.id, sub.name, e.sig, msg, ctx.note);
            FOUND.lock().unwrap().push(path.clone());
            violations.push((path, e.sig.clone()));
        }
        all.push((sub.name, stats));
    }
    for (k, _n) in &known_hit {
        println!("KNOWN-FINDING: property={} {}", check.id, known[*k].what);
    }
    let wall = start.elapsed().as_secs_f64();
    let evals: u64 = all.iter().map(|s| s.1.evals).sum();
    let mut j = String::new();
    let _ = write!(j, "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[",
        json_str(check.id), json_str(tier), seed, evals, distinct.len(), json_str(check.rule));
    let mut first = true;
    for (name, s) in &all {
        for x in s.samples.iter().take(3) {
            if !first { j.push(','); }
            first = false;
            let mut t: String = format!("{} {}", name, x);
            if t.len() > 900 { t = t.chars().take(900).collect(); }
            j.push_str(&json_str(&t));
        }
    }
    j.push_str("],\"sub_checks\":{");
    for (i, (name, s)) in all.iter().enumerate() {
        if i > 0 { j.push(','); }
        let _ = write!(j, "{}:{{\"cases\":{},\"nontrivial\":{},\"labels\":{{", json_str(name), s.evals, s.nontrivial);
        for (k, (l, c)) in s.labels.iter().enumerate() {
            if k > 0 { j.push(','); }
            let _ = write!(j, "{}:{}", json_str(l), c);
        }
        j.push_str("}}");
    }
    let _ = write!(j, "}},\"known_findings_hit\":{}}},\"assumptions\":[", known_hit.len());
    for (i, a) in check.assumptions.iter().enumerate() {
        if i > 0 { j.push(','); }
        j.push_str(&json_str(a));
    }
    let _ = write!(j, "],\"wall_s\":{:.3},\"violations\":{}}}\n", wall, violations.len());
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, check.id), j) {
        eprintln!("cannot write evidence: {}", e);
        std::process::exit(4);
    }
    if violations.is_empty() {
        println!("OK property={} tier={} seed={} cases={} nontrivial={} wall={:.1}s", check.id, tier, seed, evals, distinct.len(), wall);
        std::process::exit(0);
    }
    for (p, _) in &violations {
        println!("VIOLATION property={} replay={}", check.id, p);
    }
    std::process::exit(1);
}

/// Bitwise-or-NaN equality.
pub fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// |a - b| <= abs + rel * max(|a|, |b|); NaN only equals NaN.
pub fn close(a: f64, b: f64, abs: f64, rel: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b { return true; }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
