//! Exhaustive, index-addressed exploration engine.
//!
//! A property is decided by a list of *families*. A family is a finite space `0..n` together with a
//! function that runs the real implementation on the `i`-th element (an input, an operation history,
//! a tree of random outcomes, ...) and compares every observation with the reference model. The
//! engine runs every element of every family; nothing is sampled.
//!
//! Process structure: `run` is a supervisor that starts `worker` (the exploration itself). If the
//! worker is killed by a signal (stack overflow, abort, segmentation fault) or hangs on one element,
//! the supervisor isolates the element in a fresh process and turns it into a counterexample.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    /// identifies a specific failing input / call site / history (for the known-findings file)
    pub key: Option<String>,
}
pub type R = Result<(), Violation>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Violation { msg: format!($($a)*), key: None }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::engine::Violation { msg: format!($($a)*), key: None }) } };
}

pub type Eval = Box<dyn Fn(u64, &mut Ctx) -> R + Send + Sync>;
pub type Show = Box<dyn Fn(u64) -> String + Send + Sync>;

pub struct Family {
    pub name: String,
    pub about: String,
    pub n: u64,
    pub eval: Eval,
    pub show: Show,
    /// seconds one element may take before it is examined as a possible hang
    pub patience: u64,
}

pub fn family(
    name: &str,
    about: impl Into<String>,
    n: u64,
    eval: impl Fn(u64, &mut Ctx) -> R + Send + Sync + 'static,
    show: impl Fn(u64) -> String + Send + Sync + 'static,
) -> Family {
    Family { name: name.into(), about: about.into(), n, eval: Box::new(eval), show: Box::new(show), patience: 40 }
}

pub struct Prop {
    pub families: Vec<Family>,
    pub assumptions: Vec<String>,
    pub rule: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

const SHARDS: usize = 64;
const STATE_CAP: u64 = 60_000_000;

struct Seen {
    shards: Vec<Mutex<HashSet<u64, Ident>>>,
    total: AtomicU64,
}
#[derive(Clone, Copy, Default)]
struct Ident;
impl std::hash::BuildHasher for Ident {
    type Hasher = IdH;
    fn build_hasher(&self) -> IdH {
        IdH(0)
    }
}
struct IdH(u64);
impl std::hash::Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}

/// Per-thread exploration context: counts what was covered.
pub struct Ctx {
    seen: Option<&'static Seen>,
    buf: Vec<Vec<u64>>,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    outcomes: HashSet<u64>,
    found: Vec<Violation>,
    pub verbose: bool,
    pub slow: Option<std::sync::Arc<Slot>>,
}

pub fn fp(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0x9e37_79b9_7f4a_7c15 ^ (bytes.len() as u64);
    let mut it = bytes.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    last[..it.remainder().len()].copy_from_slice(it.remainder());
    mix(h ^ u64::from_le_bytes(last))
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Ctx {
    fn new(seen: Option<&'static Seen>) -> Ctx {
        Ctx {
            seen,
            buf: vec![Vec::new(); SHARDS],
            states: 0,
            transitions: 0,
            traces: 0,
            counts: BTreeMap::new(),
            maxima: BTreeMap::new(),
            outcomes: HashSet::new(),
            found: vec![],
            verbose: false,
            slow: None,
        }
    }
    pub fn fresh() -> Ctx {
        Ctx::new(None)
    }
    /// A distinct input/implementation state, deduplicated by fingerprint over the whole run.
    #[inline]
    pub fn state(&mut self, bytes: &[u8]) {
        self.state_fp(fp(bytes))
    }
    #[inline]
    pub fn state_fp(&mut self, h: u64) {
        let Some(seen) = self.seen else { return };
        let s = (h >> 58) as usize;
        self.buf[s].push(h);
        if self.buf[s].len() >= 512 {
            Self::flush_shard(seen, s, &mut self.buf[s]);
        }
    }
    fn flush_shard(seen: &Seen, s: usize, b: &mut Vec<u64>) {
        if seen.total.load(Relaxed) < STATE_CAP {
            let mut g = seen.shards[s].lock().unwrap();
            let before = g.len();
            g.extend(b.iter().copied());
            seen.total.fetch_add((g.len() - before) as u64, Relaxed);
        }
        b.clear();
    }
    fn flush(&mut self) {
        if let Some(seen) = self.seen {
            for s in 0..SHARDS {
                Self::flush_shard(seen, s, &mut self.buf[s]);
            }
        }
    }
    /// `n` calls into the implementation were executed.
    #[inline]
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// One complete behaviour was compared with the reference model.
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    #[inline]
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    #[inline]
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// Observed outcome (to show that the exploration is not vacuous).
    #[inline]
    pub fn outcome(&mut self, bytes: &[u8]) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(fp(bytes));
        }
    }
    /// Report a violation and go on (used where several can occur in one element).
    pub fn report(&mut self, v: Violation) {
        if self.found.len() < 1000 {
            self.found.push(v);
        }
    }
    /// Tell the watchdog that a long element is making progress.
    pub fn alive(&self) {
        if let Some(s) = &self.slow {
            s.since.store(now_ms(), Relaxed);
        }
    }
}

pub struct Slot {
    fam: AtomicUsize,
    case: AtomicU64,
    since: AtomicU64, // ms since start, 0 = idle
}

fn start() -> Instant {
    use std::sync::OnceLock;
    static S: OnceLock<Instant> = OnceLock::new();
    *S.get_or_init(Instant::now)
}
fn now_ms() -> u64 {
    start().elapsed().as_millis() as u64 + 1
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc, msg));
    }));
}
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Run implementation code that may panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let p = last_panic();
        if harness_location(&p.0) {
            harness_error(&format!("panic in the harness at {}: {}", p.0, p.1));
        }
        p
    })
}
pub fn harness_location(l: &str) -> bool {
    l.starts_with("src/")
}
pub fn harness_error(msg: &str) -> ! {
    eprintln!("CHECK-ERROR: {msg}");
    std::process::exit(2)
}

/// Evaluate one element; panics of the implementation become violations.
fn eval_case(f: &Family, i: u64, ctx: &mut Ctx) -> Vec<Violation> {
    ctx.found.clear();
    let r = catch_unwind(AssertUnwindSafe(|| (f.eval)(i, ctx)));
    rand::seam::end();
    let mut out = std::mem::take(&mut ctx.found);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(v)) => out.push(v),
        Err(_) => {
            let (loc, msg) = last_panic();
            if harness_location(&loc) {
                harness_error(&format!("panic in the harness at {loc}: {msg} ({} #{i})", f.name));
            }
            out.push(Violation { msg: format!("the implementation panicked at {loc}: {msg}"), key: None });
        }
    }
    out
}

struct KnownEntry {
    key: String,
    what: String,
}

pub struct Paths {
    pub root: PathBuf,
}
impl Paths {
    pub fn get() -> Paths {
        Paths { root: PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())) }
    }
}

fn known(root: &Path, id: &str) -> Vec<KnownEntry> {
    let p = root.join("known_findings.json");
    let Ok(s) = fs::read_to_string(&p) else { return vec![] };
    let j: serde_json::Value =
        serde_json::from_str(&s).unwrap_or_else(|e| harness_error(&format!("known_findings.json: {e}")));
    let text = |v: &serde_json::Value, k: &str| v[k].as_str().unwrap_or_default().to_string();
    j["known"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|e| e["property"] == id)
        .map(|e| KnownEntry { key: text(e, "key"), what: text(e, "what") })
        .collect()
}

/// for the terminal only; the replay file has the whole text
fn short(s: &str) -> String {
    if s.chars().count() <= 4000 {
        return s.to_string();
    }
    let n = s.chars().count();
    s.chars().take(2000).chain(" [...] ".chars()).chain(s.chars().skip(n - 1500)).collect()
}

fn write_replay(root: &Path, id: &str, f: &Family, case: u64, tier: Tier, msg: &str, note: &str) -> PathBuf {
    let dir = root.join("replay");
    let _ = fs::create_dir_all(&dir);
    let build = build_name();
    let p = dir.join(format!("{id}-{}-{case}{}.json", f.name, if build == "release" { String::new() } else { format!("-{build}") }));
    let j = serde_json::json!({
        "property": id, "build": build, "family": f.name, "case": case, "tier": format!("{tier:?}").to_lowercase(),
        "element": (f.show)(case), "violation": msg, "note": note,
        "replay": format!("/verif/check.sh replay {}", p.display()),
    });
    let _ = fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

/// Name of the build this process explores in: "release" (with debug assertions) unless MC_BUILD says otherwise.
pub fn build_name() -> String {
    std::env::var("MC_BUILD").unwrap_or_else(|_| "release".into())
}
/// Where a first run in another build leaves its coverage for the main run.
fn twin_file(root: &Path, id: &str) -> PathBuf {
    root.join(".build").join(format!("twin-{id}.json"))
}

fn slots_file(root: &Path, id: &str) -> PathBuf {
    root.join(".build").join(format!("slots-{id}-{}", std::process::id()))
}

pub struct RunArgs {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<String>,
}

/// The exploration proper. Exit code: 0 held, 1 violation, 2 harness error, 3 hang (slots file tells where).
pub fn worker(a: &RunArgs, prop: Prop, slots_path: &Path) -> i32 {
    start();
    install_hook();
    let root = Paths::get().root;
    let threads: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let cap = Duration::from_secs(
        std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(a.tier.pick(380, 6 * 3600)),
    );
    let prop: &'static Prop = Box::leak(Box::new(prop));
    let seen: &'static Seen = Box::leak(Box::new(Seen {
        shards: (0..SHARDS).map(|_| Mutex::new(HashSet::default())).collect(),
        total: AtomicU64::new(0),
    }));
    let knowns = known(&root, &a.id);
    let known_hits: Vec<AtomicU64> = knowns.iter().map(|_| AtomicU64::new(0)).collect();
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let unknown: Mutex<Option<(usize, u64, Violation)>> = Mutex::new(None);
    let slots: Vec<std::sync::Arc<Slot>> = (0..threads)
        .map(|_| {
            std::sync::Arc::new(Slot { fam: AtomicUsize::new(0), case: AtomicU64::new(0), since: AtomicU64::new(0) })
        })
        .collect();
    let slot_file = fs::File::create(slots_path).ok();
    let mut total = Ctx::new(Some(seen));
    let mut fam_rows = vec![];
    let mut samples: Vec<serde_json::Value> = vec![];
    std::thread::scope(|sc| {
        // the watchdog must end too when this thread panics (a closed stderr, a bug here)
        struct End<'a>(&'a AtomicBool);
        impl Drop for End<'_> {
            fn drop(&mut self) {
                self.0.store(true, Relaxed);
            }
        }
        let _end = End(&finished);
        // watchdog
        let slots_w = &slots;
        let finished_r = &finished;
        sc.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            if finished_r.load(Relaxed) {
                return;
            }
            for s in slots_w {
                let since = s.since.load(Relaxed);
                let fi = s.fam.load(Relaxed);
                if since != 0 && now_ms() > since + prop.families[fi].patience * 1000 * leniency() {
                    let case = s.case.load(Relaxed);
                    println!("HANG {} {}", fi, case);
                    let _ = std::io::stdout().flush();
                    std::process::exit(3);
                }
            }
        });
        for (fi, f) in prop.families.iter().enumerate() {
            if a.only.as_ref().map_or(false, |o| !f.name.contains(o.as_str())) {
                continue;
            }
            if stop.load(Relaxed) {
                break;
            }
            let t0 = Instant::now();
            let next = AtomicU64::new(0);
            let done = AtomicU64::new(0);
            let chunk = (f.n / (threads as u64 * 32)).clamp(1, 2048);
            let parts: Vec<Ctx> = std::thread::scope(|sc2| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        let (next, done, stop, capped, unknown, slots, slot_file, knowns, known_hits) =
                            (&next, &done, &stop, &capped, &unknown, &slots, &slot_file, &knowns, &known_hits);
                        let body = move || {
                            let mut ctx = Ctx::new(Some(seen));
                            let slot = &slots[t];
                            ctx.slow = Some(slot.clone());
                            slot.fam.store(fi, Relaxed);
                            'outer: loop {
                                if stop.load(Relaxed) {
                                    break;
                                }
                                if start().elapsed() > cap {
                                    capped.store(true, Relaxed);
                                    break;
                                }
                                let lo = next.fetch_add(chunk, Relaxed);
                                if lo >= f.n {
                                    break;
                                }
                                let hi = (lo + chunk).min(f.n);
                                if let Some(fl) = slot_file {
                                    use std::os::unix::fs::FileExt;
                                    let mut b = [0u8; 32];
                                    b[..8].copy_from_slice(&(fi as u64 + 1).to_le_bytes());
                                    b[8..16].copy_from_slice(&lo.to_le_bytes());
                                    b[16..24].copy_from_slice(&hi.to_le_bytes());
                                    let _ = fl.write_all_at(&b, t as u64 * 32);
                                }
                                for i in lo..hi {
                                    slot.case.store(i, Relaxed);
                                    slot.since.store(now_ms(), Relaxed);
                                    let vs = eval_case(f, i, &mut ctx);
                                    slot.since.store(0, Relaxed);
                                    done.fetch_add(1, Relaxed);
                                    for v in vs {
                                        let k = v.key.as_ref().and_then(|k| knowns.iter().position(|e| &e.key == k));
                                        match k {
                                            Some(k) => {
                                                known_hits[k].fetch_add(1, Relaxed);
                                            }
                                            None => {
                                                let mut u = unknown.lock().unwrap();
                                                if u.as_ref().map_or(true, |o| (o.0, o.1) > (fi, i)) {
                                                    *u = Some((fi, i, v));
                                                }
                                                stop.store(true, Relaxed);
                                                break 'outer;
                                            }
                                        }
                                    }
                                }
                            }
                            ctx.flush();
                            ctx
                        };
                        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc2, body).unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
            });
            let (mut st, mut tr, mut tv) = (0, 0, 0);
            for c in parts {
                st += c.states;
                tr += c.transitions;
                tv += c.traces;
                for (k, v) in c.counts {
                    *total.counts.entry(k).or_insert(0) += v;
                }
                for (k, v) in c.maxima {
                    let e = total.maxima.entry(k).or_insert(0);
                    *e = (*e).max(v);
                }
                total.outcomes.extend(c.outcomes);
            }
            total.states += st;
            total.transitions += tr;
            total.traces += tv;
            let d = done.load(Relaxed);
            fam_rows.push(serde_json::json!({"family": f.name, "about": f.about, "elements": f.n, "explored": d,
                "complete": d == f.n, "transitions": tr, "traces": tv, "wall_s": t0.elapsed().as_secs_f64()}));
            if samples.len() < 12 && f.n > 0 {
                samples.push(serde_json::json!({"family": f.name, "case": f.n / 2, "element": (f.show)(f.n / 2)}));
            }
            eprintln!(
                "[{}] {:<28} {:>12}/{:<12} {:>8.2}s  transitions {:>12} traces {:>12}",
                a.id, f.name, d, f.n, t0.elapsed().as_secs_f64(), tr, tv
            );
        }
    });
    let _ = fs::remove_file(slots_path);

    let twin = build_name() != "release";
    let mut code = 0;
    let mut violations = 0;
    if let Some((fi, i, v)) = unknown.into_inner().unwrap() {
        violations = 1;
        let f = &prop.families[fi];
        let again = |_: u32| eval_case(f, i, &mut Ctx::fresh()).iter().any(|w| w.msg == v.msg || w.key == v.key);
        let reps = (0..2).filter(|k| again(*k)).count();
        let note = if reps == 2 {
            "reproduced twice in isolation".to_string()
        } else {
            format!("reproduced {reps} of 2 times in isolation: it depends on what the process did before (elements {}..={i} of the family were explored on several threads)", 0)
        };
        let p = write_replay(&root, &a.id, f, i, a.tier, &v.msg, &note);
        println!("family {} element #{}: {}\n  {}\n  ({})", f.name, i, short(&(f.show)(i)), short(&v.msg), note);
        if twin {
            println!("  (build without debug assertions)");
        }
        println!("VIOLATION property={} replay={}", a.id, p.display());
        code = 1;
    }
    let mut known_rows = vec![];
    for (k, e) in knowns.iter().enumerate() {
        let hits = known_hits[k].load(Relaxed);
        if hits > 0 {
            if build_name() != "release" {
                continue;
            }
            println!("KNOWN-FINDING: property={} {}", a.id, e.what);
            known_rows.push(serde_json::json!({"key": e.key, "elements": hits}));
        }
    }
    let hashed = seen.total.load(Relaxed);
    let is_capped = capped.load(Relaxed);
    let complete = !is_capped && code == 0 && a.only.is_none();
    let mut cov = serde_json::json!({
        "states": total.states + hashed,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "distinct_observed_outcomes": total.outcomes.len(),
        "exhaustive": complete,
        "families": fam_rows,
        "samples": samples,
        "rule": prop.rule,
        "known_findings_hit": known_rows,
    });
    let c: BTreeMap<String, u64> = total.counts.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let m: BTreeMap<String, u64> = total.maxima.iter().map(|(k, v)| (format!("max_{k}"), *v)).collect();
    cov["counters"] = serde_json::json!(c);
    cov["maxima"] = serde_json::json!(m);
    if hashed >= STATE_CAP {
        cov["state_count_note"] = "fingerprint store full: states is a lower bound".into();
    }
    let tf = twin_file(&root, &a.id);
    if !twin && a.only.is_none() {
        // what the same enumeration covered in the build without debug assertions, just before
        if let Some(o) = fs::read_to_string(&tf).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()) {
            for k in ["transitions", "traces_validated_against_impl"] {
                cov[k] = (cov[k].as_u64().unwrap_or(0) + o["coverage"][k].as_u64().unwrap_or(0)).into();
            }
            cov["build_without_debug_assertions"] = serde_json::json!({
                "transitions": o["coverage"]["transitions"], "traces_validated_against_impl": o["coverage"]["traces_validated_against_impl"],
                "exhaustive": o["coverage"]["exhaustive"], "wall_s": o["wall_s"],
                "note": "the same families were explored in this build first; its transitions and traces are included in the totals, its states are the same"});
        }
        let _ = fs::remove_file(&tf);
    }
    if is_capped {
        cov["cap"] = format!("wall cap of {} s hit; families not marked complete were explored up to 'explored' elements in index order", cap.as_secs()).into();
        println!("note: wall cap hit; exploration incomplete (see evidence)");
    }
    let ev = serde_json::json!({
        "property": a.id, "tier": format!("{:?}", a.tier).to_lowercase(), "seed": a.seed, "level": "model_checking",
        "coverage": cov, "assumptions": prop.assumptions, "wall_s": start().elapsed().as_secs_f64(),
        "violations": violations,
    });
    if a.only.is_none() {
        let dir = root.join("evidence");
        let _ = fs::create_dir_all(&dir);
        let to = if twin && code == 0 { tf } else { dir.join(format!("{}.json", a.id)) };
        if let Err(e) = fs::write(to, serde_json::to_string_pretty(&ev).unwrap()) {
            harness_error(&format!("cannot write evidence: {e}"));
        }
    }
    eprintln!(
        "[{}{}] states {} transitions {} traces {} outcomes {} wall {:.1}s{}",
        a.id,
        if twin { " without debug assertions" } else { "" },
        total.states + hashed,
        total.transitions,
        total.traces,
        total.outcomes.len(),
        start().elapsed().as_secs_f64(),
        if is_capped { " (CAPPED)" } else { "" }
    );
    if a.only.is_some() || std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("{}", serde_json::to_string_pretty(&serde_json::json!({"counters": c, "maxima": m})).unwrap());
    }
    code
}

/// Evaluate one element in this process. Exit code 0 held, 1 violated.
pub fn single(prop: &Prop, family: usize, case: u64) -> i32 {
    install_hook();
    let f = &prop.families[family];
    let f: &'static Family = unsafe { &*(f as *const Family) };
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut c = Ctx::fresh();
            c.verbose = true;
            eval_case(f, case, &mut c)
        })
        .unwrap();
    let vs = h.join().expect("thread");
    println!("family {} element #{}: {}", f.name, case, short(&(f.show)(case)));
    for v in &vs {
        println!("  {}{}", short(&v.msg), v.key.as_ref().map(|k| format!(" [key {k}]")).unwrap_or_default());
    }
    if vs.is_empty() {
        println!("  held");
        0
    } else {
        1
    }
}

fn run_child(args: &[String], timeout: Option<Duration>) -> (Option<i32>, bool, String) {
    use std::process::*;
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe).args(args).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| harness_error(&format!("spawn: {e}")));
    let mut out = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut out, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => return (st.code(), false, rd.join().unwrap_or_default()),
            Ok(None) => {
                if timeout.map_or(false, |t| t0.elapsed() > t) {
                    let _ = c.kill();
                    let _ = c.wait();
                    return (None, true, rd.join().unwrap_or_default());
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            Err(e) => harness_error(&format!("wait: {e}")),
        }
    }
}

/// How many times longer than usual an element may take before it counts as hanging.
fn leniency() -> u64 {
    std::env::var("MC_LENIENCY").ok().and_then(|v| v.parse().ok()).unwrap_or(1)
}

/// Supervise a worker process.
pub fn supervise(a: &RunArgs, build: &dyn Fn() -> Prop) -> i32 {
    let root = Paths::get().root;
    let slots = slots_file(&root, &a.id);
    let tier = format!("{:?}", a.tier).to_lowercase();
    let mut args = vec!["worker".to_string(), a.id.clone(), tier.clone(), slots.display().to_string()];
    if let Some(o) = &a.only {
        args.push(o.clone());
    }
    let (code, _, out) = run_child(&args, None);
    print!("{}", out);
    if matches!(code, Some(0 | 1 | 2)) {
        return code.unwrap();
    }
    let prop = build();
    let evidence = |what: &str, fam: &Family, case: u64| {
        let ev = serde_json::json!({
            "property": a.id, "tier": tier, "seed": a.seed, "level": "model_checking",
            "coverage": {"states": case, "transitions": case, "traces_validated_against_impl": 0,
                "samples": [{"family": fam.name, "case": case, "element": (fam.show)(case)}],
                "note": format!("exploration ended early: {what}")},
            "wall_s": 0.0, "violations": 1});
        let _ = fs::write(root.join("evidence").join(format!("{}.json", a.id)), serde_json::to_string_pretty(&ev).unwrap());
    };
    let violation = |what: &str, fi: usize, case: u64| -> i32 {
        let f = &prop.families[fi];
        evidence(what, f, case);
        let p = write_replay(&root, &a.id, f, case, a.tier, what, "isolated in a fresh process");
        println!("family {} element #{}: {}\n  {}", f.name, case, (f.show)(case), what);
        println!("VIOLATION property={} replay={}", a.id, p.display());
        1
    };
    let single_args =
        |fi: usize, case: u64| vec!["single".to_string(), a.id.clone(), tier.clone(), fi.to_string(), case.to_string()];
    match code {
        Some(3) => {
            let _ = fs::remove_file(&slots);
            let Some((fi, case)) = out.lines().find_map(|l| {
                let mut w = l.strip_prefix("HANG ")?.split(' ');
                Some((w.next()?.parse::<usize>().ok()?, w.next()?.parse::<u64>().ok()?))
            }) else {
                harness_error("hang without location")
            };
            let patience = prop.families[fi].patience * 3 * leniency();
            let (c, timed_out, o) = run_child(&single_args(fi, case), Some(Duration::from_secs(patience)));
            if timed_out {
                return violation(&format!("does not terminate (no answer within {patience} s in a fresh process)"), fi, case);
            }
            match c {
                // a busy machine: explore again with more patience
                Some(0) if leniency() < 64 => {
                    std::env::set_var("MC_LENIENCY", (leniency() * 8).to_string());
                    supervise(a, build)
                }
                Some(0) => harness_error(&format!("family {} element {case} was too slow, but answers in isolation", prop.families[fi].name)),
                Some(1) => violation(o.lines().nth(1).unwrap_or("violated").trim(), fi, case),
                None => violation("the process is killed by a signal (crash, stack overflow or memory exhaustion)", fi, case),
                _ => harness_error("harness error while isolating a hang"),
            }
        }
        Some(c) => c,
        None => {
            // killed by a signal: run the blocks that were being explored again, each in a process of its own that notes
            // where it is; the first to die tells the element
            let data = fs::read(&slots).unwrap_or_default();
            let _ = fs::remove_file(&slots);
            let blocks: Vec<(usize, u64, u64, PathBuf)> = data
                .chunks_exact(32)
                .enumerate()
                .filter_map(|(n, s)| {
                    let g = |k: usize| u64::from_le_bytes(s[k * 8..k * 8 + 8].try_into().unwrap());
                    (g(0) != 0).then(|| (g(0) as usize - 1, g(1), g(2), slots.with_extension(format!("at{n}"))))
                })
                .collect();
            let mut running: Vec<Option<std::process::Child>> = blocks
                .iter()
                .map(|(fi, lo, hi, at)| {
                    let exe = std::env::current_exe().unwrap();
                    let n = [fi.to_string(), lo.to_string(), hi.to_string()];
                    std::process::Command::new(exe).arg("range").arg(&a.id).arg(&tier).args(n).arg(at).stdout(std::process::Stdio::null()).spawn().ok()
                })
                .collect();
            let t0 = Instant::now();
            let mut found = None;
            while found.is_none() && t0.elapsed() < Duration::from_secs(300) && running.iter().any(|r| r.is_some()) {
                for (r, (fi, _, _, at)) in running.iter_mut().zip(&blocks) {
                    if let Some(Ok(Some(st))) = r.as_mut().map(|c| c.try_wait()) {
                        *r = None;
                        if st.code().is_none() {
                            let at = fs::read(at).unwrap_or_default();
                            found = at.try_into().ok().map(|b| (*fi, u64::from_le_bytes(b)));
                        }
                    }
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            for (r, b) in running.iter_mut().zip(&blocks) {
                if let Some(c) = r {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                let _ = fs::remove_file(&b.3);
            }
            if let Some((fi, case)) = found {
                return violation("the process is killed by a signal (crash, stack overflow or memory exhaustion)", fi, case);
            }
            harness_error("worker was killed by a signal and the crash could not be isolated")
        }
    }
}

/// Evaluate a range silently (used to isolate crashes).
pub fn range(prop: &Prop, family: usize, lo: u64, hi: u64, at: &str) -> i32 {
    use std::os::unix::fs::FileExt;
    let at = fs::File::create(at).ok();
    install_hook();
    let f: &'static Family = unsafe { &*(&prop.families[family] as *const Family) };
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut c = Ctx::fresh();
            for i in lo..hi {
                if let Some(at) = &at {
                    let _ = at.write_all_at(&i.to_le_bytes(), 0);
                }
                eval_case(f, i, &mut c);
            }
        })
        .unwrap();
    let _ = h.join();
    0
}
