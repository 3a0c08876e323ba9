//! Case runner: executes numbered, seed-determined cases on worker threads, turns panics of the
//! library into violations, and collects what the monitors observed.
use crate::json::esc;
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub scale: f64,
    pub threads: usize,
    pub out: String,
    pub rep: Mutex<Report>,
    pub part_secs: f64,
    /// only cases i with i % shard.1 == shard.0
    pub shard: (u64, u64),
}

#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<String>,
    pub errors: Vec<String>,
    pub notes: Vec<String>,
}

pub struct Case<'c> {
    pub ctx: &'c Ctx,
    pub part: &'c str,
    pub idx: u64,
    pub rng: Rng,
    pub desc: String,
    counters: BTreeMap<String, u64>,
    distinct: Vec<u64>,
    sample: Option<String>,
}

impl Case<'_> {
    pub fn count(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_default() += n; }
    pub fn hit(&mut self, k: &str) { self.count(k, 1); }
    /// registers a non-trivial observation under this key
    pub fn distinct(&mut self, k: u64) { self.distinct.push(k); }
    pub fn sample(&mut self, s: String) { self.sample = Some(s); }
    pub fn desc(&mut self, s: String) {
        self.desc = s;
    }
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf29ce484222325;
    for c in b.chunks(8) {
        let mut t = [0; 8];
        t[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(t)).rotate_left(5);
    }
    mix(h ^ b.len() as u64)
}
pub fn hash_px(h: u64, p: &[imagequant::RGBA]) -> u64 {
    let mut h = mix(h);
    for p in p { h = mix(h ^ u32::from_le_bytes([p.r, p.g, p.b, p.a]) as u64); }
    h
}

static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        if std::env::var_os("LIQ_BT").is_some() { eprintln!("PANIC {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture()); }
        let mut v = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if v.len() < 200 { v.push((loc, msg)); }
    }));
}

/// runs f, converting a panic, in the library or in the harness (a result it unwraps because it must be Ok), to Err
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => {
            let msg = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
            let v = PANICS.lock().unwrap_or_else(|e| e.into_inner());
            let loc = v.iter().rev().find(|(_, m)| *m == msg).map(|(l, _)| l.clone()).unwrap_or_else(|| "unknown".into());
            if loc.starts_with("src/") { Err(format!("a call that must succeed did not (checked at {loc}): {msg}")) } else { Err(format!("library panicked at {loc}: {msg}")) }
        }
    }
}

#[repr(C)]
struct Timespec { s: i64, n: i64 }
#[cfg(not(miri))]
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// the CPU-time clock of the calling thread
fn own_clock() -> i32 {
    #[allow(unused_mut)]
    let mut id = 0;
    #[cfg(not(miri))]
    unsafe { pthread_getcpuclockid(pthread_self(), &mut id); }
    id
}
fn clock_secs(_id: i32) -> f64 {
    #[cfg(not(miri))]
    {
        let mut t = Timespec { s: 0, n: 0 };
        if unsafe { clock_gettime(_id, &mut t) } == 0 { return t.s as f64 + t.n as f64 / 1e9; }
    }
    0.
}
fn process_cpu() -> f64 { clock_secs(2) }
/// CPU seconds after which a case counts as not terminating
fn hang_secs() -> f64 {
    static S: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    *S.get_or_init(|| std::env::var("LIQ_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(90.))
}

impl Ctx {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        (((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u64).max(1)
    }

    pub fn note(&self, s: String) { self.rep.lock().unwrap().notes.push(s); }

    pub fn counter(&self, k: &str) -> u64 { self.rep.lock().unwrap().counters.get(k).copied().unwrap_or(0) }

    /// a violation observed over all cases of a part together
    pub fn fail(&self, part: &str, msg: String) {
        let mut rep = self.rep.lock().unwrap();
        rep.violations.push(format!("{{\"seed\":{},\"msg\":{}}}", self.seed, esc(&format!("{part}: {msg}"))));
    }

    pub fn case_rng(&self, part: &str, idx: u64) -> Rng {
        Rng::new(hash_bytes(mix(self.seed ^ mix(idx)), part.as_bytes()))
    }

    pub fn cases(&self, part: &str, n: u64, f: impl Fn(&mut Case) -> R + Sync) {
        self.cases_t(part, n, self.threads, f)
    }

    pub fn cases_t(&self, part: &str, n: u64, threads: usize, f: impl Fn(&mut Case) -> R + Sync) {
        let (from, to) = match &self.only {
            Some((p, _)) if p != part => return,
            Some((_, i)) => (*i, *i + 1),
            None => (0, n),
        };
        let threads = if cfg!(miri) { 1 } else { threads };
        let next = AtomicU64::new(from);
        let stop = AtomicBool::new(false);
        let start = Instant::now();
        let limit = Duration::from_secs_f64(self.part_secs);
        // which case each worker is in: lets the driver name the case if the process dies
        let slots: Vec<AtomicU64> = (0..threads.max(1)).map(|_| AtomicU64::new(u64::MAX)).collect();
        // watchdog: (CPU clock of the worker, its CPU seconds and the wall clock when its case began)
        let clocks: Vec<Mutex<Option<(i32, f64, Instant)>>> = (0..threads.max(1)).map(|_| Mutex::new(None)).collect();
        let done_all = AtomicBool::new(false);
        let work = |w: usize| {
            loop {
                if stop.load(Relaxed) || (!cfg!(miri) && start.elapsed() > limit) { break; }
                let i = next.fetch_add(1, Relaxed);
                if i >= to { break; }
                if self.only.is_none() && i % self.shard.1 != self.shard.0 { continue; }
                slots[w].store(i, Relaxed);
                if !cfg!(miri) && !self.out.is_empty() {
                    let _ = std::fs::write(format!("{}.cur{w}", self.out), format!("{part} {i}"));
                }
                let began = Instant::now();
                *clocks[w].lock().unwrap() = Some((own_clock(), clock_secs(own_clock()), began));
                let mut c = Case { ctx: self, part, idx: i, rng: self.case_rng(part, i), desc: String::new(), counters: Default::default(), distinct: vec![], sample: None };
                let r = guarded(|| f(&mut c)).unwrap_or_else(Err);
                if r.is_err() && self.only.is_some() { println!("case {}: {}", c.desc, r.as_ref().unwrap_err()); }
                *clocks[w].lock().unwrap() = None;
                let mut rep = self.rep.lock().unwrap();
                rep.evals += 1;
                let slow = rep.counters.entry(format!("{part}.slowest_case_ms")).or_default();
                *slow = (*slow).max(began.elapsed().as_millis() as u64);
                for (k, v) in std::mem::take(&mut c.counters) { *rep.counters.entry(format!("{part}.{k}")).or_default() += v; }
                for d in c.distinct.drain(..) { rep.distinct.insert(d); }
                if rep.samples.len() < 6 && (i < 2 || i % 97 == 13) {
                    let s = c.sample.take().unwrap_or_default();
                    rep.samples.push(format!("{part}#{i}: {} {}", c.desc, s));
                }
                if let Err(e) = r {
                    let m = format!("{part} case {i} [{}]: {e}", c.desc);
                    if e.starts_with("HARNESS") { rep.errors.push(m); } else {
                        rep.violations.push(format!("{{\"part\":{},\"case\":{i},\"seed\":{},\"msg\":{}}}", esc(part), self.seed, esc(&m)));
                    }
                    if rep.violations.len() + rep.errors.len() >= 10 { stop.store(true, Relaxed); }
                }
            }
            if !cfg!(miri) && !self.out.is_empty() { let _ = std::fs::remove_file(format!("{}.cur{w}", self.out)); }
        };
        let watch = || {
            let mut idle = (Instant::now(), process_cpu());
            while !done_all.load(Relaxed) {
                std::thread::park_timeout(Duration::from_millis(500));
                let now = process_cpu();
                if now - idle.1 > 0.2 { idle = (Instant::now(), now); }
                for (w, c) in clocks.iter().enumerate() {
                    let Some((clk, cpu0, t0)) = *c.lock().unwrap() else { continue };
                    let (cpu, wall) = (clock_secs(clk) - cpu0, t0.elapsed().as_secs_f64());
                    // busy for very long itself, or everything stands still, or (work handed to a thread pool) both very long
                    let stuck = if cpu > hang_secs() { "computing" } else if wall > 60. && idle.0.elapsed().as_secs() > 45 { "blocked" } else if wall > 3. * hang_secs() && now > hang_secs() { "busy" } else { continue };
                    let i = slots[w].load(Relaxed);
                    let m = format!("{part} case {i}: did not terminate: still {stuck} after {wall:.0} s, {cpu:.0} s of CPU time (other cases take at most a few seconds)");
                    { let mut rep = self.rep.lock().unwrap_or_else(|e| e.into_inner());
                      rep.violations.push(format!("{{\"part\":{},\"case\":{i},\"seed\":{},\"msg\":{}}}", esc(part), self.seed, esc(&m))); }
                    self.write_report();
                    eprintln!("{m}");
                    std::process::exit(1);
                }
            }
        };
        if threads <= 1 && cfg!(miri) {
            work(0);
        } else {
            std::thread::scope(|s| {
                let dog = if cfg!(miri) { None } else { Some(s.spawn(watch)) };
                let ws: Vec<_> = (0..threads.max(1)).map(|w| {
                    let work = &work;
                    std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || work(w)).unwrap()
                }).collect();
                for w in ws { let _ = w.join(); }
                done_all.store(true, Relaxed);
                if let Some(d) = dog { d.thread().unpark(); }
            });
        }
        let done = next.load(Relaxed).min(to) - from;
        self.rep.lock().unwrap().counters.insert(format!("{part}.cases"), done / self.shard.1);
    }

    pub fn write_report(&self) -> i32 {
        let r = self.rep.lock().unwrap();
        let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        let s = format!(
            "{{\"prop\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"counters\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"errors\":[{}],\"notes\":[{}]}}\n",
            esc(&self.prop), self.seed, r.evals, r.distinct.len(),
            r.counters.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","),
            list(&r.samples), r.violations.join(","), list(&r.errors), list(&r.notes));
        if !self.out.is_empty() { std::fs::write(&self.out, &s).expect("report"); }
        if self.out.is_empty() || std::env::var_os("LIQ_V").is_some() { print!("{s}"); }
        if !r.errors.is_empty() { 3 } else if !r.violations.is_empty() { 1 } else { 0 }
    }
}
