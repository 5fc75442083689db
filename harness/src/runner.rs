use crate::gen::{mix, Gen};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Fail {
    /// stable identification of the failing behaviour (never a line number), matched against known findings
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return $crate::runner::fail($sig, format!($($a)*)); } };
}

pub type CaseFn = fn(&mut Gen) -> Res;

pub struct Part {
    pub name: &'static str,
    pub run: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub parts: Vec<Part>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn part_seed(seed: u64, prop: &str, part: &str) -> u64 {
    mix(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ hash(prop) ^ hash(part).rotate_left(17))
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or(info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let mut site = String::new();
        if std::env::var("VH_SITE").is_ok() {
            // function of the library
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let fns: Vec<&str> = bt.lines().filter(|l| l.contains("rinex::") && l.contains(": ")).map(|l| l.trim()).take(2).collect();
            site = format!(" in {}", fns.join(" <- "));
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}:{}{}", msg, loc, line, site));
        if std::env::var("VH_BT").is_ok() {
            eprintln!("panic {} at {}:{}\n{}", msg, loc, line, std::backtrace::Backtrace::force_capture());
        }
    }));
}

/// Runs one case; a panic of the code under test is a failure.
pub fn run_case(f: CaseFn, g: &mut Gen) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.starts_with("choices exhausted") {
                return fail("exhausted", "no case");
            }
            // "library:" marks an expectation on an answer of the library: a failure of the case
            if m.contains("harness:") || m.contains("src/gen.rs") {
                eprintln!("harness error: {}", m);
                std::process::exit(4);
            }
            fail("panic", format!("panic: {}", m))
        },
    }
}

/// What every thread is running, for the monitor: (thread id, part, case + 1)
static RUNNING: Mutex<Vec<(u64, u64, u64)>> = Mutex::new(Vec::new());

/// CPU seconds one case may take: ordinary cases take milliseconds, so only a loop without end gets there
pub const CASE_CPU_S: u64 = 60;

/// part number of the monitor for the reduction of a failing case (two minutes at most)
pub const SHRINKING: u64 = u64::MAX;

fn thread_id() -> u64 {
    let l = std::fs::read_link("/proc/thread-self").unwrap_or_default();
    l.file_name().and_then(|s| s.to_str()).and_then(|s| s.parse().ok()).unwrap_or(0)
}

fn cpu_ticks(tid: u64) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let Some((_, s)) = s.rsplit_once(')') else { return 0 };
    let f: Vec<u64> = s.split_whitespace().skip(11).take(2).map(|x| x.parse().unwrap_or(0)).collect();
    f.iter().sum()
}

fn set_running(slot: usize, part: u64, case: Option<u64>) {
    let mut r = RUNNING.lock().unwrap();
    if r.len() <= slot {
        r.resize(slot + 1, (0, 0, 0));
    }
    r[slot] = (if r[slot].0 == 0 || case.is_none() { thread_id() } else { r[slot].0 }, part, case.map(|c| c + 1).unwrap_or(0));
}

/// Watches the cases being run: one that burns CASE_CPU_S seconds of processor time never ends (`on_hang` gets its
/// part and number); a process beyond `rss_gb` of memory is aborted.
pub fn monitor(rss_gb: u64, on_hang: impl Fn(u64, u64) + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen: Vec<((u64, u64, u64), u64)> = vec![];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let pages: u64 = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse().ok()))
                .unwrap_or(0);
            if pages * 4096 > rss_gb << 30 {
                eprintln!("more than {} GB of memory in use", rss_gb);
                std::process::abort();
            }
            let now = RUNNING.lock().unwrap().clone();
            seen.resize(now.len(), ((0, 0, 0), 0));
            for (n, s) in now.iter().zip(seen.iter_mut()) {
                let t = cpu_ticks(n.0);
                if s.0 != *n {
                    *s = (*n, t);
                } else if n.2 != 0 && t.saturating_sub(s.1) > CASE_CPU_S * if n.1 == SHRINKING { 200 } else { 100 } {
                    on_hang(n.1, n.2 - 1);
                }
            }
        }
    });
}

pub fn watched(f: CaseFn, g: &mut Gen) -> Res {
    set_running(0, 0, None);
    set_running(0, 0, Some(g.index));
    let r = run_case(f, g);
    set_running(0, 0, None);
    r
}

pub struct Slots(std::fs::File);
impl Slots {
    pub fn create(path: &str) -> Self {
        Slots(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(path).unwrap())
    }
    fn set(&self, thread: usize, part: u64, idx: u64) {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&part.wrapping_add(1).to_le_bytes());
        b[8..].copy_from_slice(&idx.to_le_bytes());
        let _ = self.0.write_all_at(&b, thread as u64 * 16);
    }
}

pub struct Found {
    pub part: &'static str,
    pub index: u64,
    pub choices: Vec<u64>,
    pub sig: String,
    pub msg: String,
    pub text: String,
}

pub struct Outcome {
    pub evaluations: u64,
    pub distinct: u64,
    pub per_part: BTreeMap<&'static str, (u64, u64)>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
    pub found: Vec<Found>,
    pub known_hits: BTreeMap<String, u64>,
    pub shrink_evals: u64,
}

fn shrink(f: CaseFn, index: u64, start: Vec<u64>, sig: &str, evals: &mut u64) -> Vec<u64> {
    let t0 = Instant::now();
    let budget = 60.0;
    let mut best = start;
    let try_ = |c: &Vec<u64>, evals: &mut u64| -> Option<Vec<u64>> {
        *evals += 1;
        let mut g = Gen::replaying(c.clone(), index);
        match run_case(f, &mut g) {
            Err(e) if e.sig == sig => Some(g.rec.clone()),
            _ => None,
        }
    };
    let less = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                if t0.elapsed().as_secs_f64() > budget || *evals > 20_000 {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..i + k);
                match try_(&c, evals) {
                    Some(r) if less(&r, &best) => best = r,
                    _ => i += k.max(1),
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero chunks, then minimise values
        for k in [8usize, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() {
                if t0.elapsed().as_secs_f64() > budget || *evals > 20_000 {
                    return best;
                }
                if best[i..i + k].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..i + k] {
                        *v = 0
                    }
                    if let Some(r) = try_(&c, evals) {
                        if less(&r, &best) {
                            best = r
                        }
                    }
                }
                i += k;
            }
        }
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed().as_secs_f64() > budget || *evals > 20_000 {
                return best;
            }
            if best[i] != 0 {
                let mut lo = 0u64; // candidates below best[i]
                let mut c = best.clone();
                c[i] = 0;
                if let Some(r) = try_(&c, evals) {
                    if less(&r, &best) {
                        best = r;
                        i += 1;
                        continue;
                    }
                }
                while i < best.len() && lo + 1 < best[i] {
                    let mid = lo + (best[i] - lo) / 2;
                    let mut c = best.clone();
                    c[i] = mid;
                    match try_(&c, evals) {
                        Some(r) if less(&r, &best) => best = r,
                        _ => lo = mid,
                    }
                }
                // lower a count and drop what it counted
                for k in 1..=6usize {
                    if i < best.len() && best[i] > 0 && i + 1 + k <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + k);
                        if let Some(r) = try_(&c, evals) {
                            if less(&r, &best) {
                                best = r
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

/// the cases of a part, in the quick tier, are as many times the number it states
fn factor(id: &str) -> f64 {
    match id {
        "P05" | "P10" | "P17" | "P19" | "P29" | "P30" => 8.0,
        _ => 3.0,
    }
}

pub fn run_prop(p: &Prop, thorough: bool, seed: u64, known: &[String], slots: &str, scale: f64, early: &dyn Fn(&Found)) -> Outcome {
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let slots = Slots::create(slots);
    let mut out = Outcome {
        evaluations: 0,
        distinct: 0,
        per_part: BTreeMap::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        found: vec![],
        known_hits: BTreeMap::new(),
        shrink_evals: 0,
    };
    for (pi, part) in p.parts.iter().enumerate() {
        let n = if thorough { part.thorough } else { part.quick };
        let scale = scale * if thorough { 1.0 } else { factor(p.id) };
        let n = if scale != 1.0 { ((n as f64 * scale) as u64).max(1) } else { n };
        let pseed = part_seed(seed, p.id, part.name);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        struct Acc {
            evals: u64,
            hashes: HashSet<u64>,
            labels: BTreeMap<String, u64>,
            samples: Vec<(u64, String)>,
            fails: Vec<(u64, Vec<u64>, Fail, String)>,
            known: BTreeMap<String, u64>,
        }
        let acc = Mutex::new(Acc {
            evals: 0,
            hashes: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            fails: vec![],
            known: BTreeMap::new(),
        });
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (next, stop, acc, slots) = (&next, &stop, &acc, &slots);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        set_running(t, 0, None);
                        let mut evals = 0;
                        let mut hashes = HashSet::new();
                        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                        let mut samples = vec![];
                        let mut kn: BTreeMap<String, u64> = BTreeMap::new();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            // a failure at index i stops later indices only: the lowest failing
                            // index, hence the report, does not depend on scheduling
                            if i >= n || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            slots.set(t, pi as u64, i);
                            set_running(t, pi as u64, Some(i));
                            let mut g = Gen::random(pseed, i);
                            let r = run_case(part.run, &mut g);
                            evals += 1;
                            let h = if g.text.is_empty() {
                                let mut h = 0u64;
                                for c in &g.rec {
                                    h = mix(h ^ *c);
                                }
                                mix(h ^ (pi as u64) << 32) ^ if g.rec.is_empty() { mix(i) } else { 0 }
                            } else {
                                hash(&g.text)
                            };
                            if g.nontrivial {
                                hashes.insert(h);
                            }
                            for l in &g.labels {
                                *labels.entry(format!("{}:{}", part.name, l)).or_default() += 1;
                            }
                            if i < 2 {
                                samples.push((i, g.text.clone()));
                            }
                            if let Err(e) = r {
                                if known.contains(&e.sig) {
                                    *kn.entry(e.sig).or_default() += 1;
                                } else {
                                    acc.lock().unwrap().fails.push((i, g.rec.clone(), e, g.text.clone()));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                        }
                        slots.set(t, u64::MAX, 0);
                        set_running(t, 0, None);
                        let mut a = acc.lock().unwrap();
                        a.evals += evals;
                        a.hashes.extend(hashes);
                        for (k, v) in labels {
                            *a.labels.entry(k).or_default() += v;
                        }
                        for (k, v) in kn {
                            *a.known.entry(k).or_default() += v;
                        }
                        a.samples.extend(samples);
                    })
                    .unwrap();
            }
        });
        let mut a = acc.into_inner().unwrap();
        out.evaluations += a.evals;
        out.distinct += a.hashes.len() as u64;
        out.per_part.insert(part.name, (a.evals, a.hashes.len() as u64));
        for (k, v) in a.labels {
            *out.labels.entry(k).or_default() += v;
        }
        for (k, v) in a.known {
            *out.known_hits.entry(k).or_default() += v;
        }
        a.samples.sort();
        if let Some((_, s)) = a.samples.into_iter().last() {
            out.samples.push((part.name.to_string(), s));
        }
        a.fails.sort_by_key(|f| f.0);
        if let Some((i, rec, e, text)) = a.fails.into_iter().next() {
            let mut ev = 0;
            // should a smaller variant never end, the monitor leaves with this one
            early(&Found { part: part.name, index: i, choices: rec.clone(), sig: e.sig.clone(), msg: e.msg.clone(), text });
            set_running(0, 0, None);
            set_running(0, SHRINKING, Some(i));
            let best = shrink(part.run, i, rec, &e.sig, &mut ev);
            out.shrink_evals += ev;
            let mut g = Gen::replaying(best.clone(), i);
            let (sig, msg) = match run_case(part.run, &mut g) {
                Err(e2) => (e2.sig, e2.msg),
                Ok(()) => (e.sig, e.msg),
            };
            set_running(0, 0, None);
            out.found.push(Found { part: part.name, index: i, choices: best, sig, msg, text: g.text });
            break;
        }
    }
    out
}
