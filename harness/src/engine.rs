//! Property-based testing engine.
//!
//! Every case is a function of a *tape* of small integers. While searching, the tape is drawn from a
//! generator seeded by (seed, property, case number), so a run is reproducible whatever the number of
//! threads. A failing tape is shrunk (chunks deleted, numbers reduced) and the minimal tape is the replay file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return Err(format!($($arg)*)); }
    };
}
/// The distance must not exceed the allowed one; the tightest ratio is kept for VERIF_MARGIN=1.
#[macro_export]
macro_rules! within {
    ($d:expr, $tol:expr, $($arg:tt)*) => {{
        let (d, tol): (f64, f64) = ($d, $tol);
        if !(d <= tol) { return Err(format!($($arg)*)); }
        $crate::engine::margin(file!(), line!(), d, tol);
    }};
}
#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err(format!($($arg)*)) };
}

static MARGIN_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static MARGINS: std::sync::Mutex<std::collections::BTreeMap<(&'static str, u32), f64>> = std::sync::Mutex::new(std::collections::BTreeMap::new());

/// Asks for the tightest ratio of distance to tolerance at each comparison to be collected.
pub fn collect_margins() {
    MARGIN_ON.store(true, std::sync::atomic::Ordering::Relaxed);
}
pub fn margin(file: &'static str, line: u32, d: f64, tol: f64) {
    if MARGIN_ON.load(std::sync::atomic::Ordering::Relaxed) && d > 0.0 {
        let mut m = MARGINS.lock().unwrap();
        let e = m.entry((file, line)).or_insert(0.0);
        *e = e.max(d / tol);
    }
}
pub fn show_margins() {
    for ((f, l), r) in MARGINS.lock().unwrap().iter() {
        println!("margin {}:{} used {:.3}", f, l, r);
    }
}

/// The case each worker thread is running (plus one), in memory shared with the supervising process.
const SLOTS: usize = 8;
static SLOT_MEMORY: std::sync::OnceLock<&'static [AtomicU64]> = std::sync::OnceLock::new();
/// Where the choices of a case are written as they are made, when one case is run on its own.
static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);
static TRACING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, limit: *const RLimit) -> i32;
}

/// Shares the progress slots through a file of the supervising process.
pub fn share_slots(path: &str) -> std::io::Result<()> {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path)?;
    // PROT_READ | PROT_WRITE, MAP_SHARED
    let m = unsafe { mmap(std::ptr::null_mut(), SLOTS * 8, 3, 1, f.as_raw_fd(), 0) };
    if m as isize == -1 {
        return Err(std::io::Error::last_os_error());
    }
    let _ = SLOT_MEMORY.set(unsafe { std::slice::from_raw_parts(m as *const AtomicU64, SLOTS) });
    Ok(())
}

fn slot(i: usize, case: u64) {
    if let Some(m) = SLOT_MEMORY.get() {
        m[i % SLOTS].store(case.wrapping_add(1), Ordering::Relaxed);
    }
}

/// Processor seconds after which a case run on its own is stopped by the system (SIGXCPU).
const CPU_LIMIT: u64 = 10;

/// The same for the trials made while reducing such a case (a case takes a few milliseconds at most).
const TRIAL_CPU_LIMIT: u64 = 1;

/// Set when notes are printed as they are made (replays).
static EAGER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn limit_cpu() {
    let seconds = if std::env::var("VERIF_WORKER").is_ok_and(|w| w == "trial") { TRIAL_CPU_LIMIT } else { CPU_LIMIT };
    let l = RLimit { cur: seconds, max: seconds + 1 };
    unsafe { setrlimit(0, &l) };
    // No core file.
    let z = RLimit { cur: 0, max: 0 };
    unsafe { setrlimit(4, &z) };
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn fnv(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23)
}

enum Src<'a> {
    Rng(u64),
    Tape(&'a [u32]),
}

/// Source of choices for one case.
pub struct G<'a> {
    src: Src<'a>,
    pub tape: Vec<u32>,
    pub nontrivial: bool,
    classes: Vec<&'static str>,
    notes: Option<Vec<String>>,
    pub known: Vec<String>,
}

impl<'a> G<'a> {
    fn new(src: Src<'a>, verbose: bool) -> Self {
        G { src, tape: Vec::with_capacity(64), nontrivial: false, classes: Vec::new(), notes: if verbose { Some(Vec::new()) } else { None }, known: Vec::new() }
    }
    /// A choice in 0..n (n >= 1). Smaller is simpler.
    pub fn below(&mut self, n: u32) -> u32 {
        let v = match &mut self.src {
            Src::Rng(s) => ((splitmix(s) >> 32) * n as u64 >> 32) as u32,
            Src::Tape(t) => {
                let v = t.get(self.tape.len()).copied().unwrap_or(0);
                if v >= n { v % n } else { v }
            }
        };
        self.tape.push(v);
        if TRACING.load(Ordering::Relaxed) {
            use std::io::Write;
            if let Some(f) = TRACE.lock().unwrap().as_mut() {
                let _ = f.write_all(format!("{} ", v).as_bytes());
            }
        }
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u32) as i64
    }
    pub fn size(&mut self, lo: u8, hi: u8) -> u8 {
        lo + self.below((hi - lo + 1) as u32) as u8
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability about num/den.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, items: &[T]) -> T {
        items[self.below(items.len() as u32) as usize]
    }
    /// Any bit pattern.
    pub fn bits(&mut self) -> u32 {
        let hi = self.below(1 << 16);
        let lo = self.below(1 << 16);
        (hi << 16) | lo
    }
    /// Uniform in [0, 1) on a 2^-24 grid.
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 24) as f64 / (1u64 << 24) as f64
    }
    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn class(&mut self, name: &'static str) {
        self.classes.push(name);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(n) = &mut self.notes {
            let text = f();
            if EAGER.load(Ordering::Relaxed) {
                println!("  {}", text);
            }
            n.push(text);
        }
    }
    /// Report a failure that may be a listed known finding; the runner decides.
    pub fn known_finding(&mut self, sig: &str) {
        self.known.push(sig.to_string());
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut G) -> R,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

static LISTED: std::sync::OnceLock<HashSet<String>> = std::sync::OnceLock::new();

fn is_listed(sig: &str) -> bool {
    LISTED.get().is_some_and(|l| l.contains(sig))
}

/// The signatures listed as known findings of one property.
pub fn set_listed(id: &str, known: &[(String, String, String)]) {
    let _ = LISTED.set(known.iter().filter(|k| k.0 == id).map(|k| k.1.clone()).collect());
}

struct Outcome {
    res: R,
    tape: Vec<u32>,
    nontrivial: bool,
    classes: Vec<&'static str>,
    notes: Vec<String>,
    known: Vec<String>,
}

fn exec(p: &Prop, src: Src, verbose: bool) -> Outcome {
    let mut g = G::new(src, verbose);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut g)));
    let res = match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    };
    let res = res.and_then(|()| match g.known.iter().find(|k| !is_listed(k)) {
        Some(k) => Err(format!("unlisted finding: {}", k)),
        None => Ok(()),
    });
    Outcome { res, tape: g.tape, nontrivial: g.nontrivial, classes: g.classes, notes: g.notes.unwrap_or_default(), known: g.known }
}

fn case_seed(seed: u64, id: &str, case: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in id.bytes() {
        h = fnv(h, b as u64);
    }
    let mut s = h ^ seed.wrapping_mul(0xD1B54A32D192ED03);
    let a = splitmix(&mut s);
    let mut t = a ^ case.wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut t)
}

fn tape_hash(t: &[u32]) -> u64 {
    let mut h = 0x84222325cbf29ce4u64;
    for &x in t {
        h = fnv(h, x as u64 + 1);
    }
    let mut s = h;
    splitmix(&mut s)
}

const DISTINCT_CAP: usize = 400_000;

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    known: BTreeMap<String, u64>,
}

pub struct Config {
    pub seed: u64,
    pub tier: String,
    pub scale: f64,
    pub evidence_dir: String,
    pub known: Vec<(String, String, String)>, // (property, signature, text)
}

/// Reduces a failing tape as long as `fails` still reports a failure (the choices really made and a message).
fn shrink(tape: Vec<u32>, seconds: u64, fails: &mut dyn FnMut(&[u32]) -> Option<(Vec<u32>, String)>) -> (Vec<u32>, String, u64) {
    let start = Instant::now();
    let mut evals = 0u64;
    let mut best = tape;
    let mut msg = String::new();
    let mut try_tape = |t: &[u32], evals: &mut u64| -> Option<(Vec<u32>, String)> {
        *evals += 1;
        fails(t)
    };
    let better = |a: &[u32], b: &[u32]| -> bool { a.len() < b.len() || (a.len() == b.len() && a < b) };
    if let Some((t, m)) = try_tape(&best.clone(), &mut evals) {
        msg = m;
        if !better(&best, &t) {
            best = t;
        }
    }
    let budget = |evals: u64| evals < 20_000 && start.elapsed() < Duration::from_secs(seconds);
    loop {
        let mut improved = false;
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && budget(evals) {
                let mut c = best.clone();
                c.drain(i..i + size);
                if let Some((t, m)) = try_tape(&c, &mut evals) {
                    if better(&t, &best) {
                        best = t;
                        msg = m;
                        improved = true;
                        continue;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks, then lower single choices.
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() && budget(evals) {
                if best[i..i + size].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|x| *x = 0);
                    if let Some((t, m)) = try_tape(&c, &mut evals) {
                        if better(&t, &best) {
                            best = t;
                            msg = m;
                            improved = true;
                        }
                    }
                }
                i += 1;
            }
        }
        let mut i = 0;
        while i < best.len() && budget(evals) {
            let v = best[i];
            if v != 0 {
                // Binary search towards zero.
                let mut lo = 0u32;
                let mut hi = v;
                let mut c = best.clone();
                c[i] = 0;
                match try_tape(&c, &mut evals) {
                    Some((t, m)) if better(&t, &best) => {
                        best = t;
                        msg = m;
                        improved = true;
                    }
                    _ => {
                        while hi - lo > 1 && budget(evals) && i < best.len() {
                            let mid = lo + (hi - lo) / 2;
                            let mut c = best.clone();
                            c[i] = mid;
                            match try_tape(&c, &mut evals) {
                                Some((t, m)) if better(&t, &best) => {
                                    best = t;
                                    msg = m;
                                    improved = true;
                                    hi = mid;
                                }
                                _ => lo = mid,
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved || !budget(evals) {
            break;
        }
    }
    // Trailing zeros are implied by an exhausted tape.
    while best.last() == Some(&0) {
        best.pop();
    }
    (best, msg, evals)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{}{}", m, loc)));
    }));
}

fn pending_path(p: &Prop, cfg: &Config) -> String {
    format!("{}/replays/{}.pending", cfg.evidence_dir, p.id)
}

fn replay_text(p: &Prop, cfg: &Config, case: &str, tape: &[u32], msg: &str, notes: &[String]) -> String {
    let mut body = format!("property {}\nseed {}\ncase {}\ntape {}\n", p.id, cfg.seed, case, tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    body.push_str(&format!("# failure: {}\n", msg.replace('\n', " ")));
    for n in notes {
        body.push_str(&format!("# {}\n", n.replace('\n', " ")));
    }
    body
}

/// Runs one generated case on its own, under a processor time limit, writing its choices to `trace` as they are made.
pub fn run_case(p: &Prop, cfg: &Config, case: u64, trace: &str) -> i32 {
    limit_cpu();
    match std::fs::File::create(trace) {
        Ok(f) => *TRACE.lock().unwrap() = Some(f),
        Err(_) => return 2,
    }
    TRACING.store(true, Ordering::Relaxed);
    match exec(p, Src::Rng(case_seed(cfg.seed, p.id, case)), false).res {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

/// How a process started for one case ended, if not in success.
fn ending(st: &std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(0), _) => None,
        (_, Some(24)) => Some("the case does not return".into()),
        (_, Some(n)) => Some(format!("the process is killed by signal {}", n)),
        (Some(1), _) => Some("the case fails".into()),
        _ => None,
    }
}

/// Runs the property in a process of its own, so that a case that never returns or that aborts the process
/// (a stack overflow) is found, reduced and reported like any other failure.
pub fn supervise(p: &Prop, cfg: &Config, args: &[String]) -> i32 {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().unwrap_or_else(|_| args[0].clone().into());
    let replays = format!("{}/replays", cfg.evidence_dir);
    let _ = std::fs::create_dir_all(&replays);
    if args.get(2).is_some_and(|a| a == "--replay") {
        let st = Command::new(&exe).args(&args[1..]).env("VERIF_WORKER", "replay").status();
        return match st {
            Ok(st) => match (st.code(), ending(&st)) {
                (Some(c), _) => c,
                (None, Some(m)) => {
                    println!("failure: {}", m);
                    println!("VIOLATION property={} replay={}", p.id, args.get(3).map(|s| s.as_str()).unwrap_or(""));
                    1
                }
                _ => 3,
            },
            Err(e) => {
                println!("ERROR {}", e);
                2
            }
        };
    }
    let tmp = |what: &str| format!("{}/.{}-{}", replays, what, std::process::id());
    let (slots, trace, trial) = (tmp("slots"), tmp("trace"), tmp("trial"));
    let pending = pending_path(p, cfg);
    let _ = std::fs::remove_file(&pending);
    if let Err(e) = std::fs::write(&slots, [0u8; SLOTS * 8]) {
        println!("ERROR cannot write in {}: {}", replays, e);
        return 2;
    }
    let t0 = Instant::now();
    let st = Command::new(&exe).args(&args[1..]).env("VERIF_WORKER", "search").env("VERIF_SLOTS", &slots).status();
    let code = match st {
        Ok(st) if st.code().is_some_and(|c| c != 3) => st.code().unwrap(),
        Ok(_) => {
            // Find the case responsible: the failure being reduced, or one of those running at the end.
            let mut found: Option<(String, Vec<u32>, String)> = None;
            let parse = |t: &str| t.split_whitespace().filter_map(|x| x.parse().ok()).collect::<Vec<u32>>();
            if let Ok(t) = std::fs::read_to_string(&pending) {
                let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
                found = Some((field("case "), parse(&field("tape ")), field("# failure: ")));
            }
            let mut cases: Vec<u64> = std::fs::read(&slots).unwrap_or_default().chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).filter(|&x| x != 0).map(|x| x - 1).collect();
            cases.sort();
            cases.dedup();
            for c in cases {
                if found.is_some() {
                    break;
                }
                let st = Command::new(&exe).arg(p.id).env("VERIF_WORKER", "case").env("VERIF_CASE", c.to_string()).env("VERIF_TRACE", &trace).stdout(Stdio::null()).stderr(Stdio::null()).status();
                if let Some(m) = st.ok().as_ref().and_then(ending) {
                    found = Some((c.to_string(), parse(&std::fs::read_to_string(&trace).unwrap_or_default()), m));
                }
            }
            match found {
                None => {
                    println!("ERROR property={} the run stopped without a case that explains it", p.id);
                    3
                }
                Some((case, tape, first)) => {
                    let (best, msg, evals) = shrink(tape, 60, &mut |t| {
                        std::fs::write(&trial, replay_text(p, cfg, &case, t, "", &[])).ok()?;
                        let st = Command::new(&exe).args([p.id, "--replay", &trial]).env("VERIF_WORKER", "trial").stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?;
                        ending(&st).map(|m| (t.to_vec(), m))
                    });
                    let msg = if msg.is_empty() { first } else { msg };
                    let path = format!("{}/{}.replay", replays, p.id);
                    let _ = std::fs::write(&path, replay_text(p, cfg, &case, &best, &msg, &[]));
                    let out = Command::new(&exe).args([p.id, "--replay", &path]).env("VERIF_WORKER", "trial").stderr(Stdio::null()).output();
                    let out = out.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
                    let notes: Vec<String> = out.lines().filter_map(|l| l.strip_prefix("  ")).map(|l| l.to_string()).collect();
                    let _ = std::fs::write(&path, replay_text(p, cfg, &case, &best, &msg, &notes));
                    println!("failing case {} (shrunk in {} steps): {}", case, evals, msg);
                    for n in &notes {
                        println!("  {}", n);
                    }
                    println!("VIOLATION property={} replay={}", p.id, path);
                    let n: u64 = case.parse::<u64>().unwrap_or(0) + 1;
                    let ev = format!(
                        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"nontrivial\": 0,\n  \"distinct_nontrivial\": 0,\n  \"rule\": {},\n  \"classes\": {{}},\n  \"samples\": [],\n  \"failure\": {}\n }},\n \"assumptions\": [],\n \"wall_s\": {:.3},\n \"violations\": 1\n}}\n",
                        js(p.id), js(&cfg.tier), cfg.seed, n, js(p.rule), js(&msg), t0.elapsed().as_secs_f64()
                    );
                    let _ = std::fs::write(format!("{}/{}.json", cfg.evidence_dir, p.id), ev);
                    1
                }
            }
        }
        Err(e) => {
            println!("ERROR {}", e);
            2
        }
    };
    for f in [&slots, &trace, &trial, &pending] {
        let _ = std::fs::remove_file(f);
    }
    code
}

/// Runs one property; returns the process exit code.
pub fn run(p: &Prop, cfg: &Config) -> i32 {
    let t0 = Instant::now();
    let base = if cfg.tier == "thorough" { p.thorough } else { p.quick };
    let total = ((base as f64 * cfg.scale) as u64).max(1);
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let progress = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let merged = Mutex::new(Stats::default());
    let fails: Mutex<BTreeMap<u64, (Vec<u32>, String)>> = Mutex::new(BTreeMap::new());
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
    let chunk = (total / (threads as u64 * 16)).clamp(1, 4096);
    let nthreads = threads as u64;

    std::thread::scope(|s| {
        // A case that does not return: the supervising process runs it again on its own and decides.
        s.spawn(|| {
            let mut last = 0;
            let mut since = Instant::now();
            while done.load(Ordering::Relaxed) < nthreads {
                std::thread::sleep(Duration::from_millis(20));
                let now = progress.load(Ordering::Relaxed) + done.load(Ordering::Relaxed);
                if now != last {
                    last = now;
                    since = Instant::now();
                }
                if since.elapsed() > Duration::from_secs(30) {
                    std::process::exit(3);
                }
            }
        });
        for worker in 0..threads {
            let (next, min_fail, progress, done, merged, fails) = (&next, &min_fail, &progress, &done, &merged, &fails);
            s.spawn(move || {
                let mut st = Stats::default();
                loop {
                    let start = next.fetch_add(chunk, Ordering::Relaxed);
                    if start >= total {
                        break;
                    }
                    for case in start..(start + chunk).min(total) {
                        if case > min_fail.load(Ordering::Relaxed) {
                            break;
                        }
                        slot(worker, case);
                        let o = exec(p, Src::Rng(case_seed(cfg.seed, p.id, case)), false);
                        progress.fetch_add(1, Ordering::Relaxed);
                        st.evaluations += 1;
                        if o.nontrivial {
                            st.nontrivial += 1;
                            if st.distinct.len() < DISTINCT_CAP {
                                st.distinct.insert(tape_hash(&o.tape));
                            }
                        }
                        for c in o.classes {
                            *st.classes.entry(c).or_insert(0) += 1;
                        }
                        for k in o.known {
                            *st.known.entry(k).or_insert(0) += 1;
                        }
                        if let Err(m) = o.res {
                            min_fail.fetch_min(case, Ordering::Relaxed);
                            fails.lock().unwrap().insert(case, (o.tape, m));
                            break;
                        }
                    }
                }
                slot(worker, u64::MAX);
                let mut m = merged.lock().unwrap();
                m.evaluations += st.evaluations;
                m.nontrivial += st.nontrivial;
                m.distinct.extend(st.distinct);
                for (k, v) in st.classes {
                    *m.classes.entry(k).or_insert(0) += v;
                }
                for (k, v) in st.known {
                    *m.known.entry(k).or_insert(0) += v;
                }
                done.fetch_add(1, Ordering::Relaxed);
            });
        }
    });

    let st = merged.into_inner().unwrap();
    let fails = fails.into_inner().unwrap();
    let mut code = 0;
    let mut violations = 0;
    let mut extra = String::new();

    // Known findings: reported by the check through a signature.
    for sig in st.known.keys() {
        if let Some(k) = cfg.known.iter().find(|k| k.0 == p.id && &k.1 == sig) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.2);
        }
    }

    let replay_dir = format!("{}/replays", cfg.evidence_dir);
    if let Some((case, (tape, first))) = fails.iter().next() {
        // Kept in case a reduced tape makes the library hang or abort.
        let pending = pending_path(p, cfg);
        let _ = std::fs::create_dir_all(&replay_dir);
        let _ = std::fs::write(&pending, replay_text(p, cfg, &case.to_string(), tape, first, &[]));
        std::thread::spawn(|| {
            std::thread::sleep(Duration::from_secs(90));
            std::process::exit(3);
        });
        let (best, msg, evals) = shrink(tape.clone(), 20, &mut |t| {
            let o = exec(p, Src::Tape(t), false);
            o.res.err().map(|m| (o.tape, m))
        });
        let msg = if msg.is_empty() { first.clone() } else { msg };
        let o = exec(p, Src::Tape(&best), true);
        let path = format!("{}/{}.replay", replay_dir, p.id);
        let _ = std::fs::write(&path, replay_text(p, cfg, &case.to_string(), &best, &msg, &o.notes));
        let _ = std::fs::remove_file(&pending);
        println!("failing case {} (shrunk in {} steps): {}", case, evals, msg);
        for n in &o.notes {
            println!("  {}", n);
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        violations = 1;
        code = 1;
        extra = format!(",\n  \"failure\": {}", js(&msg));
    }

    // Samples of non-trivial cases.
    let mut samples: Vec<String> = Vec::new();
    let mut c = 0;
    while samples.len() < 4 && c < 64.min(total) {
        let o = exec(p, Src::Rng(case_seed(cfg.seed, p.id, c)), true);
        if o.nontrivial {
            let mut s = o.notes.join("; ");
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            samples.push(format!("case {}: {}", c, s));
        }
        c += 1;
    }

    let classes = st.classes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"nontrivial\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"samples\": [{}]{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(p.id),
        js(&cfg.tier),
        cfg.seed,
        st.evaluations,
        st.nontrivial,
        st.distinct.len(),
        js(p.rule),
        classes,
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        extra,
        p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        wall,
        violations
    );
    let _ = std::fs::create_dir_all(&cfg.evidence_dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", cfg.evidence_dir, p.id), ev) {
        println!("ERROR cannot write evidence: {}", e);
        return 2;
    }
    println!("{}: {} cases, {} non-trivial ({} distinct), {:.2} s, seed {} tier {}: {}", p.id, st.evaluations, st.nontrivial, st.distinct.len(), wall, cfg.seed, cfg.tier, if code == 0 { "held" } else { "VIOLATED" });
    if code == 0 && st.nontrivial * 2 < st.evaluations {
        println!("ERROR property={} fewer than half of the generated cases are non-trivial", p.id);
        return 4;
    }
    code
}

/// Replays a tape file; exit 1 if it still fails.
pub fn replay(p: &Prop, path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let tape: Vec<u32> = text.lines().find(|l| l.starts_with("tape")).map(|l| l.split_whitespace().skip(1).filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    limit_cpu();
    EAGER.store(true, Ordering::Relaxed);
    let o = exec(p, Src::Tape(&tape), true);
    match o.res {
        Ok(()) => {
            println!("{}: replay passes", p.id);
            0
        }
        Err(m) => {
            println!("failure: {}", m);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
    }
}
