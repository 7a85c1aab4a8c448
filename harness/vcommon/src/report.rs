//! Case runner: runs seeded cases on all cores, collects what the monitors observed, turns
//! it into the evidence file and the exit code.
use crate::{clock, exec, rng};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs,
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    thread,
    time::{Duration, Instant},
};

/// What one case observed.
#[derive(Default, Clone)]
pub struct Acc {
    pub counters: BTreeMap<String, u64>,
    /// identifies the behaviour seen (interleaving, input class); equal for equal runs
    pub sig: u64,
    /// the monitors judged something in this case
    pub nontrivial: bool,
    pub sample: Option<String>,
}

impl Acc {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_owned()).or_insert(0) += n;
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max_{}", k)).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn get(&self, k: &str) -> u64 {
        *self.counters.get(k).unwrap_or(&0)
    }
}

pub enum Verdict {
    Pass(Acc),
    /// (key identifying the failing history class, description)
    Violation(String, String),
    Inconclusive(String),
}

pub fn violation<T>(key: impl Into<String>, what: impl Into<String>) -> Result<T, Verdict> {
    Err(Verdict::Violation(key.into(), what.into()))
}

pub struct CheckSpec {
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    /// number of cases
    pub cases: u64,
    /// stop taking new cases after that many seconds
    pub budget_s: u64,
    pub threads: usize,
    /// these counters must be non-zero, otherwise the run observed nothing of interest
    pub must_see: Vec<&'static str>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub root: String,
    pub replay: Option<u64>,
    start: Instant,
    start_ms: u64,
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, bool)>> = RefCell::new(None);
}

/// Panics seen so far in the whole process that come from the library (not from the harness).
pub fn library_panics() -> Vec<String> {
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub fn take_library_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

/// A panic belongs to the library when the innermost frame that is neither std nor a
/// third-party crate lies in /repo.
fn blame(loc: &str, bt: &str) -> bool {
    if loc.contains("/repo/") {
        return true;
    }
    if loc.contains("/verif/harness/") || loc.starts_with("src/") {
        return false;
    }
    for l in bt.lines() {
        let l = l.trim();
        if l.starts_with("at ") {
            if l.contains("/repo/") {
                return true;
            }
            if l.contains("/verif/harness/") && !l.contains("/vcommon/src/report.rs") {
                return false;
            }
        }
    }
    false
}

/// message prefix of panics raised on purpose by harness callbacks
pub const INTENDED: &str = "intended-panic";

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        if msg.starts_with(INTENDED) {
            return;
        }
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        let lib = blame(&loc, &bt);
        let text = format!("panic at {}: {}", loc, msg);
        if std::env::var("VERIF_DEBUG").is_ok() {
            eprintln!("{} (library: {})\n{}", text, lib, bt);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((text.clone(), lib)));
        if lib {
            PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(text);
        } else {
            eprintln!("harness: {}", text);
        }
    }));
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn thread_cpu_ms(tid: i32) -> u64 {
    let s = fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() > 12 {
        let t: u64 = f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
        t * 10
    } else {
        0
    }
}

struct Slot {
    heart: Arc<AtomicU64>,
    tid: AtomicUsize,
    case: AtomicU64,
    busy: AtomicBool,
}

impl Ctx {
    /// arguments: PROPERTY [--case N]; environment: VERIF_SEED, VERIF_TIER
    pub fn from_env() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        let prop = a.get(1).cloned().unwrap_or_default();
        let mut replay = None;
        if let Some(i) = a.iter().position(|x| x == "--case") {
            replay = a.get(i + 1).and_then(|x| x.parse().ok());
        }
        install_hook();
        Ctx {
            prop,
            tier: std::env::var("VERIF_TIER")
                .ok()
                .filter(|t| t == "thorough")
                .unwrap_or_else(|| "quick".into()),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            root: std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()),
            replay,
            start: Instant::now(),
            start_ms: clock::real_ms(),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == "quick"
    }

    /// quick or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    fn known(&self) -> Vec<(String, String)> {
        let t = fs::read_to_string(format!("{}/known_findings.txt", self.root)).unwrap_or_default();
        let mut v = Vec::new();
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut prop = "";
                let mut key = "";
                let mut what = String::new();
                for w in r.split_whitespace() {
                    if let (Some(p), true) = (w.strip_prefix("property="), prop.is_empty()) {
                        prop = p;
                    } else if let (Some(k), true) = (w.strip_prefix("key="), key.is_empty()) {
                        key = k;
                    } else {
                        what.push_str(w);
                        what.push(' ');
                    }
                }
                if prop == self.prop {
                    v.push((key.to_owned(), what.trim().to_owned()));
                }
            }
        }
        v
    }

    fn replay_path(&self) -> String {
        let d = format!("{}/out", self.root);
        let _ = fs::create_dir_all(&d);
        format!("{}/{}-seed{}.replay", d, self.prop, self.seed)
    }

    fn report_violation(&self, case: u64, what: &str) {
        let p = self.replay_path();
        let _ = fs::write(
            &p,
            format!(
                "property={}\nseed={}\ntier={}\ncase={}\n{}\n\nreplay: VERIF_VARIANT={} VERIF_SEED={} VERIF_TIER={} {}/run.sh {} --case {}\n",
                self.prop, self.seed, self.tier, case, what, std::env::var("VERIF_VARIANT").unwrap_or_default(), self.seed, self.tier, self.root, self.prop, case
            ),
        );
        println!("case {}: {}", case, what);
        println!("VIOLATION property={} replay={}", self.prop, p);
    }

    /// Run the cases and exit the process.
    pub fn run(&self, mut spec: CheckSpec, f: impl Fn(u64, u64) -> Verdict + Send + Sync) -> ! {
        let base = rng::mix(self.seed, rng::hash_str(&self.prop));
        // a run inside another check is cut short
        let env = |n: &str| std::env::var(n).ok().and_then(|s| s.parse::<u64>().ok());
        if let Some(n) = env("VERIF_BUDGET_S") {
            spec.budget_s = spec.budget_s.min(n);
        }
        if let Some(n) = env("VERIF_THREADS") {
            spec.threads = spec.threads.min(n as usize);
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        struct Sum {
            acc: Acc,
            sigs: HashSet<u64>,
            nontrivial: u64,
            samples: Vec<String>,
            viol: Vec<(u64, String, String)>,
            incon: Vec<String>,
            errors: Vec<String>,
        }
        let sum = Mutex::new(Sum {
            acc: Acc::default(),
            sigs: HashSet::new(),
            nontrivial: 0,
            samples: vec![],
            viol: vec![],
            incon: vec![],
            errors: vec![],
        });
        let known = self.known();
        let nthreads = if self.replay.is_some() { 1 } else { spec.threads.max(1) };
        let slots: Vec<Slot> = (0..nthreads)
            .map(|_| Slot {
                heart: Arc::new(AtomicU64::new(0)),
                tid: AtomicUsize::new(0),
                case: AtomicU64::new(0),
                busy: AtomicBool::new(false),
            })
            .collect();
        let finished = AtomicBool::new(false);
        thread::scope(|s| {
            // watchdog: a case that burns CPU without finishing a step is a live lock; one that
            // just takes long is no answer
            s.spawn(|| {
                let mut last: Vec<(u64, u64, Instant, u64)> =
                    slots.iter().map(|_| (0, 0, Instant::now(), 0)).collect();
                loop {
                    for _ in 0..10 {
                        if finished.load(Ordering::SeqCst) {
                            return;
                        }
                        thread::sleep(Duration::from_millis(100));
                    }
                    for (i, sl) in slots.iter().enumerate() {
                        let h = sl.heart.load(Ordering::Relaxed);
                        let c = sl.case.load(Ordering::SeqCst);
                        let cpu = thread_cpu_ms(sl.tid.load(Ordering::SeqCst) as i32);
                        let busy = sl.busy.load(Ordering::SeqCst);
                        if !busy || h != last[i].0 || c != last[i].1 {
                            last[i] = (h, c, Instant::now(), cpu);
                        } else if last[i].2.elapsed() > Duration::from_secs(60)
                            && cpu.saturating_sub(last[i].3) > 45_000
                        {
                            self.report_violation(
                                c,
                                "one call into the library kept computing for 45 s of CPU time without returning",
                            );
                            std::process::exit(1);
                        } else if last[i].2.elapsed() > Duration::from_secs(400) {
                            eprintln!("no answer: case {} makes no progress", c);
                            std::process::exit(2);
                        }
                    }
                }
            });
            let mut hs = Vec::new();
            for sl in &slots {
                let (next, stop, done, sum, f, spec, known) =
                    (&next, &stop, &done, &sum, &f, &spec, &known);
                let h = thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        sl.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as usize, Ordering::SeqCst);
                        exec::set_heart(sl.heart.clone());
                        loop {
                            let idx = match self.replay {
                                Some(c) => {
                                    if next.fetch_add(1, Ordering::SeqCst) > 0 {
                                        break;
                                    }
                                    c
                                }
                                None => next.fetch_add(1, Ordering::SeqCst),
                            };
                            if self.replay.is_none()
                                && (idx >= spec.cases
                                    || stop.load(Ordering::SeqCst)
                                    || clock::real_ms() - self.start_ms > spec.budget_s * 1000)
                            {
                                break;
                            }
                            sl.case.store(idx, Ordering::SeqCst);
                            sl.busy.store(true, Ordering::SeqCst);
                            LAST_PANIC.with(|p| *p.borrow_mut() = None);
                            let r = panic::catch_unwind(AssertUnwindSafe(|| f(rng::mix(base, idx), idx)));
                            sl.busy.store(false, Ordering::SeqCst);
                            done.fetch_add(1, Ordering::SeqCst);
                            let mut g = sum.lock().unwrap();
                            let v = match r {
                                Ok(v) => v,
                                Err(_) => {
                                    let (t, lib) = LAST_PANIC
                                        .with(|p| p.borrow_mut().take())
                                        .unwrap_or(("panic".into(), false));
                                    if lib {
                                        Verdict::Violation("panic".into(), format!("library {}", t))
                                    } else {
                                        g.errors.push(format!("case {}: {}", idx, t));
                                        stop.store(true, Ordering::SeqCst);
                                        continue;
                                    }
                                }
                            };
                            match v {
                                Verdict::Pass(a) => {
                                    for (k, n) in a.counters {
                                        let e = g.acc.counters.entry(k.clone()).or_insert(0);
                                        if k.starts_with("max_") {
                                            *e = (*e).max(n)
                                        } else {
                                            *e += n
                                        }
                                    }
                                    if a.nontrivial {
                                        g.nontrivial += 1;
                                        g.sigs.insert(a.sig);
                                    }
                                    if let Some(s) = a.sample {
                                        if g.samples.len() < 5 {
                                            g.samples.push(s)
                                        }
                                    }
                                }
                                Verdict::Violation(k, w) => {
                                    let is_known = known.iter().any(|x| x.0 == k);
                                    g.viol.push((idx, k, w));
                                    if !is_known {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                                Verdict::Inconclusive(w) => g.incon.push(format!("case {}: {}", idx, w)),
                            }
                        }
                    })
                    .unwrap();
                hs.push(h);
            }
            for h in hs {
                let _ = h.join();
            }
            finished.store(true, Ordering::SeqCst);
        });
        let mut sum = sum.into_inner().unwrap();
        // what a build of another configuration observed before
        if let Some(t) = std::env::var("VERIF_BEFORE").ok().and_then(|p| fs::read_to_string(p).ok()) {
            for l in t.lines().filter_map(|l| l.strip_prefix("  ")) {
                if let Some((k, n)) = l.split_once(" = ").and_then(|(k, n)| Some((k, n.parse().ok()?))) {
                    sum.acc.add(&format!("other build: {}", k), n);
                }
            }
        }
        let done = done.into_inner();
        let mut bad: Vec<_> = sum
            .viol
            .iter()
            .filter(|v| !known.iter().any(|k| k.0 == v.1))
            .cloned()
            .collect();
        bad.sort_by_key(|v| v.0);
        let seen_known: Vec<_> = known
            .iter()
            .filter(|k| sum.viol.iter().any(|v| v.1 == k.0))
            .collect();

        let mut cov = String::new();
        let _ = write!(
            cov,
            "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"nontrivial_cases\": {}, \"inconclusive_cases\": {}, \"observed\": {{{}}}}}",
            done,
            sum.sigs.len(),
            esc(&spec.rule),
            sum.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
            sum.nontrivial,
            sum.incon.len(),
            sum.acc
                .counters
                .iter()
                .map(|(k, v)| format!("{}: {}", esc(k), v))
                .collect::<Vec<_>>()
                .join(", ")
        );
        let ev = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
            esc(&self.prop),
            esc(&self.tier),
            self.seed,
            esc(spec.level),
            cov,
            spec.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            bad.len()
        );
        if self.replay.is_none() {
            let d = format!("{}/evidence", self.root);
            let _ = fs::create_dir_all(&d);
            if let Err(e) = fs::write(format!("{}/{}.json", d, self.prop), &ev) {
                eprintln!("evidence: {}", e);
            }
        }
        println!(
            "{}: {} cases, {} nontrivial, {} distinct, {} inconclusive, {:.1}s",
            self.prop,
            done,
            sum.nontrivial,
            sum.sigs.len(),
            sum.incon.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (k, v) in &sum.acc.counters {
            println!("  {} = {}", k, v);
        }
        for i in sum.incon.iter().take(3) {
            println!("  inconclusive {}", i);
        }
        for k in seen_known {
            println!("KNOWN-FINDING: property={} {}", self.prop, k.1);
        }
        if let Some((c, k, w)) = bad.first() {
            self.report_violation(*c, &format!("[{}] {}", k, w));
            std::process::exit(1);
        }
        if !sum.errors.is_empty() {
            for e in sum.errors.iter().take(5) {
                eprintln!("harness error {}", e);
            }
            std::process::exit(2);
        }
        if self.replay.is_none() {
            if sum.nontrivial == 0 {
                eprintln!("no answer: the monitors observed nothing");
                std::process::exit(2);
            }
            for k in &spec.must_see {
                if sum.acc.get(k) == 0 {
                    eprintln!("no answer: never observed {}", k);
                    std::process::exit(2);
                }
            }
            if sum.incon.len() as u64 * 2 > done {
                eprintln!("no answer: most cases were inconclusive");
                std::process::exit(2);
            }
        }
        std::process::exit(0);
    }
}
