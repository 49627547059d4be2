//! Bounded exhaustive explorer.
//!
//! A check consists of families. A family is a finite, explicitly enumerated space of cases
//! (operation histories, inputs, schedules, configurations), indexed 0..n. Every case is executed
//! against the real code and judged by an oracle. No case is ever skipped: a family that stops
//! early is reported as an engine error (exit 2), not as a verdict.
//!
//! A case that panics, crashes the process, or does not terminate is a violation of the property
//! (every property claimed includes that the described operation completes).

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

mod alloc;
pub mod util;

#[global_allocator]
static ALLOCATOR: alloc::ThreadCache = alloc::ThreadCache;

const MAX_THREADS: usize = 64;
const CASE_TIMEOUT_S: u64 = 60;

static SLOT_FAMILY: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(u64::MAX) }; MAX_THREADS];
static SLOT_CASE: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(u64::MAX) }; MAX_THREADS];
static SLOT_START: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
static PROPERTY: Mutex<String> = Mutex::new(String::new());
static mut PROPERTY_RAW: [u8; 16] = [0; 16];
static mut PROPERTY_LEN: usize = 0;
static FAMILY_NAMES: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// Where the engine reports to: standard output, also while that is redirected.
static REPORT: AtomicI32 = AtomicI32::new(1);
/// The check within which that of another property is run, and the latter once it has finished.
static OUTER: Mutex<Option<Outer>> = Mutex::new(None);
static INNER: Mutex<Option<Check>> = Mutex::new(None);

struct Outer {
    modes: Modes,
    replay: Option<(String, u64)>,
    only: Option<String>,
    property: String,
    seed: u64,
    shard: Option<(u64, u64)>,
}

/// Two ways to run the same cases.
#[derive(Clone, Copy)]
pub struct Modes {
    /// Prefix of the names of the families.
    pub label: &'static str,
    /// What is different, for the report.
    pub what: &'static str,
    /// Makes the thread run in the second way, or in the first.
    pub set: fn(bool),
    /// Every how many cases of a family one is run.
    pub every: fn(&str, &str, u64) -> u64,
}

struct Finished;

/// Runs `f` with standard output going nowhere.
pub fn silent<R>(f: impl FnOnce() -> R) -> R {
    let _ = std::io::stdout().flush();
    let (saved, null) = unsafe {
        (
            libc::dup(1),
            libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY),
        )
    };
    assert!(saved > 2 && null > 2, "cannot redirect standard output");
    REPORT.store(saved, Ordering::SeqCst);
    unsafe { libc::dup2(null, 1) };
    let r = catch_unwind(AssertUnwindSafe(f));
    let _ = std::io::stdout().flush();
    REPORT.store(1, Ordering::SeqCst);
    unsafe {
        libc::dup2(saved, 1);
        libc::close(saved);
        libc::close(null);
    }
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn report(s: &str) {
    let _ = std::io::stdout().flush();
    let text = format!("{s}\n");
    let mut b = text.as_bytes();
    while !b.is_empty() {
        let n = unsafe {
            libc::write(
                REPORT.load(Ordering::SeqCst),
                b.as_ptr() as *const libc::c_void,
                b.len(),
            )
        };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC_MESSAGE: Cell<Option<String>> = const { Cell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A failed case. `key` identifies the failing input, call site or history for known findings.
#[derive(Clone, Debug)]
pub struct Failure {
    pub key: String,
    pub detail: String,
}

impl Failure {
    pub fn new(key: impl Into<String>, detail: impl Into<String>) -> Self {
        Self {
            key: key.into(),
            detail: detail.into(),
        }
    }
}

impl From<String> for Failure {
    fn from(s: String) -> Self {
        Failure::new("", s)
    }
}

impl From<&str> for Failure {
    fn from(s: &str) -> Self {
        Failure::new("", s)
    }
}

pub type CaseResult = Result<(), Failure>;

/// Coverage of one worker.
#[derive(Default)]
pub struct Cov {
    states: HashSet<u64>,
    states_direct: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    want_sample: bool,
    violations: Vec<(u64, Failure)>,
    violation_keys: HashSet<String>,
    n_violations: u64,
}

impl Cov {
    /// Records a state reached, identified by a hash of its canonical form.
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, s: &T) {
        self.states.insert(util::hash64(s));
    }
    /// Records `n` states that are distinct by construction of the enumeration.
    pub fn distinct_states(&mut self, n: u64) {
        self.states_direct += n;
    }
    /// Records an observed outcome, to show the exploration is not vacuous.
    pub fn outcome<T: std::hash::Hash + ?Sized>(&mut self, s: &T) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(util::hash64(s));
        }
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn wants_sample(&self) -> bool {
        self.want_sample
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
}

struct FamilyStats {
    name: String,
    cases: u64,
    transitions: u64,
    traces: u64,
    states: u64,
    outcomes: u64,
    wall: f64,
    /// Every how many cases one was run.
    every: u64,
}

pub struct Check {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    replay: Option<(String, u64)>,
    only: Option<String>,
    families: Vec<FamilyStats>,
    states_total: u64,
    samples: Vec<(String, String)>,
    violations: Vec<(String, u64, Failure)>,
    n_violations: u64,
    assumptions: Vec<String>,
    notes: BTreeMap<String, String>,
    start: Instant,
    threads: usize,
    modes: Option<Modes>,
    /// The part of the cases of a nested check that this process runs.
    shard: Option<(u64, u64)>,
}

fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn escape(s: &str) -> String {
    s.replace('\\', "\\\\")
        .replace('\t', "\\t")
        .replace('\n', "\\n")
}

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        out.push(match c {
            '\\' => match it.next() {
                Some('t') => '\t',
                Some('n') => '\n',
                _ => '\\',
            },
            c => c,
        });
    }
    out
}

fn now_s() -> u64 {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_secs() + 1
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn replay_dir() -> String {
    format!("{}/evidence/replay", verif_dir())
}

extern "C" fn on_signal(sig: libc::c_int) {
    // Async-signal-safe: only atomics, stack buffers and raw system calls.
    unsafe {
        let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
        let in_case = IN_CASE.try_with(|s| s.get()).unwrap_or(false);
        if slot >= MAX_THREADS || !in_case {
            libc::_exit(2);
        }
        let fam = SLOT_FAMILY[slot].load(Ordering::Relaxed);
        let case = SLOT_CASE[slot].load(Ordering::Relaxed);
        let mut buf = [0u8; 256];
        let mut n = 0;
        let put = |b: &[u8], buf: &mut [u8; 256], n: &mut usize| {
            for x in b {
                if *n < 256 {
                    buf[*n] = *x;
                    *n += 1;
                }
            }
        };
        let putn = |mut v: u64, buf: &mut [u8; 256], n: &mut usize| {
            let mut d = [0u8; 20];
            let mut i = 20;
            loop {
                i -= 1;
                d[i] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            for x in &d[i..] {
                if *n < 256 {
                    buf[*n] = *x;
                    *n += 1;
                }
            }
        };
        let prop = &PROPERTY_RAW[..PROPERTY_LEN];
        put(b"crash: signal ", &mut buf, &mut n);
        putn(sig as u64, &mut buf, &mut n);
        put(b" in family ", &mut buf, &mut n);
        putn(fam, &mut buf, &mut n);
        put(b" case ", &mut buf, &mut n);
        putn(case, &mut buf, &mut n);
        put(b"\nVIOLATION property=", &mut buf, &mut n);
        put(prop, &mut buf, &mut n);
        put(b" replay=family#", &mut buf, &mut n);
        putn(fam, &mut buf, &mut n);
        put(b":", &mut buf, &mut n);
        putn(case, &mut buf, &mut n);
        put(b"\n", &mut buf, &mut n);
        libc::write(
            REPORT.load(Ordering::Relaxed),
            buf.as_ptr() as *const libc::c_void,
            n,
        );
        libc::_exit(1);
    }
}

fn install_handlers() {
    unsafe {
        for sig in [
            libc::SIGSEGV,
            libc::SIGBUS,
            libc::SIGABRT,
            libc::SIGILL,
            libc::SIGFPE,
        ] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
        // Bound the address space so that runaway allocation fails inside the case.
        let lim = libc::rlimit {
            rlim_cur: 24 << 30,
            rlim_max: 24 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let in_case = IN_CASE.try_with(|c| c.get()).unwrap_or(false);
        if !in_case {
            eprintln!("engine panic: {} at {:?}", msg, info.location());
        }
        let loc = info
            .location()
            .map(|l| l.file().to_string())
            .unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or_default();
        PANIC_MESSAGE.with(|p| p.set(Some(format!("panic: {msg} ({loc}:{line})"))));
    }));
}

/// Runs `f`, turning a panic into an error text.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_MESSAGE
            .with(|p| p.take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

impl Check {
    pub fn new(property: &str) -> Self {
        if let Some(o) = OUTER.lock().unwrap().as_ref() {
            return Self {
                property: o.property.clone(),
                tier: Tier::Quick,
                seed: o.seed,
                replay: o.replay.clone(),
                only: o.only.clone(),
                families: Vec::new(),
                states_total: 0,
                samples: Vec::new(),
                violations: Vec::new(),
                n_violations: 0,
                assumptions: Vec::new(),
                notes: BTreeMap::new(),
                start: Instant::now(),
                threads: 1,
                modes: Some(o.modes),
                shard: o.shard,
            };
        }
        let mut replay = None;
        let mut only = None;
        let args: Vec<String> = std::env::args().skip(1).collect();
        let mut tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let mut i = 0;
        while i < args.len() {
            match args[i].as_str() {
                "--thorough" => tier = Tier::Thorough,
                "--quick" => tier = Tier::Quick,
                "--only" => {
                    i += 1;
                    only = Some(args[i].clone());
                }
                "--replay" => {
                    i += 1;
                    let text =
                        std::fs::read_to_string(&args[i]).unwrap_or_else(|_| args[i].clone());
                    let mut fam = String::new();
                    let mut case = 0;
                    for line in text.lines() {
                        if let Some(v) = line.strip_prefix("family=") {
                            fam = v.to_string();
                        }
                        if let Some(v) = line.strip_prefix("case=") {
                            case = v.parse().unwrap();
                        }
                    }
                    if fam.is_empty() {
                        let (f, c) = args[i].rsplit_once(':').expect("family:case");
                        fam = f.to_string();
                        case = c.parse().unwrap();
                    }
                    replay = Some((fam, case));
                }
                a => {
                    eprintln!("unknown argument {a}");
                    std::process::exit(2);
                }
            }
            i += 1;
        }
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        *PROPERTY.lock().unwrap() = property.to_string();
        unsafe {
            let b = property.as_bytes();
            for (i, x) in b.iter().take(16).enumerate() {
                PROPERTY_RAW[i] = *x;
            }
            PROPERTY_LEN = b.len().min(16);
        }
        let _ = now_s();
        install_handlers();
        let _ = std::fs::create_dir_all(replay_dir());
        // Remove stale evidence so that an aborted run leaves none.
        let part = std::env::var("MC_SHARD").is_ok();
        let _ = part
            || std::fs::remove_file(format!("{}/evidence/{}.json", verif_dir(), property)).is_ok();
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(MAX_THREADS - 1);
        Self {
            property: property.to_string(),
            tier,
            seed,
            replay,
            only,
            families: Vec::new(),
            states_total: 0,
            samples: Vec::new(),
            violations: Vec::new(),
            n_violations: 0,
            assumptions: Vec::new(),
            notes: BTreeMap::new(),
            start: Instant::now(),
            threads,
            modes: None,
            shard: std::env::var("MC_SHARD").ok().and_then(|s| {
                s.split_once('/')
                    .and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))
            }),
        }
    }

    /// Runs this program once per core, each with its part of the cases of the nested checks, and takes what they found.
    /// Returns whether the nested checks are to be run by this process.
    pub fn spread(&mut self) -> bool {
        if self.shard.is_some() || self.replay.is_some() {
            return true;
        }
        let n = self.threads;
        let exe = std::env::current_exe().expect("own path");
        let dir = format!("{}/evidence/shards-{}", verif_dir(), std::process::id());
        std::fs::create_dir_all(&dir).expect("directory for results");
        let _ = std::io::stdout().flush();
        let children: Vec<_> = (0..n)
            .map(|k| {
                std::process::Command::new(&exe)
                    .args(std::env::args().skip(1))
                    .env("MC_SHARD", format!("{k}/{n}"))
                    .env("MC_SHARD_OUT", format!("{dir}/{k}"))
                    .spawn()
                    .expect("spawn")
            })
            .collect();
        let mut code = 0;
        for (k, mut c) in children.into_iter().enumerate() {
            let r = c.wait().expect("wait");
            if !r.success() {
                eprintln!("part {k} ended with {r}");
                code = if code == 1 || r.code() == Some(1) {
                    1
                } else {
                    2
                };
            }
        }
        let texts: Vec<_> = (0..n)
            .map(|k| std::fs::read_to_string(format!("{dir}/{k}")))
            .collect();
        let _ = std::fs::remove_dir_all(&dir);
        if code != 0 {
            std::process::exit(code);
        }
        for t in texts {
            for l in t.expect("results of a part").lines() {
                let f: Vec<String> = l.split('\t').map(unescape).collect();
                match f[0].as_str() {
                    "F" => {
                        let v: Vec<u64> = f[2..7].iter().map(|x| x.parse().unwrap()).collect();
                        let i = self
                            .families
                            .iter()
                            .position(|x| x.name == f[1])
                            .unwrap_or_else(|| {
                                self.families.push(FamilyStats {
                                    name: f[1].clone(),
                                    cases: 0,
                                    transitions: 0,
                                    traces: 0,
                                    states: 0,
                                    outcomes: 0,
                                    wall: 0.0,
                                    every: f[8].parse().unwrap(),
                                });
                                self.families.len() - 1
                            });
                        let x = &mut self.families[i];
                        (x.cases, x.transitions, x.traces, x.states) = (
                            x.cases + v[0],
                            x.transitions + v[1],
                            x.traces + v[2],
                            x.states + v[3],
                        );
                        // The parts have outcomes in common: at least so many are distinct.
                        x.outcomes = x.outcomes.max(v[4]);
                        x.wall = x.wall.max(f[7].parse().unwrap());
                        self.states_total += v[3];
                    }
                    "S" => {
                        if self.samples.iter().filter(|x| x.0 == f[1]).count() < 2 {
                            self.samples.push((f[1].clone(), f[2].clone()));
                        }
                    }
                    _ => {
                        self.n_violations += 1;
                        self.violations.push((
                            f[1].clone(),
                            f[2].parse().unwrap(),
                            Failure::new(f[3].clone(), f[4].clone()),
                        ));
                    }
                }
            }
        }
        for st in &self.families {
            report(&format!(
                "family {:<34} cases={} states={} transitions={} traces={} outcomes={} {:.2}s",
                st.name, st.cases, st.states, st.transitions, st.traces, st.outcomes, st.wall
            ));
        }
        false
    }

    /// Runs the cases of the check of another property, given by its `main`, twice each: in the first way, and in the
    /// second. What holds, and what was observed, has to be the same. What does not hold in the first way either is for
    /// the other check to report.
    pub fn twice(&mut self, modes: Modes, main: fn()) {
        *OUTER.lock().unwrap() = Some(Outer {
            modes,
            replay: self.replay.clone(),
            only: self.only.clone(),
            property: self.property.clone(),
            seed: self.seed,
            shard: self.shard,
        });
        let r = silent(|| catch_unwind(AssertUnwindSafe(main)));
        *OUTER.lock().unwrap() = None;
        match r {
            Err(e) if e.is::<Finished>() => {}
            Err(e) => std::panic::resume_unwind(e),
            Ok(()) => unreachable!("a check ends by finishing"),
        }
        let inner = INNER.lock().unwrap().take().expect("inner check");
        self.families.extend(inner.families);
        self.samples.extend(inner.samples);
        self.violations.extend(inner.violations);
        self.n_violations += inner.n_violations;
        self.states_total += inner.states_total;
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Picks a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    /// Whether every case of the families is run, as when the check is not run within another.
    pub fn whole(&self) -> bool {
        self.modes.is_none() && self.replay.is_none() && self.only.is_none()
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    pub fn note(&mut self, k: &str, v: impl ToString) {
        self.notes.insert(k.to_string(), v.to_string());
    }

    /// Exhaustively runs cases 0..n of a family on all cores.
    pub fn family<F>(&mut self, name: &str, n: u64, run: F)
    where
        F: Fn(u64, &mut Cov) -> CaseResult + Sync,
    {
        let threads = self.threads;
        self.family_with(name, n, threads, run)
    }

    /// Same, on a single worker (for code that uses process-wide or OS state).
    pub fn family_serial<F>(&mut self, name: &str, n: u64, run: F)
    where
        F: Fn(u64, &mut Cov) -> CaseResult + Sync,
    {
        self.family_with(name, n, 1, run)
    }

    fn family_with<F>(&mut self, name: &str, n: u64, threads: usize, run: F)
    where
        F: Fn(u64, &mut Cov) -> CaseResult + Sync,
    {
        let Some(m) = self.modes else {
            return self.run_family(name, n, threads, run);
        };
        let every = if self.replay.is_some() {
            1
        } else {
            (m.every)(m.label, name, n)
        };
        // The n cases run are those with the numbers (k + j * of) * every.
        let (k, of) = self.shard.unwrap_or((0, 1));
        // Which part begins differs between the families, as many have few cases, and the first often take longest.
        let k = (k + FAMILY_NAMES.lock().unwrap().len() as u64) % of;
        let count = n.div_ceil(every);
        let name = format!("{} {name}", m.label);
        if count <= k {
            FAMILY_NAMES.lock().unwrap().push(name);
            return;
        }
        let one = |i: u64, cov: &mut Cov, second: bool| {
            (m.set)(second);
            let r = catch_unwind(AssertUnwindSafe(|| run(i, cov)));
            (m.set)(false);
            match r {
                Ok(r) => r,
                Err(_) => Err(Failure::new(
                    "",
                    PANIC_MESSAGE.with(|p| p.take()).unwrap_or_default(),
                )),
            }
        };
        let number = |j: u64| (k + j * of) * every;
        self.run_family(&name, (count - k).div_ceil(of), threads, |i, cov| {
            let i = number(i);
            let (mut a, mut b) = (Cov::default(), Cov::default());
            let first = one(i, &mut a, false);
            let second = one(i, &mut b, true);
            cov.trace();
            cov.steps(b.transitions);
            cov.outcome(&(
                second.is_ok(),
                b.outcomes.iter().fold(0u64, |x, y| x ^ y),
                b.transitions,
            ));
            cov.state(&i);
            cov.sample(|| {
                format!(
                    "case {i}, run both ways: {} steps, {} outcomes",
                    b.transitions,
                    b.outcomes.len()
                )
            });
            if first.is_err() {
                return Ok(());
            }
            if let Err(f) = second {
                return Err(Failure::new(
                    format!("case {i}"),
                    format!("{}: {}", m.what, f.detail),
                ));
            }
            if (
                &a.states,
                a.states_direct,
                a.transitions,
                a.traces,
                &a.outcomes,
            ) != (
                &b.states,
                b.states_direct,
                b.transitions,
                b.traces,
                &b.outcomes,
            ) {
                return Err(Failure::new(
                    format!("case {i}"),
                    format!("{}: what was observed is not the same", m.what),
                ));
            }
            Ok(())
        });
        if let Some(f) = self.families.last_mut().filter(|f| f.name == name) {
            f.every = every;
        }
        // Cases are known by their number in the other check.
        self.violations
            .iter_mut()
            .filter(|v| v.0 == name)
            .for_each(|v| v.1 = number(v.1));
    }

    fn run_family<F>(&mut self, name: &str, n: u64, threads: usize, run: F)
    where
        F: Fn(u64, &mut Cov) -> CaseResult + Sync,
    {
        let fam_index = {
            let mut names = FAMILY_NAMES.lock().unwrap();
            names.push(name.to_string());
            (names.len() - 1) as u64
        };
        let (mut lo, mut hi) = (0, n);
        if let Some((f, c)) = &self.replay {
            if f != name && *f != format!("family#{fam_index}") {
                return;
            }
            lo = *c;
            hi = (*c + 1).min(n);
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if n == 0 {
            eprintln!("family {name} is empty: vacuous");
            std::process::exit(2);
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(lo);
        let span = hi.saturating_sub(lo).max(1);
        let workers = threads.min(span as usize).max(1);
        let chunk = (span / (workers as u64 * 16)).clamp(1, 4096);
        let done = AtomicBool::new(false);
        let finished = AtomicUsize::new(0);
        let executed = AtomicU64::new(0);
        let covs: Mutex<Vec<Cov>> = Mutex::new(Vec::new());
        std::thread::scope(|scope| {
            for w in 0..workers {
                let (next, run, covs, finished, executed) =
                    (&next, &run, &covs, &finished, &executed);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        SLOT.with(|s| s.set(w));
                        SLOT_FAMILY[w].store(fam_index, Ordering::Relaxed);
                        let mut cov = Cov::default();
                        let mut count = 0u64;
                        loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= hi {
                                break;
                            }
                            let b = (a + chunk).min(hi);
                            for i in a..b {
                                SLOT_CASE[w].store(i, Ordering::Relaxed);
                                SLOT_START[w].store(now_s(), Ordering::Relaxed);
                                cov.want_sample =
                                    i == lo || i == lo + (hi - lo) / 2 || i == lo + (hi - lo) / 3;
                                IN_CASE.with(|c| c.set(true));
                                let r = match catch_unwind(AssertUnwindSafe(|| run(i, &mut cov))) {
                                    Ok(r) => r,
                                    Err(_) => {
                                        let m =
                                            PANIC_MESSAGE.with(|p| p.take()).unwrap_or_default();
                                        Err(Failure::new("", m))
                                    }
                                };
                                IN_CASE.with(|c| c.set(false));
                                SLOT_START[w].store(0, Ordering::Relaxed);
                                count += 1;
                                if let Err(mut f) = r {
                                    if f.key.is_empty() {
                                        f.key = format!("case {i}");
                                    }
                                    cov.n_violations += 1;
                                    if cov.violations.len() < 2000
                                        && cov.violation_keys.insert(f.key.clone())
                                    {
                                        cov.violations.push((i, f));
                                    }
                                }
                            }
                        }
                        executed.fetch_add(count, Ordering::SeqCst);
                        covs.lock().unwrap().push(cov);
                        finished.fetch_add(1, Ordering::SeqCst);
                    })
                    .expect("spawn worker");
            }
            // Watchdog.
            let (done, finished, prop) = (&done, &finished, self.property.clone());
            let fam_name = name.to_string();
            scope.spawn(move || {
                let mut ticks = 0u32;
                while finished.load(Ordering::SeqCst) < workers && !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(if ticks < 50 { 2 } else { 50 }));
                    ticks += 1;
                    let now = now_s();
                    for w in 0..workers {
                        let s = SLOT_START[w].load(Ordering::Relaxed);
                        if s != 0 && now > s + CASE_TIMEOUT_S {
                            let case = SLOT_CASE[w].load(Ordering::Relaxed);
                            let path = write_replay(&prop, &fam_name, case, "nontermination", "the operation does not terminate");
                            report(&format!("family={fam_name} case={case}: the operation did not complete within {CASE_TIMEOUT_S} s\nVIOLATION property={prop} replay={path}"));
                            unsafe { libc::_exit(1) };
                        }
                    }
                }
            });
        });
        if executed.load(Ordering::SeqCst) != hi.saturating_sub(lo) {
            eprintln!(
                "engine error: family {name} executed {} of {} cases",
                executed.load(Ordering::SeqCst),
                hi - lo
            );
            std::process::exit(2);
        }
        let mut states: HashSet<u64> = HashSet::new();
        let mut outcomes: HashSet<u64> = HashSet::new();
        let mut st = FamilyStats {
            name: name.to_string(),
            cases: hi - lo,
            transitions: 0,
            traces: 0,
            states: 0,
            outcomes: 0,
            wall: 0.0,
            every: 1,
        };
        for c in covs.into_inner().unwrap() {
            st.transitions += c.transitions;
            st.traces += c.traces;
            st.states += c.states_direct;
            if states.is_empty() {
                states = c.states;
            } else {
                states.extend(c.states);
            }
            outcomes.extend(c.outcomes);
            for s in c.samples {
                if self.samples.iter().filter(|x| x.0 == name).count() < 2 {
                    self.samples.push((name.to_string(), s));
                }
            }
            self.n_violations += c.n_violations;
            for (i, f) in c.violations {
                self.violations.push((name.to_string(), i, f));
            }
        }
        st.states += states.len() as u64;
        st.outcomes = outcomes.len() as u64;
        st.wall = t0.elapsed().as_secs_f64();
        self.states_total += st.states;
        if self.shard.is_none() {
            report(&format!(
                "family {:<34} cases={} states={} transitions={} traces={} outcomes={} {:.2}s",
                st.name, st.cases, st.states, st.transitions, st.traces, st.outcomes, st.wall
            ));
        }
        self.families.push(st);
    }

    /// Reports, writes evidence and exits.
    pub fn finish(mut self) -> ! {
        if self.modes.is_some() {
            *INNER.lock().unwrap() = Some(self);
            std::panic::resume_unwind(Box::new(Finished));
        }
        if let (Some(_), Ok(path)) = (self.shard, std::env::var("MC_SHARD_OUT")) {
            let mut s = String::new();
            for f in &self.families {
                s.push_str(&format!(
                    "F\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
                    escape(&f.name),
                    f.cases,
                    f.transitions,
                    f.traces,
                    f.states,
                    f.outcomes,
                    f.wall,
                    f.every
                ));
            }
            self.samples
                .iter()
                .for_each(|(f, x)| s.push_str(&format!("S\t{}\t{}\n", escape(f), escape(x))));
            for (f, i, v) in &self.violations {
                s.push_str(&format!(
                    "V\t{}\t{i}\t{}\t{}\n",
                    escape(f),
                    escape(&v.key),
                    escape(&v.detail)
                ));
            }
            std::fs::write(path, s).expect("write results");
            std::process::exit(0);
        }
        let known = load_known(&self.property);
        let mut new: Vec<(String, u64, Failure)> = Vec::new();
        let mut hit: BTreeMap<String, String> = BTreeMap::new();
        self.violations
            .sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
        for (fam, case, f) in std::mem::take(&mut self.violations) {
            let full = format!("{}/{}", fam, f.key);
            if let Some(what) = known.get(&full) {
                hit.insert(full, what.clone());
            } else {
                new.push((fam, case, f));
            }
        }
        for (k, what) in &hit {
            println!("KNOWN-FINDING: property={} [{}] {}", self.property, k, what);
        }
        if self.replay.is_some() && self.families.is_empty() {
            eprintln!("replay: no such family");
            std::process::exit(2);
        }
        if self.replay.is_none() && self.only.is_none() {
            self.write_evidence(&hit, new.len() as u64);
        }
        if new.is_empty() {
            println!("OK property={} states={}", self.property, self.states_total);
            let _ = std::io::stdout().flush();
            std::process::exit(0);
        }
        println!(
            "{} violating cases ({} distinct keys not listed as known)",
            self.n_violations,
            new.len()
        );
        let show: usize = std::env::var("VERIF_SHOW")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(2);
        let mut per: BTreeMap<String, usize> = BTreeMap::new();
        for (fam, case, f) in new.iter() {
            let n = per.entry(fam.clone()).or_default();
            *n += 1;
            if *n > show {
                continue;
            }
            let path = write_replay(&self.property, fam, *case, &f.key, &f.detail);
            println!("  {fam}/{} case={case}: {}", f.key, f.detail);
            println!("VIOLATION property={} replay={}", self.property, path);
        }
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }

    fn write_evidence(&self, hit: &BTreeMap<String, String>, new: u64) {
        let tr: u64 = self.families.iter().map(|f| f.transitions).sum();
        let traces: u64 = self.families.iter().map(|f| f.traces).sum();
        let cases: u64 = self.families.iter().map(|f| f.cases).sum();
        let mut s = String::from("{\n");
        s.push_str(&format!(" \"property\": {},\n", json_str(&self.property)));
        s.push_str(&format!(
            " \"tier\": \"{}\",\n",
            if self.thorough() { "thorough" } else { "quick" }
        ));
        s.push_str(&format!(" \"seed\": {},\n", self.seed));
        s.push_str(" \"level\": \"model_checking\",\n \"coverage\": {\n");
        s.push_str(&format!("  \"states\": {},\n", self.states_total));
        s.push_str(&format!("  \"transitions\": {},\n", tr));
        s.push_str(&format!(
            "  \"traces_validated_against_impl\": {},\n",
            traces
        ));
        s.push_str(&format!("  \"evaluations\": {},\n", cases));
        s.push_str(&format!(
            "  \"exhaustive\": {},\n  \"families\": [\n",
            self.families.iter().all(|f| f.every == 1)
        ));
        let l: Vec<String> = self
            .families
            .iter()
            .map(|f| {
                format!(
                    "   {{\"name\": {}, \"cases\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"distinct_outcomes\": {}, \"wall_s\": {:.3}{}}}",
                    json_str(&f.name), f.cases, f.states, f.transitions, f.traces, f.outcomes, f.wall,
                    if f.every == 1 { String::new() } else { format!(", \"one_case_of_every\": {}", f.every) }
                )
            })
            .collect();
        s.push_str(&l.join(",\n"));
        s.push_str("\n  ],\n  \"notes\": {");
        let l: Vec<String> = self
            .notes
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), json_str(v)))
            .collect();
        s.push_str(&l.join(", "));
        s.push_str("},\n  \"samples\": [\n");
        let l: Vec<String> = self
            .samples
            .iter()
            .map(|(f, x)| {
                format!(
                    "   {{\"family\": {}, \"case\": {}}}",
                    json_str(f),
                    json_str(x)
                )
            })
            .collect();
        s.push_str(&l.join(",\n"));
        s.push_str("\n  ],\n  \"known_findings_hit\": [");
        let l: Vec<String> = hit.keys().map(|k| json_str(k)).collect();
        s.push_str(&l.join(", "));
        s.push_str("]\n },\n \"assumptions\": [");
        let l: Vec<String> = self.assumptions.iter().map(|k| json_str(k)).collect();
        s.push_str(&l.join(", "));
        s.push_str(&format!(
            "],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.start.elapsed().as_secs_f64(),
            new
        ));
        let p = format!("{}/evidence/{}.json", verif_dir(), self.property);
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        std::fs::write(&p, s).unwrap_or_else(|e| {
            eprintln!("cannot write evidence {p}: {e}");
            std::process::exit(2);
        });
    }
}

fn write_replay(prop: &str, fam: &str, case: u64, key: &str, detail: &str) -> String {
    let _ = std::fs::create_dir_all(replay_dir());
    let clean: String = fam
        .chars()
        .map(|c| if c.is_ascii_alphanumeric() { c } else { '_' })
        .collect();
    let p = format!("{}/{}-{}-{}.txt", replay_dir(), prop, clean, case);
    let _ = std::fs::write(
        &p,
        format!(
            "property={prop}\nfamily={fam}\ncase={case}\nkey={key}\ndetail={detail}\n# run again: /verif/check.sh {prop} --replay <this file>\n"
        ),
    );
    p
}

/// Known findings: lines `finding: property=<id> [<family>/<key>] <what fails>`.
fn load_known(property: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let Ok(text) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) else {
        return m;
    };
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: property=") else {
            continue;
        };
        let Some((id, rest)) = rest.split_once(' ') else {
            continue;
        };
        if id != property {
            continue;
        }
        let Some(rest) = rest.strip_prefix('[') else {
            continue;
        };
        let Some((key, what)) = rest.split_once("] ") else {
            continue;
        };
        m.insert(key.to_string(), what.to_string());
    }
    m
}
