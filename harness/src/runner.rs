//! Executes cases, collects what the monitors observed, reports violations.

use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// A monitor's verdict that the property is broken.
pub struct Broken(pub String);
pub type Verdict = Result<(), Broken>;

#[macro_export]
macro_rules! broken {
    ($($a:tt)*) => { return Err($crate::runner::Broken(format!($($a)*))) };
}
/// Monitor assertion: count the observation, and stop the case if it is wrong.
#[macro_export]
macro_rules! watch {
    ($cx:expr, $cond:expr, $($a:tt)*) => {
        $cx.events += 1;
        if !($cond) { return Err($crate::runner::Broken(format!($($a)*))) }
    };
}

/// 64-bit FNV-style hasher with a final mix: stable across runs, unlike std's.
#[derive(Clone)]
pub struct Sig(u64);
impl Default for Sig {
    fn default() -> Self {
        Sig(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Sig {
    fn finish(&self) -> u64 {
        crate::rng::mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub case: u64,
    /// Larger means deeper cases (0 = quick, 1 = thorough).
    pub depth: u64,
    pub events: u64,
    pub calls: u64,
    pub nontrivial: bool,
    sig: Sig,
    /// What the crate did, as numbers that mean the same in every build.
    outcome: u64,
    labels: BTreeMap<&'static str, u64>,
    /// Building operands: a panic here is not this property's business, the case is skipped.
    pub setup: bool,
    pub trace: Option<Vec<String>>,
    pub live: bool,
}

impl Ctx {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = f();
            if self.live {
                println!("  {s}");
            }
            self.trace.as_mut().unwrap().push(s);
        }
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn sig(&mut self, x: &impl Hash) {
        x.hash(&mut self.sig)
    }
    /// Records an outcome for comparison between builds.
    pub fn out(&mut self, x: u64) {
        self.outcome = crate::rng::mix(self.outcome ^ x).wrapping_add(x);
        self.events += 1;
        if self.live {
            println!("OUT {x:x}");
        }
    }
    pub fn outcome(&self) -> u64 {
        self.outcome
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_n(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.rng.chance(n, d)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(no message)".into());
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic: {msg}{at}");
        // a panic that cannot unwind ends the process: leave its message behind
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            eprintln!("{text}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs a call that may legitimately panic.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub struct Prop {
    pub id: &'static str,
    /// Number of cases in the quick tier.
    pub quick: u64,
    /// Upper limit in the thorough tier (which also stops after its time budget).
    pub thorough: u64,
    pub case: fn(&mut Ctx) -> Verdict,
    /// Use the default thread stack size (2 MB) instead of a roomy one.
    pub small_stack: bool,
    /// Outcomes are recorded, for comparison between builds.
    pub compared: bool,
    pub rule: &'static str,
}

pub enum Outcome {
    Held,
    Skipped(String),
    Violation(String),
}

pub fn run_case(p: &Prop, seed: u64, depth: u64, case: u64, trace: bool, live: bool) -> (Outcome, Ctx) {
    let mut pid = 0u64;
    for b in p.id.bytes() {
        pid = pid * 256 + b as u64;
    }
    let mut cx = Ctx {
        rng: Rng::new(&[seed, pid, case]),
        case,
        depth,
        events: 0,
        calls: 0,
        nontrivial: false,
        sig: Sig::default(),
        outcome: 0,
        labels: BTreeMap::new(),
        setup: false,
        trace: trace.then(Vec::new),
        live,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(&mut cx)));
    let out = match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(Broken(m))) => Outcome::Violation(m),
        Err(_) if cx.setup => Outcome::Skipped(last_panic()),
        Err(_) => Outcome::Violation(last_panic()),
    };
    (out, cx)
}

#[derive(Default)]
struct Total {
    cases: u64,
    skipped: u64,
    skip_example: String,
    events: u64,
    calls: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    /// Number and outcomes of each 16 consecutive cases.
    outcomes: BTreeMap<u64, (u64, u64)>,
    violation: Option<(u64, String)>,
}

pub struct Opts {
    pub seed: u64,
    pub depth: u64,
    pub cases: u64,
    pub first: u64,
    pub secs: f64,
    pub threads: usize,
    pub out: Option<String>,
    pub slots: Option<String>,
    pub hang_secs: u64,
    pub mem_gb: u64,
}

#[cfg(not(miri))]
fn thread_cpu() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}
#[cfg(miri)]
fn thread_cpu() -> u64 {
    0
}

pub fn run(p: &Prop, o: &Opts) -> bool {
    silence_panics();
    #[cfg(all(not(miri), target_pointer_width = "64"))]
    if o.mem_gb > 0 {
        unsafe {
            let lim = libc::rlimit { rlim_cur: o.mem_gb << 30, rlim_max: o.mem_gb << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
        }
    }
    let t0 = std::time::Instant::now();
    let next = AtomicU64::new(o.first);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Total::default());
    let n = o.threads.max(1);
    // per worker: current case + 1 (0 = idle), CPU time at its start, CPU clock of the thread
    let cur: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let began: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let clocks: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(u64::MAX)).collect();
    let done = AtomicU64::new(0);
    let block = if p.quick <= 4096 { 1 } else { 32 };
    let end = o.first + o.cases;

    let worker = |w: usize| {
        #[cfg(not(miri))]
        let slot = o.slots.as_ref().map(|d| {
            use std::os::fd::AsRawFd;
            let f = std::fs::File::create(format!("{d}/slot-{w}")).expect("slot file");
            (f.as_raw_fd(), f)
        });
        #[cfg(not(miri))]
        unsafe {
            let mut c: libc::clockid_t = 0;
            if libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) == 0 {
                clocks[w].store(c as u32 as u64, Ordering::SeqCst);
            }
        }
        let mut t = Total::default();
        'all: while !stop.load(Ordering::Relaxed) {
            if t0.elapsed().as_secs_f64() > o.secs {
                break;
            }
            let b = next.fetch_add(block, Ordering::Relaxed);
            if b >= end {
                break;
            }
            for case in b..(b + block).min(end) {
                if stop.load(Ordering::Relaxed) {
                    break 'all;
                }
                #[cfg(not(miri))]
                if let Some((fd, _)) = &slot {
                    let v = (case + 1).to_le_bytes();
                    unsafe { libc::pwrite(*fd, v.as_ptr().cast(), 8, 0) };
                }
                #[cfg(miri)]
                eprintln!("CASE {case}");
                began[w].store(thread_cpu(), Ordering::SeqCst);
                cur[w].store(case + 1, Ordering::SeqCst);
                let (out, cx) = run_case(p, o.seed, o.depth, case, false, false);
                cur[w].store(0, Ordering::SeqCst);
                t.cases += 1;
                t.events += cx.events;
                t.calls += cx.calls;
                if cx.nontrivial {
                    t.nontrivial += 1;
                    if t.distinct.len() < 3_000_000 {
                        t.distinct.insert(cx.sig.finish());
                    }
                }
                if p.compared {
                    let e = t.outcomes.entry(case / 16).or_insert((0, 0));
                    e.0 += 1;
                    e.1 ^= crate::rng::mix(cx.outcome ^ crate::rng::mix(case));
                }
                for (k, v) in cx.labels {
                    *t.labels.entry(k).or_insert(0) += v;
                }
                match out {
                    Outcome::Held => {}
                    Outcome::Skipped(m) => {
                        t.skipped += 1;
                        t.skip_example = format!("case {case}: {m}");
                    }
                    Outcome::Violation(m) => {
                        t.violation = Some((case, m));
                        stop.store(true, Ordering::Relaxed);
                        break 'all;
                    }
                }
            }
        }
        #[cfg(not(miri))]
        if let Some((fd, _)) = &slot {
            unsafe { libc::pwrite(*fd, 0u64.to_le_bytes().as_ptr().cast(), 8, 0) };
        }
        let mut g = total.lock().unwrap();
        g.cases += t.cases;
        g.skipped += t.skipped;
        if !t.skip_example.is_empty() {
            g.skip_example = t.skip_example;
        }
        g.events += t.events;
        g.calls += t.calls;
        g.nontrivial += t.nontrivial;
        g.distinct.extend(t.distinct);
        for (k, v) in t.labels {
            *g.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in t.outcomes {
            let e = g.outcomes.entry(k).or_insert((0, 0));
            e.0 += v.0;
            e.1 ^= v.1;
        }
        if let Some(v) = t.violation {
            if g.violation.as_ref().map_or(true, |x| v.0 < x.0) {
                g.violation = Some(v);
            }
        }
        done.fetch_add(1, Ordering::SeqCst);
    };

    if cfg!(miri) || n == 1 && o.slots.is_none() && !p.small_stack {
        worker(0);
    } else {
        std::thread::scope(|s| {
            for w in 0..n {
                let mut b = std::thread::Builder::new();
                if !p.small_stack {
                    b = b.stack_size(64 << 20);
                }
                let worker = &worker;
                b.spawn_scoped(s, move || worker(w)).expect("spawn worker");
            }
            #[cfg(not(miri))]
            s.spawn(|| {
                while done.load(Ordering::SeqCst) < n as u64 {
                    std::thread::sleep(std::time::Duration::from_millis(25));
                    for w in 0..n {
                        let (c, b) = (cur[w].load(Ordering::SeqCst), began[w].load(Ordering::SeqCst));
                        let clk = clocks[w].load(Ordering::SeqCst);
                        if c == 0 || clk == u64::MAX {
                            continue;
                        }
                        let now = unsafe {
                            let mut ts: libc::timespec = std::mem::zeroed();
                            if libc::clock_gettime(clk as u32 as libc::clockid_t, &mut ts) != 0 {
                                continue;
                            }
                            ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
                        };
                        if cur[w].load(Ordering::SeqCst) == c && now.saturating_sub(b) > o.hang_secs * 1_000_000_000 {
                            println!("HANG {}", c - 1);
                            unsafe { libc::_exit(42) };
                        }
                    }
                }
            });
        });
    }

    let g = total.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let mut viol = String::from("null");
    if let Some((case, msg)) = &g.violation {
        let lines = if cfg!(miri) {
            vec![]
        } else {
            run_case(p, o.seed, o.depth, *case, true, false).1.trace.unwrap_or_default()
        };
        let mut lines: Vec<String> = lines.iter().map(|l| clip(l, 4000)).collect();
        if lines.len() > 400 {
            lines.drain(200..lines.len() - 200);
        }
        viol = format!(
            "{{\"case\":{case},\"message\":{},\"trace\":[{}]}}",
            js(&clip(msg, 4000)),
            lines.iter().map(|l| js(l)).collect::<Vec<_>>().join(",")
        );
    }
    let mut samples = vec![];
    if !cfg!(miri) && g.violation.is_none() {
        let mut i = o.first;
        while samples.len() < 3 && i < end.min(o.first + 60) && t0.elapsed().as_secs_f64() < o.secs + 20.0 {
            let (_, cx) = run_case(p, o.seed, o.depth, i, true, false);
            if cx.nontrivial {
                let l = cx.trace.unwrap_or_default();
                let shown: Vec<String> = l.iter().take(8).map(|x| js(&clip(x, 300))).collect();
                samples.push(format!("{{\"case\":{i},\"events\":{},\"trace\":[{}]}}", cx.events, shown.join(",")));
            }
            i += 17;
        }
    }
    let labels: Vec<String> = g.labels.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    let j = format!(
        "{{\"property\":{},\"build\":{},\"cases\":{},\"skipped\":{},\"skip_example\":{},\"events\":{},\"calls\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"labels\":{{{}}},\"rule\":{},\"samples\":[{}],\"outcomes\":{{{}}},\"violation\":{viol},\"wall_s\":{wall:.3}}}",
        js(p.id),
        js(build_name()),
        g.cases,
        g.skipped,
        js(&clip(&g.skip_example, 500)),
        g.events,
        g.calls,
        g.nontrivial,
        g.distinct.len(),
        labels.join(","),
        js(p.rule),
        samples.join(","),
        g.outcomes.iter().map(|(k, v)| format!("\"{k}\":\"{}-{:016x}\"", v.0, v.1)).collect::<Vec<_>>().join(",")
    );
    match &o.out {
        Some(f) => std::fs::write(f, j).expect("write result"),
        None => println!("RESULT {j}"),
    }
    g.violation.is_none()
}

pub fn build_name() -> &'static str {
    match (cfg!(miri), cfg!(debug_assertions), cfg!(target_pointer_width = "32")) {
        (true, _, true) => "miri-32bit",
        (true, _, false) => "miri-64bit",
        (false, true, true) => "debug-32bit",
        (false, false, true) => "release-32bit",
        (false, true, _) => "debug",
        (false, false, _) => "release",
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{} ... ({} bytes)", &s[..i], s.len())
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{u:04x}");
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Command line of every monitor binary.
pub fn main(props: &[Prop]) {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).map_or(d, |v| v.parse().expect("number"));
    let Some(p) = a.get(1).and_then(|id| props.iter().find(|p| p.id == *id)) else {
        eprintln!("usage: run|replay <property> [--seed N] [--depth N] [--case N] ...");
        std::process::exit(3);
    };
    let seed = num("--seed", 1);
    let depth = num("--depth", 0);
    if a[0] == "replay" {
        silence_panics();
        let case = num("--case", 0);
        println!("replaying {} seed {seed} case {case} ({} build)", p.id, build_name());
        let go = move || {
            let (out, _) = run_case(p, seed, depth, case, true, true);
            match out {
                Outcome::Held => println!("HELD"),
                Outcome::Skipped(m) => println!("SKIPPED {m}"),
                Outcome::Violation(m) => {
                    println!("BROKEN {m}");
                    std::process::exit(1);
                }
            }
        };
        let mut b = std::thread::Builder::new();
        if !p.small_stack {
            b = b.stack_size(64 << 20);
        }
        std::thread::scope(|s| {
            b.spawn_scoped(s, go).expect("spawn").join().ok();
        });
        return;
    }
    let o = Opts {
        seed,
        depth,
        cases: num("--cases", if depth == 0 { p.quick } else { p.thorough }),
        first: num("--first", 0),
        secs: num("--secs", 240) as f64,
        threads: num("--threads", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize,
        out: opt("--out"),
        slots: opt("--slots"),
        hang_secs: num("--hang-secs", 60),
        mem_gb: num("--mem-gb", 0),
    };
    let ok = run(p, &o);
    std::process::exit(if ok { 0 } else { 1 });
}
