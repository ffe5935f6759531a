//! Stateless bounded model checker: exhaustively enumerates every sequence of choices a harness
//! body makes (inputs, operations, environment answers, schedules) and runs the real code on each.
//!
//! * `Ctx::pick` - a free choice: every alternative is explored.
//! * `Ctx::dev`  - a costed choice: alternative 0 is the default, any other one is a *deviation*;
//!   executions with at most `bound` deviations are explored, all of them.
//!
//! Executions are enumerated depth-first in lexicographic order by replaying prefixes, so nothing
//! is stored but the current trace; idle workers steal untouched sibling prefixes.

pub mod env;
pub mod json;
pub mod refimpl;
pub mod sched;
pub mod texts;

use json::J;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::collections::VecDeque;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
const MAX_STATES: usize = 4_000_000;
type FpSet = HashSet<u64, BuildHasherDefault<IdHash>>;

/// Fingerprint of any hashable value (fixed-key SipHash).
pub fn fp<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub struct Ctx {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32, bool)>,
    devs: u32,
    bound: u32,
    pub tier: Tier,
    /// Whether notes are being kept (samples, replays).
    pub recording: bool,
    notes: Vec<String>,
    states: Vec<u64>,
    steps: u64,
    diverged: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Ctx {
    fn new(prefix: Vec<u32>, bound: u32, tier: Tier, recording: bool) -> Self {
        Ctx { prefix, trace: Vec::new(), devs: 0, bound, tier, recording, notes: vec![], states: vec![], steps: 0, diverged: false }
    }
    fn choose(&mut self, n: usize, costed: bool) -> usize {
        assert!(n > 0, "harness error: empty choice");
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            self.diverged = true;
            panic!("harness error: replayed choice {} out of {}", c, n);
        }
        if costed && c != 0 {
            self.devs += 1;
        }
        self.trace.push((c, n as u32, costed));
        c as usize
    }
    pub fn pick(&mut self, n: usize) -> usize {
        self.choose(n, false)
    }
    pub fn dev(&mut self, n: usize) -> usize {
        self.choose(n, true)
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn dflag(&mut self) -> bool {
        self.dev(2) == 1
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
    pub fn devof<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.dev(xs.len())]
    }
    /// Records a state of the system under test (its fingerprint) reached by one more step.
    pub fn state<T: Hash + ?Sized>(&mut self, x: &T) {
        self.steps += 1;
        self.states.push(fp(x));
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.recording {
            self.notes.push(f());
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Deviations left to spend.
    pub fn budget(&self) -> u32 {
        self.bound - self.devs.min(self.bound)
    }
}

pub type Verdict = Result<(), String>;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(m.unwrap_or_else(|| {
                e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
            }))
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)+) => { if !$c { return Err(format!($($fmt)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}\n  got:      {:?}\n  expected: {:?}", format_args!($($fmt)+), a, b)); }
    }};
}

#[derive(Default, Clone)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub max_depth: usize,
    pub samples: Vec<String>,
    pub rechecked: u64,
    /// Order-independent digest of all (choices, states).
    pub digest: u64,
}

pub struct Violation {
    pub scenario: String,
    pub trace: Vec<u32>,
    pub detail: String,
    pub notes: Vec<String>,
}

struct Task {
    prefix: Vec<u32>,
}

struct Shared {
    queue: Mutex<(VecDeque<Task>, usize /* idle workers */)>,
    cv: Condvar,
    hungry: AtomicBool,
    stop: AtomicBool,
    capped: AtomicBool,
    violation: Mutex<Option<(Vec<u32>, String)>>,
    fatal: Mutex<Option<String>>,
}

pub struct Runner {
    pub tier: Tier,
    pub config: String,
    workers: usize,
    only: Option<(String, Vec<u32>)>,
    trace_log: Option<std::fs::File>,
    dump: Option<std::sync::Arc<Mutex<std::io::BufWriter<std::fs::File>>>>,
    deadline: Instant,
    hang: Duration,
    pub scenarios: Vec<J>,
    pub violations: Vec<Violation>,
    probed: usize,
    total: Stats,
    states: FpSet,
    pub assumptions: Vec<String>,
    out: Option<String>,
    replayed: bool,
    t0: Instant,
    capped: bool,
}

struct Slot {
    since: AtomicU64,
    prefix: Mutex<Vec<u32>>,
}

fn now_ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64 + 1
}

fn one<B: Fn(&mut Ctx) -> Verdict>(body: &B, prefix: Vec<u32>, bound: u32, tier: Tier, rec: bool) -> (Ctx, Verdict) {
    let mut cx = Ctx::new(prefix, bound, tier, rec);
    let r = match catch(|| body(&mut cx)) {
        Ok(v) => v,
        Err(m) => Err(format!("unexpected panic: {}", m)),
    };
    (cx, r)
}

impl Runner {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Picks a bound by tier.
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }

    /// Explores `body` exhaustively with at most `bound` deviations.
    pub fn scenario<B>(&mut self, name: &str, about: &str, bound: u32, body: B)
    where
        B: Fn(&mut Ctx) -> Verdict + Sync,
    {
        let workers = self.workers;
        self.scenario_w(name, about, bound, workers, body)
    }

    /// Shows that a recorded finding is still there: its violation does not end the exploration.
    /// The body must fail in no other way than the finding, and the other scenarios must tolerate
    /// exactly what it shows.
    pub fn probe<B>(&mut self, name: &str, about: &str, body: B)
    where
        B: Fn(&mut Ctx) -> Verdict + Sync,
    {
        let n = self.violations.len();
        self.scenario_w(name, about, 0, 1, body);
        self.probed += self.violations.len() - n;
    }

    /// Like `scenario`, on a single worker thread (bodies that own process-wide state).
    pub fn scenario_serial<B>(&mut self, name: &str, about: &str, bound: u32, body: B)
    where
        B: Fn(&mut Ctx) -> Verdict + Sync,
    {
        self.scenario_w(name, about, bound, 1, body)
    }

    fn scenario_w<B>(&mut self, name: &str, about: &str, bound: u32, workers: usize, body: B)
    where
        B: Fn(&mut Ctx) -> Verdict + Sync,
    {
        if let Some((n, t)) = &self.only {
            if n != name {
                return;
            }
            self.replayed = true;
            let (cx, r) = one(&body, t.clone(), u32::MAX, self.tier, true);
            for l in &cx.notes {
                println!("  {}", l);
            }
            let trace = cx.trace.iter().map(|x| x.0).collect();
            match r {
                Ok(()) => println!("replay: no violation"),
                Err(d) => {
                    println!("replay: {}", d);
                    self.violations.push(Violation { scenario: name.into(), trace, detail: d, notes: cx.notes });
                }
            }
            return;
        }
        // One violation decides the property: do not spend time on the other scenarios.
        if self.violations.len() > self.probed {
            return;
        }
        let t0 = Instant::now();
        let sh = Shared {
            queue: Mutex::new((VecDeque::from([Task { prefix: vec![] }]), 0)),
            cv: Condvar::new(),
            hungry: AtomicBool::new(workers > 1),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            violation: Mutex::new(None),
            fatal: Mutex::new(None),
        };
        let slots: Vec<Slot> = (0..workers).map(|_| Slot { since: AtomicU64::new(0), prefix: Mutex::new(vec![]) }).collect();
        let results: Mutex<Vec<(Stats, FpSet)>> = Mutex::new(vec![]);
        let (tier, deadline) = (self.tier, self.deadline);
        let log_file = self.trace_log.take();
        let log = log_file.as_ref();
        let hang = self.hang;
        let hung: Mutex<Option<Vec<u32>>> = Mutex::new(None);
        let dump_file = self.dump.clone();
        let dump = dump_file.as_deref();
        std::thread::scope(|s| {
            for w in 0..workers {
                let (sh, body, results, slot) = (&sh, &body, &results, &slots[w]);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let r = worker(sh, body, bound, tier, deadline, slot, t0, workers, w == 0, log, dump, name);
                        results.lock().unwrap().push(r);
                        let _g = sh.queue.lock().unwrap();
                        sh.cv.notify_all();
                    })
                    .unwrap();
            }
            // Watchdog: an execution that never finishes is reported, not waited for.
            loop {
                {
                    let g = sh.queue.lock().unwrap();
                    let (_g, _) = sh.cv.wait_timeout(g, Duration::from_millis(200)).unwrap();
                }
                if results.lock().unwrap().len() == workers {
                    break;
                }
                let now = now_ms(t0);
                for sl in &slots {
                    let since = sl.since.load(Relaxed);
                    if since != 0 && now.saturating_sub(since) > hang.as_millis() as u64 {
                        *hung.lock().unwrap() = Some(sl.prefix.lock().unwrap().clone());
                    }
                }
                if let Some(p) = hung.lock().unwrap().clone() {
                    // The stuck thread cannot be stopped: report and leave the process.
                    self.violations.push(Violation {
                        scenario: name.into(),
                        trace: p,
                        detail: format!("the operation did not terminate within {:?}", hang),
                        notes: vec![],
                    });
                    self.finish_and_exit();
                }
            }
        });
        self.trace_log = log_file;
        if let Some(m) = sh.fatal.into_inner().unwrap() {
            eprintln!("ENGINE ERROR in scenario {}: {}", name, m);
            std::process::exit(3);
        }
        let mut st = Stats::default();
        let mut states = FpSet::default();
        for (s, f) in results.into_inner().unwrap() {
            st.executions += s.executions;
            st.transitions += s.transitions;
            st.rechecked += s.rechecked;
            st.digest = st.digest.wrapping_add(s.digest);
            st.max_depth = st.max_depth.max(s.max_depth);
            if st.samples.is_empty() {
                st.samples = s.samples.clone();
            }
            states.extend(f);
        }
        let capped = sh.capped.load(Relaxed);
        self.capped |= capped;
        if let Some((trace, _)) = sh.violation.into_inner().unwrap() {
            let (trace, detail, notes) = self.shrink(&body, trace, bound);
            self.violations.push(Violation { scenario: name.into(), trace, detail, notes });
        }
        self.scenarios.push(J::O(vec![
            ("name".into(), J::s(name)),
            ("config".into(), J::s(self.config.clone())),
            ("about".into(), J::s(about)),
            ("deviation_bound".into(), J::I(bound as u64)),
            ("executions".into(), J::I(st.executions)),
            ("distinct_states".into(), J::I(states.len() as u64)),
            ("transitions".into(), J::I(st.transitions)),
            ("max_choices".into(), J::I(st.max_depth as u64)),
            ("replayed_twice".into(), J::I(st.rechecked)),
            ("digest".into(), J::s(format!("{:016x}", st.digest))),
            ("exhaustive".into(), J::B(!capped)),
            ("wall_s".into(), J::N(t0.elapsed().as_secs_f64())),
        ]));
        eprintln!(
            "[{}] {}: {} executions, {} states, {} transitions, {:.2}s{}",
            self.config, name, st.executions, states.len(), st.transitions, t0.elapsed().as_secs_f64(),
            if capped { " (CAPPED)" } else { "" }
        );
        self.total.executions += st.executions;
        self.total.transitions += st.transitions;
        self.total.rechecked += st.rechecked;
        for s in st.samples.into_iter().take(3) {
            self.total.samples.push(format!("{}: {}", name, s));
        }
        let salt = fp(name);
        self.states.extend(states.into_iter().map(|x| x ^ salt));
    }

    /// Greedy shrinking: reset choices to 0 while the violation persists.
    fn shrink<B: Fn(&mut Ctx) -> Verdict>(&self, body: &B, trace: Vec<u32>, bound: u32) -> (Vec<u32>, String, Vec<String>) {
        let t = Instant::now();
        let try_ = |p: Vec<u32>| -> Option<(Vec<u32>, String, Vec<String>)> {
            let (cx, r) = one(body, p, bound, self.tier, true);
            if cx.diverged {
                return None;
            }
            r.err().map(|d| (cx.trace.iter().map(|x| x.0).collect(), d, cx.notes))
        };
        let mut best = match try_(trace.clone()) {
            Some(b) => b,
            None => {
                return (trace, "violation did not reproduce on immediate replay (the code under test is nondeterministic under a fixed schedule, clock and entropy)".into(), vec![])
            }
        };
        let mut i = 0;
        while i < best.0.len() && t.elapsed() < Duration::from_secs(5) {
            if best.0[i] != 0 {
                for c in 0..best.0[i].min(4) {
                    let mut p = best.0.clone();
                    p[i] = c;
                    let q = try_(p.clone()).or_else(|| try_(p[..=i].to_vec()));
                    if let Some(b) = q {
                        best = b;
                        break;
                    }
                }
            }
            i += 1;
        }
        best
    }

    fn write_out(&self) {
        if let Some(f) = &self.dump {
            std::io::Write::flush(&mut *f.lock().unwrap()).unwrap();
        }
        let coverage = J::O(vec![
            ("states".into(), J::I(self.states.len() as u64)),
            ("transitions".into(), J::I(self.total.transitions)),
            ("executions".into(), J::I(self.total.executions)),
            ("replayed_twice".into(), J::I(self.total.rechecked)),
            ("samples".into(), J::A(self.total.samples.iter().map(|s| J::s(s.clone())).collect())),
            ("scenarios".into(), J::A(self.scenarios.clone())),
            ("assumptions".into(), J::A(self.assumptions.iter().map(|s| J::s(s.clone())).collect())),
            ("exhaustive".into(), J::B(!self.capped)),
            ("wall_s".into(), J::N(self.t0.elapsed().as_secs_f64())),
            (
                "violations".into(),
                J::A(
                    self.violations
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("scenario".into(), J::s(v.scenario.clone())),
                                ("config".into(), J::s(self.config.clone())),
                                ("trace".into(), J::A(v.trace.iter().map(|&x| J::I(x as u64)).collect())),
                                ("detail".into(), J::s(v.detail.clone())),
                                ("steps".into(), J::A(v.notes.iter().map(|n| J::s(n.clone())).collect())),
                            ])
                        })
                        .collect(),
                ),
            ),
        ]);
        if let Some(p) = &self.out {
            std::fs::write(p, coverage.text()).unwrap();
        }
        for v in &self.violations {
            eprintln!("[{}] violation in scenario {}:\n  {}", self.config, v.scenario, v.detail);
            for n in &v.notes {
                eprintln!("    {}", n);
            }
        }
    }

    fn finish_and_exit(&self) -> ! {
        self.write_out();
        if self.only.is_some() && !self.replayed {
            eprintln!("ENGINE ERROR: no such scenario");
            std::process::exit(3);
        }
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 })
    }
}

#[allow(clippy::too_many_arguments)]
fn worker<B: Fn(&mut Ctx) -> Verdict>(
    sh: &Shared,
    body: &B,
    bound: u32,
    tier: Tier,
    deadline: Instant,
    slot: &Slot,
    t0: Instant,
    workers: usize,
    sampler: bool,
    log: Option<&std::fs::File>,
    dump: Option<&Mutex<std::io::BufWriter<std::fs::File>>>,
    name: &str,
) -> (Stats, FpSet) {
    let mut st = Stats::default();
    let mut states = FpSet::default();
    let mut idx: u64 = 0;
    'tasks: loop {
        let task = {
            let mut g = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Relaxed) {
                    break 'tasks;
                }
                if let Some(t) = g.0.pop_front() {
                    sh.hungry.store(g.0.len() < workers && workers > 1, Relaxed);
                    break t;
                }
                g.1 += 1;
                if g.1 == workers {
                    sh.stop.store(true, Relaxed);
                    sh.cv.notify_all();
                    break 'tasks;
                }
                sh.hungry.store(workers > 1, Relaxed);
                g = sh.cv.wait(g).unwrap();
                if sh.stop.load(Relaxed) {
                    break 'tasks;
                }
                g.1 -= 1;
            }
        };
        let mut floor = task.prefix.len();
        let mut prefix = task.prefix;
        loop {
            if sh.stop.load(Relaxed) {
                break 'tasks;
            }
            if idx % 64 == 0 && Instant::now() > deadline {
                sh.capped.store(true, Relaxed);
                sh.stop.store(true, Relaxed);
                sh.cv.notify_all();
                break 'tasks;
            }
            *slot.prefix.lock().unwrap() = prefix.clone();
            slot.since.store(now_ms(t0), Relaxed);
            if let Some(mut f) = log {
                use std::io::{Seek, Write};
                let line = format!("{} {}\n", name, prefix.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                f.rewind().unwrap();
                f.write_all(line.as_bytes()).unwrap();
            }
            let plen = prefix.len();
            let sample = sampler && (idx == 0 || idx == 7 || idx == 250 || idx == 4000);
            let (cx, r) = one(body, prefix.clone(), bound, tier, sample);
            idx += 1;
            slot.since.store(0, Relaxed);
            if cx.diverged {
                *sh.fatal.lock().unwrap() = Some(format!("replay of {:?} diverged", prefix));
                sh.stop.store(true, Relaxed);
                sh.cv.notify_all();
                break 'tasks;
            }
            let trace: Vec<u32> = cx.trace.iter().map(|x| x.0).collect();
            if let Err(d) = r {
                let mut v = sh.violation.lock().unwrap();
                // Keep the shortest / smallest trace when several workers race.
                if v.as_ref().map_or(true, |(t, _)| (trace.len(), &trace) < (t.len(), t)) {
                    *v = Some((trace.clone(), d));
                }
                sh.stop.store(true, Relaxed);
                sh.cv.notify_all();
                break 'tasks;
            }
            // Replay a sparse subset twice: the harness must own every choice.
            if idx.is_power_of_two() || idx % 65536 == 0 {
                st.rechecked += 1;
                let (cx2, r2) = one(body, trace.clone(), bound, tier, false);
                let same = cx2.trace == cx.trace && cx2.states == cx.states;
                if let Err(d) = r2 {
                    *sh.violation.lock().unwrap() = Some((trace.clone(), d));
                    sh.stop.store(true, Relaxed);
                    sh.cv.notify_all();
                    break 'tasks;
                }
                if !same {
                    *sh.fatal.lock().unwrap() = Some(format!("two replays of {:?} disagree", trace));
                    sh.stop.store(true, Relaxed);
                    sh.cv.notify_all();
                    break 'tasks;
                }
            }
            st.executions += 1;
            let d = fp(&(&trace, &cx.states));
            st.digest = st.digest.wrapping_add(d.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (d >> 29));
            if let Some(f) = dump {
                use std::io::Write;
                let t = trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                let _ = writeln!(f.lock().unwrap(), "{} {} {:016x}", name, t, d);
            }
            st.max_depth = st.max_depth.max(cx.trace.len());
            st.transitions += (cx.trace.len() - plen.saturating_sub(1).min(cx.trace.len())) as u64 + cx.steps;
            // Bounded memory: beyond this the reported number of states is a lower bound.
            if states.len() < MAX_STATES {
                states.extend(cx.states.iter().copied());
            }
            if sample && !cx.notes.is_empty() {
                st.samples.push(cx.notes.join(" | "));
            }
            // Which alternatives remain at position i.
            let mut devs_before = Vec::with_capacity(cx.trace.len());
            let mut d = 0;
            for &(c, _, costed) in &cx.trace {
                devs_before.push(d);
                d += (costed && c != 0) as u32;
            }
            let next = |i: usize| -> Option<u32> {
                let (c, n, costed) = cx.trace[i];
                let ok = c + 1 < n && (!costed || devs_before[i] < bound);
                ok.then_some(c + 1)
            };
            // Give away the shallowest untouched alternatives when someone is idle.
            if sh.hungry.load(Relaxed) {
                let mut i = floor;
                while i < cx.trace.len() {
                    if let Some(first) = next(i) {
                        let n = cx.trace[i].1;
                        let mut g = sh.queue.lock().unwrap();
                        for alt in first..n {
                            let mut p = trace[..i].to_vec();
                            p.push(alt);
                            g.0.push_back(Task { prefix: p });
                        }
                        sh.hungry.store(g.0.len() < workers, Relaxed);
                        sh.cv.notify_all();
                        floor = i + 1;
                        break;
                    }
                    i += 1;
                }
            }
            match (floor..cx.trace.len()).rev().find_map(|i| next(i).map(|c| (i, c))) {
                Some((i, c)) => {
                    prefix.clear();
                    prefix.extend_from_slice(&trace[..i]);
                    prefix.push(c);
                }
                None => break,
            }
        }
    }
    (st, states)
}

pub type Prop = (&'static str, fn(&mut Runner));

/// Entry point of every harness binary:
/// `bin PROPERTY --tier quick|thorough --out FILE [--config NAME] [--workers N]
///  [--replay SCENARIO TRACE] [--trace-log FILE] [--cap SECONDS]`.
/// Exit status: 0 held, 1 violated, anything else is an engine error.
pub fn main(props: &[Prop]) -> ! {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property id");
    let mut r = Runner {
        tier: Tier::Quick,
        config: "default".into(),
        workers: std::thread::available_parallelism().map_or(4, |n| n.get()),
        only: None,
        trace_log: None,
        dump: None,
        deadline: Instant::now() + Duration::from_secs(700),
        hang: Duration::from_secs(40),
        scenarios: vec![],
        violations: vec![],
        probed: 0,
        total: Stats::default(),
        states: FpSet::default(),
        assumptions: vec![],
        out: None,
        replayed: false,
        t0: Instant::now(),
        capped: false,
    };
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("argument value");
        match &*a {
            "--tier" => r.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--out" => r.out = Some(val()),
            "--config" => r.config = val(),
            "--workers" => r.workers = val().parse().unwrap(),
            "--cap" => r.deadline = Instant::now() + Duration::from_secs(val().parse().unwrap()),
            "--hang" => r.hang = Duration::from_secs(val().parse().unwrap()),
            "--trace-log" => r.trace_log = Some(std::fs::File::create(val()).unwrap()),
            "--dump" => r.dump = Some(std::sync::Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(val()).unwrap())))),
            "--replay" => {
                let n = val();
                let t = val();
                r.only = Some((n, t.split(',').filter(|s| !s.is_empty()).map(|x| x.parse().unwrap()).collect()));
            }
            a => panic!("unknown argument {}", a),
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if m.starts_with("harness error") {
            eprintln!("{}{}", m, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(m + &loc));
    }));
    let f = props.iter().find(|(n, _)| *n == prop).unwrap_or_else(|| panic!("no property {}", prop)).1;
    f(&mut r);
    r.finish_and_exit()
}
