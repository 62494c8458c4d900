//! Stateless model checking by re-execution: every source of nondeterminism of an execution asks the
//! current context (`Ctx`), which answers from a choice tape. `Runner::explore` enumerates all tapes
//! depth first (work is shared between OS threads, each leaf is executed once); `dist` is a nested
//! enumeration that sums up the probabilities of the outcomes.
use crate::sched::Sched;
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Panic payload of an execution that is given up (its probability is accounted as lost).
pub struct Abandon;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Node {
    pub choice: u32,
    pub n: u32,
}

/// How float draws (and raw words) are answered.
#[derive(Clone, Debug)]
pub enum Unit {
    /// midpoints of k equal intervals
    Grid(u32),
    /// the given values
    List(Arc<Vec<f64>>),
}

/// Draws answered without branching, for structured large cases.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pattern {
    Zero,
    Max,
    Alternate,
    Weyl(u64),
    /// every draw answers the given fraction of its range
    Const(f64),
    /// constant but for one draw: which one, its value, the other ones
    Spike(u64, f64, f64),
}

/// The second closure of a `join` that has not been run yet.
#[derive(Clone, Copy)]
pub struct Pending {
    pub f: *mut (dyn FnMut(bool) + Send),
    pub done: bool,
}

pub struct Ctx {
    pub tape: Vec<Node>,
    pos: usize,
    replay: usize,
    pub weight: f64,
    min_weight: f64,
    pub draws: u64,
    pub max_draws: u64,
    pub units: u32,
    pub raw: bool,
    /// the sum of ln(range) of the whole numbers drawn: no sequence of them is likelier than exp(-log_ranges)
    pub log_ranges: f64,
    unit: Unit,
    pattern: Option<Pattern>,
    pattern_state: u64,
    /// how many more draws may answer something else than the pattern says
    deviations: u32,
    pub violation: Option<String>,
    pub events: Vec<crate::models::Ev>,
    pub rngs: u32,
    pub callback_no: u64,
    pub workers: usize,
    pub join_order: u8,
    pub migrated: bool,
    /// how many pending jobs a nested `join` may still run in place (as a waiting worker does that stole them)
    pub reentries: u32,
    /// 0: chosen; otherwise all of them, 1: the newest, 2: the oldest first, 3: the newest, only at every second place
    pub reentry_rule: u8,
    pub pending: Vec<Pending>,
    pub join_depth: usize,
    pub small_rng: bool,
    pub sched: Option<Arc<Sched>>,
    pub diverged: bool,
    pub states: Vec<u64>,
    pub sample: Option<String>,
    pub wants_sample: bool,
    pub classes: Vec<String>,
    pub nested_runs: u64,
    pub nested_nodes: u64,
    pub skipped: bool,
}

impl Ctx {
    pub fn new(opts: &Opts, prefix: &[Node]) -> Self {
        Ctx {
            tape: prefix.to_vec(),
            pos: 0,
            replay: prefix.len(),
            weight: 1.0,
            min_weight: opts.min_weight,
            draws: 0,
            max_draws: opts.max_draws,
            units: 0,
            raw: false,
            log_ranges: 0.0,
            unit: opts.unit.clone(),
            pattern: None,
            pattern_state: 0,
            deviations: 0,
            violation: None,
            events: Vec::new(),
            rngs: 0,
            callback_no: 0,
            workers: 1,
            join_order: 0,
            migrated: false,
            reentries: 0,
            reentry_rule: 0,
            pending: Vec::new(),
            join_depth: 0,
            small_rng: false,
            sched: None,
            diverged: false,
            states: Vec::new(),
            sample: None,
            wants_sample: false,
            classes: Vec::new(),
            nested_runs: 0,
            nested_nodes: 0,
            skipped: false,
        }
    }

    fn take(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let choice = if self.pos < self.replay {
            let node = &mut self.tape[self.pos];
            if node.n != n {
                // The prefix is not reproducible: never judged.
                self.diverged = true;
                node.n = n;
                node.choice = node.choice.min(n - 1);
            }
            node.choice
        } else {
            self.tape.push(Node { choice: 0, n });
            0
        };
        self.pos += 1;
        choice
    }

    fn pattern_value(&mut self, p: Pattern) -> f64 {
        let k = self.pattern_state;
        self.pattern_state += 1;
        const BELOW_ONE: f64 = 1.0 - 1.0 / (1u64 << 53) as f64;
        match p {
            Pattern::Zero => 0.0,
            Pattern::Max => BELOW_ONE,
            Pattern::Alternate => {
                if k % 2 == 0 {
                    0.0
                } else {
                    BELOW_ONE
                }
            }
            Pattern::Weyl(seed) => {
                let mut z = (k + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ seed.wrapping_mul(0xD134_2543_DE82_EF95);
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                z ^= z >> 31;
                (z >> 11) as f64 / (1u64 << 53) as f64
            }
            Pattern::Const(f) => f.min(BELOW_ONE),
            Pattern::Spike(at, f, rest) => if k == at { f } else { rest }.min(BELOW_ONE),
        }
    }

    fn spend(&mut self, n: f64) {
        self.weight /= n;
        if self.weight < self.min_weight {
            panic_any(Abandon);
        }
    }

    fn count_draw(&mut self) {
        self.draws += 1;
        if self.draws > self.max_draws {
            self.weight = 0.0;
            panic_any(Abandon);
        }
        if self.weight < self.min_weight {
            panic_any(Abandon);
        }
    }

    fn int(&mut self, n: u128) -> u128 {
        self.count_draw();
        self.log_ranges += (n as f64).ln();
        if let Some(p) = self.pattern {
            let u = self.pattern_value(p);
            let base = ((u * n as f64) as u128).min(n - 1);
            return if n > 1 && self.deviations > 0 { self.deviate(base, n) } else { base };
        }
        if n > 1 << 16 {
            self.units += 1;
            let u = self.unit_choice();
            return ((u * n as f64) as u128).min(n - 1);
        }
        let c = self.take(n as u32);
        if n > 1 {
            self.spend(n as f64);
        }
        c as u128
    }

    /// Any other answer (for large ranges: 64 evenly spread ones and the neighbours of the base) takes one deviation.
    fn deviate(&mut self, base: u128, n: u128) -> u128 {
        if n <= 64 {
            let c = self.take(n as u32) as u128;
            self.deviations -= (c > 0) as u32;
            return (base + c) % n;
        }
        let c = self.take(67) as u128;
        self.deviations -= (c > 0) as u32;
        match c {
            0 => base,
            1 => (base + 1) % n,
            2 => (base + n - 1) % n,
            _ => (c - 3) * (n - 1) / 63,
        }
    }
    fn deviate_unit(&mut self, base: f64) -> f64 {
        if self.deviations == 0 {
            return base;
        }
        let c = self.take(19);
        self.deviations -= (c > 0) as u32;
        match c {
            0 => base,
            1 => 0.0,
            2 => 1.0 - 1.0 / (1u64 << 53) as f64,
            _ => (c - 3) as f64 / 16.0 + 1.0 / 32.0,
        }
    }

    fn unit_choice(&mut self) -> f64 {
        let (k, v): (u32, Box<dyn Fn(u32) -> f64>) = match &self.unit {
            Unit::Grid(k) => {
                let k = *k;
                (k, Box::new(move |i| (i as f64 + 0.5) / k as f64))
            }
            Unit::List(l) => {
                let l = l.clone();
                (l.len() as u32, Box::new(move |i| l[i as usize]))
            }
        };
        let c = self.take(k);
        self.spend(k as f64);
        v(c)
    }

    fn unit(&mut self) -> f64 {
        self.count_draw();
        self.units += 1;
        if let Some(p) = self.pattern {
            let u = self.pattern_value(p);
            return self.deviate_unit(u);
        }
        self.unit_choice()
    }

    fn raw(&mut self) -> u64 {
        self.count_draw();
        self.units += 1;
        self.raw = true;
        let u = match self.pattern {
            Some(p) => {
                let u = self.pattern_value(p);
                self.deviate_unit(u)
            }
            None => self.unit_choice(),
        };
        let high = (u * 18446744073709551616.0) as u64;
        // The low bits are a fixed function of the high ones.
        high ^ ((high >> 11).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 44)
    }
}

thread_local! {
    static CUR: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

pub fn set_current(c: *mut Ctx) -> *mut Ctx {
    CUR.with(|p| p.replace(c))
}
pub fn current() -> *mut Ctx {
    CUR.with(|p| p.get())
}
pub fn controlled() -> bool {
    !current().is_null()
}

/// Access to the current context. With a scheduler only the thread that holds the baton comes here,
/// unless the execution was set free, hence the lock.
pub fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    let p = current();
    if p.is_null() {
        // A thread outside the explorer's control (nobody can say what it may do).
        FOREIGN.fetch_add(1, SeqCst);
        panic_any(Abandon);
    }
    unsafe {
        let sched = (*p).sched.clone();
        let _guard = sched.as_ref().map(|s| s.ctx_lock());
        f(&mut *p)
    }
}
/// Notes whether this is a thread outside the explorer's control.
pub fn note_thread() {
    if !controlled() {
        FOREIGN.fetch_add(1, SeqCst);
    }
}
pub static FOREIGN: AtomicU64 = AtomicU64::new(0);

/// Nondeterministic choice of the driver.
pub fn choose(n: usize) -> usize {
    with(|c| c.take(n as u32) as usize)
}
pub fn pick<T: Clone>(items: &[T]) -> T {
    items[choose(items.len())].clone()
}
pub fn flag() -> bool {
    choose(2) == 1
}
pub fn draw_int(n: u128) -> u128 {
    with(|c| c.int(n))
}
pub fn draw_unit() -> f64 {
    with(|c| c.unit())
}
pub fn draw_raw() -> u64 {
    with(|c| c.raw())
}
pub fn set_pattern(p: Option<Pattern>) {
    with(|c| {
        c.pattern = p;
        c.pattern_state = 0;
        c.deviations = 0;
    })
}
/// Up to k draws may differ from the pattern, each in every way.
pub fn set_deviations(k: u32) {
    with(|c| c.deviations = k)
}
pub fn set_workers(w: usize) {
    with(|c| c.workers = w)
}
/// Records a violation (the first one counts) without unwinding.
pub fn violate(msg: String) {
    with(|c| {
        if c.violation.is_none() {
            c.violation = Some(msg)
        }
    })
}
/// Records an observed state.
pub fn state<T: std::hash::Hash + ?Sized>(t: &T) {
    use std::hash::Hasher;
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    let v = h.finish();
    with(|c| {
        if c.states.len() < 100_000 {
            c.states.push(v)
        }
    })
}
pub fn class(s: &str) {
    with(|c| c.classes.push(s.to_string()))
}
pub fn sample(f: impl FnOnce() -> String) {
    if with(|c| c.wants_sample && c.sample.is_none()) {
        let s = f();
        with(|c| c.sample = Some(s))
    }
}
/// Leaves this execution without a verdict.
pub fn skip() -> ! {
    with(|c| c.skipped = true);
    panic_any(Abandon)
}

pub struct Fnv(pub u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^ (z >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(other payload)".into()
    }
}

/// Runs code that may panic; an abandoned execution is passed on.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) if p.is::<Abandon>() => resume_unwind(p),
        Err(p) => Err(payload_text(&*p)),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[derive(Clone)]
pub struct Opts {
    pub min_weight: f64,
    pub max_draws: u64,
    pub unit: Unit,
    /// hash keys matter: every execution has those of a new thread (and is one where they cannot be set)
    pub fresh: bool,
    /// interleave the closures of rayon joins as threads, with so many preemptions
    pub preemptions: Option<u32>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { min_weight: 1e-12, max_draws: 1_000_000, unit: Unit::Grid(16), fresh: false, preemptions: None }
    }
}
impl Opts {
    pub fn fresh() -> Self {
        Opts { fresh: true, ..Default::default() }
    }
}

pub use crate::keys::set_salt;

// ---------------------------------------------------------------------------------------------
// exact distributions

#[derive(Clone, Debug)]
pub struct Dist<O: Ord> {
    pub p: BTreeMap<O, f64>,
    pub lost: f64,
    pub units: u32,
    pub raw: bool,
    pub k: u32,
    pub runs: u64,
    pub diverged: bool,
}
impl<O: Ord> Dist<O> {
    pub fn get(&self, o: &O) -> f64 {
        self.p.get(o).copied().unwrap_or(0.0)
    }
    /// Error bound of a probability in this distribution.
    pub fn tol(&self) -> f64 {
        let mut t = 1e-9 + self.lost;
        if self.units > 0 {
            t += 4.0 * self.units as f64 / self.k as f64;
        }
        if self.raw {
            t += 6.0 / (self.k as f64).sqrt();
        }
        t
    }
    pub fn judged(&self) -> bool {
        !self.diverged && self.lost < 0.3
    }
}
impl<O: Ord + std::fmt::Debug> Dist<O> {
    /// Compares with the expected distribution.
    pub fn compare(&self, expected: &BTreeMap<O, f64>) -> Result<(), String> {
        if !self.judged() {
            return Ok(());
        }
        let tol = self.tol();
        for (o, &p) in expected {
            let q = self.get(o);
            ensure!((p - q).abs() <= tol, "outcome {:?} has probability {:.6}, expected {:.6} (tolerance {:.1e})", o, q, p, tol);
        }
        for (o, &q) in &self.p {
            ensure!(
                expected.contains_key(o) || q <= if self.units > 0 { tol } else { 0.0 },
                "outcome {:?} has probability {:.6}, but must not happen",
                o,
                q
            );
        }
        Ok(())
    }
}

pub struct DistOpts {
    /// grid for float draws; None: depending on the number of float draws
    pub k: Option<u32>,
    pub min_weight: f64,
    pub max_runs: u64,
}
impl Default for DistOpts {
    fn default() -> Self {
        DistOpts { k: None, min_weight: 1e-7, max_runs: 400_000 }
    }
}

/// The exact distribution of the outcome of `f` over all random draws.
pub fn dist<O: Ord>(opts: DistOpts, mut f: impl FnMut() -> O) -> Dist<O> {
    let k = match opts.k {
        Some(k) => k,
        None => {
            let probe = dist_k(2, 1e-4, 3000, &mut f);
            match probe.units {
                0 if probe.lost == 0.0 => {
                    let mut d = probe;
                    d.k = 1;
                    return d;
                }
                0 => 1,
                1 => 4000,
                2 => 128,
                3 => 32,
                _ => 12,
            }
        }
    };
    dist_k(k, opts.min_weight, opts.max_runs, &mut f)
}

fn dist_k<O: Ord>(k: u32, min_weight: f64, max_runs: u64, f: &mut dyn FnMut() -> O) -> Dist<O> {
    let o = Opts { min_weight, unit: Unit::Grid(k), ..Default::default() };
    let mut d = Dist { p: BTreeMap::new(), lost: 0.0, units: 0, raw: false, k, runs: 0, diverged: false };
    let mut path: Vec<Node> = Vec::new();
    let mut nodes = 0u64;
    let mut total = 0.0;
    let outer = current();
    let (small, workers) = unsafe { ((*outer).small_rng, (*outer).workers) };
    loop {
        let mut ctx = Ctx::new(&o, &path);
        ctx.small_rng = small;
        ctx.workers = workers;
        heartbeat();
        crate::keys::rewind();
        set_current(&mut ctx);
        let r = catch_unwind(AssertUnwindSafe(&mut *f));
        set_current(outer);
        d.runs += 1;
        nodes += (ctx.tape.len() - path.len().min(ctx.tape.len())) as u64 + 1;
        d.units = d.units.max(ctx.units);
        d.raw |= ctx.raw;
        d.diverged |= ctx.diverged || ctx.tape.len() < path.len();
        if let Some(v) = ctx.violation.take() {
            with(|c| {
                if c.violation.is_none() {
                    c.violation = Some(v)
                }
            });
        }
        match r {
            Ok(v) => {
                *d.p.entry(v).or_insert(0.0) += ctx.weight;
                total += ctx.weight;
            }
            Err(p) if p.is::<Abandon>() => {
                if ctx.skipped {
                    skip()
                }
            }
            Err(p) => {
                with(|c| {
                    c.nested_runs += d.runs;
                    c.nested_nodes += nodes;
                });
                resume_unwind(p)
            }
        }
        path = ctx.tape;
        while let Some(last) = path.last_mut() {
            if last.choice + 1 < last.n {
                last.choice += 1;
                break;
            }
            path.pop();
        }
        if path.is_empty() || d.runs >= max_runs {
            break;
        }
    }
    d.lost = (1.0f64 - total).max(0.0);
    if d.lost < 1e-9 {
        d.lost = 0.0;
    }
    with(|c| {
        c.nested_runs += d.runs;
        c.nested_nodes += nodes;
    });
    d
}

// ---------------------------------------------------------------------------------------------
// the explorer

#[derive(Default, Clone)]
pub struct SubStats {
    pub name: String,
    pub executions: u64,
    pub nodes: u64,
    pub max_depth: usize,
    pub abandoned: u64,
    pub diverged: u64,
    pub nested: u64,
    pub complete: bool,
    pub wall: f64,
    pub classes: BTreeMap<String, u64>,
    pub freerun: u64,
}

pub struct Violation {
    pub sub: String,
    pub msg: String,
    pub tape: Vec<u32>,
}

pub struct Runner {
    pub prop: String,
    pub thorough: bool,
    pub start: Instant,
    pub deadline: Instant,
    pub threads: usize,
    pub replay: Option<(String, Vec<u32>)>,
    pub only: Option<String>,
    pub subs: Mutex<Vec<SubStats>>,
    pub states: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<String>>,
    pub violation: Mutex<Option<Violation>>,
    pub known: Vec<(String, String)>,
    pub known_text: Vec<String>,
    pub known_hit: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    pub replayed: AtomicBool,
}

struct WorkerSlot {
    since: AtomicU64,
    prefix: Mutex<(String, Vec<Node>)>,
}
static SLOTS: Mutex<Vec<Arc<WorkerSlot>>> = Mutex::new(Vec::new());
static EPOCH: Mutex<Option<Instant>> = Mutex::new(None);
fn now_ms() -> u64 {
    let mut e = EPOCH.lock().unwrap();
    e.get_or_insert_with(Instant::now).elapsed().as_millis() as u64 + 1
}
static NOW: AtomicU64 = AtomicU64::new(1);
thread_local! { static SLOT: Cell<*const WorkerSlot> = const { Cell::new(std::ptr::null()) }; }
fn heartbeat() {
    let p = SLOT.with(|s| s.get());
    if !p.is_null() {
        unsafe { (*p).since.store(NOW.load(Relaxed), Relaxed) }
    }
}

/// Watches for executions that do not end.
pub fn start_watchdog(r: &'static Runner, limit_s: u64) {
    std::thread::spawn(move || loop {
        NOW.store(now_ms(), Relaxed);
        std::thread::sleep(Duration::from_millis(200));
        let now = now_ms();
        let rss = std::fs::read_to_string("/proc/self/statm")
            .ok()
            .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
            .unwrap_or(0)
            * 4096;
        let slots: Vec<_> = SLOTS.lock().unwrap().clone();
        let mut worst: Option<(u64, Arc<WorkerSlot>)> = None;
        for s in slots {
            let since = s.since.load(Relaxed);
            if since != 0 {
                let age = now.saturating_sub(since);
                if worst.as_ref().map_or(true, |w| age > w.0) {
                    worst = Some((age, s));
                }
            }
        }
        if let Some((age, s)) = worst {
            if age > limit_s * 1000 || (rss > 12 << 30 && age > 3000) {
                let (sub, prefix) = s.prefix.lock().unwrap().clone();
                let msg = format!("an operation does not terminate ({} s, resident memory {} MB)", age / 1000, rss >> 20);
                r.report(&sub, &msg, prefix.iter().map(|n| n.choice).collect());
                crate::finish(r);
            }
        }
    });
}

struct Job {
    prefix: Vec<Node>,
    /// the last node of the prefix ranges over choice..n
    upto: u32,
}
struct Queue {
    jobs: Mutex<(Vec<Job>, usize)>, // open jobs, busy workers
    cv: Condvar,
    idle: AtomicUsize,
}

impl Runner {
    pub fn report(&self, sub: &str, msg: &str, tape: Vec<u32>) {
        let full = format!("{}: {}", sub, msg);
        if let Some(i) = self.known.iter().position(|(p, m)| *p == self.prop && full.starts_with(m)) {
            let text = &self.known_text[i];
            let mut k = self.known_hit.lock().unwrap();
            if !k.contains(text) {
                k.push(text.clone());
            }
            return;
        }
        self.stop.store(true, SeqCst);
        let mut v = self.violation.lock().unwrap();
        let better = match &*v {
            None => true,
            Some(old) => old.sub == sub && tape.len() < old.tape.len(),
        };
        if better {
            *v = Some(Violation { sub: sub.into(), msg: msg.into(), tape });
        }
    }

    pub fn expired(&self) -> bool {
        Instant::now() > self.deadline
    }

    /// Enumerates all executions of `body`.
    pub fn explore(&self, name: &str, opts: Opts, body: impl Fn() -> Result<(), String> + Sync) {
        if self.stop.load(SeqCst) {
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if let Some((sub, tape)) = &self.replay {
            if sub == name {
                self.replayed.store(true, SeqCst);
                let prefix: Vec<Node> = tape.iter().map(|&c| Node { choice: c, n: u32::MAX }).collect();
                self.replay_one(name, &opts, &body, prefix);
            }
            return;
        }
        let t0 = Instant::now();
        let threads = if opts.preemptions.is_some() { self.threads.min(8) } else { self.threads };
        let q = Queue {
            jobs: Mutex::new((vec![Job { prefix: Vec::new(), upto: 0 }], 0)),
            cv: Condvar::new(),
            idle: AtomicUsize::new(threads),
        };
        let total = Mutex::new(SubStats { name: name.into(), complete: true, ..Default::default() });
        let freeruns = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    crate::keys::reset();
                    self.worker(name, &opts, &body, &q, &total, &freeruns)
                });
            }
        });
        let mut t = total.into_inner().unwrap();
        t.wall = t0.elapsed().as_secs_f64();
        t.freerun = freeruns.load(SeqCst);
        if t.diverged > 0 || t.freerun > 0 || self.stop.load(SeqCst) {
            t.complete = false;
        }
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "{:30} executions {:9} nested {:10} nodes {:10} depth {:4} abandoned {:7} diverged {} freerun {} {:.2}s {:?}",
                t.name, t.executions, t.nested, t.nodes, t.max_depth, t.abandoned, t.diverged, t.freerun, t.wall, t.classes
            );
        }
        self.subs.lock().unwrap().push(t);
    }

    fn worker(
        &self,
        name: &str,
        opts: &Opts,
        body: &(impl Fn() -> Result<(), String> + Sync),
        q: &Queue,
        total: &Mutex<SubStats>,
        freeruns: &AtomicU64,
    ) {
        let slot = Arc::new(WorkerSlot { since: AtomicU64::new(0), prefix: Mutex::new((name.into(), Vec::new())) });
        SLOTS.lock().unwrap().push(slot.clone());
        SLOT.with(|s| s.set(&*slot));
        let mut st = SubStats { complete: true, ..Default::default() };
        let mut states: HashSet<u64> = HashSet::new();
        'jobs: loop {
            let job = {
                let mut g = q.jobs.lock().unwrap();
                loop {
                    if let Some(j) = g.0.pop() {
                        g.1 += 1;
                        q.idle.fetch_sub(1, SeqCst);
                        break j;
                    }
                    if g.1 == 0 || self.stop.load(SeqCst) {
                        q.cv.notify_all();
                        break 'jobs;
                    }
                    g = q.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                }
            };
            let base = job.prefix.len().saturating_sub(1);
            let mut path = job.prefix.clone();
            // upper limits of the nodes of this job, where they differ from n
            let mut limits: Vec<u32> = path.iter().map(|n| n.choice + 1).collect();
            if let Some(l) = limits.last_mut() {
                *l = job.upto;
            }
            loop {
                if self.stop.load(SeqCst) || self.expired() {
                    st.complete = false;
                    break;
                }
                *slot.prefix.lock().unwrap() = (name.into(), path.clone());
                let wants = st.executions < 2 || (st.executions & (st.executions - 1)) == 0;
                let (ctx, verdict) = self.run_one(name, opts, body, &path, wants, freeruns);
                slot.since.store(0, Relaxed);
                st.executions += 1;
                st.nested += ctx.nested_runs;
                st.nodes += (ctx.tape.len() - path.len().min(ctx.tape.len())) as u64 + 1 + ctx.nested_nodes;
                st.max_depth = st.max_depth.max(ctx.tape.len());
                for c in &ctx.classes {
                    match st.classes.get_mut(c) {
                        Some(n) => *n += 1,
                        None => {
                            st.classes.insert(c.clone(), 1);
                        }
                    }
                }
                if states.len() < 3_000_000 {
                    states.extend(ctx.states.iter());
                }
                if let Some(s) = ctx.sample {
                    let mut sm = self.samples.lock().unwrap();
                    let text = format!("{name}: {}", s.chars().take(600).collect::<String>());
                    let own: Vec<usize> = (0..sm.len()).filter(|&i| sm[i].starts_with(&format!("{name}: "))).collect();
                    // the first one and the latest three of a sub-check
                    if own.len() < 4 {
                        sm.push(text);
                    } else if !sm.contains(&text) {
                        sm.remove(own[1]);
                        sm.push(text);
                    }
                }
                let diverged = ctx.diverged || ctx.tape.len() < path.len();
                if diverged {
                    st.diverged += 1;
                    if st.diverged < 3 {
                        // do not explore below a prefix that is not reproducible
                    }
                }
                match verdict {
                    Verdict::Ok => {}
                    Verdict::Abandoned => st.abandoned += 1,
                    Verdict::Bad(msg) => {
                        self.report(name, &msg, ctx.tape.iter().map(|n| n.choice).collect());
                    }
                }
                let plen = path.len();
                if !diverged {
                    path = ctx.tape;
                }
                path.truncate(if diverged { plen } else { path.len() });
                while limits.len() < path.len() {
                    limits.push(path[limits.len()].n);
                }
                // hand over work
                if q.idle.load(SeqCst) > 0 {
                    let shared = (base..path.len()).find(|&i| path[i].choice + 1 < limits[i]);
                    if let Some(i) = shared {
                        let mut prefix = path[..=i].to_vec();
                        prefix[i].choice += 1;
                        let j = Job { prefix, upto: limits[i] };
                        limits[i] = path[i].choice + 1;
                        q.jobs.lock().unwrap().0.push(j);
                        q.cv.notify_one();
                    }
                }
                // next leaf
                let mut found = false;
                while path.len() > base {
                    let i = path.len() - 1;
                    if path[i].choice + 1 < limits[i] {
                        path[i].choice += 1;
                        limits.truncate(i + 1);
                        found = true;
                        break;
                    }
                    path.pop();
                    limits.pop();
                }
                if !found {
                    break;
                }
            }
            let mut g = q.jobs.lock().unwrap();
            g.1 -= 1;
            q.idle.fetch_add(1, SeqCst);
            q.cv.notify_all();
        }
        SLOT.with(|s| s.set(std::ptr::null()));
        SLOTS.lock().unwrap().retain(|s| !Arc::ptr_eq(s, &slot));
        let mut t = total.lock().unwrap();
        t.executions += st.executions;
        t.nested += st.nested;
        t.nodes += st.nodes;
        t.abandoned += st.abandoned;
        t.diverged += st.diverged;
        t.max_depth = t.max_depth.max(st.max_depth);
        t.complete &= st.complete;
        for (k, v) in st.classes {
            *t.classes.entry(k).or_insert(0) += v;
        }
        drop(t);
        let mut all = self.states.lock().unwrap();
        let salt = name.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
        for s in states {
            if all.len() < 20_000_000 {
                all.insert(s ^ salt.wrapping_mul(0x9E37_79B9_7F4A_7C15));
            }
        }
    }

    fn run_one(
        &self,
        name: &str,
        opts: &Opts,
        body: &(impl Fn() -> Result<(), String> + Sync),
        prefix: &[Node],
        wants_sample: bool,
        freeruns: &AtomicU64,
    ) -> (Ctx, Verdict) {
        let _ = name;
        let mut ctx = Box::new(Ctx::new(opts, prefix));
        ctx.wants_sample = wants_sample;
        // After a few executions that had to be set free, the scheduler is left out.
        if let (Some(p), true) = (opts.preemptions, freeruns.load(Relaxed) < 3) {
            ctx.sched = Some(Sched::new(p));
        }
        heartbeat();
        let foreign = FOREIGN.load(SeqCst);
        // hash keys as on a new thread
        let r = if !crate::keys::reset() && opts.fresh {
            struct P(*mut Ctx);
            unsafe impl Send for P {}
            let p = P(&mut *ctx);
            std::thread::scope(|s| {
                s.spawn(move || {
                    let p = p;
                    set_current(p.0);
                    let r = catch_unwind(AssertUnwindSafe(body));
                    set_current(std::ptr::null_mut());
                    r
                })
                .join()
                .unwrap()
            })
        } else {
            set_current(&mut *ctx);
            let r = catch_unwind(AssertUnwindSafe(body));
            set_current(std::ptr::null_mut());
            r
        };
        if let Some(s) = ctx.sched.take() {
            if s.was_free() {
                freeruns.fetch_add(1, SeqCst);
            }
        }
        let v = match r {
            Ok(Ok(())) => match ctx.violation.take() {
                Some(m) => Verdict::Bad(m),
                None => Verdict::Ok,
            },
            Ok(Err(m)) => Verdict::Bad(ctx.violation.take().unwrap_or(m)),
            Err(p) if p.is::<Abandon>() => match ctx.violation.take() {
                Some(m) => Verdict::Bad(m),
                None => Verdict::Abandoned,
            },
            Err(p) => match ctx.violation.take() {
                Some(m) => Verdict::Bad(m),
                None => Verdict::Bad(format!("unexpected panic: {}", payload_text(&*p))),
            },
        };
        // What came of code on threads that the explorer does not control is no verdict on the code.
        let foreign = FOREIGN.load(SeqCst) != foreign;
        let v = if ctx.diverged || foreign { Verdict::Abandoned } else { v };
        (*ctx, v)
    }

    fn replay_one(&self, name: &str, opts: &Opts, body: &(impl Fn() -> Result<(), String> + Sync), prefix: Vec<Node>) {
        for round in 0..2 {
            let free = AtomicU64::new(0);
            // n is unknown in a replay: divergence is not judged
            let mut p = prefix.clone();
            // determine n by running step by step
            let (ctx, _) = self.run_lenient(opts, body, &p);
            for (a, b) in p.iter_mut().zip(ctx.iter()) {
                a.n = b.n;
            }
            let (ctx, v) = self.run_one(name, opts, body, &p, true, &free);
            match v {
                Verdict::Ok => println!("replay {}: no violation", round),
                Verdict::Abandoned => println!("replay {}: abandoned or diverged", round),
                Verdict::Bad(m) => {
                    println!("replay {}: {}", round, m);
                    self.report(name, &m, prefix.iter().map(|n| n.choice).collect());
                }
            }
            if let Some(s) = &ctx.sample {
                println!("  sample: {}", s);
            }
        }
    }

    fn run_lenient(&self, opts: &Opts, body: &(impl Fn() -> Result<(), String> + Sync), prefix: &[Node]) -> (Vec<Node>, ()) {
        let free = AtomicU64::new(0);
        let (ctx, _) = self.run_one("", opts, body, prefix, false, &free);
        (ctx.tape, ())
    }
}

pub enum Verdict {
    Ok,
    Abandoned,
    Bad(String),
}
