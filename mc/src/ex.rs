//! E1: the explorer. One execution = one run of a scenario on a paused current_thread runtime in
//! which every nondeterministic choice (task order, cooperative yields, select! order, transport
//! splits, faults, scenario choices) is taken from a list of deviations; all executions with at
//! most k deviations from the default are enumerated, level by level.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use std::sync::Mutex as NetMutex;

pub const TASK: u8 = 0; // which runnable task runs next
pub const YIELD: u8 = 1; // a tokio primitive yields although it could proceed
pub const RNG: u8 = 2; // which select! branch is polled first
pub const READ: u8 = 3; // how much a transport read yields
pub const WRITE: u8 = 4; // how much a transport write accepts
pub const FLUSH: u8 = 5; // flush completes at once or later
pub const FAULT: u8 = 6; // the transport fails here
pub const SCN: u8 = 7; // scenario-level choice (what a peer sends next, where a future is dropped)
pub const KIND_NAMES: [&str; 8] = ["task", "yield", "select", "read", "write", "flush", "fault", "choice"];

pub const K_SCHED: u32 = 1 << TASK | 1 << YIELD | 1 << RNG;
pub const K_IO: u32 = 1 << READ | 1 << WRITE | 1 << FLUSH;
pub const K_SCN: u32 = 1 << SCN | 1 << FAULT;
pub const K_ALL: u32 = 0xff;

pub type Dev = (u32, u16);
pub type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;

/// A broken oracle: `key` identifies the kind of violation for the known-findings file.
#[derive(Clone, Debug)]
pub struct Bad {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Bad>;
pub fn bad<T>(key: &str, msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { key: key.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($f:tt)*) => {
        if !$c { return $crate::ex::bad($key, format!($($f)*)); }
    };
}

pub struct Scn {
    pub id: String,
    pub kinds: u32,
    /// deviation bound and execution cap
    pub depth: u32,
    pub cap: u64,
    pub f: Arc<dyn Fn() -> BoxFut<Res> + Send + Sync>,
    /// run without a runtime (pure input enumeration)
    pub sync: Option<Arc<dyn Fn() -> Res + Send + Sync>>,
    /// look at the timers after every step of a task instead of every 61
    pub eager: bool,
    /// many steps and long times
    pub vast: bool,
}
impl Scn {
    pub fn vast(mut self) -> Scn {
        self.vast = true;
        self
    }
    pub fn eager(mut self) -> Scn {
        self.eager = true;
        self
    }
    pub fn new<F, Fut>(id: impl Into<String>, kinds: u32, depth: u32, cap: u64, f: F) -> Scn
    where
        F: Fn() -> Fut + Send + Sync + 'static,
        Fut: Future<Output = Res> + Send + 'static,
    {
        Scn { id: id.into(), kinds, depth, cap, f: Arc::new(move || Box::pin(f())), sync: None, eager: false, vast: false }
    }
    pub fn sync(id: impl Into<String>, f: impl Fn() -> Res + Send + Sync + 'static) -> Scn {
        Scn {
            id: id.into(),
            kinds: 0,
            depth: 0,
            cap: 1,
            f: Arc::new(|| Box::pin(async { Ok(()) })),
            sync: Some(Arc::new(f)),
            eager: false, vast: false,
        }
    }
}

#[derive(Default)]
struct Ch {
    on: bool,
    kinds: u32,
    devs: Vec<Dev>,
    next: usize,
    pos: u32,
    trace: Vec<(u8, u8)>,
    taken: Vec<(u32, u8, u32, u32)>,
    steps: u64,
    switches: u64,
    limit: u64,
    over: bool,
    diverged: bool,
    obs: Vec<String>,
    keep_obs: bool,
    fp: u64,
    states: Vec<u64>,
    panics: Vec<String>,
    findings: Vec<Bad>,
    evals: u64,
    /// 0: plain, 1: before the first round, 2: in the first round, 3: in a later one
    rounds: u8,
}
thread_local! {
    static CH: RefCell<Ch> = RefCell::new(Ch::default());
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_EXEC: Cell<bool> = const { Cell::new(false) };
}

#[inline]
pub fn mix(a: u64) -> u64 {
    let mut z = a.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
#[inline]
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.rotate_left(17))
}

/// Replaces the contribution of one component of the observable state in its fingerprint.
pub fn fp_change(comp: u64, old: u64, new: u64) {
    let _ = CH.try_with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            c.fp = c.fp.wrapping_sub(mix2(comp, old)).wrapping_add(mix2(comp, new));
        }
    });
}

pub fn choose(kind: u8, n: u32) -> u32 {
    let _p = crate::alloc::Pause::new();
    let r = CH.try_with(|c| {
        let mut c = match c.try_borrow_mut() {
            Ok(c) => c,
            Err(_) => return (0, false),
        };
        if !c.on {
            return (0, false);
        }
        if kind == TASK {
            c.switches += 1;
            let f = mix2(c.fp, n as u64);
            if c.states.len() < 1 << 20 {
                c.states.push(f);
            }
            let w = WORKER.with(|w| w.get());
            if w < PROGRESS.len() {
                PROGRESS[w].fetch_add(1, Relaxed);
            }
        }
        c.steps += 1;
        if c.steps > c.limit {
            c.over = true;
            return (0, kind == TASK);
        }
        if n <= 1 || c.kinds & (1 << kind) == 0 || c.rounds == 1 {
            return (0, false);
        }
        let n = n.min(200);
        if c.rounds == 3 {
            // the deviations of the first round are repeated
            let pos = c.pos;
            c.pos += 1;
            if c.next < c.devs.len() && c.devs[c.next].0 == pos {
                let a = c.devs[c.next].1 as u32;
                c.next += 1;
                return (if a < n { a } else { 0 }, false);
            }
            return (0, false);
        }
        let pos = c.pos;
        c.pos += 1;
        c.trace.push((kind, n as u8));
        if c.next < c.devs.len() && c.devs[c.next].0 == pos {
            let a = c.devs[c.next].1 as u32;
            c.next += 1;
            if a >= n {
                c.diverged = true;
                return (0, false);
            }
            c.taken.push((pos, kind, n, a));
            return (a, false);
        }
        (0, false)
    });
    match r {
        Ok((v, false)) => v,
        Ok((_, true)) => std::panic::panic_any(Horizon),
        Err(_) => 0,
    }
}
struct Horizon;

/// Histories that are repeated: choices are made in the first round only and repeated in the
/// later ones. `prepare_rounds` comes first, then `next_round` before each round.
pub fn prepare_rounds() {
    CH.with(|c| c.borrow_mut().rounds = 1)
}
pub fn next_round() {
    CH.with(|c| {
        let mut c = c.borrow_mut();
        c.rounds = if c.rounds == 1 { 2 } else { 3 };
        c.pos = 0;
        c.next = 0;
    })
}

/// Scenario-level nondeterminism.
pub fn pick(n: usize) -> usize {
    choose(SCN, n as u32) as usize
}
/// Counts one evaluated case of an input enumeration.
pub fn eval_n(n: u64) {
    CH.with(|c| c.borrow_mut().evals += n);
    let w = WORKER.with(|w| w.get());
    if w < PROGRESS.len() {
        PROGRESS[w].fetch_add(1, Relaxed);
    }
}
pub fn eval() {
    eval_n(1)
}

/// Records an observation of the current execution (part of the outcome and of the state).
pub fn obs(s: impl Into<String>) {
    let _p = crate::alloc::Pause::new();
    let s = s.into();
    CH.with(|c| {
        let mut c = c.borrow_mut();
        let mut h = 0xcbf29ce484222325u64;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        c.fp = c.fp.wrapping_add(mix(h));
        if c.keep_obs || c.obs.len() < 400 {
            c.obs.push(s);
        }
    });
}
/// Reports a violation without ending the scenario (it may be a recorded finding).
pub fn finding(key: &str, msg: impl Into<String>) {
    let _p = crate::alloc::Pause::new();
    let msg = msg.into();
    CH.with(|c| {
        let mut c = c.borrow_mut();
        if !c.findings.iter().any(|f| f.key == key) {
            c.findings.push(Bad { key: key.into(), msg });
        }
    });
}
pub fn take_panics() -> Vec<String> {
    CH.with(|c| std::mem::take(&mut c.borrow_mut().panics))
}

pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_EXEC.with(|x| x.get()) {
            if info.payload().downcast_ref::<Horizon>().is_some() {
                return;
            }
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            if msg.contains("MC-EXPECTED") {
                return;
            }
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = CH.try_with(|c| {
                if let Ok(mut c) = c.try_borrow_mut() {
                    c.panics.push(format!("{msg} at {loc}"));
                } else {
                    eprintln!("panic in chooser: {msg} at {loc}");
                }
            });
        } else {
            def(info);
        }
    }));
}

pub struct Exec {
    pub res: Res,
    pub trace: Vec<(u8, u8)>,
    pub taken: Vec<(u32, u8, u32, u32)>,
    pub steps: u64,
    pub diverged: bool,
    pub obs: Vec<String>,
    pub states: Vec<u64>,
    pub evals: u64,
    pub fp: u64,
    pub findings: Vec<Bad>,
}

pub const WATCHDOG_S: u64 = 100_000;

pub fn run_exec(s: &Scn, devs: &[Dev], keep_obs: bool) -> Exec {
    CH.with(|c| {
        let mut c = c.borrow_mut();
        let mut states = std::mem::take(&mut c.states);
        states.clear();
        *c = Ch {
            on: true,
            kinds: s.kinds,
            devs: devs.to_vec(),
            limit: if s.vast { 40_000_000 } else { 400_000 },
            keep_obs,
            states,
            ..Default::default()
        };
    });
    IN_EXEC.with(|x| x.set(true));
    let mut res: Res;
    if let Some(f) = &s.sync {
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| f()));
        res = match r {
            Ok(r) => r,
            Err(_) => Ok(()),
        };
    } else {
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .event_interval(if s.eager { 1 } else { 61 })
            .build()
            .unwrap();
        tokio::mc::set_hook(Some(choose));
        let fut = (s.f)();
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
            rt.block_on(tokio::task::unconstrained(async {
                let h = tokio::spawn(fut);
                tokio::time::timeout(if s.vast { Duration::MAX } else { Duration::from_secs(WATCHDOG_S) }, h).await
            }))
        }));
        tokio::mc::set_hook(None);
        CH.with(|c| c.borrow_mut().on = false);
        // a runtime abandoned by a panic may be unable to shut down
        let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(rt)));
        res = match r {
            Ok(Ok(Ok(r))) => r,
            Ok(Ok(Err(e))) => bad("panic", format!("scenario task failed: {e:?}")),
            Ok(Err(_)) => bad("hang", "deadlock: nothing can run any more and the conversation is not over (virtual watchdog)"),
            Err(_) => bad("livelock", "more scheduling steps than the limit without finishing"),
        };
    }
    IN_EXEC.with(|x| x.set(false));
    CH.with(|c| {
        let mut c = c.borrow_mut();
        c.on = false;
        if !c.panics.is_empty() {
            let p = c.panics.join("; ");
            res = match res {
                Ok(()) => bad("panic", format!("panic: {p}")),
                Err(b) => Err(Bad { key: b.key, msg: format!("{} [panic: {p}]", b.msg) }),
            };
        }
        Exec {
            res,
            trace: std::mem::take(&mut c.trace),
            taken: std::mem::take(&mut c.taken),
            steps: c.steps,
            diverged: c.diverged,
            obs: std::mem::take(&mut c.obs),
            states: std::mem::take(&mut c.states),
            evals: c.evals,
            fp: c.fp,
            findings: std::mem::take(&mut c.findings),
        }
    })
}
fn give_back(e: Exec) {
    CH.with(|c| c.borrow_mut().states = e.states);
}

#[derive(Default)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHash>>;

pub struct Found {
    pub scn: String,
    pub devs: Vec<Dev>,
    pub bad: Bad,
    pub obs: Vec<String>,
    pub taken: Vec<(u32, u8, u32, u32)>,
}

#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub steps: u64,
    pub evals: u64,
    pub diverged: u64,
    pub states: IdSet,
    pub outcomes: IdSet,
    pub per: BTreeMap<String, ScnStat>,
    pub found: Vec<Found>,
    pub known: BTreeMap<String, (u64, String)>,
    pub samples: Vec<serde_json::Value>,
    pub longest: usize,
    pub cut: u64,
}
#[derive(Default, Clone)]
pub struct ScnStat {
    pub execs: u64,
    pub choice_points: usize,
    pub complete_level: i64,
    pub partial: Option<(u32, u64, u64)>,
    pub wanted: u32,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.execs += o.execs;
        self.steps += o.steps;
        self.evals += o.evals;
        self.diverged += o.diverged;
        self.cut += o.cut;
        if self.states.is_empty() {
            self.states = o.states
        } else if self.states.len() < 30_000_000 {
            self.states.extend(o.states)
        }
        if self.outcomes.is_empty() {
            self.outcomes = o.outcomes
        } else {
            self.outcomes.extend(o.outcomes);
        }
        for (k, v) in o.per {
            let e = self.per.entry(k).or_default();
            e.execs += v.execs;
            e.choice_points = e.choice_points.max(v.choice_points);
            e.complete_level = e.complete_level.max(v.complete_level);
            if v.partial.is_some() {
                e.partial = v.partial
            }
            e.wanted = e.wanted.max(v.wanted);
        }
        self.found.extend(o.found);
        for (k, (n, m)) in o.known {
            let e = self.known.entry(k).or_insert((0, m));
            e.0 += n;
        }
        if self.samples.len() < 8 {
            self.samples.extend(o.samples);
            self.samples.truncate(8);
        }
        self.longest = self.longest.max(o.longest);
    }
}

pub const MAXW: usize = 64;
pub static PROGRESS: [AtomicU64; MAXW] = [const { AtomicU64::new(0) }; MAXW];
pub static BUSY: [AtomicBool; MAXW] = [const { AtomicBool::new(false) }; MAXW];
static CURRENT: Mutex<Vec<Option<(String, Vec<Dev>)>>> = Mutex::new(Vec::new());

/// Flight recorder: where each worker is, so that a crash or a blocked thread can be attributed.
pub struct Flight {
    ptr: *mut u8,
}
unsafe impl Send for Flight {}
unsafe impl Sync for Flight {}
pub const FLIGHT_SLOT: usize = 4096;
pub static FLIGHT: std::sync::OnceLock<Flight> = std::sync::OnceLock::new();
impl Flight {
    pub fn open(path: &str) -> Flight {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((FLIGHT_SLOT * MAXW) as u64).unwrap();
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                FLIGHT_SLOT * MAXW,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED);
        Flight { ptr: ptr as *mut u8 }
    }
    pub fn put(&self, w: usize, scn: &str, devs: &[Dev]) {
        let mut s = format!("{scn}\u{1}");
        for (p, a) in devs {
            s.push_str(&format!("{p}:{a},"));
        }
        s.push('\0');
        let b = &s.as_bytes()[..s.len().min(FLIGHT_SLOT)];
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.ptr.add(w * FLIGHT_SLOT), b.len()) }
    }
    pub fn clear(&self, w: usize) {
        unsafe { *self.ptr.add(w * FLIGHT_SLOT) = 0 }
    }
    pub fn parse(path: &str) -> Vec<(String, Vec<Dev>)> {
        let d = std::fs::read(path).unwrap_or_default();
        d.chunks(FLIGHT_SLOT)
            .filter_map(|c| {
                let n = c.iter().position(|b| *b == 0)?;
                if n == 0 {
                    return None;
                }
                let s = String::from_utf8_lossy(&c[..n]).to_string();
                let (id, d) = s.split_once('\u{1}')?;
                let devs = d
                    .split(',')
                    .filter_map(|x| x.split_once(':'))
                    .filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))
                    .collect();
                Some((id.to_string(), devs))
            })
            .collect()
    }
}

pub struct Opts {
    pub threads: usize,
    pub deadline: Instant,
    pub known: Vec<String>,
    pub stop_at: usize,
}

struct Ctl<'a> {
    opts: &'a Opts,
    found: AtomicUsize,
    keys: Mutex<HashSet<String>>,
}

fn one(s: &Scn, devs: &[Dev], ctl: &Ctl, st: &mut Stats, level: u32) -> Option<Vec<(u8, u8)>> {
    let w = WORKER.with(|w| w.get());
    if w < MAXW {
        BUSY[w].store(true, Relaxed);
        PROGRESS[w].fetch_add(1, Relaxed);
        if let Some(f) = FLIGHT.get() {
            f.put(w, &s.id, devs);
        }
    }
    let mut e = run_exec(s, devs, false);
    if w < MAXW {
        BUSY[w].store(false, Relaxed);
        if let Some(f) = FLIGHT.get() {
            f.clear(w);
        }
    }
    st.execs += 1;
    st.steps += e.steps;
    st.evals += e.evals;
    st.longest = st.longest.max(e.trace.len());
    if e.diverged {
        st.diverged += 1;
    }
    if st.states.len() < 8_000_000 {
        st.states.extend(e.states.iter().copied());
    }
    if st.outcomes.len() < 2_000_000 {
        let mut h = mix(s.id.len() as u64 ^ s.id.bytes().fold(7u64, |a, b| mix(a ^ b as u64)));
        for o in &e.obs {
            h = mix2(h, o.bytes().fold(3u64, |a, b| a.wrapping_mul(0x100000001b3) ^ b as u64));
        }
        st.outcomes.insert(h);
    }
    let ps = st.per.entry(s.id.clone()).or_default();
    ps.execs += 1;
    ps.choice_points = ps.choice_points.max(e.trace.len());
    if st.samples.len() < 2 && (level >= 1 || s.depth == 0 || s.sync.is_some()) && e.res.is_ok() && (!e.obs.is_empty() || st.execs > 3000) && (st.execs % 7 == 1 || s.sync.is_some()) {
        st.samples.push(serde_json::json!({
            "scenario": s.id, "deviations": show_taken(&e.taken),
            "choice_points": e.trace.len(), "observed": e.obs.iter().take(12).collect::<Vec<_>>(),
        }));
    }
    for b in e.findings.drain(..) {
        if ctl.opts.known.contains(&b.key) {
            let k = st.known.entry(b.key.clone()).or_insert((0, b.msg.clone()));
            k.0 += 1;
        } else if e.res.is_ok() {
            e.res = Err(b);
        }
    }
    if let Err(b) = &e.res {
        if ctl.opts.known.contains(&b.key) {
            let k = st.known.entry(b.key.clone()).or_insert((0, b.msg.clone()));
            k.0 += 1;
        } else {
            let fresh = ctl.keys.lock().unwrap().insert(format!("{} {}", s.id, b.key));
            if fresh || st.found.is_empty() {
                ctl.found.fetch_add(1, Relaxed);
                st.found.push(Found {
                    scn: s.id.clone(),
                    devs: devs.to_vec(),
                    bad: b.clone(),
                    obs: std::mem::take(&mut e.obs),
                    taken: e.taken.clone(),
                });
            }
        }
    }
    let t = std::mem::take(&mut e.trace);
    give_back(e);
    Some(t)
}

pub fn show_taken(t: &[(u32, u8, u32, u32)]) -> Vec<String> {
    t.iter().map(|(p, k, n, a)| format!("@{p} {} {a}/{n}", KIND_NAMES[*k as usize])).collect()
}

struct Parent {
    devs: Vec<Dev>,
    trace: Vec<(u8, u8)>,
    from: u32,
}
impl Parent {
    fn children(&self) -> u64 {
        self.trace[(self.from as usize).min(self.trace.len())..].iter().map(|x| x.1 as u64 - 1).sum()
    }
    fn child(&self, mut i: u64) -> Vec<Dev> {
        for p in self.from as usize..self.trace.len() {
            let k = self.trace[p].1 as u64 - 1;
            if i < k {
                let mut d = self.devs.clone();
                d.push((p as u32, i as u16 + 1));
                return d;
            }
            i -= k;
        }
        unreachable!()
    }
}

/// A scenario some levels of which are explored.
struct Half<'a> {
    s: &'a Scn,
    parents: Vec<Parent>,
    used: u64,
    level: u32,
}
/// Levels larger than this are explored by all threads together.
const SHARED: u64 = 4000;

/// Explores one scenario; `par` threads work on each level. With `par` = 1 a scenario is given back when its next level is large.
fn explore_one<'a>(s: &'a Scn, ctl: &Ctl, par: usize, st: &mut Stats, half: Option<Half<'a>>) -> Option<Half<'a>> {
    let done = |st: &Stats| {
        ctl.found.load(Relaxed) >= ctl.opts.stop_at || Instant::now() > ctl.opts.deadline || st.found.len() >= ctl.opts.stop_at
    };
    let (mut parents, mut used, first) = match half {
        Some(h) => (h.parents, h.used, h.level),
        None => {
            let p = st.per.entry(s.id.clone()).or_default();
            p.complete_level = -1;
            p.wanted = s.depth;
            if done(st) {
                st.cut += 1;
                return None;
            }
            let t = one(s, &[], ctl, st, 0).unwrap();
            st.per.get_mut(&s.id).unwrap().complete_level = 0;
            (vec![Parent { devs: vec![], trace: t, from: 0 }], 1u64, 1)
        }
    };
    for level in first..=s.depth {
        if done(st) {
            if level <= s.depth {
                st.cut += 1;
            }
            return None;
        }
        let mut pre = Vec::with_capacity(parents.len() + 1);
        let mut tot = 0u64;
        pre.push(0);
        for p in &parents {
            tot += p.children();
            pre.push(tot);
        }
        if tot == 0 {
            let p = st.per.get_mut(&s.id).unwrap();
            p.complete_level = s.depth as i64; // the whole choice tree is explored
            return None;
        }
        let room = s.cap.saturating_sub(used);
        let full = tot <= room;
        let n = if full { tot } else { room };
        if par == 1 && n > SHARED {
            return Some(Half { s, parents, used, level });
        }
        let stride = if full { 1 } else { (tot / n.max(1)).max(1) };
        let want_traces = full && level < s.depth && used + tot < s.cap;
        let next = AtomicU64::new(0);
        let out = Mutex::new(Vec::new());
        let results = Mutex::new(Vec::new());
        let cut = AtomicBool::new(false);
        let work = |st: &mut Stats| {
            let mut mine = Vec::new();
            loop {
                let base = next.fetch_add(16, Relaxed);
                if base >= n {
                    break;
                }
                if ctl.found.load(Relaxed) >= ctl.opts.stop_at || Instant::now() > ctl.opts.deadline {
                    cut.store(true, Relaxed);
                    break;
                }
                for j in base..(base + 16).min(n) {
                    let i = j * stride;
                    let pi = match pre.binary_search(&i) {
                        Ok(mut k) => {
                            while pre[k + 1] == i {
                                k += 1
                            }
                            k
                        }
                        Err(k) => k - 1,
                    };
                    let devs = parents[pi].child(i - pre[pi]);
                    let from = devs.last().unwrap().0 + 1;
                    if let Some(t) = one(s, &devs, ctl, st, level) {
                        if want_traces {
                            mine.push(Parent { devs, trace: t, from });
                        }
                    }
                }
            }
            if !mine.is_empty() {
                out.lock().unwrap().extend(mine);
            }
        };
        if par <= 1 || n < 64 {
            work(st);
        } else {
            std::thread::scope(|sc| {
                for _ in 0..par {
                    sc.spawn(|| {
                        let _slot = Slot::take();
                        let mut st = Stats::default();
                        work(&mut st);
                        results.lock().unwrap().push(st);
                    });
                }
            });
            for r in results.into_inner().unwrap() {
                st.merge(r);
            }
        }
        used += n;
        let p = st.per.get_mut(&s.id).unwrap();
        if cut.load(Relaxed) {
            p.partial = Some((level, n, tot));
            st.cut += 1;
            return None;
        }
        if full {
            p.complete_level = level as i64;
        } else {
            p.partial = Some((level, n, tot));
            return None;
        }
        if !want_traces {
            return None;
        }
        parents = out.into_inner().unwrap();
        parents.sort_by(|a, b| a.devs.cmp(&b.devs));
    }
    None
}

static SLOTS: Mutex<[bool; MAXW]> = Mutex::new([false; MAXW]);
struct Slot(usize);
impl Slot {
    fn take() -> Slot {
        let mut s = SLOTS.lock().unwrap();
        let i = s.iter().position(|b| !*b).unwrap();
        s[i] = true;
        WORKER.with(|w| w.set(i));
        Slot(i)
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        SLOTS.lock().unwrap()[self.0] = false;
        WORKER.with(|w| w.set(usize::MAX));
    }
}

pub fn explore(scns: &[Scn], opts: &Opts) -> Stats {
    let ctl = Ctl { opts, found: AtomicUsize::new(0), keys: Mutex::new(HashSet::new()) };
    let mut st = Stats::default();
    let stop = Arc::new(AtomicBool::new(false));
    let wd = {
        let stop = stop.clone();
        std::thread::spawn(move || {
            let mut last = [(0u64, Instant::now()); MAXW];
            while !stop.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for i in 0..MAXW {
                    let p = PROGRESS[i].load(Relaxed);
                    if p != last[i].0 || !BUSY[i].load(Relaxed) {
                        last[i] = (p, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(60) {
                        // the thread is blocked or spins inside the code under test
                        eprintln!("worker {i} made no progress for 60 s");
                        BLOCKED.store(i, SeqCst);
                        std::process::abort();
                    }
                }
            }
        })
    };
    let next = AtomicUsize::new(0);
    let all = Mutex::new(Vec::new());
    let halves = Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        for _ in 0..opts.threads.min(scns.len()) {
            sc.spawn(|| {
                let _slot = Slot::take();
                let mut st = Stats::default();
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= scns.len() {
                        break;
                    }
                    if let Some(h) = explore_one(&scns[i], &ctl, 1, &mut st, None) {
                        halves.lock().unwrap().push((i, h));
                    }
                }
                all.lock().unwrap().push(st);
            });
        }
    });
    for r in all.into_inner().unwrap() {
        st.merge(r);
    }
    let mut halves = halves.into_inner().unwrap();
    halves.sort_by_key(|h| h.0);
    let _slot = Slot::take();
    for (_, h) in halves {
        explore_one(h.s, &ctl, opts.threads.max(2), &mut st, Some(h));
    }
    stop.store(true, Relaxed);
    let _ = wd.join();
    let _ = &CURRENT;
    st
}
pub static BLOCKED: AtomicUsize = AtomicUsize::new(usize::MAX);
