//! Explores the schedules of a scenario: every execution is a forked process whose threads are
//! scheduled by rt.c according to a list of deviations from the default schedule.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const READ: u8 = 3;
pub const WRITE: u8 = 4;
pub const FLUSH: u8 = 5;
pub const FAULT: u8 = 6;

#[derive(Clone, Debug)]
pub struct Bad {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Bad>;
pub fn bad<T>(key: &str, msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { key: key.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $k:expr, $($a:tt)*) => { if !$c { return $crate::ex::bad($k, format!($($a)*)); } };
}
// what the shared transport asks of an explorer: it behaves in its default way here
pub fn choose(_kind: u8, _n: u32) -> u32 {
    0
}
pub fn fp_change(_: u64, _: u64, _: u64) {}
pub fn mix(a: u64) -> u64 {
    let mut z = a.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b))
}
pub fn obs(s: impl Into<String>) {
    let s = s.into();
    QUIET.with(|| {
        let mut o = OBS.0.lock().unwrap();
        if o.len() < 8000 {
            o.push_str(&s);
            o.push('\n');
        }
    });
}
struct Obs(std::sync::Mutex<String>);
static OBS: Obs = Obs(std::sync::Mutex::new(String::new()));

pub const MAXDEV: usize = 64;
pub const MAXP: usize = 1 << 20;
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Point {
    pub addr: u64,
    pub n: u16,
    pub kind: u8,
    pub tid: u8,
    pub write: u8,
    _pad: [u8; 3],
}
#[repr(C)]
pub struct Shm {
    ndev: u32,
    dev: [[u32; 2]; MAXDEV],
    npts: u32,
    truncated: u32,
    status: u32,
    switches: u32,
    ops: u64,
    msg: [u8; 8192],
    obs: [u8; 8192],
    pts: [Point; MAXP],
}
extern "C" {
    fn mcrt_start(s: *mut Shm);
    fn mcrt_clock(real: i64, steps: *const i64, n: i32);
    fn mcrt_choose(n: u32) -> u32;
    fn mcrt_quiet(d: i32);
    fn mcrt_done();
    fn mcrt_maxops(n: u64);
    fn mcrt_set_real(n: i64);
}
/// The wall clock: its first value and by how much it moves at each reading (the first entry is the
/// default, the explorer tries the others).
pub fn clock(real: i64, steps: &[i64]) {
    unsafe { mcrt_clock(real, steps.as_ptr(), steps.len() as i32) }
}
#[allow(dead_code)]
pub fn set_clock(real: i64) {
    unsafe { mcrt_set_real(real) }
}
#[allow(dead_code)]
pub fn pick(n: usize) -> usize {
    unsafe { mcrt_choose(n as u32) as usize }
}
pub fn max_ops(n: u64) {
    unsafe { mcrt_maxops(n) }
}
/// Code of the harness runs without scheduling points.
pub struct Quiet;
pub static QUIET: Quiet = Quiet;
impl Quiet {
    pub fn with<T>(&self, f: impl FnOnce() -> T) -> T {
        unsafe { mcrt_quiet(1) };
        let r = f();
        unsafe { mcrt_quiet(-1) };
        r
    }
}

/// A lock of the harness: no scheduling points while it is held, but it may block.
#[derive(Default)]
pub struct NetMutex<T>(std::sync::Mutex<T>);
pub struct NetGuard<'a, T>(Option<std::sync::MutexGuard<'a, T>>);
impl<T> NetMutex<T> {
    pub fn new(t: T) -> Self {
        NetMutex(std::sync::Mutex::new(t))
    }
    pub fn lock(&self) -> Result<NetGuard<'_, T>, ()> {
        unsafe { mcrt_quiet(1) };
        Ok(NetGuard(Some(self.0.lock().unwrap_or_else(|e| e.into_inner()))))
    }
}
impl<T> std::ops::Deref for NetGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<T> std::ops::DerefMut for NetGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
impl<T> Drop for NetGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.0.take());
        unsafe { mcrt_quiet(-1) };
    }
}

pub struct Scn {
    pub id: String,
    pub depth: u32,
    pub cap: u64,
    pub f: Box<dyn Fn() -> Res>,
}
impl Scn {
    pub fn new(id: impl Into<String>, depth: u32, cap: u64, f: impl Fn() -> Res + 'static) -> Scn {
        Scn { id: id.into(), depth, cap, f: Box::new(f) }
    }
}

fn map_shared(n: usize) -> *mut u8 {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}
pub type Dev = (u32, u16);
pub struct Exec {
    pub res: Res,
    pub obs: String,
    pub points: Vec<Point>,
    pub ops: u64,
    pub diverged: bool,
}
fn text(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
static PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub struct Slot(*mut Shm);
impl Slot {
    pub fn new() -> Slot {
        Slot(map_shared(std::mem::size_of::<Shm>()) as *mut Shm)
    }
    pub fn exec(&self, s: &Scn, devs: &[Dev]) -> Exec {
        let m = unsafe { &mut *self.0 };
        m.ndev = devs.len() as u32;
        for (i, d) in devs.iter().enumerate() {
            m.dev[i] = [d.0, d.1 as u32];
        }
        m.npts = 0;
        m.truncated = 0;
        m.status = 0;
        m.switches = 0;
        m.ops = 0;
        m.msg[0] = 0;
        m.obs[0] = 0;
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                libc::alarm(100);
                let no = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &no);
                mcrt_start(self.0);
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f)()));
            unsafe { mcrt_quiet(1) };
            let r = match r {
                Ok(r) => r,
                Err(_) => bad("panic", format!("panicked: {}", PANIC.lock().unwrap())),
            };
            let put = |d: &mut [u8; 8192], s: &str| {
                let n = s.len().min(8191);
                d[..n].copy_from_slice(&s.as_bytes()[..n]);
                d[n] = 0;
            };
            if let Err(b) = &r {
                put(&mut m.msg, &format!("[{}] {}", b.key, b.msg));
            }
            put(&mut m.obs, &OBS.0.lock().unwrap());
            unsafe { mcrt_done() };
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let msg = text(&m.msg);
        let mut diverged = false;
        let split = |m: &str| -> Bad {
            match m.strip_prefix('[').and_then(|m| m.split_once("] ")) {
                Some((k, t)) => Bad { key: k.into(), msg: t.into() },
                None => Bad { key: "?".into(), msg: m.into() },
            }
        };
        let res = if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            let p = text(&m.obs);
            if s == libc::SIGALRM {
                bad("hang", format!("no end after 100 s {p}"))
            } else {
                bad("crash", format!("ended by signal {s} {p}"))
            }
        } else {
            match m.status {
                1 if msg.is_empty() => Ok(()),
                3 => {
                    diverged = true;
                    Ok(())
                }
                1 | 2 | 4 => Err(split(&msg)),
                5 => panic!("harness: {msg}"),
                k => bad("crash", format!("exit status {st} ({k}) {msg}")),
            }
        };
        Exec { res, obs: text(&m.obs), points: m.pts[..m.npts as usize].to_vec(), ops: m.ops, diverged }
    }
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        QUIET.with(|| {
            if let Ok(mut p) = PANIC.lock() {
                *p = i.to_string();
            }
            if std::env::var("BTHR_TRACE").is_ok() {
                eprintln!("{i}");
            }
        });
    }));
}

/// Points at which another schedule can make a difference: accesses to what several threads
/// access, one of them writing; blocking, yielding, reading the clock; choices of a scenario.
fn relevant(pts: &[Point]) -> Vec<bool> {
    let mut m: HashMap<u64, (u64, bool)> = HashMap::new();
    for p in pts {
        if p.kind == 0 || p.kind == 3 {
            let e = m.entry(p.addr).or_default();
            e.0 |= 1 << p.tid;
            e.1 |= p.write != 0;
        }
    }
    pts.iter()
        .map(|p| {
            p.n > 1
                && match p.kind {
                    0 | 3 => m.get(&p.addr).map_or(false, |e| e.0.count_ones() > 1 && e.1),
                    _ => true,
                }
        })
        .collect()
}

#[derive(Default, Clone)]
pub struct Stat {
    pub id: String,
    pub execs: u64,
    pub ops: u64,
    pub states: u64,
    pub outcomes: u64,
    pub longest: u64,
    pub relevant: u64,
    pub level: i64,
    pub wanted: u32,
    pub partial: Option<(u32, u64, u64)>,
    pub diverged: u64,
    pub found: Vec<(Vec<Dev>, String, String)>,
    pub sample: String,
}
pub fn explore_one(s: &Scn, slot: &Slot, deadline: Instant) -> Stat {
    let mut st = Stat { id: s.id.clone(), level: -1, wanted: s.depth, ..Default::default() };
    let mut states: HashSet<u64> = HashSet::new();
    let mut outs: HashSet<String> = HashSet::new();
    let mut todo: Vec<Vec<Dev>> = vec![vec![]];
    let mut level = 0;
    'levels: loop {
        let total = todo.len() as u64;
        let mut next = vec![];
        // when only part of a level can be explored, that part is spread over the whole level
        let room = s.cap.saturating_sub(st.execs);
        let whole = total <= room;
        let n = if whole { total } else { room };
        for k in 0..n {
            let devs = &todo[(k * total / n.max(1)) as usize];
            if Instant::now() > deadline {
                st.partial = Some((level, k, total));
                break 'levels;
            }
            let e = slot.exec(s, devs);
            st.execs += 1;
            st.ops += e.ops;
            st.diverged += e.diverged as u64;
            if e.diverged && std::env::var("BTHR_TRACE").is_ok() {
                eprintln!("diverged: {} {devs:?} of {}", s.id, e.points.len());
            }
            st.longest = st.longest.max(e.points.len() as u64);
            let mut cnt = [0u64; 64];
            let mut fp = 0;
            for p in &e.points {
                let c = &mut cnt[p.tid as usize & 63];
                fp ^= mix2(p.tid as u64, *c);
                *c += 1;
                fp ^= mix2(p.tid as u64, *c);
                if states.len() < 3_000_000 {
                    states.insert(fp);
                }
            }
            if outs.len() < 100_000 && outs.insert(e.obs.clone()) && st.sample.is_empty() {
                st.sample = format!("{}: {}", s.id, e.obs.replace('\n', " | ").chars().take(150).collect::<String>());
            }
            if let Err(b) = e.res {
                // twice more, to be sure
                if slot.exec(s, devs).res.is_err() && slot.exec(s, devs).res.is_err() {
                    st.found.push((devs.clone(), b.key, b.msg));
                    if st.found.len() > 1 {
                        break 'levels;
                    }
                } else {
                    if std::env::var("BTHR_TRACE").is_ok() {
                        eprintln!("not reproduced: {} {devs:?} [{}] {}", s.id, b.key, b.msg);
                    }
                    st.diverged += 1;
                }
                continue;
            }
            if level < s.depth && devs.len() < MAXDEV && !e.diverged && whole {
                let from = devs.last().map_or(0, |d| d.0 + 1);
                let r = relevant(&e.points);
                st.relevant = st.relevant.max(r.iter().filter(|x| **x).count() as u64);
                for (i, p) in e.points.iter().enumerate() {
                    if i as u32 >= from && r[i] {
                        for c in 1..p.n {
                            let mut d = devs.clone();
                            d.push((i as u32, c));
                            next.push(d);
                        }
                    }
                }
            }
        }
        if !whole {
            st.partial = Some((level, n, total));
            break;
        }
        st.level = level as i64;
        if level == s.depth {
            break;
        }
        if next.is_empty() {
            // every schedule was explored
            st.level = s.depth as i64;
            break;
        }
        todo = next;
        level += 1;
        if st.execs >= s.cap {
            st.partial = Some((level, 0, todo.len() as u64));
            break;
        }
    }
    st.states = states.len() as u64;
    st.outcomes = outs.len() as u64;
    st
}

/// Distributes the scenarios over worker processes.
pub fn explore(scns: &[Scn], workers: usize, budget: Duration) -> BTreeMap<String, Stat> {
    let t0 = Instant::now();
    let next = unsafe { &*(map_shared(4096) as *const AtomicU64) };
    let mut pipes = vec![];
    for _ in 0..workers {
        let mut fd = [0; 2];
        assert_eq!(unsafe { libc::pipe(fd.as_mut_ptr()) }, 0);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            let slot = Slot::new();
            loop {
                let i = next.fetch_add(1, SeqCst) as usize;
                if i >= scns.len() {
                    break;
                }
                let st = explore_one(&scns[i], &slot, t0 + budget);
                let j = serde_json::json!({
                    "id": st.id, "execs": st.execs, "ops": st.ops, "states": st.states, "outcomes": st.outcomes,
                    "longest": st.longest, "relevant": st.relevant, "level": st.level, "wanted": st.wanted, "partial": st.partial,
                    "diverged": st.diverged, "found": st.found, "sample": st.sample,
                });
                let mut line = j.to_string();
                line.push('\n');
                let mut b = line.as_bytes();
                while !b.is_empty() {
                    let n = unsafe { libc::write(fd[1], b.as_ptr() as *const _, b.len()) };
                    assert!(n > 0);
                    b = &b[n as usize..];
                }
            }
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fd[1]) };
        pipes.push((pid, fd[0]));
    }
    let mut out = BTreeMap::new();
    let mut failed = false;
    for (pid, fd) in pipes {
        use std::io::Read;
        use std::os::fd::FromRawFd;
        let mut s = String::new();
        unsafe { std::fs::File::from_raw_fd(fd) }.read_to_string(&mut s).unwrap();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        failed |= st != 0;
        for l in s.lines() {
            let j: serde_json::Value = serde_json::from_str(l).unwrap();
            let n = |k: &str| j[k].as_u64().unwrap();
            out.insert(
                j["id"].as_str().unwrap().to_string(),
                Stat {
                    id: j["id"].as_str().unwrap().into(),
                    execs: n("execs"),
                    ops: n("ops"),
                    states: n("states"),
                    outcomes: n("outcomes"),
                    longest: n("longest"),
                    relevant: n("relevant"),
                    level: j["level"].as_i64().unwrap(),
                    wanted: n("wanted") as u32,
                    partial: serde_json::from_value(j["partial"].clone()).unwrap(),
                    diverged: n("diverged"),
                    found: serde_json::from_value(j["found"].clone()).unwrap(),
                    sample: j["sample"].as_str().unwrap().into(),
                },
            );
        }
    }
    if failed {
        eprintln!("a worker failed");
        std::process::exit(5);
    }
    out
}
