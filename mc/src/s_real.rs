//! C23 the same conversations over real sockets as over the in-memory transport.
use crate::common::{b, got, ms, Got};
use crate::ensure;
use crate::ex::*;
use crate::net::*;
use crate::s_reply::Tier;
use bromine::prelude::*;
use bromine::protocol::tcp::TcpOptions;
use futures::StreamExt;
use std::future::Future;
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU16, AtomicUsize, Ordering::*};
use std::time::Instant;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, UnixListener};

type Addr<R> = <<R as Real>::L as AsyncStreamProtocolListener>::AddressType;
type Sopt<R> = <<R as Real>::L as AsyncStreamProtocolListener>::ListenerOptions;
type Stream<R> = <<R as Real>::L as AsyncStreamProtocolListener>::Stream;
type Copt<R> = <Stream<R> as AsyncProtocolStream>::StreamOptions;

/// A kind of endpoint.
pub trait Real: Send + Sync + 'static
where
    Addr<Self>: 'static,
    Sopt<Self>: 'static,
    Copt<Self>: 'static,
{
    const NAME: &'static str;
    const REAL: bool = true;
    type L: AsyncStreamProtocolListener + 'static;
    fn addr() -> Addr<Self>;
    /// Makes the address usable again for another server.
    fn clear(_: &Addr<Self>) {}
    fn sopt() -> Sopt<Self>;
    fn copt() -> Copt<Self>;
}
fn port() -> u16 {
    static P: AtomicU16 = AtomicU16::new(12_000);
    loop {
        let p = P.fetch_add(1, SeqCst);
        if (12_000..28_000).contains(&p) {
            return p;
        }
        P.store(12_000, SeqCst);
    }
}
fn tcp_addr() -> SocketAddr {
    let p = std::process::id();
    SocketAddr::from(([127, 1 + (p >> 14) as u8 % 250, (p >> 7) as u8 & 127, 1 + (p & 127) as u8], port()))
}
/// Scratch directory for unix sockets; removed by `main` through `cleanup`.
fn dir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("bmc-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}
pub fn cleanup() {
    let d = std::env::temp_dir().join(format!("bmc-{}", std::process::id()));
    if d.is_dir() {
        let _ = std::fs::remove_dir_all(&d);
    }
}
fn unix_addr() -> PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    dir().join(format!("s{}", N.fetch_add(1, SeqCst)))
}

pub struct Sim;
impl Real for Sim {
    const NAME: &'static str = "sim";
    const REAL: bool = false;
    type L = SimListener;
    fn addr() -> Net {
        Net::new(NetCfg::default())
    }
    fn sopt() {}
    fn copt() {}
}
pub struct Tcp;
impl Real for Tcp {
    const NAME: &'static str = "tcp";
    type L = TcpListener;
    fn addr() -> SocketAddr {
        tcp_addr()
    }
    fn sopt() -> TcpOptions {
        TcpOptions::default()
    }
    fn copt() -> TcpOptions {
        TcpOptions::default()
    }
}
pub struct Unix;
impl Real for Unix {
    const NAME: &'static str = "unix";
    type L = UnixListener;
    fn addr() -> PathBuf {
        unix_addr()
    }
    fn clear(p: &PathBuf) {
        let _ = std::fs::remove_file(p);
    }
    fn sopt() {}
    fn copt() {}
}
#[cfg(feature = "full")]
mod enc {
    use super::*;
    use crate::common::keys;
    use bromine::protocol::encrypted::*;
    pub struct Enc<R>(std::marker::PhantomData<R>);
    macro_rules! enc {
        ($r:ident, $n:expr, $real:expr) => {
            impl Real for Enc<$r> {
                const NAME: &'static str = $n;
                const REAL: bool = $real;
                type L = EncryptedListener<<$r as Real>::L>;
                fn addr() -> Addr<$r> {
                    $r::addr()
                }
                fn clear(a: &Addr<$r>) {
                    $r::clear(a)
                }
                fn sopt() -> EncryptionOptions<Sopt<$r>> {
                    keys::opt(1, &[2], false)
                }
                fn copt() -> EncryptionOptions<Copt<$r>> {
                    keys::opt(2, &[1], false)
                }
            }
        };
    }
    enc!(Sim, "enc", false);
    enc!(Tcp, "enc-tcp", true);
    enc!(Unix, "enc-unix", true);
}
#[cfg(feature = "full")]
pub use enc::Enc;

type Lines = std::sync::Arc<std::sync::Mutex<Vec<String>>>;
fn add(l: &Lines, s: impl Into<String>) {
    l.lock().unwrap().push(s.into())
}
fn lines(l: &Lines) -> Vec<String> {
    let mut v = l.lock().unwrap().clone();
    v.sort();
    v
}
fn digest(d: &[u8]) -> String {
    let h = d.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
    format!("{}/{h:x}", d.len())
}
fn data(n: usize, salt: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add((i >> 8) as u8).wrapping_add(salt)).collect()
}

fn server<R: Real>(a: &Addr<R>, log: &Lines) -> bromine::IPCBuilder<R::L> {
    let l = |n: &'static str| {
        let log = log.clone();
        move |ev: &Event| add(&log, format!("{n}({})", digest(ev.data_raw())))
    };
    let (l1, l2, l3, l4, l5, l6, l7, l8, l9) = (l("echo"), l("fail"), l("parts"), l("ask"), l("fire"), l("mute"), l("slow"), l("n/echo"), l("m/echo"));
    let (g1, g2, g3) = (log.clone(), log.clone(), log.clone());
    bromine::IPCBuilder::<R::L>::new()
        .address(a.clone())
        .server_options(R::sopt())
        .timeout(ms(10_000))
        .on("echo", move |ctx, ev| {
            l1(&ev);
            Box::pin(async move { ctx.response(b(ev.data_raw())) })
        })
        .on("fail", move |_c, ev| {
            l2(&ev);
            Box::pin(async move { Err(format!("boom {}", ev.data_raw().len()).into()) })
        })
        .on("parts", move |ctx, ev| {
            l3(&ev);
            Box::pin(async move {
                let d = ev.data_raw().to_vec();
                let size = u32::from_be_bytes([d[2], d[3], d[4], d[5]]) as usize;
                for i in 0..d[0] {
                    ctx.emit("part", b(&data(size, i))).await?;
                }
                match d[1] {
                    0 => Ok(Response::empty()),
                    1 => ctx.response(b(b"last")),
                    _ => Err("broke off".into()),
                }
            })
        })
        .on("ask", move |ctx, ev| {
            l4(&ev);
            let g3 = g3.clone();
            Box::pin(async move {
                let d = ev.data_raw().to_vec();
                let r = ctx.emit(if d[0] == 1 { "deep" } else { "client" }, b(&d)).await_reply().await;
                add(&g3, format!("asked({})", same(r, &d)));
                Ok(Response::empty())
            })
        })
        .on("unheard", |ctx, ev| {
            Box::pin(async move {
                let d = ev.data_raw().to_vec();
                let size = u32::from_be_bytes([d[2], d[3], d[4], d[5]]) as usize;
                for i in 0..d[0] {
                    ctx.emit("unheard part", b(&data(size, i))).await?;
                }
                Ok(Response::empty())
            })
        })
        .on("fire", move |_c, ev| {
            l5(&ev);
            Box::pin(async move { Ok(Response::empty()) })
        })
        .on("mute", move |_c, ev| {
            l6(&ev);
            Box::pin(std::future::pending())
        })
        .on("slow", move |ctx, ev| {
            l7(&ev);
            Box::pin(async move {
                tokio::time::sleep(ms(3)).await;
                ctx.response(b(ev.data_raw()))
            })
        })
        .on("linger", move |ctx, _ev| {
            let g1 = g1.clone();
            Box::pin(async move {
                add(&g1, "linger");
                while ctx.emit("tick", b(b"")).await.is_ok() {
                    tokio::time::sleep(ms(1)).await;
                }
                add(&g1, "linger ended");
                Ok(Response::empty())
            })
        })
        .on("wait", move |ctx, _ev| {
            let g2 = g2.clone();
            Box::pin(async move {
                add(&g2, "wait");
                let r = ctx.emit("cmute", b(b"")).await_reply().with_timeout(ms(300)).await;
                add(&g2, if r.is_err() { "wait failed" } else { "wait got a reply" });
                r.map(|_| Response::empty())
            })
        })
        .namespace("n")
        .on("echo", move |ctx, ev| {
            l8(&ev);
            Box::pin(async move {
                let mut v = ev.data_raw().to_vec();
                v.push(b'n');
                ctx.response(b(&v))
            })
        })
        .build()
        .namespace("m")
        .on("echo", move |ctx, ev| {
            l9(&ev);
            Box::pin(async move {
                let mut v = ev.data_raw().to_vec();
                v.push(b'm');
                ctx.response(b(&v))
            })
        })
        .build()
}
fn client<R: Real>(a: &Addr<R>, log: &Lines) -> bromine::IPCBuilder<R::L> {
    let (l1, l2, l3, l4, l5) = (log.clone(), log.clone(), log.clone(), log.clone(), log.clone());
    bromine::IPCBuilder::<R::L>::new()
        .address(a.clone())
        .client_options(R::copt())
        .timeout(ms(10_000))
        .on("client", move |ctx, ev| {
            add(&l1, format!("client({})", digest(ev.data_raw())));
            Box::pin(async move { ctx.response(b(ev.data_raw())) })
        })
        .on("deep", move |ctx, ev| {
            add(&l2, format!("deep({})", digest(ev.data_raw())));
            Box::pin(async move {
                let r = ctx.emit("echo", b(ev.data_raw())).await_reply().await?;
                ctx.response(b(r.data_raw()))
            })
        })
        .on("part", move |_c, ev| {
            add(&l3, format!("part({})", digest(ev.data_raw())));
            Box::pin(async move { Ok(Response::empty()) })
        })
        .on("tick", move |_c, _ev| {
            add(&l4, "tick");
            Box::pin(async move { Ok(Response::empty()) })
        })
        .on("cmute", move |_c, _ev| {
            add(&l5, "cmute");
            Box::pin(std::future::pending())
        })
}
/// Runs a future on its own real runtime; a conversation that does not come to an end is a hang.
fn real<X>(what: &str, f: impl Future<Output = Result<X, Bad>>) -> Result<X, Bad> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(async { tokio::time::timeout(ms(40_000), f).await });
    drop(rt);
    match r {
        Ok(r) => r,
        Err(_) => bad("hang", format!("{what}: not over after 40 seconds")),
    }
}
/// Starts a server and waits until it listens.
async fn up<R: Real>(bld: bromine::IPCBuilder<R::L>) -> tokio::task::JoinHandle<IPCResult<()>> {
    let h = tokio::spawn(async move { bld.build_server().await });
    for _ in 0..20 {
        tokio::task::yield_now().await;
    }
    h
}
async fn connect<R: Real>(bld: impl Fn() -> bromine::IPCBuilder<R::L>) -> Result<Context, Bad> {
    let t = Instant::now();
    loop {
        match bld().build_client().await {
            Ok(c) => return Ok(c),
            Err(IPCError::IoError(e)) if matches!(e.kind(), std::io::ErrorKind::ConnectionRefused | std::io::ErrorKind::NotFound) && t.elapsed() < ms(5_000) => tokio::time::sleep(ms(2)).await,
            Err(e) => return bad("socket", format!("{}: connecting: {e:?}", R::NAME)),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum O {
    Echo(usize),
    Ns(bool, usize),
    Fail,
    NoSuchEvent,
    NoSuchSpace,
    Parts(u8, u8, usize),
    /// a reply stream dropped after this many parts
    Some(u8, usize),
    /// parts without requester
    Push(u8, usize),
    Ask(bool, usize),
    Fire(usize),
    Mute,
    /// a slow and a fast request at the same time
    Both(usize),
    /// concurrent requests
    Many(u8, usize),
    /// concurrent streams and requests in both directions
    Mixed(usize),
}
fn same(r: IPCResult<Event>, want: &[u8]) -> String {
    match got(r) {
        Got::Ok(d) if d == want => format!("ok {}", digest(&d)),
        Got::Ok(d) => format!("WRONG {} instead of {}", digest(&d), digest(want)),
        g => format!("{g:?}"),
    }
}
fn parts_req(n: u8, end: u8, size: usize) -> Vec<u8> {
    let mut v = vec![n, end];
    v.extend_from_slice(&(size as u32).to_be_bytes());
    v
}
async fn step(c: &Context, o: O, salt: u8) -> String {
    match o {
        O::Echo(n) => same(c.emit("echo", b(&data(n, salt))).await_reply().await, &data(n, salt)),
        O::Ns(m, n) => {
            let mut w = data(n, salt);
            w.push(if m { b'm' } else { b'n' });
            same(c.emit_to(if m { "m" } else { "n" }, "echo", b(&data(n, salt))).await_reply().await, &w)
        }
        O::Fail => same(c.emit("fail", b(&data(3, salt))).await_reply().await, b""),
        O::NoSuchEvent => same(c.emit("nosuch", b(b"x")).await_reply().with_timeout(ms(40)).await, b""),
        O::NoSuchSpace => same(c.emit_to("nosuch", "echo", b(b"x")).await_reply().with_timeout(ms(40)).await, b""),
        O::Parts(n, e, size) => {
            let mut s = match c.emit("parts", b(&parts_req(n, e, size))).stream_replies().await {
                Ok(s) => s,
                Err(e) => return format!("open: {e:?}"),
            };
            let mut out = vec![];
            while let Some(r) = s.next().await {
                out.push(match r {
                    Ok(e) => format!("{} {}", e.name(), digest(e.data_raw())),
                    Err(e) => format!("{e:?}"),
                });
            }
            out.join(", ")
        }
        O::Some(n, size) => {
            let mut s = match c.emit("unheard", b(&parts_req(n, 0, size))).stream_replies().await {
                Ok(s) => s,
                Err(e) => return format!("open: {e:?}"),
            };
            match s.next().await {
                Some(Ok(e)) => format!("{} {}", e.name(), digest(e.data_raw())),
                r => format!("{r:?}"),
            }
        }
        O::Push(n, size) => match c.emit("parts", b(&parts_req(n, 0, size))).await {
            Ok(_) => "sent".into(),
            Err(e) => format!("{e:?}"),
        },
        O::Ask(deep, n) => {
            let mut d = vec![deep as u8];
            d.extend(data(n, salt));
            match c.emit("ask", b(&d)).await {
                Ok(_) => "sent".into(),
                Err(e) => format!("{e:?}"),
            }
        }
        O::Fire(n) => match c.emit("fire", b(&data(n, salt))).await {
            Ok(_) => "sent".into(),
            Err(e) => format!("{e:?}"),
        },
        O::Mute => same(c.emit("mute", b(b"m")).await_reply().with_timeout(ms(20)).await, b""),
        O::Both(n) => {
            let (x, y) = (data(n, salt), data(n, salt.wrapping_add(1)));
            let (r, s) = tokio::join!(c.emit("slow", b(&x)).await_reply(), c.emit("echo", b(&y)).await_reply());
            format!("{} {}", same(r, &x), same(s, &y))
        }
        O::Many(k, n) => {
            let fs = (0..k).map(|i| async move {
                let d = data(n, salt.wrapping_add(i));
                same(c.emit(if i % 3 == 2 { "slow" } else { "echo" }, b(&d)).await_reply().await, &d)
            });
            futures::future::join_all(fs).await.join(" ")
        }
        O::Mixed(n) => {
            let (r, s, t) = tokio::join!(
                Box::pin(step(c, O::Parts(3, 0, n), salt)),
                Box::pin(step(c, O::Ask(true, n), salt)),
                Box::pin(step(c, O::Echo(n), salt))
            );
            format!("{r} | {s} | {t}")
        }
    }
}
/// What a conversation looked like from outside.
#[derive(PartialEq, Debug, Clone, Default)]
struct Transcript {
    results: Vec<Vec<String>>,
    server: Vec<String>,
    client: Vec<String>,
}
impl Transcript {
    fn diff(&self, o: &Transcript) -> String {
        let cut = |v: String| v.chars().take(500).collect::<String>();
        if self.results != o.results {
            for (a, b) in self.results.iter().zip(&o.results) {
                for (x, y) in a.iter().zip(b) {
                    if x != y {
                        return format!("a result is {} instead of {}", cut(x.clone()), cut(y.clone()));
                    }
                }
            }
            return format!("results {}", cut(format!("{:?} instead of {:?}", self.results, o.results)));
        }
        if self.server != o.server {
            return format!("the server's handler invocations are {} instead of {}", cut(format!("{:?}", self.server)), cut(format!("{:?}", o.server)));
        }
        format!("the client's handler invocations are {} instead of {}", cut(format!("{:?}", self.client)), cut(format!("{:?}", o.client)))
    }
}
/// `progs[i]` is the script of client i; with `pool` > 0 each step of it uses a pooled connection.
/// `like`: the transcript to wait for before comparing.
fn converse<R: Real>(progs: &[Vec<O>], pool: usize, like: Option<&Transcript>) -> Result<Transcript, Bad> {
    let what = format!("{} {progs:?} pool {pool}", R::NAME);
    real(&what, async {
        let a = R::addr();
        let (sl, cl) = (Lines::default(), Lines::default());
        let srv = up::<R>(server::<R>(&a, &sl)).await;
        let mut t = Transcript::default();
        let mut keep: Vec<Context> = vec![];
        let mut pools = vec![];
        let first = connect::<R>(|| client::<R>(&a, &cl)).await?;
        for (i, _) in progs.iter().enumerate() {
            if pool > 0 {
                match client::<R>(&a, &cl).build_pooled_client(pool).await {
                    Ok(p) => pools.push(p),
                    Err(e) => return bad("socket", format!("{what}: a pool could not connect: {e:?}")),
                }
            } else if i > 0 {
                keep.push(connect::<R>(|| client::<R>(&a, &cl)).await?);
            }
        }
        keep.insert(0, first);
        let fs = progs.iter().enumerate().map(|(i, p)| {
            let (keep, pools) = (&keep, &pools);
            async move {
                let mut out = vec![];
                let mut held = vec![];
                for (k, o) in p.iter().enumerate() {
                    let salt = (i * 16 + k) as u8;
                    if pool > 0 {
                        let g = pools[i].acquire();
                        out.push(step(&g, *o, salt).await);
                        held.push(g);
                    } else {
                        out.push(step(&keep[i], *o, salt).await);
                    }
                }
                out
            }
        });
        t.results = futures::future::join_all(fs).await;
        let until = Instant::now() + ms(10_000);
        loop {
            // what was sent last may still be on its way
            let r = same(keep[0].emit("echo", b(b"end")).await_reply().await, b"end");
            if !r.starts_with("ok") {
                return bad("socket", format!("{what}: the connection is unusable afterwards: {r}"));
            }
            (t.server, t.client) = (lines(&sl), lines(&cl));
            t.server.retain(|l| *l != format!("echo({})", digest(b"end")));
            match like {
                Some(l) if (t.server.len() < l.server.len() || t.client.len() < l.client.len()) && Instant::now() < until => tokio::time::sleep(ms(1)).await,
                None if !settled(progs, &t) && Instant::now() < until => tokio::time::sleep(ms(1)).await,
                _ => break,
            }
        }
        ensure!(!srv.is_finished(), "socket", "{what}: the server ended");
        for c in &keep {
            if let Err(e) = c.clone().stop().await {
                return bad("socket", format!("{what}: stop: {e:?}"));
            }
        }
        srv.abort();
        R::clear(&a);
        Ok(t)
    })
}
/// Has everything the scripts cause arrived?
fn settled(progs: &[Vec<O>], t: &Transcript) -> bool {
    let want: usize = progs.iter().flatten().map(|o| if let O::Push(n, _) = o { *n as usize } else { 0 }).sum();
    let count = |k: fn(&O) -> bool| progs.iter().flatten().filter(|o| k(o)).count();
    let have = |v: &[String], s: &str| v.iter().filter(|l| l.starts_with(s)).count();
    have(&t.client, "part(") >= want && have(&t.server, "fire(") >= count(|o| matches!(o, O::Fire(_))) && have(&t.server, "asked(") >= count(|o| matches!(o, O::Ask(..) | O::Mixed(_)))
}
fn alike<R: Real>(progs: Vec<Vec<O>>, pool: usize) -> Res {
    eval();
    let want = converse::<Sim>(&progs, pool, None)?;
    let t = converse::<R>(&progs, pool, Some(&want))?;
    obs(format!("{progs:?} {pool} {:?}", want.results).chars().take(400).collect::<String>());
    ensure!(!want.results.iter().flatten().chain(&want.server).any(|r| r.contains("WRONG") || r.contains("Timeout)")), "socket", "{progs:?}: {want:?}");
    ensure!(t == want, "socket", "{} {progs:?} pool {pool}: {}", R::NAME, t.diff(&want));
    Ok(())
}

fn alphabet(big: bool) -> Vec<O> {
    let mut v = vec![
        O::Echo(0),
        O::Echo(1),
        O::Echo(1000),
        O::Echo(1024),
        O::Echo(65_535),
        O::Echo(65_536),
        O::Echo(300_000),
        O::Ns(false, 5),
        O::Ns(true, 2000),
        O::Fail,
        O::Parts(0, 0, 0),
        O::Parts(3, 0, 10),
        O::Parts(2, 1, 1024),
        O::Parts(2, 2, 70_000),
        O::Parts(100, 0, 100),
        O::Some(3, 20),
        O::Some(30, 20_000),
        O::Push(2, 50),
        O::Push(3, 70_000),
        O::Ask(false, 10),
        O::Ask(true, 100_000),
        O::Fire(0),
        O::Fire(100_000),
        O::Both(10),
        O::Many(5, 3000),
        O::Mixed(200),
    ];
    if big {
        v.extend([O::Echo(1_000_000), O::Echo(5_000_000), O::Parts(4, 0, 1_000_000), O::Mixed(700_000), O::Many(40, 20_000), O::Mute, O::NoSuchEvent, O::NoSuchSpace, O::Push(3, 500_000), O::Fire(3_000_000), O::Ask(true, 2_000_000), O::Both(1_500_000)]);
    }
    v
}

fn scripts<R: Real>(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let small = alphabet(false);
    for (i, o) in alphabet(true).into_iter().enumerate() {
        v.push(Scn::sync(format!("script {} {o:?}", R::NAME), move || alike::<R>(vec![vec![o]], 0)));
        v.push(Scn::sync(format!("script {} pool {o:?}", R::NAME), move || {
            alike::<R>(vec![vec![o]], 1)?;
            alike::<R>(vec![vec![o, o, O::Echo(9)]], 3)
        }));
        let _ = i;
    }
    for (i, o) in small.clone().into_iter().enumerate() {
        let s2 = small.clone();
        v.push(Scn::sync(format!("script {} {o:?} then any", R::NAME), move || s2.iter().try_for_each(|p| alike::<R>(vec![vec![o, *p]], 0))));
        let s2 = small.clone();
        v.push(Scn::sync(format!("script {} {o:?} beside any", R::NAME), move || s2.iter().skip(i).try_for_each(|p| alike::<R>(vec![vec![o], vec![*p]], 0))));
        if t.thorough {
            for q in small.clone() {
                let s2 = small.clone();
                v.push(Scn::sync(format!("script {} {o:?} {q:?} then any", R::NAME), move || s2.iter().try_for_each(|p| alike::<R>(vec![vec![o, q, *p]], 0))));
            }
            let s2 = small.clone();
            v.push(Scn::sync(format!("script {} {o:?} then any, pools", R::NAME), move || s2.iter().try_for_each(|p| alike::<R>(vec![vec![o, *p], vec![*p, o]], 2))));
        }
    }
    v
}

// ---- the end of connections

/// The client leaves while a handler of the server emits or waits for a reply.
fn client_leaves<R: Real>(how: u8) -> Res {
    eval();
    let what = format!("{} client leaves {how}", R::NAME);
    real(&what, async {
        let a = R::addr();
        let (sl, cl) = (Lines::default(), Lines::default());
        let srv = up::<R>(server::<R>(&a, &sl)).await;
        let other = connect::<R>(|| client::<R>(&a, &cl)).await?;
        let wait = how >= 2;
        if how % 2 == 0 {
            let c = connect::<R>(|| client::<R>(&a, &cl)).await?;
            let f = c.emit(if wait { "wait" } else { "linger" }, b(b"")).await;
            ensure!(f.is_ok(), "socket", "{what}: {:?}", f.err());
            drop(f);
            seen(&cl, if wait { "cmute" } else { "tick" }, &what).await?;
            c.clone().stop().await.ok();
            drop(c);
        } else {
            // the client's process ends
            let (a2, cl2) = (a.clone(), cl.clone());
            let h = tokio::task::spawn_blocking(move || {
                real("leaving client", async {
                    let c = connect::<R>(|| client::<R>(&a2, &cl2)).await?;
                    c.emit(if wait { "wait" } else { "linger" }, b(b"")).await.ok();
                    seen(&cl2, if wait { "cmute" } else { "tick" }, "leaving client").await
                })
            });
            h.await.unwrap()?;
        }
        seen(&sl, if wait { "wait failed" } else { "linger ended" }, &what).await?;
        let r = same(other.emit("echo", b(b"x")).await_reply().await, b"x");
        ensure!(r.starts_with("ok"), "socket", "{what}: another client afterwards: {r}");
        let c = connect::<R>(|| client::<R>(&a, &cl)).await?;
        let r = same(c.emit("echo", b(b"y")).await_reply().await, b"y");
        ensure!(r.starts_with("ok"), "socket", "{what}: a new client afterwards: {r}");
        ensure!(!srv.is_finished(), "socket", "{what}: the server ended");
        R::clear(&a);
        Ok(())
    })
}
async fn seen(l: &Lines, s: &str, what: &str) -> Res {
    let t = Instant::now();
    while !l.lock().unwrap().iter().any(|x| x == s) {
        if t.elapsed() > ms(10_000) {
            return bad("socket", format!("{what}: {s:?} did not happen within 10 s"));
        }
        tokio::time::sleep(ms(1)).await;
    }
    Ok(())
}
/// The server's process ends; requests fail, further emissions do too, another server can take over.
fn server_leaves<R: Real>(streaming: bool) -> Res {
    eval();
    let what = format!("{} server leaves, streaming {streaming}", R::NAME);
    let a = R::addr();
    let (sl, cl) = (Lines::default(), Lines::default());
    let bld = server::<R>(&a, &sl);
    let (end, ended) = tokio::sync::oneshot::channel::<()>();
    let process = std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            tokio::spawn(async move { bld.build_server().await });
            let _ = ended.await;
        });
    });
    real(&what, async {
        let c = connect::<R>(|| client::<R>(&a, &cl)).await?;
        let mut stream = None;
        if streaming {
            let mut s = c.emit("linger", b(b"")).stream_replies().with_timeout(ms(400)).await;
            if let Ok(s) = &mut s {
                ensure!(matches!(s.next().await, Some(Ok(_))), "socket", "{what}: no part arrived");
            }
            stream = s.ok();
        }
        let c2 = c.clone();
        let pending = tokio::spawn(async move { c2.emit("mute", b(b"")).await_reply().with_timeout(ms(300)).await.map(|_| ()) });
        seen(&sl, &format!("mute({})", digest(b"")), &what).await?;
        drop(end);
        tokio::task::spawn_blocking(move || process.join()).await.unwrap().unwrap();
        let r = pending.await.unwrap();
        ensure!(r.is_err(), "socket", "{what}: the pending request succeeded");
        let t = Instant::now();
        while let Some(s) = &mut stream {
            match s.next().await {
                Some(_) => ensure!(t.elapsed() < ms(10_000), "socket", "{what}: the stream does not end"),
                None => break,
            }
        }
        let t = Instant::now();
        while c.emit("fire", b(b"")).await.is_ok() {
            ensure!(t.elapsed() < ms(10_000), "socket", "{what}: emissions keep succeeding although the server is gone");
            tokio::time::sleep(ms(1)).await;
        }
        R::clear(&a);
        let (sl, cl) = (Lines::default(), Lines::default());
        let srv = up::<R>(server::<R>(&a, &sl)).await;
        let c = connect::<R>(|| client::<R>(&a, &cl)).await?;
        let r = same(c.emit("echo", b(b"y")).await_reply().await, b"y");
        ensure!(r.starts_with("ok"), "socket", "{what}: at the next server: {r}");
        ensure!(!srv.is_finished(), "socket", "{what}: the server ended");
        R::clear(&a);
        Ok(())
    })
}
/// The other side accepts, reads n bytes and goes away.
fn raw_server_leaves<R: Real>(read: usize, answer: usize) -> Res {
    eval();
    let what = format!("{} raw server leaves after reading {read} and writing {answer} bytes", R::NAME);
    real(&what, async {
        let a = R::addr();
        let l = match R::L::protocol_bind(a.clone(), R::sopt()).await {
            Ok(l) => l,
            Err(e) => return bad("socket", format!("{what}: bind: {e:?}")),
        };
        let h = tokio::spawn(async move {
            if let Ok((mut s, _)) = l.protocol_accept().await {
                let mut buf = vec![0; read];
                let _ = s.read_exact(&mut buf).await;
                if answer > 0 {
                    let _ = s.write_all(&[0, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9][..answer]).await;
                    let _ = s.flush().await;
                }
            }
        });
        let cl = Lines::default();
        let c = connect::<R>(|| client::<R>(&a, &cl)).await?;
        let r = c.emit("echo", b(&data(100, 0))).await_reply().with_timeout(ms(200)).await;
        ensure!(r.is_err(), "socket", "{what}: the request succeeded: {r:?}");
        let t = Instant::now();
        while c.emit("fire", b(b"")).await.is_ok() {
            ensure!(t.elapsed() < ms(10_000), "socket", "{what}: emissions keep succeeding although the peer is gone");
            tokio::time::sleep(ms(1)).await;
        }
        h.await.unwrap();
        R::clear(&a);
        Ok(())
    })
}
/// Peers that send something else than events and leave do not disturb others.
fn rude<R: Real>(f: fn(&Addr<R>, u8)) -> Res {
    for how in 0..5 {
        eval();
        let what = format!("{} rude peer {how}", R::NAME);
        real(&what, async {
            let a = R::addr();
            let (sl, cl) = (Lines::default(), Lines::default());
            let srv = up::<R>(server::<R>(&a, &sl)).await;
            let c = connect::<R>(|| client::<R>(&a, &cl)).await?;
            for _ in 0..3 {
                f(&a, how);
                let r = same(c.emit("echo", b(b"x")).await_reply().await, b"x");
                ensure!(r.starts_with("ok"), "socket", "{what}: another client meanwhile: {r}");
            }
            let c = connect::<R>(|| client::<R>(&a, &cl)).await?;
            let r = same(c.emit("echo", b(b"y")).await_reply().await, b"y");
            ensure!(r.starts_with("ok"), "socket", "{what}: a new client afterwards: {r}");
            ensure!(!srv.is_finished(), "socket", "{what}: the server ended");
            R::clear(&a);
            Ok(())
        })?;
    }
    Ok(())
}
fn impolite(mut s: impl std::io::Write, how: u8, reset: impl Fn()) {
    let _ = match how {
        0 => Ok(()),
        1 => s.write_all(&[0]),
        2 => s.write_all(&[0xff; 300]),
        3 => s.write_all(&[0, 0, 0, 0, 0, 0, 0, 0]),
        _ => {
            reset();
            s.write_all(&[7; 40])
        }
    };
}
fn rude_tcp(a: &SocketAddr, how: u8) {
    if let Ok(s) = std::net::TcpStream::connect(a) {
        let fd = std::os::fd::AsRawFd::as_raw_fd(&s);
        impolite(&s, how, || unsafe {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as u32);
        });
    }
}
fn rude_unix(a: &PathBuf, how: u8) {
    if let Ok(s) = std::os::unix::net::UnixStream::connect(a) {
        impolite(&s, how, || ());
    }
}

// ---- errors

fn io_kind(e: &IPCError) -> String {
    match e {
        IPCError::IoError(e) => format!("{:?}", e.kind()),
        e => format!("{e:?}"),
    }
}
fn errors<R: Real>(nobody: &'static [&'static str]) -> Res {
    let what = R::NAME;
    real(what, async {
        // nobody listens
        for pool in [0, 1, 3] {
            eval();
            let a = R::addr();
            let cl = Lines::default();
            let r = if pool == 0 { client::<R>(&a, &cl).build_client().await.map(|_| ()) } else { client::<R>(&a, &cl).build_pooled_client(pool).await.map(|_| ()) };
            match r {
                Err(IPCError::IoError(e)) if nobody.contains(&format!("{:?}", e.kind()).as_str()) => {}
                r => return bad("socket", format!("{what}: connecting to nobody (pool {pool}): {r:?}")),
            }
        }
        // no address
        eval();
        let r = bromine::IPCBuilder::<R::L>::new().server_options(R::sopt()).build_server().await;
        ensure!(matches!(r, Err(IPCError::BuildError(_))), "socket", "{what}: server without address: {r:?}");
        let r = bromine::IPCBuilder::<R::L>::new().client_options(R::copt()).build_client().await.map(|_| ());
        ensure!(matches!(r, Err(IPCError::BuildError(_))), "socket", "{what}: client without address: {r:?}");
        let r = bromine::IPCBuilder::<R::L>::new().client_options(R::copt()).build_pooled_client(2).await.map(|_| ());
        ensure!(matches!(r, Err(IPCError::BuildError(_))), "socket", "{what}: pool without address: {r:?}");
        // the address is in use
        if R::REAL {
            eval();
            let a = R::addr();
            let (sl, cl) = (Lines::default(), Lines::default());
            let srv = up::<R>(server::<R>(&a, &sl)).await;
            let c = connect::<R>(|| client::<R>(&a, &cl)).await?;
            let other = Lines::default();
            let r = tokio::time::timeout(ms(3_000), server::<R>(&a, &other).build_server()).await;
            ensure!(matches!(&r, Ok(Err(IPCError::IoError(e))) if e.kind() == std::io::ErrorKind::AddrInUse), "socket", "{what}: a second server on the address: {r:?}");
            let r = same(c.emit("echo", b(b"x")).await_reply().await, b"x");
            ensure!(r.starts_with("ok"), "socket", "{what}: the first server afterwards: {r}");
            let c = connect::<R>(|| client::<R>(&a, &cl)).await?;
            let r = same(c.emit("echo", b(b"y")).await_reply().await, b"y");
            ensure!(r.starts_with("ok") && other.lock().unwrap().is_empty(), "socket", "{what}: a new client of the first server afterwards: {r}");
            ensure!(!srv.is_finished(), "socket", "{what}: the server ended");
            R::clear(&a);
        }
        Ok(())
    })
}
fn unix_errors<R: Real<L = L>, L: AsyncStreamProtocolListener<AddressType = PathBuf> + 'static>() -> Res {
    let what = R::NAME;
    real(what, async {
        eval();
        let a = dir().join("missing").join("s");
        let sl = Lines::default();
        let r = tokio::time::timeout(ms(3_000), server::<R>(&a, &sl).build_server()).await;
        ensure!(matches!(&r, Ok(Err(e)) if io_kind(e) == "NotFound"), "socket", "{what}: a server in a missing directory: {r:?}");
        // a file that is not a socket is left alone
        let a = unix_addr();
        std::fs::write(&a, b"content").unwrap();
        let r = tokio::time::timeout(ms(3_000), server::<R>(&a, &sl).build_server()).await;
        ensure!(matches!(&r, Ok(Err(e)) if io_kind(e) == "AddrInUse"), "socket", "{what}: a server at the path of a regular file: {r:?}");
        let r = client::<R>(&a, &sl).build_client().await.map(|_| ());
        ensure!(matches!(&r, Err(IPCError::IoError(_))), "socket", "{what}: a client at the path of a regular file: {r:?}");
        ensure!(std::fs::read(&a).ok().as_deref() == Some(b"content"), "socket", "{what}: the regular file is damaged");
        std::fs::remove_file(&a).unwrap();
        // clients leave the socket of a server in place
        let srv = up::<R>(server::<R>(&a, &sl)).await;
        for _ in 0..3 {
            let c = connect::<R>(|| client::<R>(&a, &sl)).await?;
            let r = same(c.emit("echo", b(b"x")).await_reply().await, b"x");
            ensure!(r.starts_with("ok"), "socket", "{what}: {r}");
            c.clone().stop().await.ok();
            drop(c);
            tokio::time::sleep(ms(2)).await;
            ensure!(a.exists(), "socket", "{what}: the socket of the server vanished");
        }
        ensure!(!srv.is_finished(), "socket", "{what}: the server ended");
        R::clear(&a);
        Ok(())
    })
}

/// Peers with every combination of admitted keys.
#[cfg(feature = "full")]
fn admission<R: Real<L = bromine::protocol::encrypted::EncryptedListener<L>>, L>(inner_s: fn() -> L::ListenerOptions, inner_c: fn() -> <L::Stream as AsyncProtocolStream>::StreamOptions) -> Res
where
    L: AsyncStreamProtocolListener + 'static,
    L::AddressType: 'static,
    L::ListenerOptions: 'static,
    L::RemoteAddressType: 'static,
    <L::Stream as AsyncProtocolStream>::StreamOptions: 'static,
{
    use crate::common::keys;
    use bromine::protocol::encrypted::EncryptionOptions;
    for s_known in [vec![], vec![2], vec![3], vec![3, 2]] {
        for s_allow in [false, true] {
            for c_known in [vec![], vec![1], vec![4]] {
                for c_allow in [false, true] {
                    eval();
                    let what = format!("{} server knows {s_known:?} allows {s_allow}, client knows {c_known:?} allows {c_allow}", R::NAME);
                    let s_ok = s_allow || s_known.contains(&2);
                    let c_ok = c_allow || c_known.contains(&1);
                    real(&what, async {
                        let a = R::addr();
                        let (sl, cl) = (Lines::default(), Lines::default());
                        let srv = up::<R>(server::<R>(&a, &sl).server_options(EncryptionOptions { inner_options: inner_s(), keys: keys::keys(1, &s_known, s_allow) })).await;
                        let r = client::<R>(&a, &cl).client_options(EncryptionOptions { inner_options: inner_c(), keys: keys::keys(2, &c_known, c_allow) }).build_client().await;
                        match r {
                            Ok(c) => {
                                ensure!(s_ok && c_ok, "socket", "{what}: connected");
                                let r = same(c.emit("echo", b(b"x")).await_reply().await, b"x");
                                ensure!(r.starts_with("ok"), "socket", "{what}: {r}");
                            }
                            Err(e) => {
                                ensure!(!(s_ok && c_ok), "socket", "{what}: {e:?}");
                                ensure!(!s_ok || matches!(e, IPCError::UnknownPeer(_)), "socket", "{what}: failed with {e:?}");
                                tokio::time::sleep(ms(2)).await;
                                ensure!(sl.lock().unwrap().is_empty(), "socket", "{what}: a handler ran");
                            }
                        }
                        ensure!(!srv.is_finished(), "socket", "{what}: the server ended");
                        R::clear(&a);
                        Ok(())
                    })?;
                }
            }
        }
    }
    Ok(())
}

// ---- the adapters on their own

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    Write(bool, usize),
    Shutdown(bool),
    Drop(bool),
}
/// Connects two ends through the protocol traits, runs the operations and compares what arrives.
fn adapter<R: Real>(ops: &[S]) -> Res {
    eval();
    let what = format!("{} {ops:?}", R::NAME);
    real(&what, async {
        let a = R::addr();
        let fail = |e: IPCError| Bad { key: "socket".into(), msg: format!("{what}: {e:?}") };
        let l = R::L::protocol_bind(a.clone(), R::sopt()).await.map_err(fail)?;
        let (c, s) = tokio::join!(<Stream<R> as AsyncProtocolStream>::protocol_connect(a.clone(), R::copt()), l.protocol_accept());
        let (c, s) = (c.map_err(fail)?, s.map_err(fail)?.0);
        let (cr, cw) = c.protocol_into_split();
        let (sr, sw) = s.protocol_into_split();
        let reader = |mut r: <Stream<R> as AsyncProtocolStreamSplit>::OwnedSplitReadHalf| {
            tokio::spawn(async move {
                let mut v = vec![];
                let mut buf = vec![0; 40_000];
                loop {
                    match r.read(&mut buf).await {
                        Ok(0) | Err(_) => return (v, r),
                        Ok(n) => v.extend_from_slice(&buf[..n]),
                    }
                }
            })
        };
        let (at_c, at_s) = (reader(cr), reader(sr));
        let mut w: [Option<<Stream<R> as AsyncProtocolStreamSplit>::OwnedSplitWriteHalf>; 2] = [Some(cw), Some(sw)];
        let mut want = [vec![], vec![]];
        for (i, o) in ops.iter().enumerate() {
            let side = match *o {
                S::Write(s, _) | S::Shutdown(s) | S::Drop(s) => s as usize,
            };
            let Some(x) = &mut w[side] else { continue };
            match *o {
                S::Write(_, n) => {
                    let d = data(n, i as u8);
                    let r = match x.write_all(&d).await {
                        Ok(()) => x.flush().await,
                        e => e,
                    };
                    ensure!(r.is_ok(), "socket", "{what}: write {i}: {r:?}");
                    want[side].extend_from_slice(&d);
                }
                S::Shutdown(_) => {
                    let r = x.shutdown().await;
                    ensure!(r.is_ok(), "socket", "{what}: shutdown {i}: {r:?}");
                    // nothing may follow
                    let h = w[side].take();
                    std::mem::forget(h);
                }
                S::Drop(_) => w[side] = None,
            }
        }
        for x in w.iter_mut() {
            if let Some(x) = x {
                let _ = x.shutdown().await;
            }
        }
        let (vc, keep_c) = at_c.await.unwrap();
        let (vs, keep_s) = at_s.await.unwrap();
        ensure!(vs == want[0], "socket", "{what}: the server end read {} instead of {}", digest(&vs), digest(&want[0]));
        ensure!(vc == want[1], "socket", "{what}: the client end read {} instead of {}", digest(&vc), digest(&want[1]));
        drop((keep_c, keep_s));
        R::clear(&a);
        Ok(())
    })
}
fn adapters<R: Real>(t: Tier) -> Vec<Scn> {
    let mut al = vec![];
    for s in [false, true] {
        al.extend([S::Write(s, 1), S::Write(s, 5000), S::Write(s, 1_000_000), S::Shutdown(s), S::Drop(s)]);
    }
    let mut v = vec![];
    for x in al.clone() {
        let al = al.clone();
        v.push(Scn::sync(format!("adapter {} {x:?} then any", R::NAME), move || {
            adapter::<R>(&[x])?;
            for y in &al {
                adapter::<R>(&[x, *y])?;
                if t.thorough || !matches!((x, *y), (S::Write(_, 1_000_000), _) | (_, S::Write(_, 1_000_000))) {
                    for z in &al {
                        adapter::<R>(&[x, *y, *z])?;
                    }
                }
            }
            Ok(())
        }));
    }
    v
}

// ---- socket options

/// (local, peer, ttl) of the TCP sockets of this process that involve the address.
fn sockets(a: SocketAddr) -> Vec<(bool, bool, u32)> {
    use std::os::fd::FromRawFd;
    let mut v = vec![];
    for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
        let Some(fd) = e.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) else { continue };
        let s = std::mem::ManuallyDrop::new(unsafe { std::net::TcpStream::from_raw_fd(fd) });
        let (Ok(l), p) = (s.local_addr(), s.peer_addr()) else { continue };
        if l == a || p.as_ref().ok() == Some(&a) {
            if let Ok(t) = s.ttl() {
                v.push((l == a, p.is_ok(), t));
            }
        }
    }
    v
}
fn ttl<R: Real<L = L>, L: AsyncStreamProtocolListener<AddressType = SocketAddr> + 'static>(so: fn(Option<u32>) -> L::ListenerOptions, co: fn(Option<u32>) -> <L::Stream as AsyncProtocolStream>::StreamOptions) -> Res
where
    <L::Stream as AsyncProtocolStream>::StreamOptions: 'static,
    L::ListenerOptions: 'static,
{
    let default = std::net::TcpListener::bind("127.0.0.1:0").unwrap().ttl().unwrap();
    let values = [None, Some(1), Some(2), Some(63), Some(64), Some(65), Some(128), Some(254), Some(255)];
    for s in values {
        for c in values {
            for pool in [0, 3] {
                eval();
                let what = format!("{} ttl of the server {s:?}, of the client {c:?}, pool {pool}", R::NAME);
                real(&what, async {
                    let a = R::addr();
                    let (sl, cl) = (Lines::default(), Lines::default());
                    let srv = up::<R>(server::<R>(&a, &sl).server_options(so(s))).await;
                    let mut keep = vec![];
                    let mut keep_pool = None;
                    if pool == 0 {
                        keep.push(connect::<R>(|| client::<R>(&a, &cl).client_options(co(c))).await?);
                    } else {
                        match client::<R>(&a, &cl).client_options(co(c)).build_pooled_client(pool).await {
                            Ok(p) => keep_pool = Some(p),
                            Err(e) => return bad("socket", format!("{what}: {e:?}")),
                        }
                    }
                    for _ in 0..pool.max(1) {
                        let g = keep_pool.as_ref().map(|p| p.acquire());
                        let ctx: &Context = match &g {
                            Some(g) => g,
                            None => &keep[0],
                        };
                        let r = same(ctx.emit("echo", b(b"x")).await_reply().await, b"x");
                        ensure!(r.starts_with("ok"), "socket", "{what}: {r}");
                        std::mem::forget(g);
                    }
                    let (mut n, mut m, mut k) = (0, 0, 0);
                    for (local, connected, t) in sockets(a) {
                        let want = if local { s } else { c }.unwrap_or(default);
                        let who = match (local, connected) {
                            (true, false) => {
                                n += 1;
                                "listening"
                            }
                            (true, true) => {
                                m += 1;
                                "accepted"
                            }
                            _ => {
                                k += 1;
                                "client"
                            }
                        };
                        ensure!(t == want, "socket", "{what}: the {who} socket has a ttl of {t} instead of {want}");
                    }
                    ensure!((n, m, k) == (1, pool.max(1), pool.max(1)), "socket", "{what}: {n} listening, {m} accepted, {k} client sockets");
                    ensure!(!srv.is_finished(), "socket", "{what}: the server ended");
                    Ok(())
                })?;
            }
        }
    }
    for t in [0, 256, 70_000] {
        eval();
        let what = format!("{} ttl {t}", R::NAME);
        real(&what, async {
            let a = R::addr();
            let (sl, cl) = (Lines::default(), Lines::default());
            let r = tokio::time::timeout(ms(3_000), server::<R>(&a, &sl).server_options(so(Some(t))).build_server()).await;
            ensure!(matches!(r, Ok(Err(IPCError::IoError(_)))), "socket", "{what}: the server: {r:?}");
            let srv = up::<R>(server::<R>(&a, &sl)).await;
            let r = client::<R>(&a, &cl).client_options(co(Some(t))).build_client().await.map(|_| ());
            ensure!(matches!(r, Err(IPCError::IoError(_))), "socket", "{what}: the client: {r:?}");
            ensure!(!srv.is_finished(), "socket", "{what}: the server ended");
            Ok(())
        })?;
    }
    Ok(())
}
/// The address a listener reports for a connection is that of the connecting socket.
fn remote_addr() -> Res {
    real("remote address", async {
        eval();
        let a = tcp_addr();
        let fail = |e: IPCError| Bad { key: "socket".into(), msg: format!("remote address: {e:?}") };
        let l = TcpListener::protocol_bind(a, TcpOptions::default()).await.map_err(fail)?;
        ensure!(l.local_addr().unwrap() == a, "socket", "the listener is bound to another address");
        for _ in 0..3 {
            let (c, s) = tokio::join!(<tokio::net::TcpStream as AsyncProtocolStream>::protocol_connect(a, TcpOptions::default()), l.protocol_accept());
            let (c, (s, r)) = (c.map_err(fail)?, s.map_err(fail)?);
            ensure!(r == c.local_addr().unwrap() && s.peer_addr().unwrap() == r && c.peer_addr().unwrap() == a, "socket", "remote address {r} instead of {:?}", c.local_addr());
        }
        Ok(())
    })
}

fn of<R: Real>(t: Tier, v: &mut Vec<Scn>) {
    v.extend(scripts::<R>(t));
    ends::<R>(t, v);
}
fn ends<R: Real>(t: Tier, v: &mut Vec<Scn>) {
    for how in 0..4 {
        v.push(Scn::sync(format!("ends {} client {how}", R::NAME), move || client_leaves::<R>(how)));
    }
    for st in [false, true] {
        v.push(Scn::sync(format!("ends {} server {st}", R::NAME), move || server_leaves::<R>(st)));
    }
    for read in [0, 1, 50, 100] {
        for answer in [0, 1, 8, 17] {
            v.push(Scn::sync(format!("ends {} raw server {read} {answer}", R::NAME), move || raw_server_leaves::<R>(read, answer)));
        }
    }
    v.extend(adapters::<R>(t));
}

pub fn c23(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    ends::<Sim>(t, &mut v);
    of::<Tcp>(t, &mut v);
    of::<Unix>(t, &mut v);
    v.push(Scn::sync("errors sim", || errors::<Sim>(&["ConnectionRefused"])));
    v.push(Scn::sync("errors tcp", || errors::<Tcp>(&["ConnectionRefused"])));
    v.push(Scn::sync("errors unix", || errors::<Unix>(&["NotFound", "ConnectionRefused"])));
    v.push(Scn::sync("errors unix paths", unix_errors::<Unix, UnixListener>));
    v.push(Scn::sync("rude tcp", || rude::<Tcp>(rude_tcp)));
    v.push(Scn::sync("rude unix", || rude::<Unix>(rude_unix)));
    v.push(Scn::sync("ttl tcp", || ttl::<Tcp, TcpListener>(|t| TcpOptions { ttl: t }, |t| TcpOptions { ttl: t })));
    v.push(Scn::sync("remote address", remote_addr));
    #[cfg(feature = "full")]
    {
        use crate::common::keys;
        use bromine::protocol::encrypted::EncryptionOptions;
        ends::<Enc<Sim>>(t, &mut v);
        of::<Enc<Tcp>>(t, &mut v);
        of::<Enc<Unix>>(t, &mut v);
        v.push(Scn::sync("errors enc-tcp", || errors::<Enc<Tcp>>(&["ConnectionRefused"])));
        v.push(Scn::sync("errors enc-unix", || errors::<Enc<Unix>>(&["NotFound", "ConnectionRefused"])));
        v.push(Scn::sync("errors enc-unix paths", unix_errors::<Enc<Unix>, bromine::protocol::encrypted::EncryptedListener<UnixListener>>));
        v.push(Scn::sync("rude enc-tcp", || rude::<Enc<Tcp>>(rude_tcp)));
        v.push(Scn::sync("rude enc-unix", || rude::<Enc<Unix>>(rude_unix)));
        v.push(Scn::sync("admission enc-tcp", || admission::<Enc<Tcp>, TcpListener>(TcpOptions::default, TcpOptions::default)));
        v.push(Scn::sync("admission enc-unix", || admission::<Enc<Unix>, UnixListener>(|| (), || ())));
        v.push(Scn::sync("ttl enc-tcp", || {
            ttl::<Enc<Tcp>, bromine::protocol::encrypted::EncryptedListener<TcpListener>>(
                |t| EncryptionOptions { inner_options: TcpOptions { ttl: t }, keys: keys::keys(1, &[2], false) },
                |t| EncryptionOptions { inner_options: TcpOptions { ttl: t }, keys: keys::keys(2, &[1], false) },
            )
        }));
    }
    v
}
