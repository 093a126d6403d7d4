//! C01 reply correlation, C02 reply streams, C06 timeouts.
use crate::common::*;
use crate::ensure;
use crate::ex::*;
use crate::net::*;
use crate::refc::*;
use bromine::error_event::ErrorEventData;
use bromine::event::EventType;
use bromine::prelude::*;
use futures::StreamExt;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy)]
pub struct Tier {
    pub thorough: bool,
}
impl Tier {
    pub fn p<X>(&self, quick: X, thorough: X) -> X {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

/// Handlers every echo-like server of these scenarios has.
pub fn std_handlers<T: Tp>(bld: Builder<T>) -> Builder<T> {
    bld.on("echo", |ctx, ev| {
        Box::pin(async move { ctx.response(b(ev.data_raw())) })
    })
    .on("fail", |_ctx, ev| {
        Box::pin(async move { Err(IPCError::from(format!("failed {:02x?}", ev.data_raw()))) })
    })
    .on("emit", |ctx, ev| {
        Box::pin(async move {
            let mut d = ev.data_raw().to_vec();
            d.push(b'1');
            ctx.emit("part", b(&d)).await?;
            d.push(b'2');
            ctx.response(b(&d))
        })
    })
    .on("slow", |ctx, ev| {
        Box::pin(async move {
            tokio::time::sleep(ms(ev.data_raw()[0] as u64)).await;
            ctx.response(b(ev.data_raw()))
        })
    })
}

/// Expected first reply to a request of these kinds.
pub fn expect(kind: &str, data: &[u8]) -> Got {
    match kind {
        "fail" => Got::Event { code: 500, msg: format!("failed {:02x?}", data) },
        "emit" => Got::Ok([data, b"1"].concat()),
        "none" => Got::Ok(vec![]),
        _ => Got::Ok(data.to_vec()),
    }
}
pub fn same(want: &Got, have: &Got) -> bool {
    match (want, have) {
        (Got::Event { code: a, msg: m }, Got::Event { code: b, msg: n }) => a == b && n.contains(m.as_str()),
        (a, b) => a == b,
    }
}

/// N concurrent requests of the given kinds over one client (or a pool) against a real server.
fn conc<T: Tp>(cfg: NetCfg, kinds: &'static [&'static str], pool: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let cfg = cfg.clone();
        Box::pin(async move {
            let net = Net::new(cfg);
            let _srv = serve::<T>(&net, std_handlers::<T>(T::patient(&net))).await;
            let mut hs = vec![];
            let ctxs: Vec<Box<dyn std::ops::Deref<Target = Context> + Send>> = if pool > 0 {
                let p = lift(T::patient(&net).build_pooled_client(pool).await, "connect", "pool")?;
                kinds.iter().map(|_| Box::new(p.acquire()) as _).collect()
            } else {
                let c = Arc::new(lift(T::patient(&net).build_client().await, "connect", "client")?);
                kinds.iter().map(|_| Box::new(c.clone()) as _).collect()
            };
            for (i, (k, c)) in kinds.iter().zip(ctxs).enumerate() {
                let c: Context = (**c).clone();
                hs.push(tokio::spawn(async move {
                    let data = vec![b'a' + i as u8; 3 + i];
                    let r = got(c.emit(*k, b(&data)).await_reply().await);
                    (i, k, data, r)
                }));
            }
            for h in hs {
                let (i, k, data, r) = lift(within(long(), "request", h).await?, "panic", "request task")?;
                obs(format!("{i}:{k}:{r:?}"));
                let want = expect(k, &data);
                ensure!(same(&want, &r), "wrong-reply", "request {i} ({k}): expected {want:?}, got {r:?}");
            }
            Ok(())
        })
    }
}

/// What a raw peer may send while two requests r1, r2 are waiting.
const ALPHA: usize = 11;
fn alpha(i: usize, r: [u64; 2], id: u64) -> Frame {
    match i {
        0 => Frame::new(id, RESP, Some(r[0]), "x", b"resp1"),
        1 => Frame::new(id, RESP, Some(r[1]), "x", b"resp2"),
        2 => Frame::new(id, END, Some(r[0]), "end", b"end1"),
        3 => Frame::new(id, END, Some(r[1]), "end", b""),
        4 => Frame::new(id, ERR, Some(r[0]), "error", &err_payload(500, "err1")),
        5 => Frame::new(id, ERR, Some(r[1]), "error", &err_payload(7, "err2")),
        6 => Frame::new(r[0], INIT, None, "n", b"own id"),
        7 => Frame::new(r[1], INIT, None, "bad", b"own id"),
        8 => Frame::new(id, RESP, Some(r[0] ^ 1 << 40), "n", b"other"),
        9 => Frame::new(r[0], RESP, Some(r[1]), "x", b"cross"),
        _ => Frame::new(id, INIT, Some(r[0]), "n", b"initref"),
    }
}
fn model(seq: &[usize], which: usize) -> Got {
    for i in seq {
        let f = alpha(*i, [1, 2], 3);
        if f.re == Some(which as u64 + 1) {
            return match f.kind {
                ERR => {
                    let (code, msg) = parse_err(&f.data).unwrap();
                    Got::Event { code, msg }
                }
                _ => Got::Ok(f.data),
            };
        }
    }
    Got::Timeout
}
async fn scripted(seq: Vec<usize>, cfg: NetCfg, as_server: bool) -> Res {
    // the endpoint under test is the client, or a server whose handler makes the requests
    let net = Net::new(cfg);
    let handlers = |bld: Builder<Plain>| {
        bld.on("n", |_c, _e| Box::pin(async move { Ok(Response::empty()) }))
            .on("bad", |_c, _e| Box::pin(async move { Err("bad".into()) }))
    };
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let mut raw;
    let base;
    let hold;
    if as_server {
        let tx = tx.clone();
        let srv = serve::<Plain>(
            &net,
            handlers(Plain::builder(&net)).on("go", move |ctx, _e| {
                let tx = tx.clone();
                Box::pin(async move {
                    for i in 0..2u8 {
                        let (tx, ctx) = (tx.clone(), ctx.clone());
                        tokio::spawn(async move {
                            let r = ctx.emit("q", b(&[i])).await_reply().with_timeout(ms(500)).await;
                            let _ = tx.send((i, got(r)));
                        });
                    }
                    tokio::time::sleep(ms(100_000)).await;
                    Ok(Response::empty())
                })
            }),
        )
        .await;
        raw = SimRaw::connect(&net).unwrap();
        let id = raw.id();
        raw.send(&Frame::new(id, INIT, None, "go", b"")).await.unwrap();
        base = Some(id);
        hold = (Some(srv), None);
    } else {
        let l = net.listen();
        let c = lift(handlers(Plain::builder(&net)).build_client().await, "connect", "client")?;
        raw = SimRaw::accept(&l).await;
        for i in 0..2u8 {
            let (tx, ctx) = (tx.clone(), c.clone());
            tokio::spawn(async move {
                let r = ctx.emit("q", b(&[i])).await_reply().with_timeout(ms(500)).await;
                let _ = tx.send((i, got(r)));
            });
        }
        base = None;
        hold = (None, Some((l, c)));
    }
    let mut r = [0u64; 2];
    for _ in 0..2 {
        let f = lift(raw.recv_some().await, "frame", "raw peer reading the requests")?;
        ensure!(f.name == "q" && f.data.len() == 1, "frame", "unexpected frame {f:?}");
        ensure!(f.re == base, "frame", "request references {:?} instead of {base:?}", f.re);
        r[f.data[0] as usize] = f.id;
    }
    ensure!(r[0] != r[1], "frame", "both requests have id {}", r[0]);
    for i in &seq {
        let id = raw.id();
        lift(raw.send(&alpha(*i, r, id)).await, "io", "raw send")?;
    }
    let rd = tokio::spawn(async move {
        while let Ok(Some(_)) = raw.recv().await {}
        raw
    });
    for _ in 0..2 {
        let (i, g) = within(ms(5000), "awaited replies", rx.recv()).await?.unwrap();
        obs(format!("{i}:{g:?}"));
        let want = model(&seq, i as usize);
        ensure!(want == g, "wrong-reply", "peer sent {seq:?}; request {} expected {want:?}, got {g:?}", i + 1);
    }
    rd.abort();
    drop(hold);
    Ok(())
}

/// Names, namespaces and payloads a reply can have; only its kind says what it means.
fn odd_names() -> Vec<(Option<&'static str>, &'static str)> {
    let mut v = vec![];
    for ns in [None, Some("n"), Some("error")] {
        for n in ["", "x", "error", "end", "response", "q"] {
            v.push((ns, n));
        }
    }
    v
}
fn odd_payloads() -> Vec<Vec<u8>> {
    vec![vec![], b"abc".to_vec(), err_payload(500, "e"), err_payload(404, ""), vec![0; 70], vec![255; 3]]
}
/// Every kind of reply with every name and payload, to a request (of a client or of a server's
/// handler) or to a stream.
async fn odd(kind: u8, as_server: bool, stream: bool) -> Res {
    let net = Net::new(NetCfg::default());
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<Vec<Got>>();
    let (cmd, crx) = tokio::sync::mpsc::unbounded_channel::<()>();
    let crx = Arc::new(tokio::sync::Mutex::new(crx));
    let asking = move |ctx: Context| {
        let (tx, crx) = (tx.clone(), crx.clone());
        async move {
            while crx.lock().await.recv().await.is_some() {
                let mut out = vec![];
                if stream {
                    match ctx.emit("q", b(b"")).stream_replies().with_timeout(ms(500)).await {
                        Ok(mut s) => {
                            while let Some(r) = s.next().await {
                                out.push(match r {
                                    Ok(e) if e.event_type() == EventType::Error => match e.payload::<ErrorEventData>() {
                                        Ok(d) => Got::Event { code: d.code, msg: d.message },
                                        Err(_) => Got::Other("error".into()),
                                    },
                                    r => got(r),
                                });
                            }
                        }
                        Err(e) => out.push(got_err(e)),
                    }
                } else {
                    out.push(got(ctx.emit("q", b(b"")).await_reply().with_timeout(ms(500)).await));
                }
                let _ = tx.send(out);
            }
        }
    };
    let mut raw;
    let _hold: Box<dyn std::any::Any + Send>;
    if as_server {
        let srv = serve::<Plain>(
            &net,
            Plain::builder(&net).on("go", move |ctx, _e| {
                let f = asking(ctx.clone());
                Box::pin(async move {
                    f.await;
                    Ok(Response::empty())
                })
            }),
        )
        .await;
        raw = SimRaw::connect(&net).unwrap();
        let id = raw.id();
        lift(raw.send(&Frame::new(id, INIT, None, "go", b"")).await, "io", "send")?;
        _hold = Box::new(srv);
    } else {
        let l = net.listen();
        let c = lift(Plain::builder(&net).build_client().await, "connect", "client")?;
        raw = SimRaw::accept(&l).await;
        tokio::spawn(asking(c.clone()));
        _hold = Box::new((l, c));
    }
    let mut seen = std::collections::HashSet::new();
    for (ns, name) in odd_names() {
        for d in odd_payloads() {
            eval();
            let _ = cmd.send(());
            // late replies are handled as events, and answered
            let f = loop {
                let f = lift(within(ms(5000), "the request", raw.recv_some()).await?, "frame", "recv")?;
                if f.name == "q" && seen.insert(f.id) {
                    break f;
                }
            };
            let mut want = vec![];
            let one = |k: u8| match k {
                ERR => match parse_err(&d) {
                    Some((code, msg)) => Got::Event { code, msg },
                    None => Got::Other("any error".into()),
                },
                _ => Got::Ok(d.clone()),
            };
            let kinds: Vec<u8> = if !stream || kind == END || kind == ERR { vec![kind] } else { vec![kind, kind, END] };
            for k in &kinds {
                let mut r = Frame::new(raw.id(), *k, Some(f.id), name, &d);
                r.ns = ns.map(|s| s.to_string());
                lift(raw.send(&r).await, "io", "send")?;
                want.push(one(*k));
            }
            let have = within(ms(5000), "the reply", rx.recv()).await?.unwrap_or_default();
            let ok = have.len() == want.len()
                && have.iter().zip(&want).all(|(h, w)| match w {
                    Got::Other(_) => !matches!(h, Got::Ok(_)),
                    w => h == w,
                });
            ensure!(ok, if stream { "stream" } else { "wrong-reply" }, "replies of the kinds {kinds:?} named {ns:?}/{name:?} with payload {d:?} were taken as {have:?} instead of {want:?}");
        }
    }
    Ok(())
}

/// A handler that itself asks the peer (which is not waiting) several questions one after the
/// other, while the peer has requests of its own under way.
fn nested<T: Tp>(cfg: NetCfg, asks: &'static [&'static str], par: usize, own: &'static [&'static str]) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let cfg = cfg.clone();
        Box::pin(async move {
            let net = Net::new(cfg);
            let srv = std_handlers::<T>(T::patient(&net)).on("start", move |ctx, ev| {
                Box::pin(async move {
                    let tag = ev.data_raw()[0];
                    let mut out = vec![tag];
                    for (i, a) in asks.iter().enumerate() {
                        let q = [tag, i as u8];
                        let r = got(ctx.emit(*a, b(&q)).await_reply().await);
                        out.push(same(&expect(a, &q), &r) as u8);
                        if !same(&expect(a, &q), &r) {
                            obs(format!("{tag}/{i}: {a} got {r:?}"));
                        }
                    }
                    ctx.emit("done", b(&out)).await?;
                    Ok(Response::empty())
                })
            });
            let _s = serve::<T>(&net, srv).await;
            let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
            let cl = std_handlers::<T>(T::patient(&net)).on("done", move |_ctx, ev| {
                let _ = tx.send(ev.data_raw().to_vec());
                Box::pin(async move { Ok(Response::empty()) })
            });
            let c = lift(cl.build_client().await, "connect", "client")?;
            let mut hs = vec![];
            for (i, k) in own.iter().enumerate() {
                let c = c.clone();
                hs.push(tokio::spawn(async move {
                    let d = [200, i as u8];
                    (k, d, got(c.emit(*k, b(&d)).await_reply().await))
                }));
            }
            for i in 0..par {
                lift(c.emit("start", b(&[i as u8])).await, "io", "emit")?;
            }
            for _ in 0..par {
                let d = within(long(), "nested conversation", rx.recv()).await?.unwrap();
                obs(format!("{d:?}"));
                ensure!(d.len() == asks.len() + 1 && d[1..].iter().all(|x| *x == 1), "wrong-reply", "questions {asks:?} asked by the handler were answered {d:?}");
            }
            for h in hs {
                let (k, d, g) = lift(within(long(), "request", h).await?, "panic", "task")?;
                ensure!(same(&expect(k, &d), &g), "wrong-reply", "{k} got {g:?}");
            }
            Ok(())
        })
    }
}

/// Replies that reference almost the request's id must not resolve it.
async fn near_miss() -> Res {
    let net = Net::new(NetCfg::default());
    let l = net.listen();
    let c = lift(Plain::builder(&net).build_client().await, "connect", "client")?;
    let mut raw = SimRaw::accept(&l).await;
    let h = {
        let c = c.clone();
        tokio::spawn(async move { got(c.emit("q", b(b"1")).await_reply().with_timeout(ms(500)).await) })
    };
    let f = lift(raw.recv_some().await, "frame", "recv")?;
    let id = f.id;
    let mut cand: Vec<u64> = (0..64).map(|k| id ^ (1u64 << k)).collect();
    cand.extend([id.wrapping_add(1), id.wrapping_sub(1), id.swap_bytes(), !id, id as u32 as u64, id >> 32, id << 32, 0, u64::MAX, id as u16 as u64]);
    for r in cand {
        if r == id {
            continue;
        }
        let n = raw.id();
        lift(raw.send(&Frame::new(n, RESP, Some(r), "x", &r.to_be_bytes())).await, "io", "send")?;
        eval();
        // keep the peer's replies from filling up
    }
    idle().await;
    ensure!(!h.is_finished(), "wrong-reply", "request {id:#x} was resolved by a reply that references another id");
    let n = raw.id();
    lift(raw.send(&Frame::new(n, RESP, Some(id), "x", b"true")).await, "io", "send")?;
    let g = lift(within(ms(5000), "reply", h).await?, "panic", "task")?;
    ensure!(g == Got::Ok(b"true".to_vec()), "wrong-reply", "request got {g:?} instead of its reply");
    Ok(())
}

/// n requests answered by a raw peer in the given order.
async fn permuted(n: usize, order: usize, nested_ids: bool) -> Res {
    let net = Net::new(NetCfg::default());
    let l = net.listen();
    let c = lift(Plain::builder(&net).build_client().await, "connect", "client")?;
    let mut raw = SimRaw::accept(&l).await;
    let mut hs = vec![];
    for i in 0..n {
        let c = c.clone();
        hs.push(tokio::spawn(async move { got(c.emit("q", b(&(i as u32).to_be_bytes())).await_reply().await) }));
    }
    let mut ids = vec![0; n];
    for _ in 0..n {
        let f = lift(raw.recv_some().await, "frame", "recv")?;
        ids[u32::from_be_bytes(f.data[..4].try_into().unwrap()) as usize] = f.id;
    }
    let mut idx: Vec<usize> = (0..n).collect();
    match order {
        0 => {}
        1 => idx.reverse(),
        2 => idx.sort_by_key(|i| mix(*i as u64)),
        _ => {
            // k-th permutation
            let mut k = order - 3;
            let mut rest = idx.clone();
            idx.clear();
            while !rest.is_empty() {
                let m = rest.len();
                idx.push(rest.remove(k % m));
                k /= m;
            }
        }
    }
    for i in idx {
        // a reply may carry the id of another waiting request as its own id
        let id = if nested_ids { ids[(i + 1) % n] } else { raw.id() };
        lift(raw.send(&Frame::new(id, RESP, Some(ids[i]), "r", &[i as u8, 9])).await, "io", "send")?;
    }
    for (i, h) in hs.into_iter().enumerate() {
        let g = lift(within(long(), "reply", h).await?, "panic", "task")?;
        ensure!(g == Got::Ok(vec![i as u8, 9]), "wrong-reply", "request {i} of {n} got {g:?}");
    }
    Ok(())
}

pub fn c01(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let cap = t.p(20_000, 1_500_000);
    v.push(Scn::new("conc/plain/2", K_ALL, t.p(2, 3), cap, conc::<Plain>(NetCfg::default(), &["echo", "fail"], 0)));
    v.push(Scn::new("conc/plain/emit", K_SCHED, t.p(2, 3), cap, conc::<Plain>(NetCfg::default(), &["emit", "echo"], 0)));
    v.push(Scn::new("conc/plain/none", K_SCHED, t.p(2, 3), cap, conc::<Plain>(NetCfg::default(), &["none", "fail"], 0)));
    v.push(Scn::new("conc/plain/buffered", K_ALL, 2, cap, conc::<Plain>(NetCfg::buffered(), &["echo", "emit", "fail"], 0)));
    v.push(Scn::new("conc/plain/cap20", K_ALL, t.p(1, 2), cap, conc::<Plain>(NetCfg::cap(20), &["echo", "emit", "fail"], 0)));
    v.push(Scn::new("conc/plain/pool2", K_SCHED, 2, cap, conc::<Plain>(NetCfg::default(), &["echo", "fail", "emit"], 2)));
    v.push(Scn::new("conc/plain/8", K_SCHED, 1, cap, conc::<Plain>(NetCfg::default(), &["echo", "fail", "emit", "none", "echo", "echo", "fail", "emit"], 0)));
    // operations of the transport may take arbitrarily long
    for (m, cfg) in [("", NetCfg::default()), ("-buffered", NetCfg::buffered()), ("-cap20", NetCfg::cap(20))] {
        let cfg = cfg.stall();
        v.push(Scn::new(format!("conc/stall{m}"), K_IO, t.p(2, 3), cap, conc::<Plain>(cfg.clone(), &["echo", "emit", "fail", "none"], 0)));
        v.push(Scn::new(format!("conc/stall{m}/pool"), K_ALL, 1, cap, conc::<Plain>(cfg.clone(), &["echo", "emit", "fail"], 2)));
        v.push(Scn::new(format!("nested/stall{m}"), K_IO, t.p(1, 2), cap, nested::<Plain>(cfg.clone(), &["echo", "fail", "emit"], 2, &["echo", "none"])));
        #[cfg(feature = "full")]
        {
            v.push(Scn::new(format!("conc/stall{m}/enc"), K_IO, t.p(1, 2), t.p(3000, 300_000), conc::<Enc>(cfg.clone(), &["echo", "fail"], 0)));
            v.push(Scn::new(format!("nested/stall{m}/enc"), K_IO, 1, t.p(3000, 300_000), nested::<Enc>(cfg, &["echo", "fail"], 1, &["echo"])));
        }
    }
    v.push(Scn::new("nested/plain/1", K_ALL, 2, cap, nested::<Plain>(NetCfg::default(), &["echo"], 1, &[])));
    v.push(Scn::new("nested/plain/3", K_SCHED, t.p(2, 3), cap, nested::<Plain>(NetCfg::default(), &["echo", "fail", "emit"], 1, &["echo"])));
    v.push(Scn::new("nested/plain/2x2", K_SCHED, 2, cap, nested::<Plain>(NetCfg::default(), &["emit", "none"], 2, &[])));
    v.push(Scn::new("nested/plain/buffered", K_ALL, t.p(1, 2), cap, nested::<Plain>(NetCfg::buffered(), &["echo", "echo"], 2, &["fail", "echo"])));
    #[cfg(feature = "full")]
    {
        v.push(Scn::new("conc/enc/2", K_ALL, t.p(1, 2), t.p(6000, 300_000), conc::<Enc>(NetCfg::default(), &["echo", "fail"], 0)));
        v.push(Scn::new("conc/enc/pool2", K_SCHED, 1, t.p(6000, 100_000), conc::<Enc>(NetCfg::buffered(), &["echo", "fail", "emit"], 2)));
        v.push(Scn::new("nested/enc/2", K_SCHED, 1, t.p(6000, 100_000), nested::<Enc>(NetCfg::default(), &["echo", "fail"], 2, &["echo"])));
    }
    for srv in [false, true] {
        let w = if srv { "server" } else { "client" };
        let max = t.p(3usize, 4);
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut last = seqs.clone();
        for _ in 0..max {
            let mut nx = vec![];
            for s in &last {
                for a in 0..ALPHA {
                    let mut z = s.clone();
                    z.push(a);
                    nx.push(z);
                }
            }
            seqs.extend(nx.iter().cloned());
            last = nx;
        }
        for s in seqs {
            let d = if s.len() <= t.p(1, 2) { 1 } else { 0 };
            let id = format!("script/{w}/{}", s.iter().map(|x| format!("{x:x}")).collect::<String>());
            v.push(Scn::new(id, K_SCHED, d, 2000, move || scripted(s.clone(), NetCfg::default(), srv)));
        }
    }
    v.push(Scn::new("near-miss", 0, 0, 1, near_miss));
    for kind in [INIT, RESP, END, ERR] {
        for srv in [false, true] {
            v.push(Scn::new(format!("odd/{kind}/{srv}"), 0, 0, 1, move || odd(kind, srv, false)));
        }
    }
    for n in [2usize, 3, 4, 5] {
        let f: usize = (1..=n).product();
        if n == 5 && !t.thorough {
            continue;
        }
        for k in 0..f {
            v.push(Scn::new(format!("perm/{n}/{k}"), 0, 0, 1, move || permuted(n, k + 3, k % 2 == 1)));
        }
    }
    for o in 0..3 {
        v.push(Scn::new(format!("perm/200/{o}"), 0, 0, 1, move || permuted(200, o, o == 2)));
    }
    v
}

// ---------------------------------------------------------------------------------------- C02

/// A raw peer answers streams in an interleaving; each stream must yield its own replies.
#[derive(Clone, Debug)]
pub struct StreamPlan {
    /// per stream: number of responses, and how it is concluded (0 end+payload, 1 end empty, 2 error)
    pub streams: Vec<(usize, u8)>,
    /// order in which the frames of the streams are sent
    pub order: Vec<usize>,
}
fn stream_frames(i: usize, n: usize, concl: u8) -> Vec<(u8, &'static str, Vec<u8>)> {
    let mut v: Vec<(u8, &'static str, Vec<u8>)> = (0..n).map(|k| (RESP, "part", vec![i as u8, k as u8, (k >> 8) as u8])).collect();
    v.push(match concl {
        0 => (END, "end", vec![i as u8, 255]),
        1 => (END, "end", vec![]),
        _ => (ERR, "error", err_payload(500, &format!("e{i}"))),
    });
    v
}
async fn read_all(s: &mut ResponseStream, polls_after: usize) -> Result<Vec<(u8, Vec<u8>)>, Bad> {
    let mut out = vec![];
    loop {
        match s.next().await {
            Some(Ok(e)) => out.push((u8::from(e.event_type()), e.data_raw().to_vec())),
            Some(Err(IPCError::ErrorEvent(d))) => out.push((ERR, err_payload(d.code, &d.message))),
            Some(Err(e)) => return bad("stream", format!("stream yielded {e:?} after {out:?}")),
            None => break,
        }
        if out.len() > 100_000 {
            return bad("stream", "stream does not end".to_string());
        }
    }
    for _ in 0..polls_after {
        let n = within(ms(1), "polling an ended stream", s.next()).await?;
        if n.is_some() {
            return bad("stream", "a stream yielded something after its end".to_string());
        }
    }
    Ok(out)
}
async fn streams_raw(plan: StreamPlan, cfg: NetCfg) -> Res {
    let net = Net::new(cfg);
    let l = net.listen();
    let c = lift(Plain::patient(&net).build_client().await, "connect", "client")?;
    let mut raw = SimRaw::accept(&l).await;
    let n = plan.streams.len();
    let mut hs = vec![];
    for i in 0..n {
        let c = c.clone();
        hs.push(tokio::spawn(async move {
            let mut s = match c.emit("q", b(&[i as u8])).stream_replies().await {
                Ok(s) => s,
                Err(e) => return bad("stream", format!("open: {e:?}")),
            };
            read_all(&mut s, 2).await
        }));
    }
    let mut ids = vec![0u64; n];
    for _ in 0..n {
        let f = lift(raw.recv_some().await, "frame", "recv")?;
        ids[f.data[0] as usize] = f.id;
    }
    let frames: Vec<_> = plan.streams.iter().enumerate().map(|(i, (k, c))| stream_frames(i, *k, *c)).collect();
    let mut pos = vec![0; n];
    let order = if plan.order.is_empty() {
        (0..n).flat_map(|i| std::iter::repeat(i).take(frames[i].len())).collect()
    } else {
        plan.order.clone()
    };
    for i in order {
        let (k, name, d) = &frames[i][pos[i]];
        pos[i] += 1;
        let id = raw.id();
        lift(raw.send(&Frame::new(id, *k, Some(ids[i]), name, d)).await, "io", "send")?;
    }
    for (i, h) in hs.into_iter().enumerate() {
        let out = lift(within(long(), "stream", h).await?, "panic", "stream task")??;
        let want: Vec<_> = frames[i].iter().map(|(k, _, d)| (*k, d.clone())).collect();
        obs(format!("{i}:{}", out.len()));
        ensure!(out == want, "stream", "stream {i} of plan {plan:?} yielded {out:?}, expected {want:?}");
    }
    Ok(())
}

/// Streams against a real server whose handler emits `n` replies.
fn streams_real<T: Tp>(cfg: NetCfg, sizes: &'static [(usize, u8)], late: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let cfg = cfg.clone();
        Box::pin(async move {
            let net = Net::new(cfg);
            let _s = serve::<T>(
                &net,
                T::patient(&net).on("s", |ctx, ev| {
                    Box::pin(async move {
                        let d = ev.data_raw().to_vec();
                        let n = d[1] as usize | (d[2] as usize) << 8 | (d.get(4).copied().unwrap_or(0) as usize) << 16;
                        for k in 0..n {
                            ctx.emit("part", b(&[d[0], k as u8, (k >> 8) as u8])).await?;
                        }
                        match d[3] {
                            0 => ctx.response(b(&[d[0], 255])),
                            1 => Ok(Response::empty()),
                            _ => Err(IPCError::from(format!("e{}", d[0]))),
                        }
                    })
                }),
            )
            .await;
            let c = lift(T::patient(&net).build_client().await, "connect", "client")?;
            let mut hs = vec![];
            for (i, (n, k)) in sizes.iter().enumerate() {
                let c = c.clone();
                hs.push(tokio::spawn(async move {
                    let mut s = match c.emit("s", b(&[i as u8, *n as u8, (n >> 8) as u8, *k, (n >> 16) as u8])).stream_replies().await {
                        Ok(s) => s,
                        Err(e) => return bad("stream", format!("open: {e:?}")),
                    };
                    if late {
                        tokio::time::sleep(ms(100 * (i as u64 + 1))).await;
                    }
                    read_all(&mut s, 1).await
                }));
            }
            for (i, h) in hs.into_iter().enumerate() {
                let out = lift(within(long(), "stream", h).await?, "panic", "stream task")??;
                let (n, k) = sizes[i];
                let want: Vec<_> = stream_frames(i, n, k).iter().map(|(k, _, d)| (*k, d.clone())).collect();
                obs(format!("{i}:{}", out.len()));
                let ok = if k == 2 {
                    out.len() == want.len()
                        && out[..n] == want[..n]
                        && out[n].0 == ERR
                        && parse_err(&out[n].1).map(|(c, m)| c == 500 && m.contains(&format!("e{i}"))).unwrap_or(false)
                } else {
                    out == want
                };
                ensure!(ok, "stream", "stream {i}: got {} items {:?}, expected {} items", out.len(), out.iter().take(12).collect::<Vec<_>>(), want.len());
            }
            // the connection still works
            let g = got(c.emit("s", b(&[9, 0, 0, 0])).await_reply().await);
            ensure!(g == Got::Ok(vec![9, 255]), "stream", "request after the streams got {g:?}");
            Ok(())
        })
    }
}

/// A stream's waits time out between replies; afterwards it ends (None) and never panics.
async fn stream_timeout(replies: usize, gap: u64, polls: usize) -> Res {
    let net = Net::new(NetCfg::default());
    let l = net.listen();
    let c = lift(Plain::builder(&net).timeout(ms(100)).build_client().await, "connect", "client")?;
    let mut raw = SimRaw::accept(&l).await;
    let h = tokio::spawn(async move {
        let mut s = c.emit("q", b(b"")).stream_replies().await.map_err(|e| Bad { key: "stream".into(), msg: format!("{e:?}") })?;
        let mut seen = vec![];
        for _ in 0..replies + polls + 1 {
            let r = within(ms(10_000), "polling a stream", s.next()).await?;
            seen.push(match r {
                Some(r) => format!("{:?}", got(r)),
                None => "None".into(),
            });
        }
        drop(c);
        Ok::<_, Bad>(seen)
    });
    let f = lift(raw.recv_some().await, "frame", "recv")?;
    for k in 0..replies {
        let id = raw.id();
        lift(raw.send(&Frame::new(id, RESP, Some(f.id), "x", &[k as u8])).await, "io", "send")?;
        tokio::time::sleep(ms(gap)).await;
    }
    let seen = lift(within(long(), "stream", h).await?, "panic", "polling a stream again after a timeout")??;
    for s in &seen {
        obs(s.clone());
    }
    if gap < 100 {
        for k in 0..replies {
            ensure!(seen[k] == format!("{:?}", Got::Ok(vec![k as u8])), "stream", "reply {k}: {seen:?}");
        }
        ensure!(seen[replies] == "Timeout", "stream", "no timeout after the last reply: {seen:?}");
        ensure!(seen[replies + 1..].iter().all(|s| s == "None"), "stream", "after the timeout the stream yielded {seen:?}");
    } else {
        ensure!(seen[0] == format!("{:?}", Got::Ok(vec![0u8])) || replies == 0, "stream", "{seen:?}");
        let at = if replies == 0 { 0 } else { 1 };
        ensure!(seen[at] == "Timeout", "stream", "expected a timeout: {seen:?}");
        ensure!(seen[at + 1..].iter().all(|s| s == "None"), "stream", "after the timeout the stream yielded {seen:?}");
    }
    Ok(())
}

/// Two streams and a request; one stream is dropped unconsumed (possibly with its channel full).
fn stream_dropped<T: Tp>(n: usize, take: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg::default());
            let _s = serve::<T>(
                &net,
                T::builder(&net).on("s", move |ctx, _ev| {
                    Box::pin(async move {
                        for k in 0..n {
                            ctx.emit("part", b(&[k as u8])).await?;
                        }
                        ctx.response(b(b"end"))
                    })
                }),
            )
            .await;
            let c = lift(T::builder(&net).build_client().await, "connect", "client")?;
            let mut a = lift(c.emit("s", b(b"a")).stream_replies().await, "stream", "open")?;
            let h = {
                let c = c.clone();
                tokio::spawn(async move {
                    let mut s = c.emit("s", b(b"b")).stream_replies().await.map_err(|e| Bad { key: "stream".into(), msg: format!("{e:?}") })?;
                    read_all(&mut s, 1).await
                })
            };
            for k in 0..take.min(n) {
                let e = within(long(), "stream item", a.next()).await?;
                let e = e.map(got);
                ensure!(e == Some(Got::Ok(vec![k as u8])), "stream", "item {k}: {e:?}");
            }
            drop(a);
            let out = lift(within(long(), "other stream", h).await?, "panic", "task")??;
            let mut want: Vec<(u8, Vec<u8>)> = (0..n).map(|k| (RESP, vec![k as u8])).collect();
            want.push((END, b"end".to_vec()));
            ensure!(out == want, "stream", "other stream yielded {out:?}");
            Ok(())
        })
    }
}

pub fn interleavings(counts: &[usize]) -> Vec<Vec<usize>> {
    fn go(c: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        let mut any = false;
        for i in 0..c.len() {
            if c[i] > 0 {
                any = true;
                c[i] -= 1;
                cur.push(i);
                go(c, cur, out);
                cur.pop();
                c[i] += 1;
            }
        }
        if !any {
            out.push(cur.clone());
        }
    }
    let mut out = vec![];
    go(&mut counts.to_vec(), &mut vec![], &mut out);
    out
}

pub fn c02(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for ka in 0..3u8 {
        for kb in 0..3u8 {
            for (na, nb) in [(0usize, 0usize), (1, 0), (1, 1), (2, 1), (2, 2)] {
                if t.thorough || na + nb <= 3 {
                    for (j, order) in interleavings(&[na + 1, nb + 1]).into_iter().enumerate() {
                        let plan = StreamPlan { streams: vec![(na, ka), (nb, kb)], order };
                        v.push(Scn::new(format!("raw/{na}{ka}-{nb}{kb}/{j}"), K_SCHED, t.p(if na + nb <= 1 { 1 } else { 0 }, 1), 2000, move || {
                            streams_raw(plan.clone(), NetCfg::default())
                        }));
                    }
                }
            }
        }
    }
    for n in [0usize, 1, 6, 7, 8, 9, 10, 16, 17, 31, 33, 64, 65, 255, 300] {
        for k in 0..3u8 {
            let plan = StreamPlan { streams: vec![(n, k)], order: vec![] };
            v.push(Scn::new(format!("one/{n}/{k}"), K_SCHED, if n <= t.p(9, 17) { 1 } else { 0 }, 3000, move || streams_raw(plan.clone(), NetCfg::default())));
        }
    }
    let cap = t.p(12_000, 600_000);
    v.push(Scn::new("real/plain/2", K_ALL, 2, cap, streams_real::<Plain>(NetCfg::default(), &[(2, 0), (1, 2)], false)));
    v.push(Scn::new("real/plain/12", K_SCHED, t.p(1, 2), cap, streams_real::<Plain>(NetCfg::default(), &[(12, 0), (9, 1)], false)));
    v.push(Scn::new("real/plain/late", K_SCHED, t.p(1, 2), cap, streams_real::<Plain>(NetCfg::cap(64), &[(12, 0), (10, 2), (3, 1)], true)));
    v.push(Scn::new("real/plain/300", K_SCHED, 1, cap, streams_real::<Plain>(NetCfg::cap(200), &[(300, 0), (270, 2)], false)));
    // replies that nobody reads for a long time
    const LATE: [&[(usize, u8)]; 5] = [&[(1100, 0), (3, 0)], &[(5000, 2), (1, 1)], &[(0, 0), (17_000, 1)], &[(66_000, 0)], &[(40_000, 0), (40_000, 2)]];
    for (i, sizes) in LATE.into_iter().enumerate() {
        v.push(Scn::new(format!("real/plain/unread/{i}"), 0, 0, 1, streams_real::<Plain>(NetCfg::default(), sizes, true)).vast());
        #[cfg(feature = "full")]
        if i < 2 {
            v.push(Scn::new(format!("real/enc/unread/{i}"), 0, 0, 1, streams_real::<Enc>(NetCfg::default(), sizes, true)));
        }
    }
    for (m, cfg) in [("", NetCfg::default()), ("-buffered", NetCfg::buffered()), ("-cap20", NetCfg::cap(20))] {
        let cfg = cfg.stall();
        v.push(Scn::new(format!("real/stall{m}"), K_IO, t.p(1, 2), cap, streams_real::<Plain>(cfg.clone(), &[(2, 0), (1, 2), (0, 1)], false)));
        v.push(Scn::new(format!("real/stall{m}/late"), K_IO, 1, cap, streams_real::<Plain>(cfg.clone(), &[(2, 0), (3, 2)], true)));
        let plan = StreamPlan { streams: vec![(1, 0), (1, 2)], order: vec![0, 1, 1, 0] };
        let c2 = cfg.clone();
        v.push(Scn::new(format!("raw/stall{m}"), K_IO, 2, cap, move || streams_raw(plan.clone(), c2.clone())));
        #[cfg(feature = "full")]
        v.push(Scn::new(format!("real/stall{m}/enc"), K_IO, 1, t.p(2000, 100_000), streams_real::<Enc>(cfg, &[(2, 0), (1, 2)], false)));
    }
    for (n, k) in [(1usize, 0usize), (3, 1), (8, 0), (9, 0), (10, 1), (20, 3)] {
        v.push(Scn::new(format!("dropped/plain/{n}-{k}"), K_SCHED, 1, cap, stream_dropped::<Plain>(n, k)));
    }
    #[cfg(feature = "full")]
    {
        v.push(Scn::new("real/enc/12", K_SCHED, 1, t.p(1500, 100_000), streams_real::<Enc>(NetCfg::default(), &[(12, 0), (9, 2)], false)));
        v.push(Scn::new("dropped/enc/10", K_SCHED, 1, t.p(1500, 100_000), stream_dropped::<Enc>(10, 1)));
    }
    for kind in [INIT, RESP, END, ERR] {
        for srv in [false, true] {
            v.push(Scn::new(format!("odd/{kind}/{srv}"), 0, 0, 1, move || odd(kind, srv, true)));
        }
    }
    for r in 0..=3 {
        for gap in [0u64, 40, 99, 150] {
            v.push(Scn::new(format!("timeout/{r}/{gap}"), K_SCHED, 1, 2000, move || stream_timeout(r, gap, 3)));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------- C06

#[derive(Clone, Copy, Debug)]
pub enum Who {
    Client,
    Pool,
    /// the kth connection of a pool of n
    PoolOf(usize, usize),
    ServerHandler,
    ClientHandler,
}
/// One request whose reply arrives after `delay` (None: never), with effective timeout `eff`.
/// The emission takes `flush` ms; the peer sees the event at its beginning (or, if `hidden`, at
/// its end).
async fn timed(who: Who, builder_t: Option<Duration>, req_t: Option<Duration>, delay: Option<Duration>, stream: bool, flush: u64, hidden: bool) -> Res {
    let eff = req_t.or(builder_t).unwrap_or(Duration::from_secs(60));
    let slow = NetCfg { flush_ms: flush, late: hidden, buffered: true, ..Default::default() };
    let net = match who {
        Who::ServerHandler => Net::with(NetCfg::default(), slow, 0),
        _ => Net::with(slow, NetCfg::default(), 0),
    };
    let late = Arc::new(AtomicUsize::new(0));
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<(Got, Duration)>();
    let ask = move |ctx: Context, tx: tokio::sync::mpsc::UnboundedSender<(Got, Duration)>| async move {
        let t0;
        let g = if stream {
            let mut e = ctx.emit("q", b(b"")).stream_replies();
            if let Some(t) = req_t {
                e = e.with_timeout(t);
            }
            let mut s = match e.await {
                Ok(s) => s,
                Err(e) => {
                    let _ = tx.send((got_err(e), ms(0)));
                    return;
                }
            };
            t0 = tokio::time::Instant::now();
            match s.next().await {
                Some(r) => got(r),
                None => Got::Other("None".into()),
            }
        } else {
            let mut e = ctx.emit("q", b(b"")).await_reply();
            if let Some(t) = req_t {
                e = e.with_timeout(t);
            }
            t0 = tokio::time::Instant::now();
            got(e.await)
        };
        let _ = tx.send((g, t0.elapsed()));
    };
    let l1 = late.clone();
    let with = |bld: Builder<Plain>| {
        let l1 = l1.clone();
        let bld = bld
            .on("late", move |_c, _e| {
                l1.fetch_add(1, SeqCst);
                Box::pin(async move { Ok(Response::empty()) })
            })
            .on("ping", |c, e| Box::pin(async move { c.response(b(e.data_raw())) }));
        match builder_t {
            Some(t) => bld.timeout(t),
            None => bld,
        }
    };
    let tx2 = tx.clone();
    let with_go = |bld: Builder<Plain>| {
        with(bld).on("go", move |c, _e| {
            let (c, tx) = (c.clone(), tx2.clone());
            Box::pin(async move {
                ask(c, tx).await;
                Ok(Response::empty())
            })
        })
    };
    let mut raw;
    let _hold: Box<dyn std::any::Any + Send>;
    match who {
        Who::ServerHandler => {
            let s = serve::<Plain>(&net, with_go(Plain::builder(&net))).await;
            raw = SimRaw::connect(&net).unwrap();
            let id = raw.id();
            raw.send(&Frame::new(id, INIT, None, "go", b"")).await.unwrap();
            _hold = Box::new(s);
        }
        Who::ClientHandler => {
            let l = net.listen();
            let c = lift(with_go(Plain::builder(&net)).build_client().await, "connect", "client")?;
            raw = SimRaw::accept(&l).await;
            let id = raw.id();
            raw.send(&Frame::new(id, INIT, None, "go", b"")).await.unwrap();
            _hold = Box::new((l, c));
        }
        Who::Client => {
            let l = net.listen();
            let c = lift(with(Plain::builder(&net)).build_client().await, "connect", "client")?;
            raw = SimRaw::accept(&l).await;
            tokio::spawn(ask(c.clone(), tx));
            _hold = Box::new((l, c));
        }
        Who::Pool => {
            let l = net.listen();
            let p = lift(with(Plain::builder(&net)).build_pooled_client(2).await, "connect", "client")?;
            raw = SimRaw::accept(&l).await;
            let other = SimRaw::accept(&l).await;
            let g = p.acquire();
            tokio::spawn(ask((*g).clone(), tx));
            _hold = Box::new((l, p, other));
        }
        Who::PoolOf(n, k) => {
            let l = net.listen();
            let p = lift(with(Plain::builder(&net)).build_pooled_client(n).await, "connect", "client")?;
            let mut raws = vec![];
            for _ in 0..n {
                raws.push(SimRaw::accept(&l).await);
            }
            let gs: Vec<_> = (0..=k).map(|_| p.acquire()).collect();
            tokio::spawn(ask((*gs[k]).clone(), tx));
            tokio::time::sleep(ms(0)).await;
            tokio::task::yield_now().await;
            let i = (0..n).find(|i| net.wire(*i).c2s.lock().unwrap().accepted > 0);
            ensure!(i.is_some(), "pool", "a request of a pool was sent over no connection");
            raw = raws.swap_remove(i.unwrap());
            _hold = Box::new((l, p, gs, raws));
        }
    }
    let f = lift(raw.recv_some().await, "frame", "recv")?;
    ensure!(f.name == "q", "frame", "unexpected {f:?}");
    if let Some(d) = delay {
        tokio::time::sleep(d).await;
        let id = raw.id();
        lift(raw.send(&Frame::new(id, RESP, Some(f.id), "late", b"r")).await, "io", "send")?;
    }
    let (g, el) = within(eff.saturating_add(ms(flush) + Duration::from_secs(5000)), "waiting for the reply", rx.recv()).await?.unwrap();
    obs(format!("{g:?}@{}", el.as_millis()));
    let what = format!("{who:?} builder={builder_t:?} request={req_t:?} reply after {delay:?} stream={stream} flush={flush} hidden={hidden}");
    // since the request was made: when it has been sent, its reply arrives, its time is over
    let sent = ms(flush);
    let arrival = delay.map(|d| if hidden { sent + d } else { d });
    let from = if stream { sent } else { ms(0) };
    let over = eff.saturating_add(sent);
    let won = matches!(arrival, Some(a) if a < over);
    match arrival {
        Some(a) if a < over => {
            ensure!(g == Got::Ok(b"r".to_vec()), "timeout", "{what}: got {g:?} after {el:?}");
            ensure!(el <= a.max(sent) - from + ms(1), "timeout", "{what}: reply delivered only after {el:?}");
        }
        Some(a) if a == over => {} // tie
        _ => {
            ensure!(g == Got::Timeout, "timeout", "{what}: got {g:?} after {el:?} instead of a timeout");
            ensure!(el >= over - from && el <= over - from + ms(1), "timeout", "{what}: timed out after {el:?} instead of {:?}", over - from);
        }
    }
    // afterwards the connection is usable and a late reply is a regular event
    idle().await;
    let before = late.load(SeqCst);
    if !won && arrival != Some(over) {
        let id = raw.id();
        lift(raw.send(&Frame::new(id, RESP, Some(f.id), "late", b"late")).await, "io", "send")?;
        idle().await;
        let n = late.load(SeqCst) - before;
        ensure!(n == 1, "late", "{what}: a late reply ran its regular handler {n} times");
    }
    let id = raw.id();
    lift(raw.send(&Frame::new(id, INIT, None, "ping", b"pong")).await, "io", "send")?;
    let ok = within(ms(1000 + 5 * flush), "ping after the timeout", async {
        loop {
            let f = raw.recv_some().await?;
            if f.re == Some(id) && f.kind == END {
                return Ok::<_, String>(f.data);
            }
        }
    })
    .await?;
    ensure!(ok == Ok(b"pong".to_vec()), "timeout", "{what}: connection unusable afterwards: {ok:?}");
    Ok(())
}

/// Several overlapping requests with different timeouts; late replies are not given to others.
async fn overlapping(ts: Vec<u64>, reply_at: Vec<Option<u64>>) -> Res {
    let net = Net::new(NetCfg::default());
    let l = net.listen();
    let c = lift(Plain::builder(&net).timeout(ms(70)).build_client().await, "connect", "client")?;
    let mut raw = SimRaw::accept(&l).await;
    let mut hs = vec![];
    for (i, t) in ts.iter().enumerate() {
        let c = c.clone();
        let t = *t;
        hs.push(tokio::spawn(async move {
            let mut e = c.emit("q", b(&[i as u8])).await_reply();
            if t > 0 {
                e = e.with_timeout(ms(t));
            }
            let t0 = tokio::time::Instant::now();
            let g = got(e.await);
            (g, t0.elapsed().as_millis() as u64)
        }));
    }
    let mut ids = vec![0; ts.len()];
    for _ in 0..ts.len() {
        let f = lift(raw.recv_some().await, "frame", "recv")?;
        ids[f.data[0] as usize] = f.id;
    }
    let mut ev: Vec<(u64, usize)> = reply_at.iter().enumerate().filter_map(|(i, t)| t.map(|t| (t, i))).collect();
    ev.sort();
    let t0 = tokio::time::Instant::now();
    for (t, i) in ev {
        tokio::time::sleep_until(t0 + ms(t)).await;
        let id = raw.id();
        lift(raw.send(&Frame::new(id, RESP, Some(ids[i]), "x", &[i as u8])).await, "io", "send")?;
    }
    for (i, h) in hs.into_iter().enumerate() {
        let (g, el) = lift(within(long(), "request", h).await?, "panic", "task")?;
        let eff = if ts[i] > 0 { ts[i] } else { 70 };
        obs(format!("{i}:{g:?}@{el}"));
        match reply_at[i] {
            Some(t) if t < eff => ensure!(g == Got::Ok(vec![i as u8]) && el <= t + 1, "timeout", "request {i} {ts:?} {reply_at:?}: {g:?} after {el} ms"),
            Some(t) if t == eff => ensure!(g == Got::Timeout || g == Got::Ok(vec![i as u8]), "timeout", "request {i}: {g:?}"),
            _ => ensure!(g == Got::Timeout && el >= eff && el <= eff + 1, "timeout", "request {i} {ts:?} {reply_at:?}: {g:?} after {el} ms"),
        }
    }
    Ok(())
}

/// Each item of a stream gets the full timeout, counted from when the wait for it begins.
async fn stream_gaps(t: u64, gaps: Vec<u64>, think: u64) -> Res {
    let net = Net::new(NetCfg::default());
    let l = net.listen();
    let c = lift(Plain::builder(&net).build_client().await, "connect", "client")?;
    let mut raw = SimRaw::accept(&l).await;
    let n = gaps.len();
    let h = tokio::spawn(async move {
        let mut s = match c.emit("q", b(b"")).stream_replies().with_timeout(ms(t)).await {
            Ok(s) => s,
            Err(e) => return bad("timeout", format!("{e:?}")),
        };
        let mut out = vec![];
        for _ in 0..=n {
            let t0 = tokio::time::Instant::now();
            let r = s.next().await;
            let stop = !matches!(&r, Some(Ok(_)));
            out.push((r.map(got), t0.elapsed().as_millis() as u64));
            if stop {
                break;
            }
            tokio::time::sleep(ms(think)).await;
        }
        Ok(out)
    });
    let f = lift(raw.recv_some().await, "frame", "recv")?;
    let t0 = tokio::time::Instant::now();
    let mut arr = vec![];
    for (k, g) in gaps.iter().enumerate() {
        tokio::time::sleep(ms(*g)).await;
        arr.push(t0.elapsed().as_millis() as u64);
        let id = raw.id();
        lift(raw.send(&Frame::new(id, RESP, Some(f.id), "x", &[k as u8])).await, "io", "send")?;
    }
    let out = lift(within(long(), "stream", h).await?, "panic", "task")??;
    // reference: wait k begins at w; item arrives at arr[k]
    let mut w = 0u64;
    for (k, (r, el)) in out.iter().enumerate() {
        obs(format!("{r:?}@{el}"));
        let a = arr.get(k).copied();
        match a {
            Some(a) if a < w + t => {
                let at = a.max(w);
                ensure!(*r == Some(Got::Ok(vec![k as u8])), "timeout", "t={t} gaps={gaps:?} think={think}: item {k} is {r:?} after {el}");
                ensure!(*el <= at - w + 1, "timeout", "item {k} late: {el}");
                w = at + think;
            }
            Some(a) if a == w + t => return Ok(()), // tie
            _ => {
                ensure!(*r == Some(Got::Timeout), "timeout", "t={t} gaps={gaps:?} think={think}: item {k} is {r:?} after {el}");
                ensure!(*el >= t && *el <= t + 1, "timeout", "t={t} gaps={gaps:?}: timeout after {el} ms");
            }
        }
    }
    Ok(())
}

/// A reply arrives in time, but the program is busy until after the timeout before the task that
/// waits gets to run again.
async fn busy(stream: bool, replies: usize, by_handler: bool) -> Res {
    let net = Net::new(NetCfg::default());
    let l = net.listen();
    let cb = Plain::builder(&net).timeout(ms(50)).on("tick", |_c, _e| {
        Box::pin(async move {
            tokio::time::advance(ms(200)).await;
            Ok(Response::empty())
        })
    });
    let c = lift(cb.build_client().await, "connect", "client")?;
    let mut raw = SimRaw::accept(&l).await;
    let h = tokio::spawn(async move {
        let mut out = vec![];
        if stream {
            let mut s = match c.emit("q", b(b"")).stream_replies().await {
                Ok(s) => s,
                Err(e) => return bad("timeout", format!("{e:?}")),
            };
            for _ in 0..replies {
                out.push(s.next().await.map(got));
            }
        } else {
            out.push(Some(got(c.emit("q", b(b"")).await_reply().await)));
        }
        drop(c);
        Ok(out)
    });
    let f = lift(raw.recv_some().await, "frame", "recv")?;
    tokio::time::sleep(ms(10)).await;
    for k in 0..replies {
        let id = raw.id();
        lift(raw.send(&Frame::new(id, RESP, Some(f.id), "x", &[k as u8])).await, "io", "send")?;
    }
    if by_handler {
        let id = raw.id();
        lift(raw.send(&Frame::new(id, INIT, None, "tick", b"")).await, "io", "send")?;
    } else {
        tokio::task::yield_now().await;
        tokio::task::yield_now().await;
        tokio::time::advance(ms(200)).await;
    }
    let out = lift(within(long(), "request", h).await?, "panic", "task")??;
    for (k, r) in out.iter().enumerate() {
        obs(format!("{r:?}"));
        // the handler runs after the replies have been passed on
        ensure!(!by_handler || *r == Some(Got::Ok(vec![k as u8])), "timeout", "reply {k} arrived 40 ms before the timeout, but the request yielded {r:?}");
    }
    Ok(())
}

pub fn c06(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for stream in [false, true] {
        for replies in 1..=if stream { 3 } else { 1 } {
            for by_handler in [false, true] {
                v.push(Scn::new(format!("busy/{stream}/{replies}/{by_handler}"), K_SCHED, t.p(3, 4), 100_000, move || busy(stream, replies, by_handler)).eager());
            }
        }
    }
    let s = Duration::from_secs;
    let sets: Vec<(Option<Duration>, Option<Duration>)> = vec![
        (None, None),
        (Some(ms(50)), None),
        (Some(ms(1)), None),
        (Some(ms(1500)), None),
        (Some(s(90)), None),
        (Some(s(7200)), None),
        (None, Some(ms(20))),
        (None, Some(ms(999))),
        (None, Some(s(61))),
        (None, Some(s(1000))),
        (Some(ms(50)), Some(ms(2500))),
        (Some(s(5)), Some(ms(30))),
        (Some(s(5)), Some(s(400))),
        (Some(ms(100)), Some(s(1))),
    ];
    for who in [Who::Client, Who::Pool, Who::ServerHandler, Who::ClientHandler] {
        for (bt, rt) in &sets {
            let eff = rt.or(*bt).unwrap_or(s(60));
            for stream in [false, true] {
                let mut ds = vec![None, Some(eff + ms(1)), Some(eff)];
                if eff > ms(1) {
                    ds.push(Some(eff - ms(1)));
                }
                ds.push(Some(ms(0)));
                if eff >= ms(2) {
                    ds.push(Some(eff / 2));
                }
                for d in ds {
                    let (bt, rt) = (*bt, *rt);
                    let small = t.thorough || d == Some(eff + ms(1)) || d.map(|d| d + ms(1)) == Some(eff);
                    v.push(Scn::new(
                        format!("one/{who:?}/{bt:?}/{rt:?}/{d:?}/{stream}"),
                        K_SCHED,
                        if small { t.p(1, 2) } else { 0 },
                        t.p(400, 30_000),
                        move || timed(who, bt, rt, d, stream, 0, false),
                    ));
                }
            }
        }
    }
    // none at all, days, years, more than can be counted
    let day = s(86_400);
    for who in [Who::Client, Who::Pool, Who::ServerHandler, Who::ClientHandler] {
        for stream in [false, true] {
            for eff in [ms(0), ms(1 << 16), ms(1 << 24), day, day * 10, day * 50, day * 400, day * 1200, Duration::from_secs(u32::MAX as u64 + 1), Duration::MAX / 4, Duration::MAX] {
                let mut ds = vec![Some(ms(0)), Some(ms(1)), Some(s(61)), Some(day + ms(1))];
                if eff <= day * 1200 {
                    ds.extend([None, Some(eff + ms(1))]);
                    if eff > ms(0) {
                        ds.push(Some(eff - ms(1)));
                    }
                } else {
                    ds.push(Some(day * 1201));
                }
                ds.sort();
                ds.dedup();
                for (bt, rt) in [(Some(eff), None), (None, Some(eff)), (Some(ms(30)), Some(eff))] {
                    for d in &ds {
                        let d = *d;
                        v.push(Scn::new(format!("far/{who:?}/{bt:?}/{rt:?}/{d:?}/{stream}"), 0, 0, 1, move || timed(who, bt, rt, d, stream, 0, false)).vast());
                    }
                }
            }
        }
    }
    // every connection of a pool
    for n in 1..=t.p(6, 9) {
        for k in 0..n {
            for stream in [false, true] {
                for (bt, rt) in [(Some(ms(50)), None), (Some(s(5)), Some(ms(30))), (None, None), (Some(ms(40)), Some(s(100)))] {
                    let eff = rt.or(bt).unwrap_or(s(60));
                    for d in [None, Some(eff - ms(1)), Some(eff + ms(1))] {
                        v.push(Scn::new(format!("pool/{n}/{k}/{bt:?}/{rt:?}/{d:?}/{stream}"), 0, 0, 1, move || timed(Who::PoolOf(n, k), bt, rt, d, stream, 0, false)));
                    }
                }
            }
        }
    }
    // emissions that take time: the wait begins when the event has been sent
    for who in [Who::Client, Who::Pool, Who::ServerHandler, Who::ClientHandler] {
        for (bt, rt) in [(Some(ms(50)), None), (Some(ms(5000)), Some(ms(50)))] {
            for stream in [false, true] {
                for flush in [20u64, 49, 50, 51, 200, 10_000] {
                    for hidden in [false, true] {
                        let over = if hidden { 50 } else { flush + 50 };
                        let mut ds = vec![None, Some(0), Some(over - 1), Some(over + 1), Some(10), Some(45)];
                        if !hidden {
                            ds.extend([Some(flush - 1), Some(flush + 1), Some(flush + 30)]);
                        }
                        for d in ds {
                            v.push(Scn::new(format!("slow/{who:?}/{bt:?}/{rt:?}/{stream}/{flush}/{hidden}/{d:?}"), K_SCHED, t.p(0, 1), t.p(1, 2000), move || {
                                timed(who, bt, rt, d.map(ms), stream, flush, hidden)
                            }));
                        }
                    }
                }
            }
        }
    }
    let times = [0u64, 30, 100];
    let reps = [None, Some(10u64), Some(50), Some(80), Some(120)];
    for a in times {
        for bq in times {
            for ra in reps {
                for rb in reps {
                    v.push(Scn::new(format!("two/{a}-{bq}/{ra:?}-{rb:?}"), K_SCHED, t.p(0, 1), 1000, move || overlapping(vec![a, bq], vec![ra, rb])));
                }
            }
        }
    }
    let gs = [0u64, 30, 59, 61, 100];
    for g1 in gs {
        for g2 in gs {
            for think in [0u64, 40, 100] {
                v.push(Scn::new(format!("gaps/{g1}-{g2}/{think}"), K_SCHED, t.p(0, 1), 1000, move || stream_gaps(60, vec![g1, g2, 30], think)));
            }
        }
    }
    v
}
