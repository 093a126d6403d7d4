//! C15 isolation, C18 stop, C19 deadlock freedom, C22 shared data.
use crate::common::*;
use crate::ensure;
use crate::ex::*;
use crate::net::*;
use crate::refc::*;
use crate::s_reply::{expect, same, std_handlers, Tier};
use bromine::prelude::*;
use futures::StreamExt;
use std::io::ErrorKind;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use trait_bound_typemap::TypeMapKey;

// ---------------------------------------------------------------------------------------- C15

#[derive(Clone, Copy, Debug, PartialEq)]
enum BadB {
    /// raw bytes: the first n of a valid conversation, then closed or held open
    Cut(usize, bool),
    Garbage(usize),
    HalfClose,
    Client(&'static str),
    /// asks for a lot and never reads it
    NeverReads,
    AcceptErr(ErrorKind, bool),
    /// an error of the operating system, so many times in a row
    AcceptOs(i32, usize),
    ServerFault(Op, usize, FaultKind),
    ClientFault(Op, usize),
    /// guesses reply references
    Guess(u8),
    UnknownKey,
    Many(usize),
}
fn garbage(i: usize) -> Vec<u8> {
    let f = Frame::new(RAW_ID | 1 << 32, INIT, None, "echo", b"12345").encode();
    let set = |i: usize, v: u8| {
        let mut g = f.clone();
        g[i] = v;
        g
    };
    match i {
        0 => vec![0; 64],
        1 => vec![0xff; 40],
        2 => set(10, 7),       // other major version
        3 => set(10 + 11, 99), // unknown kind
        4 => set(10 + 12, 1),  // invalid marker of the reference
        5 => set(7, 3),        // shorter than the header
        6 => set(9, 4),        // header too short
        7 => {
            let mut g = f.clone();
            let n = g.len();
            g[n - 6] = 0xff; // name is no utf-8
            g
        }
        8 => set(2, 1), // declares a terabyte
        9 => [f.clone(), f.clone(), set(3, 1)].concat(),
        _ => set(10 + 14, 200), // namespace longer than the header
    }
}
const GARBAGE: usize = 11;

fn iso_handlers<T: Tp>(bld: Builder<T>, asked: Log) -> Builder<T> {
    std_handlers::<T>(bld)
        .on("panic", |_c, _e| Box::pin(async move { panic!("MC-EXPECTED") }))
        .on("hang", |_c, _e| {
            Box::pin(async move {
                tokio::time::sleep(ms(1 << 30)).await;
                Ok(Response::empty())
            })
        })
        .on("flood", |ctx, _e| {
            Box::pin(async move {
                for k in 0..20u8 {
                    ctx.emit("part", b(&[k; 90])).await?;
                }
                Ok(Response::empty())
            })
        })
        .on("stop", |ctx, _e| {
            Box::pin(async move {
                ctx.clone().stop().await?;
                Ok(Response::empty())
            })
        })
        .on("ask", move |ctx, ev| {
            let asked = asked.clone();
            Box::pin(async move {
                let d = ev.data_raw().to_vec();
                let r = got(ctx.emit("q", b(&d)).await_reply().with_timeout(ms(5000)).await);
                asked.add(format!("{}:{r:?}", d[0]));
                Ok(Response::empty())
            })
        })
}
/// The conversation of a well-behaved client.
async fn good(c: &Context, tag: u8, asked: &Log) -> Res {
    for k in ["echo", "fail", "emit", "none"] {
        let d = [tag, 1, 2];
        let r = got(c.emit(k, b(&d)).await_reply().with_timeout(ms(1000)).await);
        let w = expect(k, &d);
        ensure!(same(&w, &r), "isolation", "client {tag}: {k} was answered with {r:?} instead of {w:?}");
    }
    let mut s = lift(c.emit("emit", b(&[tag])).stream_replies().with_timeout(ms(1000)).await, "isolation", "open")?;
    let mut got = vec![];
    while let Some(e) = s.next().await {
        let e = lift(e, "isolation", "stream item")?;
        got.push(e.data_raw().to_vec());
    }
    ensure!(got == [vec![tag, b'1'], vec![tag, b'1', b'2']], "isolation", "client {tag}: stream yielded {got:?}");
    let want = format!("{tag}:{:?}", Got::Ok(vec![tag, 77]));
    let before = asked.count(&want);
    lift(c.emit("ask", b(&[tag])).await, "isolation", "emit")?;
    for _ in 0..2000 {
        if asked.count(&want) > before {
            return Ok(());
        }
        tokio::time::sleep(ms(1)).await;
    }
    bad("isolation", format!("client {tag}: the server's request to it was not answered as expected: {:?}", asked.get()))
}
fn good_client<T: Tp>(net: &Net) -> Builder<T> {
    T::builder(net).on("q", |ctx, ev| {
        Box::pin(async move {
            let mut d = ev.data_raw().to_vec();
            d.push(77);
            ctx.response(b(&d))
        })
    })
}
async fn misbehave<T: Tp>(net: &Net, how: BadB, keep: &mut Vec<Box<dyn std::any::Any + Send>>) -> Res {
    let frame = |id: u64, name: &str| Frame::new(RAW_ID | 1 << 33 | id, INIT, None, name, &[9; 20]).encode();
    match how {
        BadB::Cut(n, hold) => {
            let mut r = SimRaw::connect(net).unwrap();
            let all = [frame(1, "echo"), frame(2, "emit"), frame(3, "hang")].concat();
            let _ = r.send_bytes(&all[..n.min(all.len())]).await;
            if hold {
                keep.push(Box::new(r));
            }
        }
        BadB::Garbage(i) => {
            let mut r = SimRaw::connect(net).unwrap();
            let _ = r.send_bytes(&garbage(i)).await;
            keep.push(Box::new(r));
        }
        BadB::HalfClose => {
            let mut r = SimRaw::connect(net).unwrap();
            let _ = r.send_bytes(&frame(1, "emit")).await;
            let SimRaw { r: rd, w, .. } = r;
            drop(w);
            keep.push(Box::new(rd));
        }
        BadB::NeverReads => {
            let mut r = SimRaw::connect(net).unwrap();
            for k in 0..6 {
                let _ = r.send_bytes(&frame(k, "flood")).await;
            }
            keep.push(Box::new(r));
        }
        BadB::Client(what) => {
            let c = lift(T::builder(net).build_client().await, "isolation", "second client")?;
            for _ in 0..2 {
                let _ = c.emit(what, b(b"x")).await;
            }
            let _ = c.emit(what, b(b"x")).await_reply().with_timeout(ms(20)).await;
            if what != "none" {
                keep.push(Box::new(c));
            }
        }
        BadB::AcceptErr(..) | BadB::AcceptOs(..) => {
            // the connection the accept error hits
            let r = SimRaw::connect(net).unwrap();
            tokio::time::sleep(ms(1)).await;
            drop(r);
            if let BadB::AcceptOs(_, n) = how {
                // the server may let some time pass after each of them
                for _ in 0..n * 20 {
                    if net.accepts() <= n + 1 {
                        tokio::time::sleep(ms(500)).await;
                    }
                }
            }
        }
        BadB::ServerFault(..) | BadB::ClientFault(..) => {
            if let Ok(c) = T::builder(net).build_client().await {
                for k in ["emit", "echo", "fail"] {
                    let _ = c.emit(k, b(b"xy")).await_reply().with_timeout(ms(20)).await;
                }
                keep.push(Box::new(c));
            }
        }
        BadB::Guess(_) => {}
        BadB::UnknownKey => {
            let r = bromine::IPCBuilder::<T::L>::new().address(net.clone()).build_client().await;
            ensure!(r.is_err() || T::NAME == "plain", "admission", "an unknown peer was admitted");
        }
        BadB::Many(n) => {
            for k in 0..n {
                let mut r = SimRaw::connect(net).unwrap();
                let _ = r.send_bytes(&garbage(k % GARBAGE)[..(k * 5) % 33]).await;
                if k % 2 == 0 {
                    keep.push(Box::new(r));
                }
            }
        }
    }
    Ok(())
}
fn isolation<T: Tp>(how: BadB, cap: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let mut scfg = NetCfg { io_points: 12, ..NetCfg::cap(cap) };
            let mut ccfg = scfg.clone();
            match how {
                BadB::ServerFault(op, nth, kind) => scfg.fault = Some(Fault { conn: 1, client_side: false, op, nth, kind }),
                BadB::ClientFault(op, nth) => ccfg.fault = Some(Fault { conn: 1, client_side: true, op, nth, kind: FaultKind::Err(ErrorKind::ConnectionReset) }),
                _ => {}
            }
            let net = Net::with(ccfg, scfg, 0);
            if let BadB::AcceptErr(k, keep) = how {
                net.fail_accept(2, k, keep);
                if keep {
                    net.fail_accept(3, k, keep);
                }
            }
            if let BadB::AcceptOs(code, n) = how {
                for k in 0..n {
                    net.fail_accept_os(2 + k, code);
                }
            }
            let asked = Log::new();
            let srv = serve::<T>(&net, iso_handlers::<T>(T::builder(&net), asked.clone())).await;
            let a = lift(within(ms(9000), "connecting", good_client::<T>(&net).build_client()).await?, "isolation", "first client")?;
            let (a2, l2) = (a.clone(), asked.clone());
            let h = tokio::spawn(async move { good(&a2, 1, &l2).await });
            let mut keep = vec![];
            within(long(), "the misbehaving peer", misbehave::<T>(&net, how, &mut keep)).await??;
            lift(within(ms(60_000), "the first client", h).await?, "panic", "task")??;
            good(&a, 2, &asked).await?;
            for tag in 3..5 {
                let c = within(ms(9000), "connecting after the misbehaviour", good_client::<T>(&net).build_client()).await?;
                let c = lift(c, "isolation", "a client connecting after the misbehaviour")?;
                good(&c, tag, &asked).await?;
            }
            good(&a, 5, &asked).await?;
            ensure!(!srv.is_finished(), "isolation", "the server ended");
            drop(keep);
            tokio::time::sleep(ms(5)).await;
            good(&a, 6, &asked).await?;
            ensure!(!srv.is_finished(), "isolation", "the server ended");
            Ok(())
        })
    }
}
/// The server asks client A; connection B sends replies that reference this very request.
fn guess(kind: u8, order: u8) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg::default());
            let asked = Log::new();
            let ran = Log::new();
            let r2 = ran.clone();
            let bld = iso_handlers::<Plain>(Plain::builder(&net), asked.clone()).on("x", move |_c, _e| {
                let r2 = r2.clone();
                Box::pin(async move {
                    r2.add("x");
                    Ok(Response::empty())
                })
            });
            let _s = serve::<Plain>(&net, bld).await;
            let mut a = SimRaw::connect(&net).unwrap();
            let mut o = SimRaw::connect(&net).unwrap();
            let same_id = RAW_ID | 5 << 32;
            lift(a.send(&Frame::new(same_id, INIT, None, "ask", &[1])).await, "io", "send")?;
            if order == 1 {
                // a conversation with the same ids on the other connection
                lift(o.send(&Frame::new(same_id, INIT, None, "ask", &[2])).await, "io", "send")?;
            }
            let q = lift(a.recv_some().await, "isolation", "the server's request")?;
            ensure!(q.name == "q" && q.data == [1] && q.re == Some(same_id), "isolation", "unexpected {q:?}");
            let id = o.id();
            let f = match kind {
                0 => Frame::new(id, RESP, Some(q.id), "x", b"forged"),
                1 => Frame::new(id, END, Some(q.id), "end", b"forged"),
                2 => Frame::new(id, ERR, Some(q.id), "x", &err_payload(1, "forged")),
                _ => Frame::new(id, INIT, Some(q.id), "x", b"forged"),
            };
            lift(o.send(&f).await, "io", "send")?;
            tokio::time::sleep(ms(5)).await;
            ensure!(asked.get().is_empty(), "isolation", "a request was satisfied from another connection: {:?}", asked.get());
            ensure!(ran.count("x") == (kind != 1) as usize, "isolation", "the foreign event ran {} handlers", ran.count("x"));
            let id = a.id();
            lift(a.send(&Frame::new(id, RESP, Some(q.id), "r", b"own")).await, "io", "send")?;
            tokio::time::sleep(ms(5)).await;
            ensure!(asked.get() == [format!("1:{:?}", Got::Ok(b"own".to_vec()))], "isolation", "own reply: {:?}", asked.get());
            let e = lift(a.recv_some().await, "isolation", "conclusion")?;
            ensure!(e.kind == END && e.re == Some(same_id), "isolation", "unexpected {e:?}");
            let mut extra = vec![];
            let mut q2 = None;
            while let Ok(Ok(Some(f))) = tokio::time::timeout(ms(5), o.recv()).await {
                if f.name == "q" && f.re == Some(same_id) {
                    q2 = Some(f.id)
                } else {
                    extra.push(f)
                }
            }
            let want = (kind != 1) as usize;
            ensure!(extra.len() == want && extra.iter().all(|e| e.kind == END && e.re == Some(f.id)), "isolation", "the other connection received {extra:?}");
            ensure!(q2.is_some() == (order == 1), "isolation", "the other connection's conversation: {q2:?}");
            if let Some(q2) = q2 {
                let id = o.id();
                lift(o.send(&Frame::new(id, END, Some(q2), "end", b"two")).await, "io", "send")?;
                let e = lift(within(ms(50), "conclusion", o.recv_some()).await?, "isolation", "conclusion")?;
                ensure!(e.kind == END && e.re == Some(same_id), "isolation", "unexpected {e:?}");
                ensure!(asked.get().last() == Some(&format!("2:{:?}", Got::Ok(b"two".to_vec()))), "isolation", "{:?}", asked.get());
            }
            let x = tokio::time::timeout(ms(5), a.recv()).await;
            ensure!(x.is_err(), "isolation", "the first connection received {x:?}");
            Ok(())
        })
    }
}
/// Two clients of one process: what one's server sends never satisfies the other's request.
fn clients_apart(kind: u8, stream: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let (n1, n2) = (Net::with(NetCfg::default(), NetCfg::default(), 0), Net::with(NetCfg::default(), NetCfg::default(), 1));
            let (l1, l2) = (n1.listen(), n2.listen());
            let c1 = lift(Plain::builder(&n1).build_client().await, "connect", "client")?;
            let _c2 = lift(Plain::builder(&n2).build_client().await, "connect", "client")?;
            let mut r1 = SimRaw::accept(&l1).await;
            let mut r2 = SimRaw::accept(&l2).await;
            let h = tokio::spawn(async move {
                if stream {
                    let mut s = c1.emit("q", b(b"")).stream_replies().await.unwrap();
                    got(s.next().await.unwrap())
                } else {
                    got(c1.emit("q", b(b"")).await_reply().await)
                }
            });
            let q = lift(r1.recv_some().await, "frame", "recv")?;
            let id = r2.id();
            let k = [RESP, END, ERR, INIT][kind as usize];
            lift(r2.send(&Frame::new(id, k, Some(q.id), "x", &err_payload(1, "forged"))).await, "io", "send")?;
            tokio::time::sleep(ms(5)).await;
            ensure!(!h.is_finished(), "isolation", "a request was satisfied from another client's connection");
            let id = r1.id();
            lift(r1.send(&Frame::new(id, RESP, Some(q.id), "x", b"own")).await, "io", "send")?;
            let g = lift(within(long(), "reply", h).await?, "panic", "task")?;
            ensure!(g == Got::Ok(b"own".to_vec()), "isolation", "got {g:?}");
            Ok(())
        })
    }
}
/// The same ids are in use on several connections of a server at the same time.
fn same_ids(n: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg::default());
            let _s = serve::<Plain>(&net, iso_handlers::<Plain>(Plain::builder(&net), Log::new())).await;
            let mut rs: Vec<SimRaw> = (0..n).map(|_| SimRaw::connect(&net).unwrap()).collect();
            for id in [1u64, 2] {
                for (i, r) in rs.iter_mut().enumerate() {
                    let name = if id == 1 { "emit" } else { "fail" };
                    lift(r.send(&Frame::new(id, INIT, None, name, &[i as u8])).await, "io", "send")?;
                }
            }
            tokio::time::sleep(ms(5)).await;
            for (i, r) in rs.iter_mut().enumerate() {
                let mut fs = vec![];
                while let Ok(Ok(Some(f))) = tokio::time::timeout(ms(1), r.recv()).await {
                    fs.push(f)
                }
                let i = i as u8;
                let one: Vec<_> = fs.iter().filter(|f| f.re == Some(1)).map(|f| (f.kind, f.data.clone())).collect();
                ensure!(one == [(RESP, vec![i, b'1']), (END, vec![i, b'1', b'2'])], "isolation", "connection {i}: {one:?}");
                let two: Vec<_> = fs.iter().filter(|f| f.re == Some(2)).map(|f| (f.kind, parse_err(&f.data))).collect();
                ensure!(two.len() == 1 && two[0].0 == ERR && two[0].1.as_ref().unwrap().1.contains(&format!("failed {:02x?}", [i])), "isolation", "connection {i}: {two:?}");
                ensure!(fs.len() == 3, "isolation", "connection {i} received {fs:?}");
            }
            Ok(())
        })
    }
}

pub fn c15(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let total = Frame::new(1, INIT, None, "echo", &[9; 20]).encode().len() * 2 + 30;
    let mut hows = vec![BadB::HalfClose, BadB::NeverReads, BadB::Many(25), BadB::UnknownKey];
    for n in (0..total).step_by(t.p(3, 1)) {
        hows.push(BadB::Cut(n, false));
        hows.push(BadB::Cut(n, true));
    }
    for i in 0..GARBAGE {
        hows.push(BadB::Garbage(i));
    }
    let clients = ["panic", "fail", "hang", "flood", "stop", "none", "echo"];
    for w in clients {
        hows.push(BadB::Client(w));
    }
    for k in [ErrorKind::ConnectionAborted, ErrorKind::ConnectionReset, ErrorKind::Interrupted, ErrorKind::Other, ErrorKind::OutOfMemory, ErrorKind::PermissionDenied] {
        hows.push(BadB::AcceptErr(k, true));
        hows.push(BadB::AcceptErr(k, false));
    }
    {
        use ErrorKind::*;
        for k in [InvalidInput, InvalidData, WouldBlock, TimedOut, NotConnected, BrokenPipe, AddrInUse, AddrNotAvailable, UnexpectedEof, NotFound, ConnectionRefused, Unsupported, WriteZero, AlreadyExists] {
            hows.push(BadB::AcceptErr(k, false));
            hows.push(BadB::AcceptErr(k, true));
        }
        // EMFILE, ENFILE, ENOBUFS, ENOMEM, EPERM, EPROTO, ENETDOWN, EHOSTUNREACH, EAGAIN, EINVAL, EBADF, ECONNABORTED, EINTR, EOPNOTSUPP
        for code in [24, 23, 105, 12, 1, 71, 100, 113, 11, 22, 9, 103, 4, 95] {
            hows.push(BadB::AcceptOs(code, 1));
        }
        for (code, n) in [(24, 10), (24, 150), (103, 300), (71, 70)] {
            hows.push(BadB::AcceptOs(code, n));
        }
    }
    let kinds = [FaultKind::Err(ErrorKind::ConnectionReset), FaultKind::Zero];
    for op in [Op::Read, Op::Write, Op::Flush] {
        for nth in 0..t.p(4, 10) {
            for k in kinds {
                hows.push(BadB::ServerFault(op, nth, k));
            }
            hows.push(BadB::ClientFault(op, nth));
        }
    }
    for h in hows {
        let plain_only = matches!(h, BadB::UnknownKey);
        if !plain_only {
            v.push(Scn::new(format!("plain/{h:?}"), K_ALL, t.p(1, 2), t.p(700, 40_000), isolation::<Plain>(h, if h == BadB::NeverReads { 150 } else { 1 << 20 })));
        }
        #[cfg(feature = "full")]
        if !matches!(h, BadB::NeverReads) && !matches!(h, BadB::AcceptOs(_, n) if n > 1) {
            let os = matches!(h, BadB::AcceptOs(..)) as u32;
            v.push(Scn::new(format!("enc/{h:?}"), K_ALL, t.p(1 - os, 2 - os), t.p(150, 8_000), isolation::<Enc>(h, 1 << 20)));
        }
    }
    for k in 0..4 {
        for o in 0..2 {
            v.push(Scn::new(format!("guess/{k}/{o}"), K_SCHED, t.p(2, 3), t.p(4000, 300_000), guess(k, o)));
        }
        for s in [false, true] {
            v.push(Scn::new(format!("clients/{k}/{s}"), K_SCHED, t.p(2, 3), t.p(4000, 300_000), clients_apart(k, s)));
        }
    }
    for n in [2, 3] {
        v.push(Scn::new(format!("same-ids/{n}"), K_SCHED, t.p(2, 3), t.p(6000, 300_000), same_ids(n)));
    }
    v
}

// ---------------------------------------------------------------------------------------- C18

#[derive(Clone, Copy, Debug, PartialEq)]
enum StopBy {
    Main,
    Clone,
    Handler,
    Twice,
    TwiceClones,
    /// both at once
    Race,
    AfterPeerClosed,
}
/// before: handlers that are running while stop is called; requests: outstanding own requests
fn stopping(by: StopBy, running: usize, hold: bool, request: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 8, ..Default::default() });
            let l = net.listen();
            let ran = Log::new();
            let gate = Gate::new();
            let (r1, r2, g2) = (ran.clone(), ran.clone(), gate.clone());
            let bld = Plain::builder(&net)
                .on("ev", move |ctx, ev| {
                    let r1 = r1.clone();
                    Box::pin(async move {
                        r1.add(format!("ev{:?}", ev.data_raw()));
                        ctx.response(b(ev.data_raw()))
                    })
                })
                .on("wait", move |ctx, ev| {
                    let (r2, g2) = (r2.clone(), g2.clone());
                    Box::pin(async move {
                        r2.add("waiting");
                        g2.wait().await;
                        ctx.emit("more", b(ev.data_raw())).await?;
                        ctx.response(b(b"done"))
                    })
                })
                .on("stop", |ctx, _e| {
                    Box::pin(async move {
                        ctx.clone().stop().await?;
                        ctx.response(b(b"stopped"))
                    })
                });
            let c = lift(bld.build_client().await, "connect", "client")?;
            let mut raw = SimRaw::accept(&l).await;
            // an event is handled before stopping
            let mut conv = vec![];
            let id = raw.id();
            lift(raw.send(&Frame::new(id, INIT, None, "ev", &[1])).await, "io", "send")?;
            let f = lift(within(ms(50), "reply before stopping", raw.recv_some()).await?, "stop", "recv")?;
            ensure!(f.kind == END && f.re == Some(id) && f.data == [1], "stop", "before stopping: {f:?}");
            for k in 0..running {
                let id = raw.id();
                conv.push(id);
                lift(raw.send(&Frame::new(id, INIT, None, "wait", &[k as u8])).await, "io", "send")?;
            }
            let req = if request {
                let c2 = c.clone();
                Some(tokio::spawn(async move { got(c2.emit("q", b(b"")).await_reply().with_timeout(ms(500)).await) }))
            } else {
                None
            };
            idle().await;
            ensure!(ran.count("waiting") == running, "stop", "{} of {running} handlers started", ran.count("waiting"));
            if request {
                let f = lift(within(ms(50), "request", raw.recv_some()).await?, "stop", "recv")?;
                ensure!(f.name == "q", "stop", "unexpected {f:?}");
            }
            let keep = c.clone();
            let mut raw = Some(raw);
            match by {
                StopBy::Main => lift(c.stop().await, "stop", "stop")?,
                StopBy::Clone => {
                    lift(c.clone().stop().await, "stop", "stop")?;
                    drop(c)
                }
                StopBy::Handler => {
                    let r = raw.as_mut().unwrap();
                    let id = r.id();
                    lift(r.send(&Frame::new(id, INIT, None, "stop", b"")).await, "io", "send")?;
                    let f = lift(within(ms(50), "reply of the stopping handler", r.recv_some()).await?, "stop", "recv")?;
                    ensure!(f.kind == END && f.re == Some(id) && f.data == b"stopped", "stop", "stopping from a handler: {f:?}");
                    drop(c)
                }
                StopBy::Twice => {
                    lift(c.clone().stop().await, "stop", "stop")?;
                    lift(c.stop().await, "stop", "stopping again")?;
                }
                StopBy::TwiceClones => {
                    lift(c.clone().stop().await, "stop", "stop")?;
                    idle().await;
                    lift(c.clone().stop().await, "stop", "stopping again")?;
                    lift(keep.clone().stop().await, "stop", "stopping again")?;
                    drop(c)
                }
                StopBy::Race => {
                    let (a, b) = (c.clone(), c);
                    let h = tokio::spawn(async move { a.stop().await });
                    lift(b.stop().await, "stop", "stop")?;
                    lift(lift(h.await, "panic", "task")?, "stop", "stop")?;
                }
                StopBy::AfterPeerClosed => {
                    raw = None;
                    idle().await;
                    lift(c.clone().stop().await, "stop", "stopping a connection the peer closed")?;
                    lift(c.stop().await, "stop", "stopping again")?;
                }
            }
            idle().await;
            let n = ran.get().len();
            if let Some(raw) = raw.as_mut() {
                for k in 0..3 {
                    let id = raw.id();
                    let _ = raw.send(&Frame::new(id, INIT, None, "ev", &[50 + k])).await;
                }
                idle().await;
                ensure!(ran.get().len() == n, "stop", "an event was handled after stop: {:?}", ran.get());
            }
            let keep = if hold {
                Some(keep)
            } else {
                drop(keep);
                None
            };
            gate.open(running);
            tokio::time::sleep(ms(5)).await;
            if let Some(mut raw) = raw {
                let mut fs = vec![];
                for _ in 0..2 * running {
                    match tokio::time::timeout(ms(20), raw.recv()).await {
                        Ok(Ok(Some(f))) => fs.push(f),
                        x => return bad("stop", format!("replies of running handlers are missing after stop: {x:?} after {fs:?}")),
                    }
                }
                for (k, id) in conv.iter().enumerate() {
                    let mine: Vec<_> = fs.iter().filter(|f| f.re == Some(*id)).map(|f| (f.kind, f.data.clone())).collect();
                    ensure!(mine == [(RESP, vec![k as u8]), (END, b"done".to_vec())], "stop", "handler {k} that ran while stopping sent {mine:?}");
                }
                if let Some(keep) = keep {
                    let e = tokio::time::timeout(ms(5), raw.recv()).await;
                    ensure!(!matches!(e, Ok(Ok(Some(_)))), "stop", "unexpected frame {e:?}");
                    drop(keep);
                }
                if let Some(h) = req {
                    let g = lift(within(ms(600), "request outstanding at stop", h).await?, "panic", "task")?;
                    ensure!(!matches!(g, Got::Ok(_)), "stop", "a request that was never answered yielded {g:?}");
                }
                let e = within(ms(50), "the peer noticing the end of the connection", raw.recv()).await?;
                ensure!(matches!(e, Ok(None)), "stop", "the peer of a stopped connection sees {e:?} instead of its end");
                let g = net.wire(0).gone();
                ensure!(g.0, "stop", "the stopped connection's reading side is still held");
            }
            Ok(())
        })
    }
}
/// Events keep arriving while stop is called: each is handled entirely or not at all.
fn stop_race() -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg::default());
            let l = net.listen();
            let ran = Log::new();
            let r1 = ran.clone();
            let bld = Plain::builder(&net).on("ev", move |ctx, ev| {
                let r1 = r1.clone();
                Box::pin(async move {
                    r1.add(format!("{:?}", ev.data_raw()));
                    ctx.emit("part", b(ev.data_raw())).await?;
                    ctx.response(b(ev.data_raw()))
                })
            });
            let c = lift(bld.build_client().await, "connect", "client")?;
            let mut raw = SimRaw::accept(&l).await;
            let h = tokio::spawn(async move {
                let mut ids = vec![];
                for k in 0..3u8 {
                    let id = raw.id();
                    if raw.send(&Frame::new(id, INIT, None, "ev", &[k])).await.is_err() {
                        break;
                    }
                    ids.push(id);
                }
                (raw, ids)
            });
            lift(c.stop().await, "stop", "stop")?;
            let (mut raw, ids) = lift(h.await, "panic", "task")?;
            tokio::time::sleep(ms(5)).await;
            let n = ran.get().len();
            let id = raw.id();
            let _ = raw.send(&Frame::new(id, INIT, None, "ev", &[77])).await;
            tokio::time::sleep(ms(5)).await;
            ensure!(ran.get().len() == n, "stop", "an event was handled after stop and idling");
            let mut fs = vec![];
            loop {
                match within(ms(50), "end of the stopped connection", raw.recv()).await? {
                    Ok(Some(f)) => fs.push(f),
                    Ok(None) => break,
                    Err(e) => return bad("stop", format!("{e} after {fs:?}")),
                }
            }
            obs(format!("{n} handled"));
            for (k, id) in ids.iter().enumerate() {
                let m: Vec<_> = fs.iter().filter(|f| f.re == Some(*id)).map(|f| (f.kind, f.data.clone())).collect();
                let k = k as u8;
                if ran.count(&format!("{:?}", [k])) == 1 {
                    ensure!(m == [(RESP, vec![k]), (END, vec![k])], "stop", "event {k} was handled but its peer received {m:?}");
                } else {
                    ensure!(m.is_empty(), "stop", "event {k} was not handled but its peer received {m:?}");
                }
            }
            Ok(())
        })
    }
}
/// Contexts dropped without stopping: events are still handled. Also over pools.
fn not_stopped<T: Tp>(pool: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 4, ..Default::default() });
            let ran = Log::new();
            let sent = Log::new();
            let (r1, s1) = (ran.clone(), sent.clone());
            let sb = T::builder(&net).on("go", move |ctx, ev| {
                let s1 = s1.clone();
                Box::pin(async move {
                    let k = ev.data_raw()[0];
                    for n in 0..3u8 {
                        tokio::time::sleep(ms(10)).await;
                        let r = got(ctx.emit("ev", b(&[k, n])).await_reply().with_timeout(ms(100)).await);
                        s1.add(format!("{k}{n}:{r:?}"));
                    }
                    Ok(Response::empty())
                })
            });
            let _s = serve::<T>(&net, sb).await;
            let cb = T::builder(&net).on("ev", move |ctx, ev| {
                let r1 = r1.clone();
                Box::pin(async move {
                    r1.add("ev");
                    ctx.response(b(ev.data_raw()))
                })
            });
            if pool == 0 {
                let c = lift(cb.build_client().await, "connect", "client")?;
                lift(c.emit("go", b(&[0])).await, "io", "emit")?;
                drop(c);
            } else {
                let p = lift(cb.build_pooled_client(pool).await, "connect", "pool")?;
                let gs: Vec<_> = (0..pool).map(|_| p.acquire()).collect();
                for (k, g) in gs.iter().enumerate() {
                    lift(g.emit("go", b(&[k as u8])).await, "io", "emit")?;
                }
                drop(gs);
                drop(p);
            }
            tokio::time::sleep(ms(200)).await;
            for k in 0..pool.max(1) as u8 {
                for n in 0..3u8 {
                    let w = format!("{k}{n}:{:?}", Got::Ok(vec![k, n]));
                    ensure!(sent.count(&w) == 1, "stop", "after the contexts were dropped events are not handled: {:?}", sent.get());
                }
            }
            Ok(())
        })
    }
}
/// Stopping one connection of a pool or one of several clients leaves the others alone.
fn stop_one<T: Tp>(pool: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 4, ..Default::default() });
            let asked = Log::new();
            let _s = serve::<T>(&net, iso_handlers::<T>(T::builder(&net), asked.clone())).await;
            let cs: Vec<Context> = if pool {
                let p = lift(good_client::<T>(&net).build_pooled_client(3).await, "connect", "pool")?;
                let g: Vec<_> = (0..3).map(|_| p.acquire()).collect();
                g.iter().map(|g| (**g).clone()).collect()
            } else {
                let mut v = vec![];
                for _ in 0..3 {
                    v.push(lift(good_client::<T>(&net).build_client().await, "connect", "client")?);
                }
                v
            };
            for (i, c) in cs.iter().enumerate() {
                good(c, i as u8 + 1, &asked).await?;
            }
            lift(cs[1].clone().stop().await, "stop", "stop")?;
            idle().await;
            for i in [0, 2] {
                good(&cs[i], i as u8 + 10, &asked).await?;
            }
            lift(cs[0].emit("stop", b(b"")).await_reply().await, "stop", "a server handler calling stop")?;
            good(&cs[0], 20, &asked).await?;
            good(&cs[2], 21, &asked).await?;
            // the server's request on the stopped connection is not answered
            let n = asked.get().len();
            if cs[1].emit("ask", b(&[40])).await.is_ok() {
                tokio::time::sleep(ms(6000)).await;
                ensure!(asked.get().len() == n + 1 && asked.get()[n] == format!("40:{:?}", Got::Timeout), "stop", "an event on the stopped connection was handled: {:?}", &asked.get()[n..]);
            }
            drop(cs);
            idle().await;
            let g = net.wire(1);
            ensure!(g.gone().0 && g.fin().0, "stop", "the stopped connection is not closed: {:?} {:?}", g.gone(), g.fin());
            Ok(())
        })
    }
}
pub fn c18(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for by in [StopBy::Main, StopBy::Clone, StopBy::Handler, StopBy::Twice, StopBy::TwiceClones, StopBy::Race, StopBy::AfterPeerClosed] {
        for running in 0..=2 {
            for hold in [false, true] {
                for req in [false, true] {
                    v.push(Scn::new(format!("{by:?}/{running}/{hold}/{req}"), K_ALL, t.p(2, 3), t.p(2500, 150_000), stopping(by, running, hold, req)));
                }
            }
        }
    }
    v.push(Scn::new("race", K_ALL, t.p(3, 4), t.p(40_000, 3_000_000), stop_race()));
    for p in 0..=2 {
        v.push(Scn::new(format!("dropped/plain/{p}"), K_SCHED, t.p(2, 3), t.p(3000, 100_000), not_stopped::<Plain>(p)));
        #[cfg(feature = "full")]
        v.push(Scn::new(format!("dropped/enc/{p}"), K_SCHED, 1, t.p(300, 20_000), not_stopped::<Enc>(p)));
    }
    for p in [false, true] {
        v.push(Scn::new(format!("one/plain/{p}"), K_SCHED, t.p(1, 2), t.p(2000, 100_000), stop_one::<Plain>(p)));
        #[cfg(feature = "full")]
        v.push(Scn::new(format!("one/enc/{p}"), K_SCHED, 1, t.p(300, 20_000), stop_one::<Enc>(p)));
    }
    v
}

// ---------------------------------------------------------------------------------------- C19

#[derive(Clone, Copy, Debug)]
struct Load {
    /// requests of the client, and events asked of the server's handlers
    client: usize,
    server: usize,
    size: usize,
    cap: usize,
    buffered: bool,
}
fn bidi<T: Tp>(l: Load) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { buffered: l.buffered, io_points: 10, ..NetCfg::cap(l.cap) });
            let asked = Log::new();
            let mk = |bld: Builder<T>| {
                bld.on("q", |ctx, ev| {
                    Box::pin(async move {
                        let d = ev.data_raw().to_vec();
                        ctx.emit("part", b(&d)).await?;
                        ctx.emit("part", b(&d)).await?;
                        ctx.response(b(&d))
                    })
                })
            };
            let a2 = asked.clone();
            let sb = mk(T::builder(&net)).on("ask", move |ctx, ev| {
                let a2 = a2.clone();
                Box::pin(async move {
                    let d = ev.data_raw().to_vec();
                    let r = got(ctx.emit("q", b(&d)).await_reply().await);
                    a2.add(format!("{}", r == Got::Ok(d)));
                    Ok(Response::empty())
                })
            });
            let _s = serve::<T>(&net, sb).await;
            let c = lift(mk(T::builder(&net)).build_client().await, "connect", "client")?;
            let mut hs = vec![];
            for i in 0..l.client.max(l.server) {
                let body = vec![i as u8; l.size];
                if i < l.client {
                    let (c, d) = (c.clone(), body.clone());
                    hs.push(tokio::spawn(async move { got(c.emit("q", b(&d)).await_reply().await) == Got::Ok(d) }));
                }
                if i < l.server {
                    let (c, d) = (c.clone(), body);
                    hs.push(tokio::spawn(async move { c.emit("ask", b(&d)).await.is_ok() }));
                }
            }
            for h in hs {
                let ok = lift(within(ms(59_000), "concurrent requests in both directions", h).await?, "panic", "task")?;
                ensure!(ok, "deadlock", "a request was not answered with its reply");
            }
            for _ in 0..100 {
                if asked.get().len() == l.server {
                    break;
                }
                tokio::time::sleep(ms(10)).await;
            }
            ensure!(asked.count("true") == l.server, "deadlock", "{} of {} requests of handlers were answered", asked.count("true"), l.server);
            tokio::time::sleep(ms(500)).await;
            ensure!(net.wire(0).drained(), "deadlock", "unread bytes remain");
            Ok(())
        })
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Consume {
    Sequential,
    Reverse,
    Partial,
    Dropped,
    /// a request between two items
    Nested,
    /// keeps the stream, reads nothing, uses the connection
    Held,
}
fn consuming<T: Tp>(how: Consume, sizes: &'static [usize], cap: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 6, ..NetCfg::cap(cap) });
            let sb = std_handlers::<T>(T::builder(&net)).on("s", |ctx, ev| {
                Box::pin(async move {
                    let n = u16::from_be_bytes([ev.data_raw()[0], ev.data_raw()[1]]);
                    for k in 0..n {
                        ctx.emit("part", b(&k.to_be_bytes())).await?;
                    }
                    ctx.response(b(b"e"))
                })
            });
            let _s = serve::<T>(&net, sb).await;
            let c = lift(T::builder(&net).timeout(ms(3000)).build_client().await, "connect", "client")?;
            let mut streams = vec![];
            for n in sizes {
                let s = within(ms(2000), "opening a stream", c.emit("s", b(&(*n as u16).to_be_bytes())).stream_replies()).await?;
                streams.push((*n, lift(s, "deadlock", "open")?));
            }
            if how == Consume::Reverse {
                streams.reverse();
            }
            // the connection works while nothing of the streams was read
            let r = got(within(ms(2000), "a request while streams are unread", c.emit("echo", b(b"1")).await_reply()).await?);
            ensure!(r == Got::Ok(b"1".to_vec()), "deadlock", "a request while streams are unread: {r:?}");
            let mut held = vec![];
            for (n, mut s) in streams {
                let want: Vec<Vec<u8>> = (0..n as u16).map(|k| k.to_be_bytes().to_vec()).chain([b"e".to_vec()]).collect();
                let stop = match how {
                    Consume::Partial => n / 2,
                    Consume::Dropped => continue,
                    Consume::Held => {
                        held.push(s);
                        continue;
                    }
                    _ => usize::MAX,
                };
                let mut k = 0;
                while k < stop {
                    match within(ms(4000), "a stream item", s.next()).await? {
                        Some(e) => {
                            let e = lift(e, "deadlock", "stream item")?;
                            ensure!(want.get(k).map(|w| &w[..]) == Some(e.data_raw()), "deadlock", "item {k} of {n} is {:?}", e.data_raw());
                        }
                        None => {
                            ensure!(k == want.len(), "deadlock", "a stream of {n} ended after {k}");
                            break;
                        }
                    }
                    k += 1;
                    if how == Consume::Nested {
                        let r = got(within(ms(2000), "a request between two items", c.emit("emit", b(b"n")).await_reply()).await?);
                        ensure!(r == Got::Ok(b"n1".to_vec()), "deadlock", "a request between two items: {r:?}");
                    }
                }
            }
            for k in 0..3 {
                let r = got(within(ms(2000), "a request afterwards", c.emit("echo", b(&[k])).await_reply()).await?);
                ensure!(r == Got::Ok(vec![k]), "deadlock", "a request afterwards: {r:?}");
            }
            Ok(())
        })
    }
}
/// Every level of the chain waits for the next one.
fn chain(n: u8, cap: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            // a ring of endpoints: each handler asks the next server before answering
            let nets: Vec<Net> = (0..n).map(|i| Net::with(NetCfg { io_points: 4, ..NetCfg::cap(cap) }, NetCfg { io_points: 4, ..NetCfg::cap(cap) }, i as u64)).collect();
            let nexts: Arc<Mutex<Vec<Option<Context>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
            let mut hs = vec![];
            for i in 0..n as usize {
                let nx = nexts.clone();
                let bld = Plain::builder(&nets[i]).on("q", move |ctx, ev| {
                    let nx = nx.clone();
                    Box::pin(async move {
                        let d = ev.data_raw().to_vec();
                        if d[0] == 0 {
                            return ctx.response(b(&d));
                        }
                        let c = nx.lock().unwrap()[i].clone().unwrap();
                        let mut e = d.clone();
                        e[0] -= 1;
                        let r = c.emit("q", b(&e)).await_reply().await?;
                        let mut out = r.data_raw().to_vec();
                        out.push(d[0]);
                        ctx.response(b(&out))
                    })
                });
                hs.push(serve::<Plain>(&nets[i], bld).await);
            }
            for i in 0..n as usize {
                let c = lift(Plain::builder(&nets[(i + 1) % n as usize]).build_client().await, "connect", "client")?;
                nexts.lock().unwrap()[i] = Some(c);
            }
            let c = nexts.lock().unwrap()[0].clone().unwrap();
            let mut ts = vec![];
            for k in 0..3u8 {
                let c = c.clone();
                ts.push(tokio::spawn(async move { got(c.emit("q", b(&[3 * n, k])).await_reply().await) }));
            }
            for (k, h) in ts.into_iter().enumerate() {
                let g = lift(within(ms(50_000), "a chain of requests", h).await?, "panic", "task")?;
                let mut want = vec![0, k as u8];
                want.extend(1..=3 * n);
                ensure!(g == Got::Ok(want.clone()), "deadlock", "chain {k}: {g:?}");
            }
            nexts.lock().unwrap().clear();
            Ok(())
        })
    }
}
/// Where the handlers of a flood run, and what they wait for.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Flood {
    /// server's handlers wait for a local signal
    Server,
    /// client's handlers wait for a local signal
    Client,
    /// n conversations in which every handler asks the other side, 4 levels deep
    Mutual,
    /// one conversation in which every handler asks the other side, n levels deep
    Deep,
    /// over several connections
    Pool,
}
/// n handlers (or requests) are under way at the same time; everything else goes on meanwhile.
fn flood<T: Tp>(how: Flood, n: usize, cap: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 2, ..NetCfg::cap(cap) });
            let gate = Gate::new();
            // a context of each side whose emissions begin a new conversation
            let fresh: [Arc<Mutex<Option<Context>>>; 2] = Default::default();
            let mk = |bld: Builder<T>, me: usize| {
                let g = gate.clone();
                let own = fresh[me].clone();
                std_handlers::<T>(bld.timeout(ms(100_000)))
                    .on("park", move |ctx, ev| {
                        let g = g.clone();
                        Box::pin(async move {
                            g.wait().await;
                            ctx.response(b(ev.data_raw()))
                        })
                    })
                    .on("level", move |ctx, ev| {
                        let own = own.lock().unwrap().clone();
                        Box::pin(async move {
                            let d = ev.data_raw();
                            let k = u16::from_be_bytes([d[0], d[1]]);
                            let mut e = d.to_vec();
                            if k > 0 {
                                e[..2].copy_from_slice(&(k - 1).to_be_bytes());
                                let c = own.ok_or("no context")?;
                                e = c.emit("level", b(&e)).await_reply().await?.data_raw().to_vec();
                            }
                            e.push(k as u8);
                            ctx.response(b(&e))
                        })
                    })
            };
            let asked = Log::new();
            let (a2, n2) = (asked.clone(), n);
            let f0 = fresh[0].clone();
            let sb = mk(T::builder(&net), 0)
                .on("hello", move |ctx, _e| {
                    *f0.lock().unwrap() = Some(ctx.clone());
                    Box::pin(async move { Ok(Response::empty()) })
                })
                .on("ask", move |ctx, ev| {
                let a2 = a2.clone();
                Box::pin(async move {
                    let mut hs = vec![];
                    for i in 0..n2 as u16 {
                        let (c, m) = (ctx.clone(), ev.data_raw().to_vec());
                        hs.push(tokio::spawn(async move {
                            let r = got(c.emit("park", b(&i.to_be_bytes())).await_reply().await);
                            drop(m);
                            r == Got::Ok(i.to_be_bytes().to_vec())
                        }));
                    }
                    for h in hs {
                        a2.add(format!("{}", h.await.unwrap_or(false)));
                    }
                    Ok(Response::empty())
                })
            });
            let _s = serve::<T>(&net, sb).await;
            let mut all = vec![];
            let pool;
            let c: Context = if how == Flood::Pool {
                pool = lift(mk(T::builder(&net), 1).build_pooled_client(3).await, "connect", "pool")?;
                let gs: Vec<_> = (0..3).map(|_| pool.acquire()).collect();
                all.extend(gs.iter().map(|g| (**g).clone()));
                all[0].clone()
            } else {
                let c = lift(mk(T::builder(&net), 1).build_client().await, "connect", "client")?;
                all.push(c.clone());
                c
            };
            let mut hs = vec![];
            match how {
                Flood::Server | Flood::Pool => {
                    for i in 0..n {
                        let c = all[i % all.len()].clone();
                        hs.push(tokio::spawn(async move {
                            let d = (i as u16).to_be_bytes();
                            got(c.emit("park", b(&d)).await_reply().await) == Got::Ok(d.to_vec())
                        }));
                    }
                }
                Flood::Client => {
                    lift(c.emit("ask", b(b"")).await, "io", "emit")?;
                }
                Flood::Mutual | Flood::Deep => {
                    let (chains, k) = if how == Flood::Deep { (1, n) } else { (n, 4) };
                    *fresh[1].lock().unwrap() = Some(c.clone());
                    lift(c.emit("hello", b(b"")).await, "io", "emit")?;
                    idle().await;
                    for i in 0..chains {
                        let c = c.clone();
                        hs.push(tokio::spawn(async move {
                            let d = [(k >> 8) as u8, k as u8, (i >> 8) as u8, i as u8];
                            let want: Vec<u8> = [0, 0, d[2], d[3]].into_iter().chain((0..=k).map(|x| x as u8)).collect();
                            got(c.emit("level", b(&d)).await_reply().await) == Got::Ok(want)
                        }));
                    }
                }
            }
            tokio::time::sleep(ms(1000)).await;
            if !matches!(how, Flood::Mutual | Flood::Deep) {
                ensure!(hs.iter().all(|h| !h.is_finished()) && asked.get().is_empty(), "deadlock", "{how:?} {n}: a request was answered before its handler returned");
                // meanwhile everything else goes on, on this connection and on others
                for c in &all {
                    for k in ["echo", "emit", "none"] {
                        let r = got(within(ms(5000), "a request while handlers are waiting", c.emit(k, b(b"1")).await_reply()).await?);
                        ensure!(same(&expect(k, b"1"), &r), "deadlock", "{how:?} {n}: a request while handlers are waiting: {r:?}");
                    }
                }
                let c2 = lift(within(ms(5000), "connecting while handlers are waiting", T::builder(&net).build_client()).await?, "connect", "client")?;
                let r = got(within(ms(5000), "a request of another client while handlers are waiting", c2.emit("echo", b(b"2")).await_reply()).await?);
                ensure!(r == Got::Ok(b"2".to_vec()), "deadlock", "{how:?} {n}: a request of another client: {r:?}");
            }
            gate.open(n);
            for h in hs {
                let ok = lift(within(ms(50_000), "a request", h).await?, "panic", "task")?;
                ensure!(ok, "deadlock", "{how:?} {n}: a request was not answered with its reply");
            }
            for f in &fresh {
                f.lock().unwrap().take();
            }
            if how == Flood::Client {
                tokio::time::sleep(ms(1000)).await;
                ensure!(asked.count("true") == n && asked.get().len() == n, "deadlock", "{} of {n} requests of a handler were answered", asked.count("true"));
            }
            Ok(())
        })
    }
}
pub fn c19(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for how in [Flood::Server, Flood::Client, Flood::Mutual, Flood::Deep, Flood::Pool] {
        for n in [2usize, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300, 512, 513, 1000, 1025, 2050] {
            for cap in [60usize, 1 << 20] {
                v.push(Scn::new(format!("flood/plain/{how:?}/{n}/{cap}"), K_SCHED | K_IO, if n < 10 { t.p(1, 2) } else { 0 }, if n < 10 { t.p(300, 20_000) } else { 1 }, flood::<Plain>(how, n, cap)));
                #[cfg(feature = "full")]
                if n <= 300 || t.thorough {
                    v.push(Scn::new(format!("flood/enc/{how:?}/{n}/{cap}"), K_SCHED | K_IO, if n < 10 { t.p(0, 1) } else { 0 }, if n < 10 { t.p(1, 2_000) } else { 1 }, flood::<Enc>(how, n, cap)));
                }
            }
        }
    }
    let mut loads = vec![];
    for (c, s) in [(1, 1), (2, 2), (6, 0), (0, 6), (5, 5), (12, 12), (40, 40)] {
        for size in [1usize, 40, 400, 3000] {
            for cap in [1usize, 7, 64, 600] {
                if size / cap <= t.p(60, 3000) && (c < 12 || size < 400) {
                    loads.push(Load { client: c, server: s, size, cap, buffered: false });
                    loads.push(Load { client: c, server: s, size, cap, buffered: true });
                }
            }
        }
    }
    for l in loads {
        let deep = l.client + l.server <= 4 && l.size < 400;
        let id = format!("{}-{}/{}/{}/{}", l.client, l.server, l.size, l.cap, l.buffered);
        let heavy = l.client >= 40 || (l.client + l.server) * (l.size + 60) / l.cap > 120;
        v.push(Scn::new(format!("plain/{id}"), K_ALL, if deep { t.p(1, 2) } else { t.p(!heavy as u32, 1) }, t.p(if deep { 700 } else { 60 }, 20_000), bidi::<Plain>(l)));
        #[cfg(feature = "full")]
        v.push(Scn::new(format!("enc/{id}"), K_ALL, t.p(!heavy as u32, 1), t.p(if deep { 120 } else { 12 }, 3000), bidi::<Enc>(l)));
    }
    let sz: [&'static [usize]; 6] = [&[2, 1], &[9, 9], &[12, 12, 12], &[40, 1, 40], &[300], &[10, 0, 25]];
    for how in [Consume::Sequential, Consume::Reverse, Consume::Partial, Consume::Dropped, Consume::Nested, Consume::Held] {
        for (i, s) in sz.iter().enumerate() {
            for cap in [50usize, 1 << 20] {
                v.push(Scn::new(format!("consume/plain/{how:?}/{i}/{cap}"), K_ALL, 1, t.p(150, 20_000), consuming::<Plain>(how, s, cap)));
                #[cfg(feature = "full")]
                v.push(Scn::new(format!("consume/enc/{how:?}/{i}/{cap}"), K_ALL, 1, t.p(25, 3000), consuming::<Enc>(how, s, cap)));
            }
        }
    }
    for n in 1..=t.p(3, 5) {
        for cap in [3usize, 40, 1 << 20] {
            v.push(Scn::new(format!("chain/{n}/{cap}"), K_ALL, 1, t.p(400, 20_000), chain(n, cap)));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------- C22

struct K1;
impl TypeMapKey for K1 {
    type Value = Vec<String>;
}
struct K2;
impl TypeMapKey for K2 {
    type Value = Arc<AtomicUsize>;
}
struct K3;
impl TypeMapKey for K3 {
    type Value = u32;
}
fn data_handlers<T: Tp>(bld: Builder<T>) -> Builder<T> {
    bld.on("add", |ctx, ev| {
        Box::pin(async move {
            let mut d = ctx.data.write().await;
            let v = d.get_mut::<K1>().ok_or(IPCError::from("K1 is missing"))?;
            let n = v.len();
            // a lost update shows if another handler gets in between
            tokio::task::yield_now().await;
            v.push(String::from_utf8_lossy(ev.data_raw()).to_string());
            drop(d);
            ctx.data.read().await.get::<K2>().ok_or(IPCError::from("K2 is missing"))?.fetch_add(1, SeqCst);
            ctx.response(b(&[n as u8]))
        })
    })
    .on("see", |ctx, _e| {
        Box::pin(async move {
            let d = ctx.data.read().await;
            let mut v = d.get::<K1>().ok_or(IPCError::from("K1 is missing"))?.clone();
            v.push(format!("{:?}", d.get::<K3>()));
            ctx.response(b(v.join(",").as_bytes()))
        })
    })
    .on("set", |ctx, ev| {
        Box::pin(async move {
            ctx.data.write().await.insert::<K3>(ev.data_raw()[0] as u32);
            ctx.response(b(b""))
        })
    })
    .namespace("ns")
    .on("add", |ctx, ev| {
        Box::pin(async move {
            let mut d = ctx.data.write().await;
            let v = d.get_mut::<K1>().ok_or(IPCError::from("K1 is missing"))?;
            v.push(String::from_utf8_lossy(ev.data_raw()).to_string());
            ctx.response(b(b""))
        })
    })
    .build()
}
/// Handlers of a server (over several connections), of a client and of a pool share their map.
fn data<T: Tp>(conns: usize, per: usize, pool: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 3, ..Default::default() });
            let count = Arc::new(AtomicUsize::new(0));
            let sb = data_handlers::<T>(T::builder(&net)).insert::<K1>(vec!["s".into()]).insert::<K2>(count.clone());
            // a server's handlers ask the clients' handlers
            let sb = sb.on("relay", |ctx, ev| {
                Box::pin(async move {
                    let d = ev.data_raw().to_vec();
                    ctx.emit("add", b(&d)).await_reply().await?;
                    let mut w = ctx.data.write().await;
                    w.get_mut::<K1>().unwrap().push("relayed".into());
                    Ok(Response::empty())
                })
            });
            let _s = serve::<T>(&net, sb).await;
            let ccount = Arc::new(AtomicUsize::new(0));
            let mut cs = vec![];
            for i in 0..conns {
                let cb = data_handlers::<T>(T::builder(&net)).insert::<K1>(vec![format!("c{i}")]).insert::<K2>(ccount.clone()).insert::<K3>(i as u32);
                cs.push(lift(cb.build_client().await, "connect", "client")?);
            }
            let pl = if pool > 0 {
                let cb = data_handlers::<T>(T::builder(&net)).insert::<K1>(vec!["p".to_string()]).insert::<K2>(ccount.clone());
                Some(lift(cb.build_pooled_client(pool).await, "connect", "pool")?)
            } else {
                None
            };
            let guards: Vec<_> = pl.iter().flat_map(|p| (0..pool).map(|_| p.acquire()).collect::<Vec<_>>()).collect();
            let mut users: Vec<Context> = cs.clone();
            users.extend(guards.iter().map(|g| (**g).clone()));
            // concurrent updates over all connections
            let mut hs = vec![];
            for (i, c) in users.iter().enumerate() {
                for k in 0..per {
                    let c = c.clone();
                    hs.push(tokio::spawn(async move {
                        let d = format!("u{i}.{k}");
                        if k % 2 == 0 {
                            c.emit("add", b(d.as_bytes())).await_reply().await.map(|_| ())
                        } else {
                            c.emit_to("ns", "add", b(d.as_bytes())).await_reply().await.map(|_| ())
                        }
                    }));
                }
            }
            for h in hs {
                lift(lift(within(long(), "update", h).await?, "panic", "task")?, "data", "an update")?;
            }
            for c in &users {
                let r = lift(c.emit("see", b(b"")).await_reply().await, "data", "see")?;
                let s = String::from_utf8_lossy(r.data_raw()).to_string();
                let parts: Vec<&str> = s.split(',').collect();
                ensure!(parts[0] == "s" && parts[parts.len() - 1] == "None", "data", "the server's map is {parts:?}");
                for i in 0..users.len() {
                    for k in 0..per {
                        let w = format!("u{i}.{k}");
                        ensure!(parts.iter().filter(|p| **p == w).count() == 1, "data", "update {w} is not in the server's map exactly once: {parts:?}");
                    }
                }
                ensure!(parts.len() == users.len() * per + 2, "data", "the server's map is {parts:?}");
            }
            let evens = users.len() * per.div_ceil(2);
            ensure!(count.load(SeqCst) == evens, "data", "{} of {evens} shared counts", count.load(SeqCst));
            // what one handler inserts later, others see
            lift(users[0].emit("set", b(&[9])).await_reply().await, "data", "set")?;
            let last = users.last().unwrap();
            let r = lift(last.emit("see", b(b"")).await_reply().await, "data", "see")?;
            ensure!(String::from_utf8_lossy(r.data_raw()).ends_with("Some(9)"), "data", "a later insertion is not visible on another connection");
            // client side: contexts and handlers share one map per client / pool
            for (i, c) in users.iter().enumerate() {
                lift(c.emit("relay", b(format!("r{i}").as_bytes())).await, "io", "emit")?;
            }
            tokio::time::sleep(ms(20)).await;
            for (i, c) in cs.iter().enumerate() {
                let d = c.data.read().await;
                let v = d.get::<K1>().cloned().unwrap_or_default();
                ensure!(v == [format!("c{i}"), format!("r{i}")], "data", "client {i} holds {v:?}");
                ensure!(d.get::<K3>() == Some(&(i as u32)), "data", "client {i}: K3 is {:?}", d.get::<K3>());
            }
            for g in &guards {
                let d = g.data.read().await;
                let mut v = d.get::<K1>().cloned().unwrap_or_default();
                v.sort();
                let mut want: Vec<String> = (0..pool).map(|k| format!("r{}", conns + k)).collect();
                want.insert(0, "p".into());
                ensure!(v == want, "data", "a pool's context holds {v:?} instead of {want:?}");
                ensure!(d.get::<K3>().is_none(), "data", "a pool's context sees another endpoint's data");
            }
            if let Some(g) = guards.first() {
                g.data.write().await.insert::<K3>(77);
                for g in &guards {
                    ensure!(g.data.read().await.get::<K3>() == Some(&77), "data", "data inserted through one context of a pool is not visible on another");
                    ensure!(g.clone().data.read().await.get::<K3>() == Some(&77), "data", "nor on a clone");
                }
                for (i, c) in cs.iter().enumerate() {
                    ensure!(c.data.read().await.get::<K3>() == Some(&(i as u32)), "data", "separate clients share data");
                }
            }
            // connections that are closed and opened again still see the server's map
            let n = lift(T::builder(&net).build_client().await, "connect", "client")?;
            let r = lift(n.emit("see", b(b"")).await_reply().await, "data", "see")?;
            let s = String::from_utf8_lossy(r.data_raw()).to_string();
            ensure!(s.contains("u0.0") && s.ends_with("Some(9)") && s.matches("relayed").count() == users.len(), "data", "a later connection sees {s}");
            Ok(())
        })
    }
}
/// Data a callback or a failing / panicking handler changed stays changed; nothing is reset by connections coming and going.
fn data_later() -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 3, ..Default::default() });
            let sb = data_handlers::<Plain>(Plain::builder(&net)).insert::<K1>(vec![]).insert::<K2>(Default::default()).insert::<K1>(vec!["later".into()]);
            let sb = sb.on("boom", |ctx, ev| {
                Box::pin(async move {
                    ctx.data.write().await.get_mut::<K1>().unwrap().push(String::from_utf8_lossy(ev.data_raw()).to_string());
                    if ev.data_raw() == b"p" {
                        panic!("MC-EXPECTED")
                    }
                    Err("x".into())
                })
            });
            let _s = serve::<Plain>(&net, sb).await;
            let mut want = vec!["later".to_string()];
            for k in 0..4 {
                let c = lift(Plain::builder(&net).build_client().await, "connect", "client")?;
                let d = if k % 2 == 0 { "p" } else { "f" };
                let _ = c.emit("boom", b(d.as_bytes())).await_reply().with_timeout(ms(5)).await;
                want.push(d.into());
                let r = lift(c.emit("see", b(b"")).await_reply().await, "data", "see")?;
                let s = String::from_utf8_lossy(r.data_raw()).to_string();
                ensure!(s == format!("{},None", want.join(",")), "data", "after {k}: {s} instead of {want:?}");
                if k == 1 {
                    lift(c.stop().await, "stop", "stop")?;
                }
            }
            Ok(())
        })
    }
}
pub fn c22(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for (c, per, pool) in [(1, 1, 0), (1, 3, 0), (2, 1, 0), (2, 2, 0), (3, 2, 0), (1, 1, 1), (1, 2, 2), (2, 1, 3), (1, 2, 4)] {
        v.push(Scn::new(format!("plain/{c}/{per}/{pool}"), K_SCHED, t.p(2, 3), t.p(3000, 300_000), data::<Plain>(c, per, pool)));
        #[cfg(feature = "full")]
        v.push(Scn::new(format!("enc/{c}/{per}/{pool}"), K_SCHED, t.p(1, 2), t.p(400, 20_000), data::<Enc>(c, per, pool)));
    }
    v.push(Scn::new("later", K_SCHED, t.p(2, 3), t.p(3000, 300_000), data_later()));
    v
}
