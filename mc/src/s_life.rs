//! C07 residue.
use crate::alloc;
use crate::common::*;
use crate::ensure;
use crate::ex::*;
use crate::net::*;
use crate::refc::*;
use crate::s_reply::Tier;
use bromine::prelude::*;
use futures::StreamExt;

// ---------------------------------------------------------------------------------------- C07

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hist {
    Reply(&'static str),
    /// never answered, or answered only after the timeout
    Timeout(bool),
    /// dropped after this many pending polls
    ReplyDropped(&'static str, usize),
    StreamAll(u8, u8),
    StreamSome(u8, u8),
    StreamTimeout(u8),
    StreamOpenDropped(usize),
    StreamPollDropped(u8, usize),
    Emit,
    EmitDropped(usize),
    NeverPolled,
    Unencodable(u8),
    HeaderTooLong(u8),
    HandlerError,
    HandlerPanic,
    HandlerAsks,
    HandlerAsksDropped(usize),
    Unsolicited,
    ForeignFrames,
}
struct Bad2;
impl IntoPayload for Bad2 {
    fn into_payload(self, _: &Context) -> IPCResult<bytes::Bytes> {
        Err("unencodable".into())
    }
}
fn res_handlers<T: Tp>(bld: Builder<T>) -> Builder<T> {
    crate::s_reply::std_handlers::<T>(bld)
        .on("mute", |_c, _e| {
            Box::pin(async move {
                tokio::time::sleep(ms(30)).await;
                Ok(Response::empty())
            })
        })
        .on("s", |ctx, ev| {
            Box::pin(async move {
                let d = ev.data_raw().to_vec();
                for k in 0..d[0] {
                    ctx.emit("part", b(&[k])).await?;
                }
                match d[1] {
                    0 => ctx.response(b(b"end")),
                    1 => Err("end".into()),
                    _ => {
                        tokio::time::sleep(ms(30)).await;
                        Ok(Response::empty())
                    }
                }
            })
        })
        .on("panic", |_c, _e| Box::pin(async move { panic!("MC-EXPECTED") }))
        .on("asks", |ctx, ev| {
            Box::pin(async move {
                let d = ev.data_raw().to_vec();
                let f = ctx.emit("echo", b(b"q")).await_reply().with_timeout(ms(20));
                if d[0] == 255 {
                    f.await?;
                } else if let Some(r) = poll_n(f, d[0] as usize).await {
                    r?;
                }
                Ok(Response::empty())
            })
        })
        .on("late", |_c, _e| {
            Box::pin(async move {
                tokio::time::sleep(ms(9)).await;
                Ok(Response::empty())
            })
        })
}
async fn once(c: &Context, h: Hist) -> Result<(), Bad> {
    match h {
        Hist::Reply(k) => drop(c.emit(k, b(&[1, 2])).await_reply().await),
        Hist::Timeout(late) => {
            let n = if late { "late" } else { "mute" };
            let r = c.emit(n, b(b"")).await_reply().with_timeout(ms(5)).await;
            ensure!(matches!(r, Err(IPCError::Timeout)), "residue", "expected a timeout");
        }
        Hist::ReplyDropped(k, n) => drop(poll_n(c.emit(k, b(&[1, 2])).await_reply(), n).await),
        Hist::StreamAll(n, e) => {
            let mut s = lift(c.emit("s", b(&[n, e])).stream_replies().await, "residue", "open")?;
            while let Some(_) = s.next().await {}
        }
        Hist::StreamSome(n, take) => {
            let mut s = lift(c.emit("s", b(&[n, 0])).stream_replies().await, "residue", "open")?;
            for _ in 0..take {
                drop(s.next().await);
            }
        }
        Hist::StreamTimeout(n) => {
            let mut s = lift(c.emit("s", b(&[n, 2])).stream_replies().with_timeout(ms(5)).await, "residue", "open")?;
            while let Some(_) = s.next().await {}
        }
        Hist::StreamOpenDropped(n) => drop(poll_n(c.emit("s", b(&[1, 0])).stream_replies(), n).await),
        Hist::StreamPollDropped(k, n) => {
            let mut s = lift(c.emit("s", b(&[k, 0])).stream_replies().await, "residue", "open")?;
            for _ in 0..k {
                drop(s.next().await);
            }
            drop(poll_n(s.next(), n).await);
        }
        Hist::Emit => drop(c.emit("echo", b(b"x")).await),
        Hist::EmitDropped(n) => drop(poll_n(c.emit("echo", b(b"x")), n).await),
        Hist::NeverPolled => {
            drop(c.emit("echo", b(b"x")));
            drop(c.emit("echo", b(b"x")).await_reply());
            drop(c.emit("echo", b(b"x")).stream_replies());
        }
        Hist::Unencodable(k) => match k {
            0 => ensure!(c.emit("echo", Bad2).await.is_err(), "residue", "unencodable payload accepted"),
            1 => ensure!(c.emit("echo", Bad2).await_reply().await.is_err(), "residue", "unencodable payload accepted"),
            _ => ensure!(c.emit("echo", Bad2).stream_replies().await.is_err(), "residue", "unencodable payload accepted"),
        },
        Hist::HeaderTooLong(k) => {
            let n = "n".repeat(66_000);
            match k {
                0 => ensure!(c.emit(n, b(b"")).await.is_err(), "residue", "unrepresentable event accepted"),
                1 => ensure!(c.emit(n, b(b"")).await_reply().await.is_err(), "residue", "unrepresentable event accepted"),
                _ => ensure!(c.emit(n, b(b"")).stream_replies().await.is_err(), "residue", "unrepresentable event accepted"),
            }
        }
        Hist::HandlerError => drop(c.emit("fail", b(b"x")).await),
        Hist::HandlerPanic => drop(c.emit("panic", b(b"x")).await_reply().with_timeout(ms(5)).await),
        Hist::HandlerAsks => drop(c.emit("asks", b(&[255])).await),
        Hist::HandlerAsksDropped(n) => drop(c.emit("asks", b(&[n as u8])).await),
        Hist::Unsolicited => drop(c.emit("emit", b(b"x")).await),
        Hist::ForeignFrames => drop(c.emit_to("nowhere", "x", b(b"x")).await),
    }
    Ok(())
}
fn leak_check(what: &str, a: (i64, i64), z: (i64, i64), rounds: i64) -> Res {
    let (blocks, bytes) = (z.0 - a.0, z.1 - a.1);
    ensure!(blocks < rounds && bytes < rounds * 16 + 8000, "residue", "{what}: {rounds} repetitions left {blocks} more memory blocks and {bytes} more bytes");
    Ok(())
}
fn residue<T: Tp>(h: Hist, warm: usize, rounds: usize, cfg: NetCfg) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let cfg = NetCfg { nolog: true, ..cfg.clone() };
        Box::pin(async move {
            prepare_rounds();
            let net = Net::new(cfg);
            let _s = serve::<T>(&net, res_handlers::<T>(T::builder(&net))).await;
            let c = lift(res_handlers::<T>(T::builder(&net)).build_client().await, "connect", "client")?;
            let mut a = (0, 0);
            for k in 0..warm + rounds {
                if k == warm {
                    a = alloc::live();
                }
                if k == 0 || k >= warm {
                    next_round();
                }
                once(&c, h).await?;
                tokio::time::sleep(ms(50)).await;
            }
            let z = alloc::live();
            leak_check(&format!("{h:?} over {}", T::NAME), a, z, rounds as i64)
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Conn {
    StopDrop,
    PeerDrops,
    PeerDropsMidFrame,
    Malformed,
    PendingReply,
    PendingStream,
    PendingStreamFull,
    PendingHandler,
    HandlerWaiting,
    FaultRead,
    FaultWrite,
    EmitAfterClose,
    HandshakeCut(usize),
    HandshakeUnknown,
    PoolStop,
    ServerGone,
}
/// Whole connections come and go: nothing of them may remain.
fn conn_residue<T: Tp>(h: Conn, rounds: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            prepare_rounds();
            let cfg = NetCfg { nolog: true, ..Default::default() };
            let net = Net::new(cfg.clone());
            let _s = serve::<T>(&net, res_handlers::<T>(T::builder(&net))).await;
            let warm = 6;
            let mut a = (0, 0);
            for k in 0..warm + rounds {
                if k == warm {
                    a = alloc::live();
                }
                if k == 0 || k >= warm {
                    next_round();
                }
                match h {
                    Conn::StopDrop => {
                        let c = lift(res_handlers::<T>(T::builder(&net)).build_client().await, "connect", "client")?;
                        let _ = c.emit("echo", b(b"x")).await_reply().await;
                        lift(c.stop().await, "stop", "stop")?;
                    }
                    Conn::PoolStop => {
                        let p = lift(res_handlers::<T>(T::builder(&net)).build_pooled_client(2).await, "connect", "client")?;
                        let (g, h) = (p.acquire(), p.acquire());
                        let _ = g.emit("echo", b(b"x")).await_reply().await;
                        let _ = h.emit("echo", b(b"x")).await_reply().await;
                        lift((*g).clone().stop().await, "stop", "stop")?;
                        lift((*h).clone().stop().await, "stop", "stop")?;
                    }
                    Conn::PeerDrops => {
                        let r = SimRaw::connect(&net).unwrap();
                        drop(r);
                    }
                    Conn::PeerDropsMidFrame => {
                        let mut r = SimRaw::connect(&net).unwrap();
                        let f = Frame::new(1, INIT, None, "echo", &[1; 40]).encode();
                        let _ = r.send_bytes(&f).await;
                        let _ = r.send_bytes(&f[..30]).await;
                    }
                    Conn::Malformed => {
                        let mut r = SimRaw::connect(&net).unwrap();
                        let _ = r.send_bytes(&[9; 40]).await;
                        idle().await;
                    }
                    Conn::PendingReply | Conn::PendingStream | Conn::PendingStreamFull | Conn::EmitAfterClose | Conn::ServerGone => {
                        // a client whose server goes away while it waits
                        let net2 = Net::new(cfg.clone());
                        let l = net2.listen();
                        let c = lift(res_handlers::<Plain>(Plain::builder(&net2)).build_client().await, "connect", "client")?;
                        let mut raw = SimRaw::accept(&l).await;
                        match h {
                            Conn::PendingReply => {
                                let c2 = c.clone();
                                let t = tokio::spawn(async move { got(c2.emit("q", b(b"")).await_reply().with_timeout(ms(9)).await) });
                                let _ = raw.recv().await;
                                drop(raw);
                                drop(l);
                                drop(c);
                                let _ = t.await;
                            }
                            Conn::PendingStream | Conn::PendingStreamFull => {
                                let mut s = lift(c.emit("q", b(b"")).stream_replies().with_timeout(ms(9)).await, "residue", "open")?;
                                let f = lift(raw.recv_some().await, "frame", "recv")?;
                                let n = if h == Conn::PendingStreamFull { 12 } else { 1 };
                                for k in 0..n {
                                    let id = raw.id();
                                    let _ = raw.send(&Frame::new(id, RESP, Some(f.id), "x", &[k])).await;
                                }
                                idle().await;
                                drop(raw);
                                drop(c);
                                let _ = s.next().await;
                            }
                            Conn::ServerGone => {
                                drop(raw);
                                drop(l);
                                idle().await;
                                drop(c);
                            }
                            _ => {
                                drop(raw);
                                idle().await;
                                let _ = c.emit("x", b(b"")).await;
                                let _ = c.emit("x", b(b"")).await_reply().with_timeout(ms(5)).await;
                                let _ = c.emit("x", b(b"")).stream_replies().await;
                            }
                        }
                    }
                    Conn::PendingHandler | Conn::HandlerWaiting => {
                        let c = lift(T::builder(&net).build_client().await, "connect", "client")?;
                        let n = if h == Conn::PendingHandler { "mute" } else { "asks" };
                        let _ = c.emit(n, b(&[255])).await;
                        idle().await;
                        lift(c.stop().await, "stop", "stop")?;
                    }
                    Conn::FaultRead | Conn::FaultWrite => {
                        let op = if h == Conn::FaultRead { Op::Read } else { Op::Write };
                        let n3 = Net::with(
                            cfg.clone(),
                            NetCfg { fault: Some(Fault { conn: 0, client_side: false, op, nth: 1, kind: FaultKind::Err(std::io::ErrorKind::ConnectionReset) }), ..cfg.clone() },
                            3,
                        );
                        let s3 = serve::<T>(&n3, res_handlers::<T>(T::builder(&n3))).await;
                        if let Ok(c) = T::builder(&n3).build_client().await {
                            let _ = c.emit("emit", b(b"x")).await_reply().with_timeout(ms(5)).await;
                            let _ = c.emit("emit", b(b"x")).await_reply().with_timeout(ms(5)).await;
                            let _ = c.stop().await;
                        }
                        s3.abort();
                        let _ = s3.await;
                    }
                    Conn::HandshakeCut(n) => {
                        let mut r = SimRaw::connect(&net).unwrap();
                        let _ = r.send_bytes(&vec![7; n]).await;
                        idle().await;
                    }
                    Conn::HandshakeUnknown => {
                        #[cfg(feature = "full")]
                        {
                            let e = bromine::IPCBuilder::<T::L>::new().address(net.clone()).build_client().await;
                            ensure!(e.is_err() || T::NAME == "plain", "admission", "an unknown peer got in");
                            if let Ok(c) = e {
                                let _ = c.stop().await;
                            }
                        }
                    }
                }
                tokio::time::sleep(ms(50)).await;
            }
            let z = alloc::live();
            leak_check(&format!("{h:?} over {}", T::NAME), a, z, rounds as i64)
        })
    }
}

pub fn c07(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let mut hs = vec![
        Hist::Timeout(false),
        Hist::Timeout(true),
        Hist::Emit,
        Hist::NeverPolled,
        Hist::HandlerError,
        Hist::HandlerPanic,
        Hist::HandlerAsks,
        Hist::Unsolicited,
        Hist::ForeignFrames,
    ];
    for k in ["echo", "fail", "emit", "none"] {
        hs.push(Hist::Reply(k));
        for n in 1..=t.p(5, 8) {
            hs.push(Hist::ReplyDropped(k, n));
        }
    }
    for n in [0u8, 1, 3, 8, 9, 12] {
        for e in 0..2 {
            hs.push(Hist::StreamAll(n, e));
        }
        for k in [0u8, 1, 2, 8, 9, 12, 13] {
            if k <= n + 1 {
                hs.push(Hist::StreamSome(n, k));
            }
        }
        hs.push(Hist::StreamTimeout(n));
        for p in 1..=3 {
            hs.push(Hist::StreamPollDropped(n, p));
        }
    }
    for n in 1..=t.p(5, 8) {
        hs.push(Hist::StreamOpenDropped(n));
        hs.push(Hist::EmitDropped(n));
        hs.push(Hist::HandlerAsksDropped(n));
    }
    for k in 0..3 {
        hs.push(Hist::Unencodable(k));
        hs.push(Hist::HeaderTooLong(k));
    }
    for h in hs {
        let d = || NetCfg::default();
        v.push(Scn::new(format!("long/{h:?}"), K_ALL, 0, 1, residue::<Plain>(h, 256, 512, d())));
        v.push(Scn::new(format!("dev/{h:?}"), K_ALL, t.p(1, 2), t.p(300, 20_000), residue::<Plain>(h, 6, 40, d())));
        v.push(Scn::new(format!("cap/{h:?}"), K_ALL, t.p(1, 2), t.p(150, 8_000), residue::<Plain>(h, 6, 40, NetCfg { buffered: true, ..NetCfg::cap(25) })));
        #[cfg(feature = "full")]
        v.push(Scn::new(format!("enc/{h:?}"), K_ALL, t.p(0, 1), t.p(60, 3_000), residue::<Enc>(h, 6, 40, d())));
    }
    let mut cs = vec![
        Conn::StopDrop,
        Conn::PeerDrops,
        Conn::PeerDropsMidFrame,
        Conn::Malformed,
        Conn::PendingReply,
        Conn::PendingStream,
        Conn::PendingStreamFull,
        Conn::PendingHandler,
        Conn::HandlerWaiting,
        Conn::FaultRead,
        Conn::FaultWrite,
        Conn::EmitAfterClose,
        Conn::PoolStop,
        Conn::ServerGone,
    ];
    for c in cs.iter() {
        v.push(Scn::new(format!("conn/{c:?}"), K_ALL, t.p(1, 2), t.p(300, 20_000), conn_residue::<Plain>(*c, 40)));
    }
    cs.push(Conn::HandshakeUnknown);
    for n in [0usize, 1, 31, 32, 33, 40] {
        cs.push(Conn::HandshakeCut(n));
    }
    #[cfg(feature = "full")]
    for c in cs.iter() {
        v.push(Scn::new(format!("conn-enc/{c:?}"), K_ALL, t.p(0, 1), t.p(60, 3_000), conn_residue::<Enc>(*c, 40)));
    }
    v
}
