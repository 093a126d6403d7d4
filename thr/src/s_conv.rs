//! Conversations over one connection whose contexts several threads use at once.
use crate::common::*;
use crate::ensure;
use crate::ex::*;
use crate::net::*;
use crate::Tier;
use bromine::prelude::*;
use futures::StreamExt;
use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::Poll;
use tokio::sync::mpsc::unbounded_channel;

/// The runtimes of the endpoints: tasks run on the main thread or on two threads of their own.
fn runtime(multi: bool) -> tokio::runtime::Runtime {
    QUIET.with(|| {
        if multi {
            tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap()
        } else {
            tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
        }
    })
}

/// What a thread does with its context.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A {
    /// a request, answered by the handler's conclusion
    Ask,
    /// a request that fails
    Fail,
    /// a request given up after this many polls
    GiveUp(usize),
    /// a request whose reply comes about when it times out
    Tight,
    /// a stream read to its end
    Stream,
    /// a stream dropped after this many replies
    Leave(usize),
    /// an event nobody waits for
    Tell,
    /// a request whose handler panics
    Boom,
    /// from now on nothing can be written any more
    Cut,
    /// stops event handling
    Stop,
}
use A::*;

/// Polls a future at most n times.
async fn polls<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut k = 0;
    std::future::poll_fn(move |cx| {
        if k == n {
            return Poll::Ready(None);
        }
        k += 1;
        match f.as_mut().poll(cx) {
            Poll::Ready(r) => Poll::Ready(Some(r)),
            Poll::Pending => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    })
    .await
}

#[derive(Clone)]
struct Env {
    net: Net,
    /// the events whose emission succeeded
    sent: Arc<NetMutex<Vec<u8>>>,
    /// something stops or breaks the connection
    stopped: bool,
}
async fn act(env: &Env, ctx: &Context, a: A, tag: u8) -> Res {
    let stopped = env.stopped;
    let p = || b(&[tag]);
    match a {
        Boom => {
            let r = got(ctx.emit("boom", p()).await_reply().with_timeout(ms(20)).await);
            ensure!(r == Got::Timeout || stopped, "reply", "request {tag}, whose handler panics, got {r:?}");
        }
        Cut => env.net.wire(0).refuse_c2s(),
        Ask => {
            let r = got(ctx.emit("echo", p()).await_reply().await);
            obs(format!("{tag} {r:?}"));
            ensure!(r == Got::Ok(vec![tag]) || stopped, "reply", "request {tag} got {r:?}");
        }
        Fail => {
            let r = got(ctx.emit("fail", p()).await_reply().await);
            ensure!(matches!(&r, Got::Event { code: 500, msg: m } if m.contains(&format!("nope {tag}"))) || stopped, "reply", "failing request {tag} got {r:?}");
        }
        GiveUp(n) => {
            let r = polls(ctx.emit("echo", p()).await_reply(), n).await.map(got);
            obs(format!("{tag} {r:?}"));
            if let Some(r) = r {
                ensure!(r == Got::Ok(vec![tag]) || stopped, "reply", "request {tag} got {r:?}");
            }
        }
        Tight => {
            let r = got(ctx.emit("late", p()).await_reply().with_timeout(ms(5)).await);
            obs(format!("{tag} {r:?}"));
            ensure!(r == Got::Ok(vec![tag]) || r == Got::Timeout, "reply", "request {tag} got {r:?}");
        }
        Stream | Leave(_) => {
            let mut s = match ctx.emit("count", p()).stream_replies().await {
                Ok(s) => s,
                Err(_) if stopped => return Ok(()),
                Err(e) => return bad("stream", format!("stream {tag}: {e:?}")),
            };
            let want: Vec<Vec<u8>> = vec![vec![tag, 0], vec![tag, 1], vec![tag, 2]];
            let n = if let Leave(n) = a { n } else { 3 };
            for w in want.iter().take(n) {
                let r = s.next().await.map(got);
                ensure!(r == Some(Got::Ok(w.clone())) || stopped, "stream", "stream {tag} yields {r:?} instead of {w:?}");
            }
            if a == Stream {
                let r = s.next().await.map(got);
                ensure!(r.is_none() || stopped, "stream", "stream {tag} goes on with {r:?}");
            }
        }
        Tell => {
            let r = ctx.emit("note", p()).await;
            ensure!(r.is_ok() || stopped, "emit", "emission {tag} fails: {r:?}");
            if r.is_ok() {
                env.sent.lock().unwrap().push(tag);
            }
        }
        Stop => lift(ctx.clone().stop().await, "stop", "stop")?,
    }
    Ok(())
}

pub fn conv(multi: bool, pooled: bool, scripts: Vec<Vec<A>>) -> impl Fn() -> Res {
    move || {
        let cut = scripts.iter().flatten().any(|a| *a == Cut);
        let stops = scripts.iter().flatten().any(|a| *a == Stop) || cut;
        let rt = runtime(multi);
        let net = Net::new(NetCfg::default());
        let env = Env { net: net.clone(), sent: Default::default(), stopped: stops };
        let notes = Arc::new(NetMutex::new(Vec::<u8>::new()));
        let back = Arc::new(AtomicUsize::new(0));
        let sb = Plain::builder(&net)
            .on("echo", |ctx, ev| Box::pin(async move { ctx.response(b(ev.data_raw())) }))
            .on("fail", |_c, ev| Box::pin(async move { Err(IPCError::from(format!("nope {}", ev.data_raw()[0]))) }))
            .on("late", |ctx, ev| {
                Box::pin(async move {
                    tokio::time::sleep(ms(5)).await;
                    ctx.response(b(ev.data_raw()))
                })
            })
            .on("count", |ctx, ev| {
                Box::pin(async move {
                    let t = ev.data_raw()[0];
                    for i in 0..2 {
                        ctx.emit("n", b(&[t, i])).await?;
                    }
                    ctx.response(b(&[t, 2]))
                })
            })
            .on("note", {
                let notes = notes.clone();
                move |_c, ev| {
                    let notes = notes.clone();
                    Box::pin(async move {
                        notes.lock().unwrap().push(ev.data_raw()[0]);
                        Ok(Response::empty())
                    })
                }
            })
            .on("boom", |_c, _e| Box::pin(async move { panic!("as expected") }))
            .on("poke", |ctx, _| {
                Box::pin(async move {
                    ctx.emit("poked", b(b"")).await?;
                    Ok(Response::empty())
                })
            });
        let cb = Plain::builder(&net).timeout(ms(2000)).on("poked", {
            let back = back.clone();
            move |_c, _e| {
                let back = back.clone();
                Box::pin(async move {
                    back.fetch_add(1, SeqCst);
                    Ok(Response::empty())
                })
            }
        });
        let (ctxs, keep) = QUIET.with(|| {
            rt.block_on(async {
                serve::<Plain>(&net, sb).await;
                if pooled {
                    let p = lift(cb.build_pooled_client(2).await, "connect", "pool")?;
                    let g: Vec<PoolGuard<Context>> = scripts.iter().map(|_| p.acquire()).collect();
                    Ok((g.iter().map(|g| Context::clone(g)).collect::<Vec<_>>(), Some((p, g))))
                } else {
                    let c = lift(cb.build_client().await, "connect", "client")?;
                    Ok((scripts.iter().map(|_| c.clone()).collect(), None))
                }
            })
        })?;
        let last = ctxs[0].clone();
        let (tx, mut rx) = unbounded_channel();
        let hs: Vec<_> = scripts
            .iter()
            .cloned()
            .zip(ctxs)
            .enumerate()
            .map(|(t, (s, ctx))| {
                let (tx, env) = (tx.clone(), env.clone());
                std::thread::spawn(move || {
                    let rt = runtime(false);
                    let r = rt.block_on(async {
                        for (k, a) in s.into_iter().enumerate() {
                            act(&env, &ctx, a, (t * 16 + k) as u8).await?;
                        }
                        Ok(())
                    });
                    drop(ctx);
                    let _ = tx.send(());
                    QUIET.with(|| drop(rt));
                    r
                })
            })
            .collect();
        drop(tx);
        rt.block_on(async { while rx.recv().await.is_some() {} });
        for h in hs {
            match h.join() {
                Ok(r) => r?,
                Err(_) => return bad("panic", "a thread panicked"),
            }
        }
        let told: Vec<u8> = scripts.iter().enumerate().flat_map(|(t, s)| s.iter().enumerate().filter(|a| *a.1 == Tell).map(move |(k, _)| (t * 16 + k) as u8)).collect();
        QUIET.with(|| {
            rt.block_on(async {
                if cut {
                    lift(last.clone().stop().await, "stop", "stopping")?;
                    tokio::time::sleep(ms(10)).await;
                } else if stops {
                    tokio::time::sleep(ms(10)).await;
                    let n = back.load(SeqCst);
                    let _ = last.emit("poke", b(b"")).await;
                    tokio::time::sleep(ms(50)).await;
                    ensure!(back.load(SeqCst) == n, "stop", "an event was handled after stop");
                    lift(last.clone().stop().await, "stop", "stopping again")?;
                } else {
                    // the connection goes on working
                    act(&env, &last, Ask, 250).await?;
                    act(&env, &last, Stream, 251).await?;
                    lift(last.emit("poke", b(b"")).await, "emit", "poke")?;
                    tokio::time::sleep(ms(50)).await;
                    ensure!(back.load(SeqCst) == 1, "event", "an event to the client was handled {} times", back.load(SeqCst));
                }
                let mut n = notes.lock().unwrap().clone();
                n.sort();
                let mut told = told;
                told.sort();
                let sent = env.sent.lock().unwrap().clone();
                obs(format!("{n:?} of {sent:?}"));
                if cut {
                    // what was not reported as sent may have arrived or not
                    told.retain(|t| n.contains(t) || sent.contains(t));
                }
                ensure!(n == told, "event", "the events {n:?} arrived, emitted were {told:?}");
                Ok(())
            })
        })?;
        QUIET.with(|| {
            drop((last, keep));
            drop(rt);
        });
        Ok(())
    }
}
pub fn of(t: Tier, first: u32, kinds: &[Vec<Vec<A>>]) -> Vec<Scn> {
    let mut v = vec![];
    for (i, k) in kinds.iter().enumerate() {
        for (multi, pooled) in [(false, false), (true, false), (false, true)] {
            let id = format!("threads/{}/{}/{k:?}", if multi { "multi" } else { "single" }, if pooled { "pool" } else { "client" });
            // the first one is the smallest
            let depth = if multi || i > 0 || pooled { t.p(1, 2) } else { t.p(first, 3) };
            v.push(Scn::new(id, depth, t.p(200_000, 2_000_000), conv(multi, pooled, k.clone())));
        }
    }
    v
}
pub fn c01(t: Tier) -> Vec<Scn> {
    of(t, 1, &[vec![vec![Ask], vec![Ask]], vec![vec![Ask, Ask], vec![GiveUp(2), Ask]], vec![vec![Fail, Ask], vec![Ask, Fail]]])
}
pub fn c02(t: Tier) -> Vec<Scn> {
    of(t, 1, &[vec![vec![Stream], vec![Stream]], vec![vec![Leave(1), Stream], vec![Leave(0), Stream]]])
}
pub fn c03(t: Tier) -> Vec<Scn> {
    of(t, 2, &[vec![vec![Tell], vec![Tell]], vec![vec![Tell, Tell], vec![Tell, Ask]]])
}
pub fn c06(t: Tier) -> Vec<Scn> {
    of(t, 1, &[vec![vec![Tight, Ask], vec![Tight]]])
}
pub fn c18(t: Tier) -> Vec<Scn> {
    of(t, 2, &[vec![vec![Stop], vec![Stop]], vec![vec![Stop], vec![Ask]], vec![vec![Stop, Stop], vec![Tell, Stop]]])
}
pub fn c20(t: Tier) -> Vec<Scn> {
    let mut k: Vec<Vec<Vec<A>>> = (1..=4).map(|n| vec![vec![GiveUp(n), Ask], vec![Ask]]).collect();
    k.push(vec![vec![GiveUp(1), GiveUp(2)], vec![Leave(0), Leave(1)]]);
    of(t, 1, &k)
}
pub fn c15(t: Tier) -> Vec<Scn> {
    of(t, 2, &[vec![vec![Boom], vec![Ask, Ask]], vec![vec![Boom], vec![Boom]]])
}
pub fn c21(t: Tier) -> Vec<Scn> {
    of(t, 2, &[vec![vec![Cut], vec![Tell, Ask]], vec![vec![Ask, Cut], vec![Stream]]])
}
