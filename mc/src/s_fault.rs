//! C17 pool, C20 dropped operations, C21 transport failures.
use crate::common::*;
use crate::ensure;
use crate::ex::*;
use crate::net::*;
use crate::refc::*;
use crate::s_reply::{expect, same, std_handlers, Tier};
use bromine::prelude::*;
use futures::StreamExt;
use std::io::ErrorKind;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------------------------------- C17

#[derive(Clone, Copy, Debug, PartialEq)]
enum POp {
    /// acquire from the nth pool handle
    Acq(u8),
    /// clone / drop the nth guard
    Clone(u8),
    Drop(u8),
    /// clone / drop the nth pool handle
    ClonePool(u8),
    DropPool(u8),
    /// clone only the context of the nth guard (does not count as in use)
    Ctx(u8),
}
/// All sequences of operations up to a length, as a tree walk over abstract counts.
fn pool_seqs(depth: usize, out: &mut Vec<Vec<POp>>) {
    fn go(pools: u8, guards: u8, left: usize, cur: &mut Vec<POp>, out: &mut Vec<Vec<POp>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        let mut opts = vec![];
        for p in 0..pools {
            opts.push((POp::Acq(p), pools, guards + 1));
            opts.push((POp::ClonePool(p), pools + 1, guards));
            opts.push((POp::DropPool(p), pools - 1, guards));
        }
        for g in 0..guards {
            opts.push((POp::Clone(g), pools, guards + 1));
            opts.push((POp::Drop(g), pools, guards - 1));
        }
        if guards > 0 {
            opts.push((POp::Ctx(guards - 1), pools, guards));
        }
        for (o, p, g) in opts {
            // without a pool handle nothing can be observed any more
            if p == 0 || p > 3 {
                continue;
            }
            cur.push(o);
            go(p, g, left - 1, cur, out);
            cur.pop();
        }
    }
    go(1, 0, depth, &mut vec![], out);
}
async fn which(net: &Net, g: &Context, n: usize) -> Result<usize, Bad> {
    let before: Vec<u64> = (0..n).map(|i| net.wire(i).c2s.lock().unwrap().accepted).collect();
    lift(g.emit("id", b(b"")).await, "pool", "emitting over an acquired context")?;
    let grown: Vec<usize> = (0..n).filter(|i| net.wire(*i).c2s.lock().unwrap().accepted > before[*i]).collect();
    ensure!(grown.len() == 1, "pool", "an event was written to the connections {grown:?}");
    Ok(grown[0])
}
fn pool_ops(size: usize, seqs: Arc<Vec<Vec<POp>>>, lo: usize, hi: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let seqs = seqs.clone();
        Box::pin(async move {
            for seq in &seqs[lo..hi] {
                eval();
                let net = Net::new(NetCfg::default());
                let l = net.listen();
                let p = lift(Plain::builder(&net).build_pooled_client(size).await, "pool", "pool")?;
                ensure!(net.wires() == size, "pool", "a pool of {size} opened {} connections", net.wires());
                let mut pools = vec![p];
                let mut guards: Vec<(PoolGuard<Context>, usize)> = vec![];
                let mut ctxs = vec![];
                let mut count = vec![0i64; size];
                for (k, op) in seq.iter().enumerate() {
                    match *op {
                        POp::Acq(i) => {
                            let g = pools[i as usize].acquire();
                            let w = which(&net, &g, size).await?;
                            let min = *count.iter().min().unwrap();
                            ensure!(count[w] == min, "pool", "size {size}, {seq:?}, step {k}: acquired connection {w}; in use are {count:?}");
                            count[w] += 1;
                            guards.push((g, w));
                        }
                        POp::Clone(i) => {
                            let (g, w) = (guards[i as usize].0.clone(), guards[i as usize].1);
                            let w2 = which(&net, &g, size).await?;
                            ensure!(w == w2, "pool", "a cloned guard uses connection {w2} instead of {w}");
                            count[w] += 1;
                            guards.push((g, w));
                        }
                        POp::Drop(i) => {
                            let (g, w) = guards.remove(i as usize);
                            drop(g);
                            count[w] -= 1;
                        }
                        POp::ClonePool(i) => {
                            let p = pools[i as usize].clone();
                            pools.push(p);
                        }
                        POp::DropPool(i) => drop(pools.remove(i as usize)),
                        POp::Ctx(i) => ctxs.push((*guards[i as usize].0).clone()),
                    }
                }
                ensure!(net.wires() == size, "pool", "{seq:?}: {} connections are open", net.wires());
                // the counts decide every further acquisition
                let mut more = vec![];
                for k in 0..2 * size {
                    let g = pools[0].acquire();
                    let w = which(&net, &g, size).await?;
                    let min = *count.iter().min().unwrap();
                    ensure!(count[w] == min, "pool", "size {size}, {seq:?}, then acquisition {k}: connection {w}; in use are {count:?}");
                    count[w] += 1;
                    more.push((g, w));
                }
                drop(l);
            }
            Ok(())
        })
    }
}
fn pool_sizes() -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            for n in (0..=12usize).chain([16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]) {
                eval();
                let net = Net::new(NetCfg::default());
                let _s = serve::<Plain>(&net, std_handlers::<Plain>(Plain::builder(&net))).await;
                let r = Plain::builder(&net).timeout(ms(40)).build_pooled_client(n).await;
                if n == 0 {
                    ensure!(matches!(r, Err(IPCError::BuildError(_))), "pool", "a pool of 0 is not refused");
                    ensure!(net.wires() == 0, "pool", "a refused pool opened a connection");
                    continue;
                }
                let p = lift(r, "pool", "pool")?;
                ensure!(net.wires() == n, "pool", "a pool of {n} opened {} connections", net.wires());
                let gs: Vec<_> = (0..n).map(|_| p.acquire()).collect();
                let mut seen = std::collections::HashSet::new();
                for g in &gs {
                    seen.insert(which(&net, g, n).await?);
                    let r = got(g.emit("echo", b(b"a")).await_reply().await);
                    ensure!(r == Got::Ok(b"a".to_vec()), "pool", "echo over an acquired context: {r:?}");
                    let t0 = tokio::time::Instant::now();
                    let r = got(g.emit("slow", b(&[100])).await_reply().await);
                    let el = t0.elapsed();
                    ensure!(r == Got::Timeout && el >= ms(40) && el <= ms(42), "pool", "a connection of a pool of {n} with a timeout of 40 ms: {r:?} after {el:?}");
                }
                ensure!(seen.len() == n, "pool", "{n} acquisitions used only the connections {seen:?}");
            }
            let r = bromine::IPCBuilder::<crate::net::SimListener>::new().build_pooled_client(2).await;
            ensure!(matches!(r, Err(IPCError::BuildError(_))), "pool", "a pool without address is not refused");
            // nobody listens
            let net = Net::new(NetCfg::default());
            ensure!(Plain::builder(&net).build_pooled_client(2).await.is_err(), "pool", "a pool without a server is not refused");
            Ok(())
        })
    }
}
/// So many guards of one connection (clones, or one after the other) are held that narrow
/// counters would overflow.
fn pool_many(size: usize, how: u8) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg::default());
            let l = net.listen();
            let p = lift(Plain::builder(&net).build_pooled_client(size).await, "pool", "pool")?;
            let mut count = vec![0usize; size];
            let mut held: Vec<Vec<PoolGuard<Context>>> = (0..size).map(|_| vec![]).collect();
            for _ in 0..size {
                let g = p.acquire();
                let w = which(&net, &g, size).await?;
                count[w] += 1;
                held[w].push(g);
            }
            ensure!(count.iter().all(|c| *c == 1), "pool", "{size} acquisitions of a pool of {size} are spread {count:?}");
            if how == 2 {
                // many on all of them, given back all at once
                for _ in 0..70_000 * size {
                    let g = p.acquire();
                    held[0].push(g);
                }
                held[0].truncate(1);
                count = vec![1; size];
            }
            let stops = [126usize, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1024, 32_766, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 131_072];
            // the last connection is the one least in use
            for s in stops {
                for w in 0..size - 1 {
                    while held[w].len() < s + w {
                        let g = held[w][0].clone();
                        held[w].push(g);
                    }
                }
                eval();
                let last = size - 1;
                let mut got = vec![];
                for _ in 0..3 {
                    let g = p.acquire();
                    let at = which(&net, &g, size).await?;
                    ensure!(at == last, "pool", "with {:?} guards held connection {at} was acquired", held.iter().map(|h| h.len()).collect::<Vec<_>>());
                    got.push(g);
                }
                if how == 1 {
                    // all but one given back and taken again
                    for w in 0..size - 1 {
                        held[w].truncate(1);
                    }
                    let g = p.acquire();
                    let at = which(&net, &g, size).await?;
                    ensure!(at != last || size == 1, "pool", "the connection in use most was acquired: {at}");
                    drop(g);
                }
            }
            drop(l);
            Ok(())
        })
    }
}
/// Configuration, handlers and data are the same on all connections of a pool.
fn pool_shared<T: Tp>(n: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 3, ..Default::default() });
            let answers = Log::new();
            let a2 = answers.clone();
            let sb = std_handlers::<T>(T::builder(&net)).on("ask", move |ctx, ev| {
                let a2 = a2.clone();
                Box::pin(async move {
                    let d = ev.data_raw().to_vec();
                    let r = if d[1] == 0 {
                        got(ctx.emit("q", b(&d)).await_reply().with_timeout(ms(900)).await)
                    } else {
                        got(ctx.emit_to("n", "q", b(&d)).await_reply().with_timeout(ms(900)).await)
                    };
                    a2.add(format!("{d:?}{r:?}"));
                    Ok(Response::empty())
                })
            });
            let _s = serve::<T>(&net, sb).await;
            let ran = Arc::new(Mutex::new(0u8));
            let (r1, r2) = (ran.clone(), ran.clone());
            let cb = T::builder(&net)
                .timeout(ms(40))
                .on("q", move |ctx, ev| {
                    let r1 = r1.clone();
                    Box::pin(async move {
                        *r1.lock().unwrap() += 1;
                        ctx.response(b(&[ev.data_raw(), b"g"].concat()))
                    })
                })
                .namespace("n")
                .on("q", move |ctx, ev| {
                    let r2 = r2.clone();
                    Box::pin(async move {
                        *r2.lock().unwrap() += 1;
                        ctx.response(b(&[ev.data_raw(), b"n"].concat()))
                    })
                })
                .build();
            let p = lift(cb.build_pooled_client(n).await, "pool", "pool")?;
            let gs: Vec<_> = (0..n).map(|_| p.acquire()).collect();
            for (i, g) in gs.iter().enumerate() {
                for k in 0..2u8 {
                    lift(g.emit("ask", b(&[i as u8, k])).await, "pool", "emit")?;
                }
            }
            tokio::time::sleep(ms(5)).await;
            for i in 0..n as u8 {
                for k in 0..2u8 {
                    let w = format!("{:?}{:?}", [i, k], Got::Ok(vec![i, k, [b'g', b'n'][k as usize]]));
                    ensure!(answers.count(&w) == 1, "pool", "handlers are not shared by all connections of a pool: {:?}", answers.get());
                }
            }
            ensure!(*ran.lock().unwrap() as usize == 2 * n, "pool", "handlers ran {} times", ran.lock().unwrap());
            for (i, g) in gs.iter().enumerate() {
                let t0 = tokio::time::Instant::now();
                let r = got(g.emit("slow", b(&[100])).await_reply().await);
                let el = t0.elapsed();
                ensure!(r == Got::Timeout && el >= ms(40) && el <= ms(42), "pool", "connection {i} of a pool with a timeout of 40 ms: {r:?} after {el:?}");
            }
            Ok(())
        })
    }
}
/// Tasks acquire, use, clone and drop concurrently; afterwards the counts are exact.
fn pool_tasks(size: usize, tasks: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 2, ..Default::default() });
            let _s = serve::<Plain>(&net, std_handlers::<Plain>(Plain::builder(&net))).await;
            let p = lift(Plain::builder(&net).build_pooled_client(size).await, "pool", "pool")?;
            let mut hs = vec![];
            for i in 0..tasks {
                let p = p.clone();
                hs.push(tokio::spawn(async move {
                    let g = p.acquire();
                    let r = got(g.emit("echo", b(&[i as u8])).await_reply().await);
                    let h = g.clone();
                    drop(g);
                    tokio::task::yield_now().await;
                    let q = got(h.emit("emit", b(&[i as u8])).await_reply().await);
                    let keep = if i % 2 == 0 { Some(h) } else { None };
                    (r == Got::Ok(vec![i as u8]) && q == Got::Ok(vec![i as u8, b'1']), keep)
                }));
            }
            let mut held = vec![];
            for h in hs {
                let (ok, g) = lift(within(long(), "task", h).await?, "panic", "task")?;
                ensure!(ok, "pool", "a reply over a pool was wrong");
                held.extend(g);
            }
            let mut count = vec![0; size];
            for g in &held {
                count[which(&net, g, size).await?] += 1;
            }
            let mut more = vec![];
            for _ in 0..2 * size + 1 {
                let g = p.acquire();
                let w = which(&net, &g, size).await?;
                ensure!(count[w] == *count.iter().min().unwrap(), "pool", "after concurrent use connection {w} was acquired; in use are {count:?}");
                count[w] += 1;
                more.push(g);
            }
            Ok(())
        })
    }
}
/// One of the connections of a pool cannot be opened: there is no pool; the next attempt is not affected. `late`: the connection is
/// accepted and lost during its key exchange.
fn pool_fails<T: Tp>(n: usize, k: usize, kind: std::io::ErrorKind, late: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 2, ..Default::default() });
            if late {
                net.fail_accept(k, kind, false);
            } else {
                net.fail_dial(k, kind);
            }
            let _s = serve::<T>(&net, std_handlers::<T>(T::builder(&net))).await;
            let r = within(long(), "building a pool", T::builder(&net).build_pooled_client(n)).await?;
            ensure!(r.is_err(), "pool", "a pool of {n} was built although connection {k} of it could not be opened");
            drop(r);
            idle().await;
            let before = net.wires();
            let p = lift(within(long(), "building a pool", T::builder(&net).build_pooled_client(n)).await?, "pool", "a pool after a failed one")?;
            ensure!(net.wires() == before + n, "pool", "a pool of {n} opened {} connections", net.wires() - before);
            for _ in 0..n {
                let g = p.acquire();
                let r = got(g.emit("echo", b(b"a")).await_reply().await);
                ensure!(r == Got::Ok(b"a".to_vec()), "pool", "echo over an acquired context: {r:?}");
            }
            Ok(())
        })
    }
}
pub fn c17(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    v.push(Scn::new("sizes", 0, 0, 1, pool_sizes()).vast());
    for size in [2usize, 3, 5] {
        for how in 0..3 {
            v.push(Scn::new(format!("many/{size}/{how}"), 0, 0, 1, pool_many(size, how)).vast());
        }
    }
    for n in 1..=5 {
        for k in 1..=n {
            use std::io::ErrorKind::*;
            for kind in [ConnectionRefused, ConnectionReset, TimedOut, AddrInUse, Other] {
                v.push(Scn::new(format!("fails/{n}/{k}/{kind:?}"), K_SCHED | K_IO, 1, t.p(100, 5000), pool_fails::<Plain>(n, k, kind, false)));
                #[cfg(feature = "full")]
                for late in [false, true] {
                    v.push(Scn::new(format!("fails-enc/{n}/{k}/{kind:?}/{late}"), K_SCHED | K_IO, t.p(0, 1), t.p(1, 500), pool_fails::<Enc>(n, k, kind, late)));
                }
            }
        }
    }
    for size in 1..=t.p(3, 4) {
        for d in 1..=t.p(6, 7) {
            let mut s = vec![];
            pool_seqs(d, &mut s);
            let s = Arc::new(s);
            let step = 2000;
            for lo in (0..s.len()).step_by(step) {
                let hi = (lo + step).min(s.len());
                v.push(Scn::new(format!("ops/{size}/{d}/{lo}"), 0, 0, 1, pool_ops(size, s.clone(), lo, hi)));
            }
        }
    }
    for n in 1..=4 {
        v.push(Scn::new(format!("shared/plain/{n}"), K_SCHED, 1, t.p(1500, 100_000), pool_shared::<Plain>(n)));
        #[cfg(feature = "full")]
        v.push(Scn::new(format!("shared/enc/{n}"), K_SCHED, 1, t.p(150, 5_000), pool_shared::<Enc>(n)));
    }
    for (s, k) in [(1, 2), (2, 2), (2, 3), (3, 3), (2, 5)] {
        v.push(Scn::new(format!("tasks/{s}/{k}"), K_SCHED, t.p(2, 3), t.p(4000, 300_000), pool_tasks(s, k)));
    }
    v
}

// ---------------------------------------------------------------------------------------- C20

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Emit,
    EmitNs,
    Reply,
    Open,
    Item,
    /// dropped by a timeout around it instead of after a number of polls
    EmitTimeout,
    ReplyTimeout,
}
/// events of (id, data) per direction
type Seen = Arc<Mutex<Vec<(u64, Vec<u8>)>>>;
fn note<T: Tp>(bld: Builder<T>, seen: &Seen) -> Builder<T> {
    let (s1, s2, s3) = (seen.clone(), seen.clone(), seen.clone());
    bld.on("note", move |ctx, ev| {
        let s1 = s1.clone();
        Box::pin(async move {
            s1.lock().unwrap().push((ev.id(), ev.data_raw().to_vec()));
            ctx.response(b(ev.data_raw()))
        })
    })
    .on("parts", move |ctx, ev| {
        let s2 = s2.clone();
        Box::pin(async move {
            s2.lock().unwrap().push((ev.id(), ev.data_raw().to_vec()));
            ctx.emit("part", b(ev.data_raw())).await?;
            ctx.emit("part", b(ev.data_raw())).await?;
            ctx.response(b(ev.data_raw()))
        })
    })
    .namespace("n")
    .on("note", move |ctx, ev| {
        let s3 = s3.clone();
        Box::pin(async move {
            s3.lock().unwrap().push((ev.id(), ev.data_raw().to_vec()));
            ctx.response(b(ev.data_raw()))
        })
    })
    .build()
}
/// Starts an operation, drops it after `polls` pending polls.
async fn dropping(c: &Context, what: What, d: &[u8], polls: usize) -> bool {
    let quick = ms(20_000);
    match what {
        What::Emit => poll_n(c.emit("note", b(d)), polls).await.is_some(),
        What::EmitNs => poll_n(c.emit_to("n", "note", b(d)), polls).await.is_some(),
        What::Reply => poll_n(c.emit("parts", b(d)).await_reply().with_timeout(quick), polls).await.is_some(),
        What::Open => poll_n(c.emit("parts", b(d)).stream_replies().with_timeout(quick), polls).await.is_some(),
        What::Item => match c.emit("parts", b(d)).stream_replies().with_timeout(quick).await {
            Ok(mut s) => poll_n(s.next(), polls).await.is_some(),
            Err(_) => false,
        },
        What::EmitTimeout => tokio::time::timeout(ms(polls as u64), c.emit("note", b(d))).await.is_ok(),
        What::ReplyTimeout => tokio::time::timeout(ms(polls as u64), c.emit("parts", b(d)).await_reply()).await.is_ok(),
    }
}
#[derive(Clone, Debug)]
struct DropCase {
    what: What,
    polls: usize,
    size: usize,
    /// sizes of the other events, emitted concurrently by as many tasks; and by the server
    others: Vec<usize>,
    server: Vec<usize>,
    /// the peer reads slowly: bytes are only taken every few ms
    cap: usize,
    buffered: bool,
    chunk: usize,
    /// drops happen in the server's handler instead
    in_handler: bool,
    times: usize,
    stall: u64,
}
fn dropped<T: Tp>(k: DropCase) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let k = k.clone();
        Box::pin(async move {
            let cfg = NetCfg { cap: k.cap, buffered: k.buffered, max_write: k.chunk, max_read: k.chunk, stall: k.stall, ..Default::default() };
            let net = Net::new(cfg.clone());
            let patience = ms(20_000 + 20 * k.stall);
            let (at_s, at_c): (Seen, Seen) = Default::default();
            let done = Log::new();
            let d2 = done.clone();
            let k2 = k.clone();
            let sb = note::<T>(T::patient(&net), &at_s).on("go", move |ctx, ev| {
                let (d2, k2) = (d2.clone(), k2.clone());
                Box::pin(async move {
                    let i = ev.data_raw()[0] as usize;
                    let size = k2.server[i];
                    ctx.emit("note", b(&vec![100 + i as u8; size])).await?;
                    d2.add("go");
                    Ok(Response::empty())
                })
            });
            let k3 = k.clone();
            let sb = sb.on("dropper", move |ctx, _e| {
                let k3 = k3.clone();
                Box::pin(async move {
                    for n in 0..k3.times {
                        dropping(ctx, k3.what, &vec![200 + n as u8; k3.size], k3.polls).await;
                    }
                    Ok(Response::empty())
                })
            });
            let _s = serve::<T>(&net, sb).await;
            let c = lift(note::<T>(T::patient(&net), &at_c).build_client().await, "connect", "client")?;
            let mut hs = vec![];
            for i in 0..k.server.len() {
                lift(c.emit("go", b(&[i as u8])).await, "io", "emit")?;
            }
            for (i, size) in k.others.iter().enumerate() {
                let (c, d) = (c.clone(), vec![i as u8; *size]);
                hs.push(tokio::spawn(async move { got(c.emit("note", b(&d)).await_reply().with_timeout(patience).await) == Got::Ok(d) }));
            }
            if k.in_handler {
                lift(c.emit("dropper", b(b"")).await, "io", "emit")?;
                settle(30, &cfg).await;
            } else {
                for n in 0..k.times {
                    let fin = dropping(&c, k.what, &vec![200 + n as u8; k.size], k.polls).await;
                    obs(format!("completed {fin}"));
                }
            }
            for h in hs {
                let ok = lift(within(patience + patience / 2, "another event's reply", h).await?, "panic", "task")?;
                ensure!(ok, "dropped", "another event was not answered as expected");
            }
            // later operations work
            for n in 0..3u8 {
                let r = got(within(patience + patience / 2, "a later request", c.emit("note", b(&[60 + n; 5])).await_reply().with_timeout(patience)).await?);
                ensure!(r == Got::Ok(vec![60 + n; 5]), "dropped", "a later request: {r:?}");
            }
            let mut s = lift(within(patience + patience / 2, "a later stream", c.emit("parts", b(b"later")).stream_replies().with_timeout(patience)).await?, "dropped", "open")?;
            let mut n = 0;
            while let Some(e) = within(patience + patience / 2, "a later stream item", s.next()).await? {
                let e = lift(e, "dropped", "item")?;
                ensure!(e.data_raw() == b"later", "dropped", "a later stream yielded {:?}", e.data_raw());
                n += 1;
            }
            ensure!(n == 3, "dropped", "a later stream yielded {n} items");
            settle(20, &cfg).await;
            let (a, z) = (at_s.lock().unwrap().clone(), at_c.lock().unwrap().clone());
            let mut want: Vec<Vec<u8>> = k.others.iter().enumerate().map(|(i, n)| vec![i as u8; *n]).collect();
            want.extend((0..3u8).map(|n| vec![60 + n; 5]));
            want.push(b"later".to_vec());
            let mut want_c: Vec<Vec<u8>> = k.server.iter().enumerate().map(|(i, n)| vec![100 + i as u8; *n]).collect();
            for (dir, seen, want) in [("server", a, &mut want), ("client", z, &mut want_c)] {
                for w in want.iter() {
                    let m = seen.iter().filter(|s| s.1 == *w).count();
                    ensure!(m == 1, "dropped", "the {dir} received the event {:?}... of {} bytes {m} times", w.first(), w.len());
                }
                let rest: Vec<_> = seen.iter().filter(|s| !want.contains(&s.1)).collect();
                for n in 0..k.times {
                    let m = rest.iter().filter(|r| r.1 == vec![200 + n as u8; k.size]).count();
                    ensure!(m <= 1, "dropped", "the dropped event was received {m} times by the {dir}");
                }
                ensure!(rest.iter().all(|r| r.1.len() == k.size && r.1.first().map_or(true, |x| *x >= 200 && r.1.iter().all(|y| y == x))), "dropped", "the {dir} received an altered event: {:?}", rest.iter().map(|r| (r.1.len(), r.1.first().copied())).collect::<Vec<_>>());
            }
            if T::NAME == "plain" {
                for (dir, w) in [("client", net.wire(0).c2s_log()), ("server", net.wire(0).s2c_log())] {
                    match Frame::split(&w) {
                        Ok((_, rest)) => ensure!(rest == 0, "dropped", "the {dir} left {rest} bytes of an unfinished frame"),
                        Err(e) => return bad("dropped", format!("what the {dir} sent are no frames: {e}")),
                    }
                }
            }
            Ok(())
        })
    }
}
pub fn c20(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let whats = [What::Emit, What::EmitNs, What::Reply, What::Open, What::Item, What::EmitTimeout, What::ReplyTimeout];
    let nets: [(&str, usize, bool, usize); 5] = [
        ("whole", 1 << 20, false, usize::MAX),
        ("cap9", 9, false, usize::MAX),
        ("cap64b", 64, true, usize::MAX),
        ("chunk5", 1 << 20, true, 5),
        ("cap1100", 1100, true, 700),
    ];
    let loads: [(&str, Vec<usize>, Vec<usize>, usize); 4] = [
        ("alone", vec![], vec![], 20),
        ("one", vec![30], vec![7], 20),
        ("big", vec![2500, 3], vec![1300], 1500),
        ("three", vec![3, 40, 1], vec![50, 2], 40),
    ];
    for (nn, cap, buffered, chunk) in nets {
        for (ln, others, server, size) in &loads {
            // much data in tiny pieces takes very many steps
            let tiny = (ln.to_string(), vec![120, 3], vec![70], 90);
            let (ln, others, server, size) = if *ln == "big" && cap.min(chunk) < 10 { (&*tiny.0, &tiny.1, &tiny.2, &tiny.3) } else { (*ln, others, server, size) };
            for what in whats {
                for polls in 1..=t.p(5, 12) {
                    for in_handler in [false, true] {
                        for times in [1usize, 3] {
                            if times == 3 && (polls > 3 || in_handler) {
                                continue;
                            }
                            let k = DropCase { what, polls, size: *size, others: others.clone(), server: server.clone(), cap, buffered, chunk, in_handler, times, stall: 0 };
                            let id = format!("{nn}/{ln}/{what:?}/{polls}/{in_handler}/{times}");
                            let lvl = if times > 1 && nn != "whole" || cap.min(chunk) < 10 && (polls % 2 == 0 || polls > 3) || polls > 4 || ln == "three" && in_handler { 0 } else { 1 };
                            v.push(Scn::new(format!("plain/{id}"), K_ALL, t.p(lvl, 2), t.p(120, 4000), dropped::<Plain>(k.clone())));
                            #[cfg(feature = "full")]
                            v.push(Scn::new(format!("enc/{id}"), K_ALL, t.p(lvl, 1), t.p(8, 400), dropped::<Enc>(k.clone())));
                            if times == 1 && polls <= 3 && nn != "chunk5" && (nn == "whole" || ln != "big") && (t.thorough || lvl > 0) {
                                let k = DropCase { stall: 600_000, ..k };
                                v.push(Scn::new(format!("stall/plain/{id}"), K_IO, t.p(1, 2), t.p(200, 4000), dropped::<Plain>(k.clone())));
                                #[cfg(feature = "full")]
                                v.push(Scn::new(format!("stall/enc/{id}"), K_IO, 1, t.p(15, 400), dropped::<Enc>(k)));
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------- C21

/// A conversation that exercises every kind of operation on a connection that fails at some point.
fn faulty<T: Tp>(f: Option<Fault>, choice: bool, buffered: bool, cap: usize, stall: u64) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let cfg = NetCfg { buffered, cap, fault: f, fault_choice: choice, stall, ..Default::default() };
            let net = Net::new(cfg.clone());
            let slack = ms(5 * stall);
            let s_emits: Arc<Mutex<Vec<(u64, Vec<u8>)>>> = Default::default();
            let asked = Log::new();
            let (s2, a2) = (s_emits.clone(), asked.clone());
            let sb = std_handlers::<T>(T::builder(&net))
                .on("many", move |ctx, ev| {
                    let s2 = s2.clone();
                    Box::pin(async move {
                        for k in 0..3u8 {
                            let d = vec![k; 30];
                            let id = ctx.emit("part", b(&d)).await?;
                            s2.lock().unwrap().push((id, d));
                        }
                        ctx.response(b(ev.data_raw()))
                    })
                })
                .on("ask", move |ctx, _e| {
                    let a2 = a2.clone();
                    Box::pin(async move {
                        let t0 = tokio::time::Instant::now();
                        a2.add("asking");
                        let r = got(ctx.emit("q", b(b"q")).await_reply().with_timeout(ms(50)).await);
                        a2.add(format!("asked {r:?} {}", t0.elapsed() <= ms(52) + slack));
                        Ok(Response::empty())
                    })
                });
            let srv = serve::<T>(&net, sb).await;
            let cb = T::builder(&net).timeout(ms(70)).on("q", |ctx, _e| Box::pin(async move { ctx.response(b(b"a")) }));
            let c = match within(ms(10_000) + slack * 2, "connecting", cb.build_client()).await? {
                Ok(c) => c,
                Err(e) => {
                    obs(format!("refused {e:?}"));
                    ensure!(T::NAME == "enc", "fault", "connecting failed: {e:?}");
                    ensure!(!srv.is_finished(), "fault", "the server ended");
                    return Ok(());
                }
            };
            let mut hs = vec![];
            let emitted: Arc<Mutex<Vec<(u64, Vec<u8>)>>> = Default::default();
            for i in 0..2u8 {
                let (c, em) = (c.clone(), emitted.clone());
                hs.push(tokio::spawn(async move {
                    let mut failed = false;
                    for k in 0..2u8 {
                        let d = vec![i * 2 + k; 25];
                        match c.emit("echo", b(&d)).await {
                            Ok(id) => {
                                if T::NAME == "plain" {
                                    ensure!(!failed, "fault", "an emission succeeded after one failed on a broken transport");
                                }
                                em.lock().unwrap().push((id, d))
                            }
                            Err(e) => {
                                obs(format!("emit failed"));
                                ensure!(matches!(e, IPCError::IoError(_)), "fault", "a transport failure was reported as {e:?}");
                                failed = true
                            }
                        }
                    }
                    Ok(())
                }));
            }
            for i in 0..2u8 {
                let c = c.clone();
                hs.push(tokio::spawn(async move {
                    for k in ["emit", "fail", "echo"] {
                        let d = vec![9, i];
                        let t0 = tokio::time::Instant::now();
                        let r = got(c.emit(k, b(&d)).await_reply().await);
                        let el = t0.elapsed();
                        obs(format!("{k} {}", same(&expect(k, &d), &r)));
                        ensure!(el <= ms(72) + slack, "fault", "{k}: waiting for the reply ended after {el:?} with {r:?} although the timeout is 70 ms");
                        ensure!(!matches!(r, Got::Ok(_) | Got::Event { .. }) || same(&expect(k, &d), &r), "fault", "{k} yielded {r:?}");
                    }
                    Ok(())
                }));
            }
            let c3 = c.clone();
            hs.push(tokio::spawn(async move {
                let t0 = tokio::time::Instant::now();
                let mut s = match c3.emit("many", b(b"m")).stream_replies().await {
                    Ok(s) => s,
                    Err(_) => return Ok(()),
                };
                let mut n = 0;
                while let Some(e) = s.next().await {
                    if let Ok(e) = e {
                        let w: Vec<u8> = if n < 3 { vec![n as u8; 30] } else { b"m".to_vec() };
                        ensure!(e.data_raw() == w, "fault", "item {n} is {:?}", e.data_raw());
                    }
                    n += 1;
                    ensure!(n <= 5, "fault", "the stream does not end");
                }
                ensure!(t0.elapsed() <= ms(72 * 5) + slack, "fault", "the stream ended after {:?}", t0.elapsed());
                ensure!(s.next().await.is_none(), "fault", "an ended stream yields an item");
                Ok(())
            }));
            let _ = c.emit("ask", b(b"")).await;
            for h in hs {
                lift(within(ms(10_000) + slack * 2, "an operation on a failing transport", h).await?, "panic", "task")??;
            }
            settle(100, &cfg).await;
            let l = asked.get();
            ensure!(l.len() % 2 == 0, "fault", "a handler waiting for a reply hangs: {l:?}");
            for a in l.iter().filter(|a| a.starts_with("asked")) {
                ensure!(a.ends_with("true"), "fault", "a handler waited longer than its timeout: {a}");
            }
            if T::NAME == "plain" {
                let w = net.wire(0);
                for (dir, log, em) in [("client", w.c2s_log(), emitted.lock().unwrap().clone()), ("server", w.s2c_log(), s_emits.lock().unwrap().clone())] {
                    let (fs, _) = match Frame::split(&log) {
                        Ok(x) => x,
                        Err(e) => return bad("fault", format!("what the {dir} sent are no frames: {e}")),
                    };
                    for (id, d) in em {
                        ensure!(fs.iter().filter(|f| f.id == id && f.data == d).count() == 1, "fault", "an emission of the {dir} succeeded but its event {d:?} was not sent and flushed");
                    }
                }
            }
            ensure!(!srv.is_finished(), "fault", "the server ended");
            // a new connection works
            if !choice && f.map_or(true, |f| f.conn == 0) {
                let c = lift(within(ms(10_000) + slack * 2, "connecting again", T::builder(&net).build_client()).await?, "fault", "connecting again")?;
                let r = got(c.emit("echo", b(b"z")).await_reply().with_timeout(ms(100) + slack * 2).await);
                ensure!(r == Got::Ok(b"z".to_vec()), "fault", "a new connection after the failure: {r:?}");
            }
            Ok(())
        })
    }
}
/// Failures after which the transport would go on working: whatever an endpoint does next, its
/// peer's events are never taken for something else and its own bytes stay whole frames. The
/// payloads look like frames themselves.
fn smuggle<T: Tp>(f: Fault, again: bool, size: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let cfg = NetCfg { fault: Some(f), transient: true, max_read: size, ..Default::default() };
            let net = Net::new(cfg);
            let bad_ones = Log::new();
            let seen: Arc<Mutex<Vec<(u8, u64, String, Vec<u8>)>>> = Default::default();
            let sent: Arc<Mutex<Vec<(u8, u64, String, Vec<u8>)>>> = Default::default();
            // frames in frames, so that any loss of bytes leads to one
            let inner: Vec<u8> = (0..4u64).flat_map(|k| Frame::new(RAW_ID + 900 + k, INIT, None, "smuggled", b"x").encode()).collect();
            let add = |bld: Builder<T>, side: u8| {
                let (b1, b2, s1) = (bad_ones.clone(), bad_ones.clone(), seen.clone());
                bld.on("smuggled", move |_c, _e| {
                    b1.add("smuggled");
                    Box::pin(async move { Ok(Response::empty()) })
                })
                .on("outer", move |ctx, ev| {
                    s1.lock().unwrap().push((side, ev.id(), "outer".into(), ev.data_raw().to_vec()));
                    Box::pin(async move { ctx.response(b(b"")) })
                })
                .namespace("n")
                .on("smuggled", move |_c, _e| {
                    b2.add("smuggled");
                    Box::pin(async move { Ok(Response::empty()) })
                })
                .build()
            };
            let (s2, i2) = (sent.clone(), inner.clone());
            let sb = add(T::builder(&net), 1).on("back", move |ctx, _e| {
                let (s2, i2) = (s2.clone(), i2.clone());
                Box::pin(async move {
                    for k in 0..3u8 {
                        let d = [&[k][..], &i2].concat();
                        if let Ok(id) = ctx.emit("outer", b(&d)).await {
                            s2.lock().unwrap().push((2, id, "outer".into(), d));
                        }
                    }
                    Ok(Response::empty())
                })
            });
            let srv = serve::<T>(&net, sb).await;
            let c = match within(ms(10_000), "connecting", add(T::builder(&net).timeout(ms(70)), 2).build_client()).await? {
                Ok(c) => c,
                Err(_) => return Ok(()),
            };
            let _ = c.emit("back", b(b"")).await;
            for k in 0..3u8 {
                let d = [&[k][..], &inner].concat();
                let mut e = c.emit("outer", b(&d)).await;
                if again && e.is_err() {
                    e = c.emit("outer", b(&d)).await;
                }
                if let Ok(id) = e {
                    sent.lock().unwrap().push((1, id, "outer".into(), d));
                }
            }
            let t0 = tokio::time::Instant::now();
            let r = got(within(ms(5000), "a request", c.emit("outer", b(&inner)).await_reply()).await?);
            ensure!(t0.elapsed() <= ms(72), "fault", "a request ended after {:?} with {r:?}", t0.elapsed());
            obs(format!("{r:?}"));
            idle().await;
            ensure!(bad_ones.get().is_empty(), "fault", "a handler ran for an event that was never emitted: part of a payload was taken for it");
            let (sent, seen) = (sent.lock().unwrap().clone(), seen.lock().unwrap().clone());
            for s in &seen {
                ensure!(s.3 == inner || s.3.get(1..) == Some(&inner[..]), "fault", "an event arrived changed: {:?}", s.3);
                ensure!(seen.iter().filter(|x| x.1 == s.1).count() == 1, "fault", "an event arrived twice");
            }
            obs(format!("{} of {}", seen.len(), sent.len()));
            if f.op != Op::Read {
                // the readers are well, so everything sent is received
                for s in &sent {
                    ensure!(seen.iter().any(|x| x == s), "fault", "the emission of {:x} succeeded but the event was not received", s.1);
                }
            }
            if T::NAME == "plain" {
                let w = net.wire(0);
                for (dir, log) in [("client", w.c2s_log()), ("server", w.s2c_log())] {
                    if let Err(e) = Frame::split(&log) {
                        return bad("fault", format!("what the {dir} sent are no frames: {e}"));
                    }
                }
            }
            ensure!(!srv.is_finished(), "fault", "the server ended");
            Ok(())
        })
    }
}
/// The peer (raw) closes after a number of bytes, in one or both directions.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Close {
    Both,
    Write,
    Read,
}
fn closing(n: usize, how: Close, replies: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 10, ..Default::default() });
            let l = net.listen();
            let c = lift(Plain::builder(&net).timeout(ms(70)).build_client().await, "connect", "client")?;
            let mut raw = SimRaw::accept(&l).await;
            let c2 = c.clone();
            let t0 = tokio::time::Instant::now();
            let h1 = tokio::spawn(async move { got(c2.emit("a", b(b"")).await_reply().await) });
            let c2 = c.clone();
            let h2 = tokio::spawn(async move {
                let mut s = match c2.emit("b", b(b"")).stream_replies().await {
                    Ok(s) => s,
                    Err(_) => return Ok(vec![]),
                };
                let mut v = vec![];
                while let Some(e) = s.next().await {
                    v.push(e.map(|e| e.data_raw().to_vec()).map_err(got_err));
                    ensure!(v.len() < 10, "fault", "the stream does not end: {v:?}");
                }
                Ok(v)
            });
            let (mut ia, mut ib) = (0, 0);
            for _ in 0..2 {
                let f = lift(raw.recv_some().await, "frame", "recv")?;
                if f.name == "a" {
                    ia = f.id
                } else {
                    ib = f.id
                }
            }
            let mut bytes = vec![];
            for k in 0..replies {
                let id = raw.id();
                bytes.extend(Frame::new(id, RESP, Some(ib), "x", &[k as u8]).encode());
            }
            let id = raw.id();
            bytes.extend(Frame::new(id, END, Some(ia), "end", b"fin").encode());
            let cut = n.min(bytes.len());
            let _ = raw.send_bytes(&bytes[..cut]).await;
            let SimRaw { r, w, .. } = raw;
            let hold: Box<dyn std::any::Any + Send> = match how {
                Close::Both => {
                    drop(r);
                    drop(w);
                    Box::new(())
                }
                Close::Write => {
                    drop(w);
                    Box::new(r)
                }
                Close::Read => {
                    drop(r);
                    net.wire(0).refuse_c2s();
                    Box::new(w)
                }
            };
            let a = lift(within(ms(5000), "a request on a closed connection", h1).await?, "panic", "task")?;
            let el = t0.elapsed();
            let (whole, _) = Frame::split(&bytes[..cut]).unwrap();
            if whole.iter().any(|f| f.re == Some(ia)) {
                ensure!(a == Got::Ok(b"fin".to_vec()), "fault", "the reply had arrived but the request yielded {a:?}");
            } else {
                ensure!(matches!(a, Got::Timeout | Got::Other(_)) && el <= ms(72), "fault", "a request without reply yielded {a:?} after {el:?}");
            }
            let s = lift(within(ms(5000), "a stream on a closed connection", h2).await?, "panic", "task")??;
            let k = whole.iter().filter(|f| f.re == Some(ib)).count();
            let oks: Vec<_> = s.iter().take_while(|x| x.is_ok()).collect();
            ensure!(oks.len() == k && s.len() <= k + 1, "fault", "{k} replies had arrived but the stream yielded {s:?}");
            // emissions
            let e = c.emit("c", b(b"")).await;
            obs(format!("later emission {}", e.is_ok()));
            if how == Close::Both || how == Close::Read {
                ensure!(e.is_err(), "fault", "an emission to a closed peer succeeded");
            }
            let t1 = tokio::time::Instant::now();
            let r = got(within(ms(5000), "a later request", c.emit("d", b(b"")).await_reply()).await?);
            ensure!(matches!(r, Got::Timeout | Got::Other(_)) && t1.elapsed() <= ms(72), "fault", "a later request yielded {r:?}");
            drop(hold);
            Ok(())
        })
    }
}
pub fn c21(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let kinds = [
        FaultKind::Err(ErrorKind::ConnectionReset),
        FaultKind::Err(ErrorKind::BrokenPipe),
        FaultKind::Err(ErrorKind::Other),
        FaultKind::Err(ErrorKind::TimedOut),
        FaultKind::Err(ErrorKind::UnexpectedEof),
        FaultKind::Zero,
    ];
    for client_side in [true, false] {
        for op in [Op::Read, Op::Write, Op::Flush] {
            for nth in 0..t.p(14, 40) {
                for (ki, kind) in kinds.into_iter().enumerate() {
                    if ki > 0 && ki < 5 && nth > t.p(4, 40) {
                        continue;
                    }
                    let f = Fault { conn: 0, client_side, op, nth, kind };
                    let id = format!("{}/{op:?}/{nth}/{kind:?}", if client_side { "c" } else { "s" });
                    for (cn, buffered, cap) in [("n", false, 1 << 20), ("b", true, 1 << 20), ("s", true, 37)] {
                        v.push(Scn::new(format!("plain/{id}/{cn}"), K_ALL, 1, t.p(if ki == 0 { 60 } else { 15 }, 4000), faulty::<Plain>(Some(f), false, buffered, cap, 0)));
                        #[cfg(feature = "full")]
                        if cn != "n" {
                            v.push(Scn::new(format!("enc/{id}/{cn}"), K_ALL, 1, t.p(5, 400), faulty::<Enc>(Some(f), false, buffered, cap, 0)));
                        }
                    }
                }
            }
        }
    }
    {
        use ErrorKind::*;
        for kind in [Interrupted, WouldBlock, TimedOut, ConnectionReset, ConnectionAborted, BrokenPipe, NotConnected, InvalidData, InvalidInput, UnexpectedEof, WriteZero, PermissionDenied, OutOfMemory, Unsupported, Other] {
            for client_side in [true, false] {
                for op in [Op::Read, Op::Write, Op::Flush] {
                    for nth in 0..t.p(24, 60) {
                        for size in [usize::MAX, 7] {
                            let f = Fault { conn: 0, client_side, op, nth, kind: FaultKind::Err(kind) };
                            let id = format!("transient/{kind:?}/{client_side}/{op:?}/{nth}/{size}");
                            let again = nth % 2 == 0;
                            let d = if nth < 8 && size > 7 { t.p(1, 2) } else { 0 };
                            v.push(Scn::new(format!("{id}/plain"), K_SCHED, d, 2000, smuggle::<Plain>(f, again, size)));
                            #[cfg(feature = "full")]
                            v.push(Scn::new(format!("{id}/enc"), K_SCHED, d, 2000, smuggle::<Enc>(f, again, size)));
                        }
                    }
                }
            }
        }
    }
    v.push(Scn::new("any/plain", K_ALL | 1 << FAULT, t.p(2, 3), t.p(20_000, 2_000_000), faulty::<Plain>(None, true, true, 1 << 20, 0)));
    v.push(Scn::new("any/plain/cap", K_ALL | 1 << FAULT, t.p(1, 2), t.p(20_000, 2_000_000), faulty::<Plain>(None, true, true, 33, 0)));
    #[cfg(feature = "full")]
    v.push(Scn::new("any/enc", K_ALL | 1 << FAULT, t.p(1, 2), t.p(5_000, 500_000), faulty::<Enc>(None, true, true, 1 << 20, 0)));
    for (cn, buffered, cap) in [("n", false, 1 << 20), ("b", true, 1 << 20), ("s", true, 37)] {
        v.push(Scn::new(format!("stall/plain/{cn}"), K_IO | 1 << FAULT, 2, t.p(12_000, 1_000_000), faulty::<Plain>(None, true, buffered, cap, 600_000)));
        #[cfg(feature = "full")]
        v.push(Scn::new(format!("stall/enc/{cn}"), K_IO | 1 << FAULT, t.p(1, 2), t.p(4_000, 300_000), faulty::<Enc>(None, true, buffered, cap, 600_000)));
    }
    let total = 40 * 3 + 40;
    for n in (0..total).step_by(t.p(3, 1)) {
        for how in [Close::Both, Close::Write, Close::Read] {
            v.push(Scn::new(format!("close/{how:?}/{n}"), K_ALL, t.p(1, 2), t.p(300, 20_000), closing(n, how, 3)));
        }
    }
    v
}
