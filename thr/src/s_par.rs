//! Contexts used by several threads at once.
use crate::common::*;
use crate::ensure;
use crate::ex::*;
use crate::net::*;
use crate::Tier;
use bromine::prelude::*;
use std::sync::Arc;

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
}

// ---------------------------------------------------------------------------------------- C17

async fn which(net: &Net, g: &Context, n: usize) -> Result<usize, Bad> {
    let before: Vec<u64> = (0..n).map(|i| net.wire(i).c2s.lock().unwrap().accepted).collect();
    lift(g.emit("id", b(b"")).await, "pool", "emitting over an acquired context")?;
    let grown: Vec<usize> = (0..n).filter(|i| net.wire(*i).c2s.lock().unwrap().accepted > before[*i]).collect();
    ensure!(grown.len() == 1, "pool", "an event was written to the connections {grown:?}");
    Ok(grown[0])
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    Acquire,
    Clone,
    Drop,
    ClonePool,
    DropPool,
}
use P::*;
fn pool(size: usize, held: usize, scripts: Vec<Vec<P>>) -> impl Fn() -> Res {
    move || {
        let rt = runtime();
        let net = Net::new(NetCfg::default());
        let l = net.listen();
        let p = lift(QUIET.with(|| rt.block_on(Plain::builder(&net).build_pooled_client(size))), "pool", "pool")?;
        let p = Arc::new(p);
        let mut guards: Vec<PoolGuard<Context>> = (0..held).map(|_| p.acquire()).collect();
        let hs: Vec<_> = scripts
            .iter()
            .cloned()
            .map(|s| {
                let p = p.clone();
                let mut mine: Vec<PoolGuard<Context>> = if guards.is_empty() { vec![] } else { vec![guards.remove(0)] };
                std::thread::spawn(move || {
                    let mut pools: Vec<PooledContext> = vec![];
                    for o in s {
                        match o {
                            Acquire => mine.push(pools.last().unwrap_or(&p).acquire()),
                            Clone => {
                                if let Some(g) = mine.last().cloned() {
                                    mine.push(g)
                                }
                            }
                            Drop => {
                                if !mine.is_empty() {
                                    std::mem::drop(mine.remove(0))
                                }
                            }
                            ClonePool => pools.push((*p).clone()),
                            DropPool => {
                                pools.pop();
                            }
                        }
                    }
                    (mine, pools)
                })
            })
            .collect();
        let mut pools = vec![];
        for h in hs {
            match h.join() {
                Ok((g, ps)) => {
                    guards.extend(g);
                    pools.extend(ps);
                }
                Err(_) => return bad("panic", "an operation on the pool panicked"),
            }
        }
        QUIET.with(|| {
            rt.block_on(async {
                let mut count = vec![0; size];
                for g in &guards {
                    count[which(&net, g, size).await?] += 1;
                }
                obs(format!("{count:?}"));
                let mut more = vec![];
                for k in 0..2 * size + 1 {
                    let g = pools.last().unwrap_or(&p).acquire();
                    let w = which(&net, &g, size).await?;
                    ensure!(count[w] == *count.iter().min().unwrap(), "pool", "threads running {scripts:?} with {held} guards held before; then acquisition {k} yields connection {w}, in use are {count:?}");
                    count[w] += 1;
                    more.push(g);
                }
                // all given back: the counts are even again
                std::mem::drop((more, std::mem::take(&mut guards)));
                let mut count = vec![0; size];
                let mut more = vec![];
                for k in 0..2 * size {
                    let g = p.acquire();
                    let w = which(&net, &g, size).await?;
                    ensure!(count[w] == *count.iter().min().unwrap(), "pool", "threads ran {scripts:?}, everything was given back; then acquisition {k} yields connection {w}, in use are {count:?}");
                    count[w] += 1;
                    more.push(g);
                }
                Ok(())
            })
        })?;
        std::mem::drop(l);
        Ok(())
    }
}
fn all_scripts(len: usize) -> Vec<Vec<P>> {
    let mut v: Vec<Vec<P>> = vec![vec![]];
    for _ in 0..len {
        let mut n = vec![];
        for s in &v {
            for o in [Acquire, Clone, Drop, ClonePool, DropPool] {
                // nothing to give back
                if o == DropPool && !s.iter().any(|x| *x == ClonePool) {
                    continue;
                }
                let mut s = s.clone();
                s.push(o);
                n.push(s);
            }
        }
        v = n;
    }
    v
}
pub fn c17(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for len in 1..=t.p(2, 3) {
        let s = all_scripts(len);
        for i in 0..s.len() {
            for j in i..s.len() {
                for (size, held) in [(1, 2), (2, 2), (2, 0), (3, 3)] {
                    let id = format!("threads/{size}/{held}/{:?}|{:?}", s[i], s[j]);
                    v.push(Scn::new(id, t.p(4, 6), t.p(if len == 1 { 1500 } else { 60 }, 6000), pool(size, held, vec![s[i].clone(), s[j].clone()])));
                }
            }
        }
    }
    for size in 1..=3 {
        for s in [vec![Acquire, Drop], vec![Clone, Drop], vec![Acquire], vec![Clone]] {
            v.push(Scn::new(format!("three/{size}/{s:?}"), t.p(3, 5), t.p(1500, 60_000), pool(size, 3, vec![s.clone(), s.clone(), s.clone()])));
        }
    }
    v
}
