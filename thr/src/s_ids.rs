//! C16: event ids are unique in a process.
use crate::ensure;
use crate::ex::*;
use crate::Tier;
use bromine::prelude::*;
use bytes::Bytes;
use std::collections::HashMap;

/// One event, created in the kth way.
fn make(k: usize) -> Event {
    let d = Bytes::from_static(b"x");
    match k % 6 {
        0 => Event::initiator(None, "e".into(), d),
        1 => Event::response(None, "e".into(), d, 7),
        2 => Event::end(Some("n".into()), "e".into(), d, 7),
        3 => Event::error(None, "e".into(), d, 7),
        4 => Event::initiator(Some("n".into()), "e".into(), Bytes::new()),
        _ => Event::response(Some("n".into()), "".into(), d, u64::MAX),
    }
}
fn unique(all: &[(u64, String)]) -> Res {
    let mut m: HashMap<u64, &str> = HashMap::new();
    for (id, what) in all {
        if let Some(o) = m.insert(*id, what) {
            return bad("id", format!("{o} and {what} have the same id {id:#x}"));
        }
    }
    Ok(())
}
const BASES: [i64; 6] = [
    1_700_000_000_000_000_000,
    0,
    -1_000_000_000,
    4_294_967_295_999_999_999,
    1_700_000_000_999_999_999,
    i64::MAX - 1_000_000_000_000,
];
const STEPS: [i64; 10] = [0, 1, -1, 1_000, 1_000_000, -1_000_000, 1_000_000_000, -1_000_000_000, 65_536_000_000_000, -86_400_000_000_000];

/// Threads creating events side by side.
fn threads(n: usize, per: usize, base: i64, steps: Vec<i64>, before: usize, mixed: bool) -> impl Fn() -> Res {
    move || {
        clock(base, &steps);
        let mut all: Vec<(u64, String)> = vec![];
        for k in 0..before {
            all.push((make(k).id(), format!("event {k} before")));
        }
        let hs: Vec<_> = (0..n)
            .map(|t| {
                std::thread::spawn(move || {
                    let mut v = vec![];
                    for k in 0..per {
                        v.push((make(if mixed { t + k } else { 0 }).id(), (t, k)));
                    }
                    v
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(v) => all.extend(v.into_iter().map(|(i, (t, k))| (i, format!("event {k} of thread {t}")))),
                Err(_) => return bad("panic", "creating an event panicked"),
            }
        }
        for k in 0..2 {
            all.push((make(k).id(), format!("event {k} after")));
        }
        ensure!(all.len() == before + n * per + 2, "harness", "events are missing");
        QUIET.with(|| unique(&all))
    }
}
/// Many events on one thread, then on threads that come and go.
fn many(count: usize, gens: usize, base: i64, step: i64, turn: usize) -> impl Fn() -> Res {
    move || {
        max_ops(u64::MAX);
        let mut v: Vec<u64> = Vec::with_capacity(count);
        clock(base, &[step]);
        for k in 0..count {
            if turn > 0 && k % turn == turn - 1 {
                // the clock is set back to where it started
                set_clock(base);
            }
            v.push(make(k).id());
        }
        for g in 0..gens {
            if g % 3 == 2 {
                set_clock(base);
            }
            match std::thread::spawn(move || (0..300).map(|k| make(k).id()).collect::<Vec<_>>()).join() {
                Ok(x) => v.extend(x),
                Err(_) => return bad("panic", "creating an event panicked"),
            }
        }
        QUIET.with(|| {
            let n = v.len();
            let at: HashMap<u64, usize> = if n < 1_000_000 { v.iter().enumerate().map(|(i, x)| (*x, i)).rev().collect() } else { HashMap::new() };
            let mut s = v.clone();
            s.sort_unstable();
            for w in s.windows(2) {
                ensure!(w[0] != w[1], "id", "id {:#x} was given twice among {n} events (first as number {:?}, wall clock step {step} ns)", w[0], at.get(&w[0]));
            }
            Ok(())
        })
    }
}
pub fn c16(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let mut profiles: Vec<Vec<i64>> = STEPS.iter().map(|s| vec![*s]).collect();
    // the explorer chooses the clock's movements
    profiles.push(vec![0, 1, -1]);
    profiles.push(vec![1_000, -1_000, 0, 1_000_000_000, -1_000_000_000]);
    profiles.push(vec![1_000_000, 0, -1_000_000, 65_536_000_000_000, -65_536_000_000_000]);
    for (bi, base) in BASES.into_iter().enumerate() {
        for p in &profiles {
            for (n, per, before) in [(1, 6, 0), (2, 2, 0), (2, 3, 1), (3, 1, 0), (3, 2, 1), (4, 1, 0)] {
                if bi > 1 && n > 2 && !t.thorough {
                    continue;
                }
                let depth = t.p(if n > 2 { 3 } else { 5 }, 9);
                v.push(Scn::new(format!("threads/{n}x{per}/{before}/{base}/{p:?}"), depth, t.p(400, 60_000), threads(n, per, base, p.clone(), before, before == 1)));
            }
        }
    }
    for base in BASES {
        for s in STEPS {
            for turn in [0, 1, 2, 100] {
                v.push(Scn::new(format!("many/{base}/{s}/{turn}"), 0, 1, many(t.p(70_000, 300_000), 6, base, s, turn)));
            }
        }
    }
    for s in [0, 1, 1_000_000] {
        v.push(Scn::new(format!("long/{s}"), 0, 1, many(t.p(5_000_000, 150_000_000), 10, BASES[0], s, 0)));
    }
    v.push(Scn::new("generations", 0, 1, many(10, 400, BASES[0], 0, 0)));
    v
}
