//! C03 delivery, C04 routing, C05 handling and conclusions.
use crate::common::*;
use crate::ensure;
use crate::ex::*;
use crate::net::*;
use crate::refc::*;
use crate::s_reply::Tier;
use bromine::error_event::ErrorEventData;
use bromine::prelude::*;
use futures::StreamExt;
use std::any::Any;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Side {
    Server,
    Client,
}
/// An endpoint under test connected to raw peers.
pub struct Eut {
    pub raw: Vec<SimRaw>,
    pub ctx: Option<Context>,
    pub hold: Box<dyn Any + Send>,
}
pub async fn eut(side: Side, net: &Net, bld: Builder<Plain>, conns: usize) -> Result<Eut, Bad> {
    match side {
        Side::Server => {
            let h = serve::<Plain>(net, bld).await;
            let raw = (0..conns).map(|_| SimRaw::connect(net).unwrap()).collect();
            Ok(Eut { raw, ctx: None, hold: Box::new(h) })
        }
        Side::Client => {
            let l = net.listen();
            if conns == 1 {
                let c = lift(bld.build_client().await, "connect", "client")?;
                let raw = vec![SimRaw::accept(&l).await];
                Ok(Eut { raw, ctx: Some(c), hold: Box::new(l) })
            } else {
                let p = lift(bld.build_pooled_client(conns).await, "connect", "pool")?;
                let mut raw = vec![];
                for _ in 0..conns {
                    raw.push(SimRaw::accept(&l).await);
                }
                let c = (*p.acquire()).clone();
                Ok(Eut { raw, ctx: Some(c), hold: Box::new((l, p)) })
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- C04

const NAMES: [&str; 3] = ["a", "ab", "error"];
const SPACES: [&str; 2] = ["x", "xy"];
/// Registration operations: global name, or a namespace with a set of names.
#[derive(Clone, Debug)]
enum Reg {
    On(usize),
    Ns(usize, Vec<usize>),
    AddNs(usize, Vec<usize>),
}
fn regs() -> Vec<Reg> {
    vec![
        Reg::On(0),
        Reg::On(1),
        Reg::On(2),
        Reg::Ns(0, vec![0]),
        Reg::Ns(0, vec![1, 2]),
        Reg::Ns(1, vec![0, 0]),
        Reg::Ns(1, vec![]),
        Reg::AddNs(0, vec![0, 1]),
        Reg::AddNs(1, vec![1]),
    ]
}
type Runs = Arc<Mutex<Vec<(u16, u64, Vec<u8>)>>>;
struct Table {
    global: HashMap<String, u16>,
    ns: HashMap<String, HashMap<String, u16>>,
}
fn register(ops: &[Reg], mut bld: Builder<Plain>, runs: &Runs) -> (Builder<Plain>, Table) {
    let mut t = Table { global: HashMap::new(), ns: HashMap::new() };
    let mut tag = 0u16;
    macro_rules! cb {
        ($tag:expr) => {{
            let (runs, tag) = (runs.clone(), $tag);
            cbk(move |ctx, ev| {
                runs.lock().unwrap().push((tag, ev.id(), ev.data_raw().to_vec()));
                Box::pin(async move { ctx.response(b(&tag.to_be_bytes())) })
            })
        }};
    }
    for o in ops {
        match o {
            Reg::On(n) => {
                tag += 1;
                t.global.insert(NAMES[*n].into(), tag);
                bld = bld.on(NAMES[*n], cb!(tag));
            }
            Reg::Ns(s, ns) => {
                let mut m = HashMap::new();
                let mut nb = bld.namespace(SPACES[*s]);
                for n in ns {
                    tag += 1;
                    m.insert(NAMES[*n].to_string(), tag);
                    nb = nb.on(NAMES[*n], cb!(tag));
                }
                bld = nb.build();
                t.ns.insert(SPACES[*s].into(), m);
            }
            Reg::AddNs(s, ns) => {
                let mut m = HashMap::new();
                let mut h = EventHandler::new();
                for n in ns {
                    tag += 1;
                    m.insert(NAMES[*n].to_string(), tag);
                    h.on(NAMES[*n], cb!(tag));
                }
                bld = bld.add_namespace(Namespace::new(SPACES[*s], h));
                t.ns.insert(SPACES[*s].into(), m);
            }
        }
    }
    (bld, t)
}
impl Table {
    fn find(&self, ns: &Option<String>, name: &str) -> Option<u16> {
        match ns {
            None => self.global.get(name).copied(),
            Some(n) => self.ns.get(n).and_then(|m| m.get(name)).copied(),
        }
    }
}
/// Sends one event and checks that exactly the right handler ran and that handling is concluded.
async fn route_one(raw: &mut SimRaw, t: &Table, runs: &Runs, f: &Frame, key: &str, what: &str) -> Res {
    eval();
    lift(raw.send(f).await, "io", "send")?;
    let want = if f.kind == END { None } else { t.find(&f.ns, &f.name) };
    if f.kind != END {
        let r = match within(ms(60), "the conclusion of a dispatched event", raw.recv_some()).await {
            Ok(r) => lift(r, "frame", "recv")?,
            Err(_) => return bad(key, format!("{what}: {f:?} was not concluded")),
        };
        let good = match want {
            Some(tag) => r.kind == END && r.data == tag.to_be_bytes(),
            None if f.name == "error" && f.ns.is_none() => true, // the builder's default handler
            None => r.kind == END && r.data.is_empty(),
        };
        ensure!(good && r.re == Some(f.id) && r.name == if r.kind == END { "end" } else { "error" }, key, "{what}: {f:?} was answered by {r:?}, expected handler {want:?}");
    } else {
        idle().await;
    }
    let got: Vec<_> = std::mem::take(&mut *runs.lock().unwrap());
    let exp: Vec<_> = want.iter().map(|t| (*t, f.id, f.data.clone())).collect();
    ensure!(got == exp, key, "{what}: {f:?} ran handlers {got:?}, expected {exp:?}");
    Ok(())
}
fn all_events(small: bool) -> Vec<(Option<String>, String)> {
    let mut v = vec![];
    let sp: Vec<Option<String>> = if small {
        vec![None, Some("x".into()), Some("xy".into()), Some("z".into())]
    } else {
        vec![None, Some("x".into()), Some("xy".into()), Some("z".into()), Some("X".into()), Some("a".into()), Some("x\0".into()), Some("end".into())]
    };
    let nm: Vec<&str> = if small { vec!["a", "ab", "error", "end", "A"] } else { vec!["a", "ab", "error", "end", "A", "", "b", "a ", "x:a", "abc", "aa", "x"] };
    for s in sp {
        for n in &nm {
            v.push((s.clone(), n.to_string()));
        }
    }
    v
}
async fn routing(side: Side, ops: Vec<Vec<Reg>>, small: bool) -> Res {
    for ops in ops {
        let net = Net::new(NetCfg::default());
        let runs: Runs = Default::default();
        let (bld, t) = register(&ops, Plain::builder(&net), &runs);
        let mut e = eut(side, &net, bld, 1).await?;
        // drain: nothing is waiting for replies; peers' references name ids nobody waits for
        let raw = &mut e.raw[0];
        for (ns, name) in all_events(small) {
            for kind in [INIT, RESP, END, ERR] {
                for re in [None, Some(77u64)] {
                    let id = raw.id();
                    let data = if name == "error" { err_payload(1, "e") } else { vec![id as u8, kind] };
                    let mut f = Frame::new(id, kind, re, &name, &data);
                    f.ns = ns.clone();
                    route_one(raw, &t, &runs, &f, "route", &format!("{side:?} {ops:?}")).await?;
                }
            }
        }
        drop(e);
    }
    Ok(())
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Past {
    Answered,
    TimedOut,
    Dropped,
    StreamEnded,
    StreamError,
    StreamTimedOut,
    StreamDropped,
    StreamDroppedFull,
    EmittedOnly,
}
/// Replies to a request nobody waits for any more are routed like any other event.
async fn late_routing(side: Side, past: Past) -> Res {
    let net = Net::new(NetCfg::default());
    let runs: Runs = Default::default();
    let ops = [Reg::On(0), Reg::On(2), Reg::Ns(0, vec![0, 1]), Reg::Ns(1, vec![])];
    let (bld, t) = register(&ops, Plain::builder(&net).timeout(ms(40)), &runs);
    let gate = Gate::new();
    let done = Gate::new();
    let (g2, d2) = (gate.clone(), done.clone());
    let act = move |ctx: Context| {
        let (gate, done) = (g2.clone(), d2.clone());
        async move {
            let r = match past {
                Past::Answered | Past::TimedOut => {
                    let _ = ctx.emit("q", b(b"")).await_reply().await;
                    Ok(())
                }
                Past::Dropped => {
                    let _ = tokio::time::timeout(ms(20), ctx.emit("q", b(b"")).await_reply()).await;
                    Ok(())
                }
                Past::EmittedOnly => ctx.emit("q", b(b"")).await.map(|_| ()),
                _ => match ctx.emit("q", b(b"")).stream_replies().await {
                    Ok(mut s) => {
                        if matches!(past, Past::StreamDropped | Past::StreamDroppedFull) {
                            gate.wait().await;
                        } else {
                            while let Some(Ok(_)) = s.next().await {}
                        }
                        Ok(())
                    }
                    Err(e) => Err(e),
                },
            };
            if let Err(e) = r {
                obs(format!("{e:?}"));
            }
            done.open(1);
        }
    };
    let bld = bld.on("go", {
        let act = act.clone();
        move |ctx, _e| {
            let (act, ctx) = (act.clone(), ctx.clone());
            Box::pin(async move {
                act(ctx).await;
                Ok(Response::empty())
            })
        }
    });
    let mut e = eut(side, &net, bld, 1).await?;
    let raw = &mut e.raw[0];
    let q = if let Some(c) = &e.ctx {
        tokio::spawn(act(c.clone()));
        lift(raw.recv_some().await, "frame", "recv")?
    } else {
        let id = raw.id();
        lift(raw.send(&Frame::new(id, INIT, None, "go", b"")).await, "io", "send")?;
        lift(raw.recv_some().await, "frame", "recv")?
    };
    ensure!(q.name == "q", "frame", "unexpected {q:?}");
    let fill = match past {
        Past::Answered => vec![RESP],
        Past::StreamEnded => vec![RESP, END],
        Past::StreamError => vec![RESP, ERR],
        Past::StreamDropped => vec![RESP; 2],
        Past::StreamDroppedFull => vec![RESP; 12],
        _ => vec![],
    };
    for k in fill {
        let id = raw.id();
        let d = if k == ERR { err_payload(500, "x") } else { vec![1] };
        lift(raw.send(&Frame::new(id, k, Some(q.id), "nn", &d)).await, "io", "send")?;
    }
    if matches!(past, Past::StreamDropped | Past::StreamDroppedFull) {
        idle().await;
        gate.open(1);
    }
    within(ms(5000), "request", done.wait()).await?;
    idle().await;
    // skip whatever was sent meanwhile (conclusion of "go", conclusions of replies that came late)
    while let Ok(f) = tokio::time::timeout(ms(5), raw.recv_some()).await {
        lift(f, "frame", "recv")?;
    }
    runs.lock().unwrap().clear();
    for (ns, name) in all_events(true) {
        for kind in [RESP, END, ERR, INIT] {
            let id = raw.id();
            let data = if name == "error" { err_payload(1, "e") } else { vec![id as u8, kind] };
            let mut f = Frame::new(id, kind, Some(q.id), &name, &data);
            f.ns = ns.clone();
            route_one(raw, &t, &runs, &f, "late-route", &format!("{side:?} after {past:?}")).await?;
        }
    }
    Ok(())
}

/// Replies queued on a stream that is dropped while they still arrive: none of them may reach a
/// handler registered for something else.
fn raced_drop(n: usize, kind: u8, ns: Option<&'static str>) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg::default());
            let runs: Runs = Default::default();
            let ops = [Reg::On(0), Reg::Ns(0, vec![1])];
            let (bld, t) = register(&ops, Plain::builder(&net), &runs);
            let l = net.listen();
            let wrong = Log::new();
            let w2 = wrong.clone();
            let bld = bld.on("end", move |_c, _e| {
                w2.add("end handler ran");
                Box::pin(async move { Ok(Response::empty()) })
            });
            let c = lift(bld.build_client().await, "connect", "client")?;
            let mut raw = SimRaw::accept(&l).await;
            let s = lift(c.emit("q", b(b"")).stream_replies().await, "io", "open")?;
            let q = lift(raw.recv_some().await, "frame", "recv")?;
            let h = tokio::spawn(async move {
                for k in 0..n {
                    let id = raw.id();
                    let mut f = Frame::new(id, if k + 1 == n { kind } else { RESP }, Some(q.id), if k + 1 == n && kind == END { "end" } else { "a" }, &[k as u8]);
                    f.ns = ns.map(|s| s.to_string());
                    let _ = raw.send(&f).await;
                }
                raw
            });
            for _ in 0..pick(4) {
                tokio::task::yield_now().await;
            }
            drop(s);
            let _raw = lift(within(long(), "peer", h).await?, "panic", "peer")?;
            idle().await;
            ensure!(wrong.get().is_empty(), "late-route", "{:?}", wrong.get());
            let got = runs.lock().unwrap().clone();
            let want = t.find(&ns.map(|s| s.to_string()), "a");
            for (tag, id, d) in &got {
                ensure!(Some(*tag) == want, "late-route", "reply {id:x} {d:?} ({ns:?}/a) ran handler {tag}, expected {want:?}");
            }
            Ok(())
        })
    }
}

/// Names as a program may choose them, emitted by the library itself.
fn odd_names() -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "A", "a ", " a", "x", "a::b", "x::a", "::", "::a", "a::", "x:a", ":", "x/a", "/", "a/b", "x.a", "a.b", ".", "x a", "*", "a*", "?", "#", "a#1", "x#a", "%", "a%00", "a,b", "a;b", "a|b", "a=b", "a@x", "a\\b", "\"a\"", "'a'",
        "a\0", "\0a", "a\n", "\n", "\t", "", "\u{e4}", "a\u{308}", "\u{1f600}", "\u{feff}a", "end", "END", "error", "Error", "x::error", "x::end", "response", "initiator", "none", "default", "0", "1", "-", "_", "a_b", "a-b", "ab", "aa", "aaa",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 32_767, 32_768, 65_000] {
        v.push("n".repeat(n));
    }
    // equal but for the last character
    for n in [32usize, 64, 256, 300] {
        v.push("n".repeat(n - 1) + "m");
    }
    v
}
/// Every name (in every namespace) is emitted; exactly the handler registered under it runs.
/// `part`: which names are registered (3: all, 0..=2: all but every third).
async fn emitted_names(side: Side, part: usize) -> Res {
    let net = Net::new(NetCfg::default());
    let names = odd_names();
    // an empty namespace is none on the wire; those that are too long for a frame are left out
    let spaces: Vec<Option<String>> = std::iter::once(None).chain(names.iter().filter(|n| !n.is_empty() && n.len() < 400).cloned().map(Some)).collect();
    let ran: Arc<Mutex<Vec<(usize, usize, Vec<u8>)>>> = Default::default();
    let there = |i: usize| part == 3 || i % 3 != part;
    let cb = |s: usize, n: usize| {
        let ran = ran.clone();
        cbk(move |ctx, ev| {
            ran.lock().unwrap().push((s, n, ev.data_raw().to_vec()));
            Box::pin(async move { ctx.response(b(b"")) })
        })
    };
    let mut here = Plain::builder(&net);
    for (s, sp) in spaces.iter().enumerate() {
        if !there(s + 1) && sp.is_some() {
            continue;
        }
        match sp {
            None => {
                for (n, name) in names.iter().enumerate().filter(|n| there(n.0)) {
                    here = here.on(name, cb(s, n));
                }
            }
            Some(sp) => {
                let mut nb = here.namespace(sp);
                for (n, name) in names.iter().enumerate().filter(|n| there(n.0 + s)) {
                    nb = nb.on(name, cb(s, n));
                }
                here = nb.build();
            }
        }
    }
    let (tx, rx) = tokio::sync::oneshot::channel::<Context>();
    let tx = Arc::new(Mutex::new(Some(tx)));
    let take = cbk(move |ctx: &Context, _ev| {
        if let Some(tx) = tx.lock().unwrap().take() {
            let _ = tx.send(ctx.clone());
        }
        Box::pin(async move { Ok(Response::empty()) })
    });
    // the context that emits; from a handler every event references the one handled
    let c;
    let emitter = match side {
        Side::Server => {
            let _ = serve::<Plain>(&net, here).await;
            c = lift(Plain::builder(&net).build_client().await, "connect", "client")?;
            c.clone()
        }
        Side::Client => {
            let _ = serve::<Plain>(&net, Plain::builder(&net).on("take", take)).await;
            c = lift(here.build_client().await, "connect", "client")?;
            lift(c.emit("take", b(b"")).await_reply().await, "reply", "take")?;
            lift(rx.await, "harness", "context")?
        }
    };
    let mut k = 0u32;
    for (s, sp) in spaces.iter().enumerate() {
        for (n, name) in names.iter().enumerate() {
            if sp.is_some() && name.len() > 30_000 {
                continue;
            }
            eval();
            k += 1;
            let d = k.to_be_bytes();
            let want = there(n + if sp.is_some() { s } else { 0 }) && (sp.is_none() || there(s + 1));
            let r = match sp {
                None => emitter.emit(name, b(&d)).await.map(|_| ()),
                Some(sp) => emitter.emit_to(sp, name, b(&d)).await.map(|_| ()),
            };
            let shown: String = name.chars().take(40).collect();
            ensure!(r.is_ok(), "route", "emitting {sp:?} {shown:?}: {r:?}");
            idle().await;
            let got = std::mem::take(&mut *ran.lock().unwrap());
            let exp: Vec<_> = want.then(|| (s, n, d.to_vec())).into_iter().collect();
            ensure!(got == exp, "route", "{side:?}/{part}: the event {shown:?} ({} bytes) in namespace {sp:?} ran {:?}, expected {}", name.len(), got.iter().map(|g| (&spaces[g.0], names[g.1].chars().take(40).collect::<String>(), g.2.clone())).collect::<Vec<_>>(), if want { "its handler" } else { "none" });
        }
    }
    drop(c);
    Ok(())
}

pub fn c04(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for side in [Side::Server, Side::Client] {
        for part in 0..=3 {
            v.push(Scn::new(format!("names/{side:?}/{part}"), 0, 0, 1, move || emitted_names(side, part)).vast());
        }
    }
    let r = regs();
    let mut seqs: Vec<Vec<Reg>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..t.p(3, 4) {
        let mut nx = vec![];
        for s in &last {
            for o in &r {
                let mut z = s.clone();
                z.push(o.clone());
                nx.push(z);
            }
        }
        seqs.extend(nx.iter().cloned());
        last = nx;
    }
    for side in [Side::Server, Side::Client] {
        for (i, c) in seqs.chunks(8).enumerate() {
            let c = c.to_vec();
            v.push(Scn::new(format!("regs/{side:?}/{i}"), 0, 0, 1, move || routing(side, c.clone(), true)));
        }
        for (i, s) in seqs.iter().enumerate().filter(|(_, s)| s.len() <= t.p(1, 2)) {
            let s = s.clone();
            v.push(Scn::new(format!("events/{side:?}/{i}"), 0, 0, 1, move || routing(side, vec![s.clone()], false)));
        }
        for past in [
            Past::Answered,
            Past::TimedOut,
            Past::Dropped,
            Past::StreamEnded,
            Past::StreamError,
            Past::StreamTimedOut,
            Past::StreamDropped,
            Past::StreamDroppedFull,
            Past::EmittedOnly,
        ] {
            v.push(Scn::new(format!("late/{side:?}/{past:?}"), K_SCHED, 1, t.p(150, 20_000), move || late_routing(side, past)));
        }
    }
    for n in [1usize, 2, 9, 10, 11, 14] {
        for kind in [RESP, END] {
            for ns in [None, Some("x"), Some("zz")] {
                v.push(Scn::new(format!("drop/{n}/{kind}/{ns:?}"), K_ALL, t.p(1, 2), t.p(800, 60_000), raced_drop(n, kind, ns)));
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------- C05

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HOp {
    Emit,
    EmitTo,
    Ask,
    AskErr,
    Stream,
    Par,
    Sleep,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HEnd {
    Empty,
    Payload,
    Err,
    ErrKind,
}
pub const HOPS: [HOp; 7] = [HOp::Emit, HOp::EmitTo, HOp::Ask, HOp::Stream, HOp::Par, HOp::Sleep, HOp::AskErr];
pub const HENDS: [HEnd; 4] = [HEnd::Empty, HEnd::Payload, HEnd::Err, HEnd::ErrKind];
type Prog = (Vec<HOp>, HEnd);

async fn run_prog(ctx: &Context, tag: u8, p: &Prog) -> IPCResult<Response> {
    for (i, o) in p.0.iter().enumerate() {
        let d = [tag, i as u8];
        match o {
            HOp::Emit => {
                ctx.emit("e", b(&d)).await?;
            }
            HOp::EmitTo => {
                ctx.emit_to("ns", "t", b(&d)).await?;
            }
            HOp::Ask => {
                let r = ctx.emit("ask", b(&d)).await_reply().await?;
                if r.data_raw() != d {
                    return Err("wrong answer".into());
                }
            }
            HOp::AskErr => {
                // the peer answers with an error, which the handler absorbs
                match ctx.emit("askerr", b(&d)).await_reply().await {
                    Err(IPCError::ErrorEvent(e)) if e.code == 9 => {}
                    r => return Err(format!("wrong error {r:?}").into()),
                }
            }
            HOp::Stream => {
                let mut s = ctx.emit_to("ns", "stream", b(&d)).stream_replies().await?;
                let mut n = 0;
                while let Some(r) = s.next().await {
                    r?;
                    n += 1;
                }
                if n != 3 {
                    return Err("wrong stream".into());
                }
            }
            HOp::Par => {
                let (a, c) = (ctx.clone(), ctx.clone());
                let h1 = tokio::spawn(async move { a.emit("p", b(&[tag, i as u8, 0])).await.map(|_| ()) });
                let h2 = tokio::spawn(async move { c.emit("p", b(&[tag, i as u8, 1])).await.map(|_| ()) });
                let _ = h1.await;
                let _ = h2.await;
            }
            HOp::Sleep => tokio::time::sleep(ms(3)).await,
        }
    }
    match p.1 {
        HEnd::Empty => Ok(Response::empty()),
        HEnd::Payload => ctx.response(b(&[tag, 0xee])),
        HEnd::Err => Err(format!("failure{tag}").into()),
        HEnd::ErrKind => Err(IPCError::CorruptedEvent),
    }
}
/// Expected frames (kind, ns, name, data) per program; Par yields an unordered pair.
fn prog_frames(tag: u8, p: &Prog) -> Vec<(u8, Option<&'static str>, &'static str, Vec<u8>)> {
    let mut v = vec![];
    for (i, o) in p.0.iter().enumerate() {
        let d = vec![tag, i as u8];
        match o {
            HOp::Emit => v.push((RESP, None, "e", d)),
            HOp::EmitTo => v.push((RESP, Some("ns"), "t", d)),
            HOp::Ask => v.push((RESP, None, "ask", d)),
            HOp::AskErr => v.push((RESP, None, "askerr", d)),
            HOp::Stream => v.push((RESP, Some("ns"), "stream", d)),
            HOp::Par => {
                v.push((RESP, None, "p", vec![tag, i as u8, 0]));
                v.push((RESP, None, "p", vec![tag, i as u8, 1]));
            }
            HOp::Sleep => {}
        }
    }
    v.push(match p.1 {
        HEnd::Empty => (END, None, "end", vec![]),
        HEnd::Payload => (END, None, "end", vec![tag, 0xee]),
        HEnd::Err => (ERR, None, "error", format!("failure{tag}").into_bytes()),
        HEnd::ErrKind => (ERR, None, "error", b"CorruptedEvent".to_vec()),
    });
    v
}
/// Events with the given handler programs, spread over the connections, handled concurrently.
async fn handling(side: Side, progs: Vec<Prog>, conns: usize, cfg: NetCfg, ns_target: bool) -> Res {
    let net = Net::new(cfg.clone());
    let ps = Arc::new(progs.clone());
    let cb = cbk(move |ctx, ev| {
        let ps = ps.clone();
        Box::pin(async move {
            let tag = ev.data_raw()[0];
            run_prog(ctx, tag, &ps[tag as usize]).await
        })
    });
    let bld = Plain::patient(&net);
    let bld = if ns_target { bld.namespace("space").on("go", cb).build() } else { bld.on("go", cb) };
    let e = eut(side, &net, bld, conns).await?;
    let n = progs.len();
    let seen: Arc<Mutex<BTreeMap<u64, (usize, Vec<Frame>)>>> = Default::default();
    let concluded = Gate::new();
    let mut ids = vec![0u64; n];
    let mut hs = vec![];
    for (ci, mut raw) in e.raw.into_iter().enumerate() {
        raw.next_id = RAW_ID + (ci as u64) * 0x1000;
        for (i, id) in ids.iter_mut().enumerate() {
            if i % conns == ci {
                *id = raw.id();
                let mut f = Frame::new(*id, INIT, None, "go", &[i as u8]);
                if ns_target {
                    f.ns = Some("space".into());
                }
                lift(raw.send(&f).await, "io", "send")?;
            }
        }
        let (seen, concluded) = (seen.clone(), concluded.clone());
        hs.push(tokio::spawn(async move {
            loop {
                let f = match raw.recv().await {
                    Ok(Some(f)) => f,
                    Ok(None) => return Ok(()),
                    Err(e) => return bad("conclusion", format!("connection {ci}: {e}")),
                };
                let Some(re) = f.re else { return bad("conclusion", format!("connection {ci}: {f:?} references nothing")) };
                let answer: Vec<(u8, Vec<u8>)> = match f.name.as_str() {
                    "ask" => vec![(END, f.data.clone())],
                    "askerr" => vec![(ERR, err_payload(9, "no"))],
                    "stream" => vec![(RESP, vec![0]), (RESP, vec![1]), (END, vec![2])],
                    _ => vec![],
                };
                let (fid, kind) = (f.id, f.kind);
                seen.lock().unwrap().entry(re).or_insert((ci, vec![])).1.push(f.clone());
                if seen.lock().unwrap()[&re].0 != ci {
                    return bad("conclusion", format!("{f:?} was sent on connection {ci}"));
                }
                for (k, d) in answer {
                    let id = raw.id();
                    if raw.send(&Frame::new(id, k, Some(fid), "ans", &d)).await.is_err() {
                        return Ok(());
                    }
                }
                if kind == END || kind == ERR {
                    concluded.open(1);
                }
            }
        }));
    }
    for _ in 0..n {
        if within(long(), "conclusions", concluded.wait()).await.is_err() {
            let s = seen.lock().unwrap().clone();
            for h in hs {
                if h.is_finished() {
                    lift(h.await, "panic", "peer")??;
                }
            }
            return bad("conclusion", format!("{side:?} {progs:?}: not every event was concluded: {s:?}"));
        }
    }
    settle(50, &cfg).await;
    for h in &hs {
        if h.is_finished() {
            return lift(hs.remove(0).await, "panic", "peer")?;
        }
    }
    let seen = seen.lock().unwrap().clone();
    let mut eids = std::collections::HashSet::new();
    for i in 0..n {
        let Some((ci, fs)) = seen.get(&ids[i]) else { return bad("conclusion", format!("event {i} not concluded")) };
        ensure!(*ci == i % conns, "conclusion", "event {i} was answered on connection {ci}");
        let mut have: Vec<_> = fs.iter().map(|f| (f.kind, f.ns.clone(), f.name.clone(), f.data.clone())).collect();
        // unordered pairs
        let mut k = 0;
        while k + 1 < have.len() {
            if have[k].2 == "p" && have[k + 1].2 == "p" {
                if have[k].3 > have[k + 1].3 {
                    have.swap(k, k + 1);
                }
                k += 1;
            }
            k += 1;
        }
        let mut want: Vec<_> = prog_frames(i as u8, &progs[i]).into_iter().map(|(k, n, m, d)| (k, n.map(|s: &str| s.to_string()), m.to_string(), d)).collect();
        if let (Some(h), Some(w)) = (have.last_mut(), want.last_mut()) {
            if h.0 == ERR && w.0 == ERR {
                let text = String::from_utf8_lossy(&w.3).to_string();
                match parse_err(&h.3) {
                    Some((500, m)) if m.contains(&text) => h.3 = w.3.clone(),
                    _ => {}
                }
            }
        }
        obs(format!("{i}:{}", have.len()));
        ensure!(have == want, "conclusion", "{side:?} event {i} with handler {:?} was answered by {have:?}, expected {want:?}", progs[i]);
        for f in fs {
            ensure!(eids.insert(f.id), "conclusion", "id {:x} used twice", f.id);
        }
        let _ = &e.ctx;
    }
    ensure!(seen.len() == n, "conclusion", "frames reference unknown events: {seen:?}");
    Ok(())
}
/// Events nobody handles, referencing or not, are concluded by an empty end event.
async fn unhandled(side: Side) -> Res {
    let net = Net::new(NetCfg::default());
    let mut e = eut(side, &net, Plain::builder(&net).namespace("k").build(), 1).await?;
    let raw = &mut e.raw[0];
    for (ns, name) in all_events(false).into_iter().chain([(Some("k".to_string()), "go".to_string())]) {
        for kind in [INIT, RESP, ERR] {
            for re in [None, Some(5u64)] {
                if name == "error" && ns.is_none() {
                    continue;
                }
                eval();
                let id = raw.id();
                let mut f = Frame::new(id, kind, re, &name, b"payload");
                f.ns = ns.clone();
                lift(raw.send(&f).await, "io", "send")?;
                let r = lift(within(ms(1000), "conclusion", raw.recv_some()).await?, "frame", "recv")?;
                ensure!(r.kind == END && r.re == Some(id) && r.data.is_empty() && r.name == "end" && r.ns.is_none(), "conclusion", "{f:?} answered by {r:?}");
                idle().await;
                ensure!(tokio::time::timeout(ms(2), raw.recv_some()).await.is_err(), "conclusion", "something follows the conclusion of {f:?}");
            }
        }
    }
    Ok(())
}

/// The conclusion of an event arrives although its handler leaves unsent or unread things behind.
async fn leftovers(side: Side, mode: usize) -> Res {
    let net = Net::new(NetCfg::default());
    let bld = Plain::builder(&net).on("go", move |ctx, _e| {
        Box::pin(async move {
            match mode {
                0 => {
                    let _s = ctx.emit("stream", b(b"")).stream_replies().await?;
                }
                1 => {
                    let _never = ctx.emit("x", b(b""));
                }
                2 => {
                    let _ = tokio::time::timeout(ms(10), ctx.emit("ask", b(b"")).await_reply()).await;
                }
                3 => {
                    // an emission that fails to encode does not end the handler's conversation
                    let long = "n".repeat(70_000);
                    if ctx.emit(long, b(b"")).await.is_ok() {
                        return Err("accepted".into());
                    }
                }
                _ => {
                    for _ in 0..3 {
                        let c = ctx.clone();
                        let _ = tokio::spawn(async move { c.emit("bg", b(b"")).await.map(|_| ()) }).await;
                    }
                }
            }
            ctx.response(b(b"fin"))
        })
    });
    let mut e = eut(side, &net, bld, 1).await?;
    let raw = &mut e.raw[0];
    for round in 0..2 {
        let id = raw.id();
        lift(raw.send(&Frame::new(id, INIT, None, "go", b"")).await, "io", "send")?;
        let mut names = vec![];
        loop {
            let f = lift(within(long(), "conclusion", raw.recv_some()).await?, "frame", "recv")?;
            ensure!(f.re == Some(id), "conclusion", "{f:?} does not reference {id:x}");
            if f.kind == END || f.kind == ERR {
                ensure!(f.kind == END && f.data == b"fin", "conclusion", "mode {mode} round {round}: concluded by {f:?}");
                break;
            }
            names.push(f.name);
        }
        let want: Vec<&str> = match mode {
            0 => vec!["stream"],
            2 => vec!["ask"],
            1 | 3 => vec![],
            _ => vec!["bg"; 3],
        };
        ensure!(names == want, "conclusion", "mode {mode}: {names:?}");
    }
    Ok(())
}

const ERRORS: usize = 40;
/// Handlers fail with every sort of error and with texts of every length; the whole text arrives.
fn error_no(i: usize) -> IPCError {
    use std::io::ErrorKind::*;
    let kinds = [UnexpectedEof, BrokenPipe, ConnectionReset, ConnectionAborted, NotConnected, TimedOut, InvalidData, Interrupted, Other];
    let lens = [0usize, 1, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 4096, 65_535, 65_536, 70_000];
    match i {
        0 => IPCError::SendError,
        1 => IPCError::Timeout,
        2 => IPCError::CorruptedEvent,
        3 => IPCError::BuildError("built".into()),
        4 => IPCError::UnsupportedVersion("9.9".into()),
        5 => IPCError::InvalidState,
        6 => IPCError::ErrorEvent(ErrorEventData { code: 7, message: "from elsewhere".into() }),
        7 => IPCError::ErrorEvent(ErrorEventData { code: 500, message: String::new() }),
        8 => IPCError::from("quotes and 'apostrophes'"),
        9..=17 => IPCError::IoError(std::io::Error::new(kinds[i - 9], "broken")),
        18..=33 => "x".repeat(lens[i - 18]).into(),
        _ => {
            let pad = "y".repeat(i - 34);
            format!("{pad}{}", "\u{fc}\u{65e5}\u{1f600}".repeat(300)).into()
        }
    }
}
async fn errors(side: Side, i: usize) -> Res {
    let net = Net::new(NetCfg::default());
    let bld = Plain::builder(&net).on("go", move |_c, _e| Box::pin(async move { Err(error_no(i)) }));
    let mut e = eut(side, &net, bld, 1).await?;
    let raw = &mut e.raw[0];
    for _ in 0..2 {
        let id = raw.id();
        lift(raw.send(&Frame::new(id, INIT, None, "go", b"")).await, "io", "send")?;
        let f = lift(within(long(), "conclusion", raw.recv_some()).await?, "frame", "recv")?;
        let want = match error_no(i) {
            IPCError::Message(m) => vec![m],
            e => vec![format!("{e:?}"), format!("{e}")],
        };
        let ok = f.kind == ERR && f.name == "error" && f.ns.is_none() && f.re == Some(id) && matches!(parse_err(&f.data), Some((500, m)) if want.iter().any(|w| m.contains(w.as_str())));
        ensure!(ok, "conclusion", "a handler that failed with {:?}.. was answered by {:?}.. of {} bytes", want[0].chars().take(60).collect::<String>(), format!("{f:?}").chars().take(200).collect::<String>(), f.data.len());
    }
    Ok(())
}

fn progs_up_to(n: usize, ends: &[HEnd]) -> Vec<Prog> {
    let mut all: Vec<Vec<HOp>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        let mut nx = vec![];
        for s in &last {
            for o in HOPS {
                let mut z = s.clone();
                z.push(o);
                nx.push(z);
            }
        }
        all.extend(nx.iter().cloned());
        last = nx;
    }
    all.into_iter().flat_map(|p| ends.iter().map(move |e| (p.clone(), *e))).collect()
}
pub fn c05(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for side in [Side::Server, Side::Client] {
        v.push(Scn::new(format!("unhandled/{side:?}"), 0, 0, 1, move || unhandled(side)));
        for m in 0..5 {
            v.push(Scn::new(format!("leftovers/{side:?}/{m}"), K_ALL, 2, t.p(2000, 50_000), move || leftovers(side, m)));
        }
        // every single program alone
        for (i, p) in progs_up_to(t.p(3, 4), &HENDS).into_iter().enumerate() {
            let d = if p.0.len() <= t.p(1, 2) { 1 } else { 0 };
            v.push(Scn::new(format!("prog/{side:?}/{i}"), K_SCHED, d, 1500, move || handling(side, vec![p.clone()], 1, NetCfg::default(), i % 2 == 1)));
        }
        // pairs of short programs handled concurrently on one or two connections
        let short = progs_up_to(1, &[HEnd::Payload, HEnd::Err]);
        for (i, p) in short.iter().enumerate() {
            for (j, q) in short.iter().enumerate() {
                for conns in [1usize, 2] {
                    let ps = vec![p.clone(), q.clone()];
                    v.push(Scn::new(format!("pair/{side:?}/{i}-{j}/{conns}"), K_SCHED, 1, t.p(120, 4000), move || {
                        handling(side, ps.clone(), conns, NetCfg::default(), false)
                    }));
                }
            }
        }
        for i in 0..ERRORS {
            v.push(Scn::new(format!("error/{side:?}/{i}"), 0, 0, 1, move || errors(side, i)));
        }
        use HOp::*;
        for (k, cfg) in [NetCfg::default(), NetCfg::buffered(), NetCfg::cap(24)].into_iter().enumerate() {
            let ps: Vec<Prog> = vec![(vec![Emit, Ask], HEnd::Payload), (vec![Stream, EmitTo], HEnd::Err)];
            v.push(Scn::new(format!("stall/{side:?}/{k}"), K_IO, t.p(1, 2), t.p(3000, 300_000), move || handling(side, ps.clone(), 1, cfg.clone().stall(), false)));
        }
        let many: Vec<Prog> = vec![
            (vec![Emit, Ask], HEnd::Payload),
            (vec![Stream, Emit], HEnd::Err),
            (vec![Par, EmitTo], HEnd::Empty),
            (vec![Sleep, Emit], HEnd::ErrKind),
        ];
        for (k, cfg) in [NetCfg::default(), NetCfg::buffered(), NetCfg::cap(24)].into_iter().enumerate() {
            for conns in [1usize, 2, 3] {
                let (many, cfg) = (many.clone(), cfg.clone());
                v.push(Scn::new(format!("many/{side:?}/{k}/{conns}"), K_ALL, 2, t.p(3000, 400_000), move || handling(side, many.clone(), conns, cfg.clone(), false)));
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------- C03

#[derive(Clone, Debug)]
struct Plan {
    /// per emitter on the client's side: sizes of its events
    client: Vec<Vec<usize>>,
    /// per handled "go" event on the server's side: sizes of the events its handler emits
    server: Vec<Vec<usize>>,
}
fn body(dir: u8, who: usize, k: usize, size: usize) -> Vec<u8> {
    let mut v = vec![dir, who as u8, k as u8];
    v.extend((0..size).map(|i| mix((i / 8 + who * 31 + k * 7) as u64) as u8 ^ i as u8));
    v
}
fn meta(k: usize) -> (Option<&'static str>, &'static str) {
    [(None, "ev"), (Some("ns"), "ev"), (None, "other"), (Some("ns"), "other")][k % 4]
}
type Got3 = Arc<Mutex<Vec<(u64, Option<String>, String, Vec<u8>, u8, Option<u64>)>>>;
fn record<T: Tp>(bld: Builder<T>, log: &Got3) -> Builder<T> {
    macro_rules! rec {
        () => {{
            let log = log.clone();
            cbk(move |_c, e| {
                obs(format!("h{:?}", &e.data_raw()[..3]));
                log.lock().unwrap().push((e.id(), e.namespace().clone(), e.name().to_string(), e.data_raw().to_vec(), u8::from(e.event_type()), e.reference_id()));
                Box::pin(async move { Ok(Response::empty()) })
            })
        }};
    }
    bld.on("ev", rec!()).on("other", rec!()).namespace("ns").on("ev", rec!()).on("other", rec!()).build()
}
fn emit_k(c: &Context, k: usize, d: &[u8]) -> impl std::future::Future<Output = IPCResult<u64>> {
    match meta(k) {
        (None, n) => c.emit(n, b(d)),
        (Some(s), n) => c.emit_to(s, n, b(d)),
    }
}
type Sent = Arc<Mutex<Vec<(u8, usize, usize, u64, Vec<u8>)>>>;
fn delivery<T: Tp>(plan: Plan, ccfg: NetCfg, scfg: NetCfg) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let (plan, ccfg, scfg) = (plan.clone(), ccfg.clone(), scfg.clone());
        Box::pin(async move {
            let net = Net::with(ccfg.clone(), scfg, 0);
            let (at_s, at_c): (Got3, Got3) = Default::default();
            let sent: Sent = Default::default();
            let done = Gate::new();
            let sb = record::<T>(T::builder(&net), &at_s);
            let (p2, s2, d2) = (plan.clone(), sent.clone(), done.clone());
            let sb = sb.on("go", move |ctx, ev| {
                let (p2, s2, d2) = (p2.clone(), s2.clone(), d2.clone());
                Box::pin(async move {
                    let w = ev.data_raw()[0] as usize;
                    for (k, size) in p2.server[w].iter().enumerate() {
                        let d = body(1, w, k, *size);
                        let id = emit_k(ctx, k, &d).await?;
                        s2.lock().unwrap().push((1, w, k, id, d));
                    }
                    d2.open(1);
                    Ok(Response::empty())
                })
            });
            let _s = serve::<T>(&net, sb).await;
            let c = lift(record::<T>(T::builder(&net), &at_c).build_client().await, "connect", "client")?;
            let mut go_ids = vec![];
            for w in 0..plan.server.len() {
                go_ids.push(lift(c.emit("go", b(&[w as u8])).await, "io", "emit")?);
            }
            for (w, sizes) in plan.client.iter().enumerate() {
                let (c, sizes, sent, done) = (c.clone(), sizes.clone(), sent.clone(), done.clone());
                tokio::spawn(async move {
                    for (k, size) in sizes.iter().enumerate() {
                        let d = body(0, w, k, *size);
                        match emit_k(&c, k, &d).await {
                            Ok(id) => sent.lock().unwrap().push((0, w, k, id, d)),
                            Err(e) => obs(format!("emit failed: {e:?}")),
                        }
                    }
                    done.open(1);
                });
            }
            for _ in 0..plan.client.len() + plan.server.len() {
                within(long(), "emitters", done.wait()).await?;
            }
            settle(5, &ccfg).await;
            let sent = sent.lock().unwrap().clone();
            let total: usize = plan.client.iter().chain(plan.server.iter()).map(|x| x.len()).sum();
            ensure!(sent.len() == total, "delivery", "{} of {total} emissions succeeded on a working connection", sent.len());
            for (dir, log) in [(0u8, &at_s), (1, &at_c)] {
                let log = log.lock().unwrap().clone();
                let mine: Vec<_> = sent.iter().filter(|s| s.0 == dir).collect();
                ensure!(log.len() == mine.len(), "delivery", "direction {dir}: {} events sent, {} received: {:?}", mine.len(), log.len(), log.iter().map(|l| (l.0, l.3.iter().take(3).copied().collect::<Vec<_>>())).collect::<Vec<_>>());
                for (_, w, k, id, d) in mine {
                    let m: Vec<_> = log.iter().filter(|l| l.0 == *id).collect();
                    let (ns, name) = meta(*k);
                    let kind = if dir == 0 { INIT } else { RESP };
                    let re = if dir == 0 { None } else { Some(go_ids[*w]) };
                    let ok = m.len() == 1 && m[0].1.as_deref() == ns && m[0].2 == name && m[0].3 == *d && m[0].4 == kind && m[0].5 == re;
                    ensure!(ok, "delivery", "event {id:x} ({dir}/{w}/{k}) {ns:?}/{name} of {} bytes was received as {:?}", d.len(), m.iter().map(|x| (x.0, &x.1, &x.2, x.3.len(), x.4, x.5, x.3 == *d)).collect::<Vec<_>>());
                }
            }
            if T::NAME == "plain" && !ccfg.nolog {
                let w = net.wire(0);
                for (dir, bytes) in [(0u8, w.c2s_log()), (1, w.s2c_log())] {
                    let (fs, rest) = match Frame::split(&bytes) {
                        Ok(x) => x,
                        Err(e) => return bad("wire", format!("direction {dir}: bytes on the wire are no frames: {e}")),
                    };
                    ensure!(rest == 0, "wire", "direction {dir}: {rest} bytes of an unfinished frame");
                    let mut last: HashMap<(u8, u8), u8> = HashMap::new();
                    for f in fs.iter().filter(|f| f.kind != END && f.name != "go") {
                        let key = (f.data[0], f.data[1]);
                        let n = last.entry(key).or_insert(0);
                        ensure!(f.data[2] == *n, "wire-order", "direction {dir}: emitter {key:?} sent event {} but {n} is next on the wire", f.data[2]);
                        *n += 1;
                        ensure!(sent.iter().any(|s| s.3 == f.id && s.4 == f.data), "wire", "frame {:x} on the wire is not what was emitted", f.id);
                    }
                }
            }
            Ok(())
        })
    }
}
/// Encrypted wire order: a raw decryptor is not available, so order is observed by a reader task.
pub fn c03(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let p = |c: &[&[usize]], s: &[&[usize]]| Plan { client: c.iter().map(|x| x.to_vec()).collect(), server: s.iter().map(|x| x.to_vec()).collect() };
    let cap = t.p(15_000, 2_000_000);
    let d = NetCfg::default;
    let plans = [
        ("2x1", p(&[&[3], &[5]], &[])),
        ("2x2", p(&[&[0, 9], &[4, 2]], &[])),
        ("both", p(&[&[3, 1], &[2]], &[&[4, 0]])),
        ("handlers", p(&[], &[&[1, 2], &[3, 4]])),
        ("mixed", p(&[&[1200, 3], &[7, 2500]], &[&[1500, 1]])),
    ];
    for (n, pl) in &plans {
        for (m, cfg) in [("plain", d()), ("buffered", NetCfg::buffered()), ("cap30", NetCfg::cap(30)), ("cap7", NetCfg { cap: 7, buffered: true, ..d() })] {
            v.push(Scn::new(format!("{n}/{m}"), K_ALL, if m == "plain" || t.thorough { 2 } else { 1 }, cap, delivery::<Plain>(pl.clone(), cfg.clone(), cfg)));
        }
        #[cfg(feature = "full")]
        for (m, cfg) in [("plain", d()), ("buffered", NetCfg::buffered()), ("cap30", NetCfg::cap(30))] {
            v.push(Scn::new(format!("{n}/enc-{m}"), K_ALL, t.p(1, 2), t.p(1500, 300_000), delivery::<Enc>(pl.clone(), cfg.clone(), cfg)));
        }
    }
    for (n, pl) in &plans[..4] {
        for (m, cfg) in [("plain", d()), ("buffered", NetCfg::buffered()), ("cap30", NetCfg::cap(30)), ("cap7", NetCfg { cap: 7, buffered: true, ..d() })] {
            let cfg = cfg.stall();
            v.push(Scn::new(format!("stall/{n}/{m}"), K_IO, if n == &"both" { t.p(2, 3) } else { t.p(1, 2) }, t.p(4000, 500_000), delivery::<Plain>(pl.clone(), cfg.clone(), cfg.clone())));
            #[cfg(feature = "full")]
            v.push(Scn::new(format!("stall/{n}/enc-{m}"), K_IO, t.p(1, 2), t.p(1500, 100_000), delivery::<Enc>(pl.clone(), cfg.clone(), cfg)));
        }
    }
    v.push(Scn::new("deep/2x1", K_SCHED, 3, t.p(60_000, 6_000_000), delivery::<Plain>(plans[0].1.clone(), d(), d())));
    v.push(Scn::new("deep/io", K_IO, 3, t.p(60_000, 6_000_000), delivery::<Plain>(plans[0].1.clone(), NetCfg::buffered(), NetCfg::buffered())));
    // every pair of a size and a transport granularity
    let sizes = [0usize, 1, 2, 50, 200, 255, 256, 1000, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 65_535, 65_536, 70_000];
    for s in sizes {
        for ch in [1usize, 2, 3, 5, 13, 64, 1000, 1 << 20] {
            if s / ch > t.p(3000, 80_000) {
                continue;
            }
            for (bn, buffered) in [("n", false), ("b", true)] {
                let cfg = NetCfg { max_read: ch, max_write: ch, buffered, cap: if ch < 64 { 997 } else { 1 << 20 }, ..d() };
                let pl = p(&[&[s, 1, s], &[s]], &[&[s, 2]]);
                v.push(Scn::new(format!("size/{s}/{ch}/{bn}"), 0, 0, 1, delivery::<Plain>(pl.clone(), cfg.clone(), cfg.clone())));
                #[cfg(feature = "full")]
                if s / ch <= t.p(1000, 80_000) {
                    v.push(Scn::new(format!("size/{s}/{ch}/{bn}/enc"), 0, 0, 1, delivery::<Enc>(pl, cfg.clone(), cfg)));
                }
            }
        }
    }
    // large payloads
    for (i, s) in [(1usize << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 26) + 1, (1 << 27) + 1].into_iter().chain(t.thorough.then_some((1 << 28) + 1)).enumerate() {
        let cfg = NetCfg { nolog: true, ..d() };
        let pl = if i % 2 == 0 { p(&[&[1, s, 1]], &[]) } else { p(&[], &[&[1, s, 1]]) };
        v.push(Scn::new(format!("huge/{s}"), 0, 0, 1, delivery::<Plain>(pl.clone(), cfg.clone(), cfg.clone())).vast());
        #[cfg(feature = "full")]
        if i < 3 {
            v.push(Scn::new(format!("huge/{s}/enc"), 0, 0, 1, delivery::<Enc>(pl, cfg.clone(), cfg)).vast());
        }
    }
    // many emitters
    let many: Vec<Vec<usize>> = (0..12).map(|i| vec![i * 3, 1, 40]).collect();
    let pl = Plan { client: many.clone(), server: many };
    for (m, cfg) in [("plain", d()), ("cap50", NetCfg::cap(50)), ("buffered", NetCfg::buffered())] {
        v.push(Scn::new(format!("many/{m}"), K_SCHED, 1, t.p(1500, 100_000), delivery::<Plain>(pl.clone(), cfg.clone(), cfg)));
    }
    v
}
