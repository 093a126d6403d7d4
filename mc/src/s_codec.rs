//! C08 (wire format), C09 (malformed input), C10 (payloads).
use crate::alloc;
use crate::common::*;
use crate::ensure;
use crate::ex::*;
use crate::net::*;
use crate::refc::*;
use crate::s_reply::Tier;
use bromine::error_event::ErrorEventData;
use bromine::prelude::*;
use bytes::Bytes;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll};

/// Polls a future that never has to wait.
fn now<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let w = futures::task::noop_waker();
    match f.as_mut().poll(&mut Cx::from_waker(&w)) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
fn kind(e: &Event) -> u8 {
    match e.event_type() {
        bromine::event::EventType::Initiator => INIT,
        bromine::event::EventType::Response => RESP,
        bromine::event::EventType::End => END,
        bromine::event::EventType::Error => ERR,
    }
}
fn frame(e: &Event) -> Frame {
    Frame { id: e.id(), kind: kind(e), re: e.reference_id(), ns: e.namespace().clone(), name: e.name().to_string(), data: e.data_raw().to_vec() }
}
fn show(b: &[u8]) -> String {
    let h: String = b.iter().take(80).map(|x| format!("{x:02x}")).collect();
    format!("{h}{} ({} bytes)", if b.len() > 80 { ".." } else { "" }, b.len())
}
/// what one decoded event may make the process reserve: a constant and what was received
fn allowed(len: usize) -> i64 {
    (1 << 18) + 8 * len as i64
}

/// Decodes the bytes with the library and compares with the reference decoder.
fn decode_like_reference(b: &[u8]) -> Res {
    eval();
    let want = Frame::decode(b);
    let m = alloc::mark();
    let mut r: &[u8] = b;
    let got = match now(Event::from_async_read(&mut r)) {
        Some(g) => g,
        None => return bad("codec", format!("decoding {} waits although everything is there", show(b))),
    };
    let peak = alloc::peak_since(m);
    let left = r.len();
    if peak > allowed(b.len()) {
        return bad("memory", format!("decoding {} reserved {peak} bytes", show(b)));
    }
    match (want, got) {
        (Ok(Some((f, n))), Ok(e)) => {
            let g = frame(&e);
            ensure!(g == f, "codec", "{} was decoded to {g:?} instead of {f:?}", show(b));
            ensure!(b.len() - left == n, "codec", "decoding {} consumed {} bytes, the event has {n}", show(b), b.len() - left);
        }
        (Ok(Some((f, _))), Err(e)) => return bad("codec", format!("the event {f:?} ({}) was refused: {e:?}", show(b))),
        (Ok(None), Ok(e)) => return bad("codec", format!("an incomplete event {} was decoded to {:?}", show(b), frame(&e))),
        (Err(why), Ok(e)) => return bad("codec", format!("{} is no event ({why}) but was decoded to {:?}", show(b), frame(&e))),
        _ => {}
    }
    Ok(())
}

fn names(t: Tier) -> Vec<String> {
    let mut v: Vec<String> = ["", "x", "end", "error", "ab", "é", "日本", "\0", "a b", "\u{10ffff}", "ns"].iter().map(|s| s.to_string()).collect();
    for n in [127, 128, 254, 255, 256, 257, 511, 512, 1000, 4096] {
        v.push("n".repeat(n));
    }
    if t.thorough {
        for n in [32767, 32768, 65000] {
            v.push("é".repeat(n / 2));
        }
    }
    v
}
fn namespaces(t: Tier) -> Vec<Option<String>> {
    let mut v = vec![None];
    for s in ["n", "main", "日", "\0\0"] {
        v.push(Some(s.to_string()));
    }
    for n in [255, 256, 257, 300] {
        v.push(Some("s".repeat(n)));
    }
    if t.thorough {
        v.push(Some("s".repeat(40_000)));
    }
    v
}
fn payloads(t: Tier) -> Vec<Vec<u8>> {
    let mut v = vec![vec![], vec![0], vec![0xff], vec![0, 0, 0, 0], (0..=255).collect(), b"\0\x09\0".to_vec()];
    for n in [10, 254, 256, 257, 1023, 1024, 1025, 65535, 65536, 65537] {
        v.push((0..n).map(|i| (i * 7 + n) as u8).collect());
    }
    if t.thorough {
        v.push(vec![0xab; 3_000_000]);
    }
    v
}
const REFS: [u64; 6] = [0, 1, 255, 0x0102030405060708, 1 << 63, u64::MAX];

fn mk(k: u8, ns: Option<String>, name: String, data: Vec<u8>, re: u64) -> Event {
    let d = Bytes::from(data);
    match k {
        INIT => Event::initiator(ns, name, d),
        RESP => Event::response(ns, name, d, re),
        END => Event::end(ns, name, d, re),
        _ => Event::error(ns, name, d, re),
    }
}
/// header bytes apart from namespace and name
fn fixed(k: u8) -> usize {
    3 + 8 + 1 + 1 + if k == INIT { 0 } else { 8 } + 2 + 2
}

fn encode_case(k: u8, re: u64, ns: &Option<String>, name: &str, data: &[u8]) -> Res {
    eval();
    let e = mk(k, ns.clone(), name.to_string(), data.to_vec(), re);
    let f = frame(&e);
    let want = Frame { id: e.id(), kind: k, re: if k == INIT { None } else { Some(re) }, ns: ns.clone(), name: name.into(), data: data.to_vec() };
    ensure!(f == want, "codec", "the constructor of kind {k} yielded {f:?}, expected {want:?}");
    let hl = fixed(k) + ns.as_ref().map_or(0, |s| s.len()) + name.len();
    match e.into_bytes() {
        Ok(b) => {
            ensure!(hl <= 65535, "codec", "an event with a header of {hl} bytes was encoded to {}", show(&b));
            let w = want.encode();
            ensure!(b == w, "codec", "kind {k}: encoded to {} instead of {}", show(&b), show(&w));
            let mut both = b.to_vec();
            decode_like_reference(&both)?;
            both.extend([0xee; 11]);
            decode_like_reference(&both)?;
        }
        Err(e) => ensure!(hl > 65535, "codec", "an event with a header of {hl} bytes was refused: {e:?}"),
    }
    Ok(())
}

fn c08_encode(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for k in 0..4u8 {
        v.push(Scn::sync(format!("encode/{k}"), move || {
            for ns in namespaces(t) {
                for name in names(t) {
                    for data in payloads(t) {
                        if data.len() > 2000 && name.len() > 2 {
                            continue;
                        }
                        for re in if k == INIT { vec![0] } else { REFS.to_vec() } {
                            encode_case(k, re, &ns, &name, &data)?;
                        }
                    }
                }
            }
            obs(format!("kind {k}: all namespaces x names x payloads x reference ids equal the reference encoding"));
            Ok(())
        }));
        v.push(Scn::sync(format!("encode/limits/{k}"), move || {
            let f = fixed(k);
            for total in [65534usize, 65535, 65536, 65537, 65535 + 255, 65536 + 256, 2 * 65536 - 1, 2 * 65536, 2 * 65536 + f, 200_000] {
                for nl in [0, 1, 100, 32768, 65535, 65536] {
                    if total < f + nl {
                        continue;
                    }
                    let other = total - f - nl;
                    let (a, b) = ("a".repeat(nl), "b".repeat(other));
                    for (ns, name) in [(a.clone(), b.clone()), (b, a)] {
                        let ns = if ns.is_empty() { None } else { Some(ns) };
                        encode_case(k, 5, &ns, &name, b"data")?;
                    }
                }
            }
            Ok(())
        }));
    }
    v
}
fn base_frames() -> Vec<Frame> {
    let mut v = vec![];
    for k in 0..4u8 {
        for re in [None, Some(0), Some(u64::MAX), Some(0xff00ff00ff00ff00)] {
            for ns in [None, Some("ns"), Some("é")] {
                for (name, data) in [("", &b""[..]), ("ev", b"payload"), ("日本", b"\0\xff")] {
                    v.push(Frame { id: 0x0102030405060708, kind: k, re, ns: ns.map(|s| s.to_string()), name: name.into(), data: data.to_vec() });
                }
            }
        }
    }
    v
}
fn c08_decode(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    v.push(Scn::sync("decode/versions", move || {
        for f in base_frames().into_iter().step_by(t.p(5, 1)) {
            for maj in 0..=255u8 {
                for (min, pat) in [(9, 0), (0, 0), (255, 255), (9, 1), (10, 0), (8, 200)] {
                    let b = f.encode_with([maj, min, pat], &[]);
                    decode_like_reference(&b)?;
                    let mut r: &[u8] = &b;
                    let res = now(Event::from_async_read(&mut r)).unwrap();
                    ensure!(res.is_ok() == (maj == 0), "codec", "version {maj}.{min}.{pat}: {:?}", res.map(|e| frame(&e)));
                }
            }
            for x in 0..=255u8 {
                decode_like_reference(&f.encode_with([0, x, 0], &[]))?;
                decode_like_reference(&f.encode_with([0, 9, x], &[]))?;
            }
        }
        Ok(())
    }));
    v.push(Scn::sync("decode/extra", move || {
        for f in base_frames() {
            let h = f.header([0, 9, 0], &[]).len();
            for n in (0..40).chain([255, 256, 1000, 65535 - h, 65534 - h]) {
                for fill in [0u8, 0xff, b'x'] {
                    let b = f.encode_with([0, 9, 0], &vec![fill; n]);
                    decode_like_reference(&b)?;
                    let mut r: &[u8] = &b;
                    let e = now(Event::from_async_read(&mut r)).unwrap();
                    ensure!(e.is_ok(), "codec", "{n} additional header bytes were refused");
                    let mut two = b.clone();
                    two.extend(&b);
                    decode_like_reference(&two)?;
                }
            }
        }
        Ok(())
    }));
    v.push(Scn::sync("decode/large", move || {
        for n in [65535usize, 65536, 65537, 1 << 20, (1 << 24) + 1] {
            let f = Frame::new(7, RESP, Some(9), "big", &(0..n).map(|i| (i % 251) as u8).collect::<Vec<_>>());
            decode_like_reference(&f.encode())?;
            let mut e = f.encode();
            e.extend(b"rest");
            decode_like_reference(&e)?;
        }
        Ok(())
    }));
    // a sequence of events from a reader that yields them in pieces
    for (pi, pieces) in [1usize, 2, 3, 7, 11, 64, 65_537].into_iter().enumerate() {
        v.push(Scn::sync(format!("decode/sequence/{pi}"), move || {
            let fs: Vec<Frame> = base_frames().into_iter().chain([Frame::new(3, INIT, None, "l", &vec![5; 70_000])]).collect();
            let bytes: Vec<u8> = fs.iter().flat_map(|f| f.encode()).collect();
            let mut r = Pieces { b: bytes, at: 0, n: pieces };
            for f in &fs {
                eval();
                let e = match now(Event::from_async_read(&mut r)) {
                    Some(Ok(e)) => frame(&e),
                    x => return bad("codec", format!("decoding {f:?} in pieces: {:?}", x.map(|r| r.map(|e| frame(&e))))),
                };
                ensure!(e == *f, "codec", "decoded {e:?} instead of {f:?} in pieces of {pieces}");
            }
            ensure!(matches!(now(Event::from_async_read(&mut r)), Some(Err(_))), "codec", "an event at the end of the stream");
            Ok(())
        }));
    }
    v
}
struct Pieces {
    b: Vec<u8>,
    at: usize,
    n: usize,
}
impl tokio::io::AsyncRead for Pieces {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, _: &mut Cx<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let k = self.n.min(buf.remaining()).min(self.b.len() - self.at);
        let (a, n) = (self.at, k);
        buf.put_slice(&self.b[a..a + n]);
        self.at += k;
        Poll::Ready(Ok(()))
    }
}

/// Everything the library sends in a conversation is the reference encoding of some event.
fn exact_wire(log: &[u8], who: &str) -> Result<Vec<Frame>, Bad> {
    let (fs, rest) = Frame::split(log).or_else(|e| bad("codec", format!("{who} sent no frames: {e}")))?;
    ensure!(rest == 0, "codec", "{who} sent a partial frame");
    let again: Vec<u8> = fs.iter().flat_map(|f| f.encode()).collect();
    ensure!(again == log, "codec", "{who} sent {} which differs from the reference encoding {}", show(log), show(&again));
    Ok(fs)
}
fn c08_wire() -> Vec<Scn> {
    let mut v = vec![];
    for (ci, (ns, name, data)) in [(None, "ev", &b"data"[..]), (Some("space"), "ev", b""), (Some("é"), "日", b"\xff\0\xff")].into_iter().enumerate() {
        for script in 0..4 {
            v.push(Scn::new(format!("wire/{ci}/{script}"), K_SCHED | K_IO, 1, 4000, move || async move {
                let net = Net::new(NetCfg::default());
                let (nm, sp) = (name.to_string(), ns.map(|s| s.to_string()));
                let cb = cbk(move |ctx, ev| {
                    Box::pin(async move {
                        match script {
                            0 => Ok(Response::empty()),
                            1 => ctx.response(b(ev.data_raw())),
                            2 => {
                                ctx.emit("one", b(b"1")).await?;
                                ctx.emit_to("space", "two", b(b"22")).await?;
                                ctx.response(b(b"333"))
                            }
                            _ => Err(IPCError::from("refused")),
                        }
                    })
                });
                let mut sb = Plain::builder(&net);
                sb = match &sp {
                    Some(s) => {
                        let n = sb.namespace(s).on(&nm, cb).build();
                        n
                    }
                    None => sb.on(&nm, cb),
                };
                let _s = serve::<Plain>(&net, sb).await;
                let c = lift(Plain::builder(&net).timeout(ms(500)).build_client().await, "connect", "client")?;
                let id = match &sp {
                    Some(s) => lift(c.emit_to(s.as_str(), nm.as_str(), b(data)).await, "codec", "emitting")?,
                    None => lift(c.emit(nm.as_str(), b(data)).await, "codec", "emitting")?,
                };
                idle().await;
                let w = net.wire(0);
                let a = exact_wire(&w.c2s_log(), "the client")?;
                let want = vec![Frame { id, kind: INIT, re: None, ns: sp.clone(), name: nm.clone(), data: data.to_vec() }];
                // events the server emitted on its own account are handled by the client like any other
                ensure!(a[..1] == want[..] && a[1..].iter().all(|f| f.kind == END), "codec", "the client sent {a:?} instead of {want:?}");
                let s = exact_wire(&w.s2c_log(), "the server")?;
                let mk = |f: &Frame| (f.kind, f.re, f.ns.clone(), f.name.clone(), f.data.clone());
                let got: Vec<_> = s.iter().map(mk).collect();
                let r = Some(id);
                let want: Vec<_> = match script {
                    0 => vec![(END, r, sp.clone(), "end".to_string(), vec![])],
                    1 => vec![(END, r, sp.clone(), "end".to_string(), data.to_vec())],
                    2 => vec![
                        (RESP, r, None, "one".to_string(), b"1".to_vec()),
                        (RESP, r, Some("space".to_string()), "two".to_string(), b"22".to_vec()),
                        (END, r, sp.clone(), "end".to_string(), b"333".to_vec()),
                    ],
                    _ => {
                        ensure!(got.len() == 1 && got[0].0 == ERR && got[0].1 == r && got[0].3 == "error", "codec", "a failing handler: {got:?}");
                        let e = parse_err(&got[0].4);
                        ensure!(e.as_ref().map_or(false, |(c, m)| *c == 500 && m.contains("refused")), "codec", "the payload of an error event is {}", show(&got[0].4));
                        return Ok(());
                    }
                };
                // whether concluding events carry a namespace, and how they are named, is not specified; their kind is
                let strip = |v: Vec<(u8, Option<u64>, Option<String>, String, Vec<u8>)>| -> Vec<_> {
                    v.into_iter().map(|x| if x.0 == END { (x.0, x.1, None, String::new(), x.4) } else if x.0 == INIT { (RESP, x.1, x.2, x.3, x.4) } else { x }).collect()
                };
                let (got, want): (Vec<_>, Vec<_>) = (strip(got), strip(want));
                ensure!(got == want, "codec", "the server sent {got:?} instead of {want:?}");
                Ok(())
            }));
        }
    }
    v
}
/// Emissions that cannot be represented fail, send nothing and leave the connection usable.
fn c08_refused<T: Tp>() -> Vec<Scn> {
    let mut v = vec![];
    for kind in 0..5usize {
        for (li, (nl, el)) in [(0usize, 65536usize), (0, 65535 - 17 + 1), (0, 65535 - 16), (40_000, 40_000), (65_536, 1), (70_000, 0), (65_537, 65_537), (131_072, 3)].into_iter().enumerate() {
            v.push(Scn::new(format!("refused/{}/{kind}/{li}", T::NAME), K_SCHED, 1, 600, move || async move {
                let net = Net::new(NetCfg::default());
                let seen = Log::new();
                let s2 = seen.clone();
                let sb = T::builder(&net)
                    .on("echo", |ctx, ev| Box::pin(async move { ctx.response(b(ev.data_raw())) }))
                    .on("in_handler", move |ctx, _ev| {
                        let s2 = s2.clone();
                        Box::pin(async move {
                            let r = ctx.emit_to("n".repeat(nl.max(1)), "e".repeat(el), b(b"x")).await;
                            s2.add(format!("handler emission ok: {}", r.is_ok()));
                            ctx.response(b(b"done"))
                        })
                    });
                let _s = serve::<T>(&net, sb).await;
                let c = lift(T::builder(&net).timeout(ms(500)).build_client().await, "connect", "client")?;
                let w = net.wire(0);
                let before = w.c2s_log().len();
                let (ns, name) = ("n".repeat(nl), "e".repeat(el));
                let failed = match kind {
                    0 => if nl == 0 { c.emit(&name, b(b"x")).await.is_err() } else { c.emit_to(&ns, &name, b(b"x")).await.is_err() },
                    1 => if nl == 0 { c.emit(&name, b(b"x")).await_reply().await.is_err() } else { c.emit_to(&ns, &name, b(b"x")).await_reply().await.is_err() },
                    2 => if nl == 0 { c.emit(&name, b(b"x")).stream_replies().await.is_err() } else { c.emit_to(&ns, &name, b(b"x")).stream_replies().await.is_err() },
                    3 => {
                        // while another emission is going on
                        let c2 = c.clone();
                        let h = tokio::spawn(async move { c2.emit("echo", b(b"1")).await_reply().await });
                        let r = c.emit_to(&ns, &name, b(b"x")).await.is_err();
                        let g = got(lift(h.await, "panic", "task")?);
                        ensure!(g == Got::Ok(b"1".to_vec()), "codec", "a request during the refused emission: {g:?}");
                        r
                    }
                    _ => {
                        let g = got(c.emit("in_handler", b(b"")).await_reply().await);
                        ensure!(g == Got::Ok(b"done".to_vec()), "codec", "after a refused emission in the handler: {g:?}");
                        seen.get() == ["handler emission ok: false"]
                    }
                };
                // the header of kind 4 refers to the handled event, hence is 8 bytes longer
                let hl = 17 + nl + el + if kind == 4 { 8 + (nl == 0) as usize } else { 0 };
                if hl > 65535 {
                    ensure!(failed, "codec", "an event with a header of {hl} bytes was emitted");
                    if kind < 3 {
                        ensure!(w.c2s_log().len() == before, "codec", "something was sent for an event that cannot be represented");
                    }
                }
                for d in [&b"a"[..], b"bb"] {
                    let g = got(c.emit("echo", b(d)).await_reply().await);
                    ensure!(g == Got::Ok(d.to_vec()), "codec", "a request after the refused emission: {g:?}");
                }
                Ok(())
            }));
        }
    }
    v
}
pub fn c08(t: Tier) -> Vec<Scn> {
    let mut v = c08_encode(t);
    v.extend(c08_decode(t));
    v.extend(c08_wire());
    v.extend(c08_refused::<Plain>());
    v
}

// ---------------------------------------------------------------------------------------- C09

fn interesting_u64(t: Tier) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..64 {
        let p = 1u64 << k;
        v.extend([p, p - 1, p.wrapping_add(1)]);
        if t.thorough {
            v.extend([p.wrapping_add(9), p.wrapping_add(10), p.wrapping_add(65535), !p]);
        }
    }
    v.extend([u64::MAX, u64::MAX - 1, u64::MAX - 9, u64::MAX - 10, u64::MAX - 65535, u64::MAX / 2]);
    v.sort();
    v.dedup();
    v
}
fn c09_codec(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let frames: Vec<Frame> = base_frames();
    let sel: Vec<Frame> = frames.iter().cloned().step_by(t.p(3, 1)).collect();
    let fr = Arc::new(sel);
    for (i, _) in fr.iter().enumerate() {
        let f = fr.clone();
        v.push(Scn::sync(format!("bytes/{i}"), move || {
            let enc = f[i].encode();
            // every truncation
            for n in 0..enc.len() {
                decode_like_reference(&enc[..n])?;
            }
            // every single byte replaced by every value, with and without data following
            for p in 0..enc.len() {
                for x in 0..=255u8 {
                    let mut b = enc.clone();
                    b[p] = x;
                    decode_like_reference(&b)?;
                    b.extend([0x41; 40]);
                    decode_like_reference(&b)?;
                }
            }
            // every byte removed, every position with a byte inserted
            for p in 0..enc.len() {
                let mut b = enc.clone();
                b.remove(p);
                decode_like_reference(&b)?;
                for x in [0u8, 1, 0x7f, 0x80, 0xff] {
                    let mut b = enc.clone();
                    b.insert(p, x);
                    decode_like_reference(&b)?;
                }
            }
            Ok(())
        }));
        if i % t.p(6, 1) == 0 {
            let f = fr.clone();
            v.push(Scn::sync(format!("pairs/{i}"), move || {
                let enc = f[i].encode();
                let vals: &[u8] = if t.thorough { &[0, 1, 2, 3, 9, 0x10, 0x7f, 0x80, 0xc3, 0xe0, 0xfe, 0xff] } else { &[0, 1, 0x10, 0x80, 0xff] };
                for p in 0..enc.len() {
                    for q in p + 1..enc.len() {
                        for &x in vals {
                            for &y in vals {
                                let mut b = enc.clone();
                                b[p] = x;
                                b[q] = y;
                                decode_like_reference(&b)?;
                            }
                        }
                    }
                }
                Ok(())
            }));
        }
    }
    for (i, f) in [
        Frame::new(1, INIT, None, "ev", b"payload"),
        Frame::new(1, RESP, Some(3), "ev", b"").ns("nsp"),
        Frame::new(1, END, Some(3), "", &[9; 300]).ns("nsp"),
    ]
    .into_iter()
    .enumerate()
    {
        let g = f.clone();
        v.push(Scn::sync(format!("total_length/{i}"), move || {
            let enc = g.encode();
            let mut vals: Vec<u64> = (0..2 * enc.len() as u64 + 20).collect();
            vals.extend(interesting_u64(t));
            for x in vals {
                for extra in [0usize, 3, 400, 70_000] {
                    let mut b = x.to_be_bytes().to_vec();
                    b.extend(&enc[8..]);
                    b.extend(vec![0x42; extra]);
                    decode_like_reference(&b)?;
                }
            }
            Ok(())
        }));
        let g = f.clone();
        v.push(Scn::sync(format!("header_length/{i}"), move || {
            let enc = g.encode();
            for x in (0..=65535u16).step_by(t.p(7, 1)).chain(0..1000).chain(65000..=65535) {
                for extra in [0usize, 70_000] {
                    let mut b = enc.clone();
                    b[8..10].copy_from_slice(&x.to_be_bytes());
                    b.extend(vec![0u8; extra]);
                    decode_like_reference(&b)?;
                    // with a total length that covers it
                    b[..8].copy_from_slice(&(x as u64 + 3).to_be_bytes());
                    decode_like_reference(&b)?;
                }
            }
            Ok(())
        }));
        let g = f.clone();
        v.push(Scn::sync(format!("string_length/{i}"), move || {
            let enc = g.encode();
            let hl = g.header([0, 9, 0], &[]).len();
            let ns_at = 10 + 13 + if g.re.is_some() { 8 } else { 0 };
            let name_at = ns_at + 2 + g.ns.as_ref().map_or(0, |s| s.len());
            for at in [ns_at, name_at] {
                for x in (0..=65535u16).step_by(t.p(5, 1)).chain(0..1000) {
                    for extra in [0usize, 66_000] {
                        let mut b = enc.clone();
                        b[at..at + 2].copy_from_slice(&x.to_be_bytes());
                        b.extend(vec![b'z'; extra]);
                        decode_like_reference(&b)?;
                        if extra > 0 {
                            // the header claims to have as much as possible
                            b[8..10].copy_from_slice(&65535u16.to_be_bytes());
                            b[..8].copy_from_slice(&65535u64.to_be_bytes());
                            decode_like_reference(&b)?;
                        }
                    }
                }
            }
            let _ = hl;
            Ok(())
        }));
    }
    // strings that are not UTF-8: every two-byte string and chosen longer ones
    v.push(Scn::sync("utf8", move || {
        let put = |s: &[u8], ns: bool| -> Res {
            let mut h = vec![0, 9, 0];
            h.extend(5u64.to_be_bytes());
            h.extend([0, 0]);
            let (a, b): (&[u8], &[u8]) = if ns { (s, b"x") } else { (b"", s) };
            h.extend((a.len() as u16).to_be_bytes());
            h.extend(a);
            h.extend((b.len() as u16).to_be_bytes());
            h.extend(b);
            let mut v = (h.len() as u64 + 1).to_be_bytes().to_vec();
            v.extend((h.len() as u16).to_be_bytes());
            v.extend(h);
            v.push(7);
            decode_like_reference(&v)
        };
        for ns in [false, true] {
            for x in 0..=255u8 {
                put(&[x], ns)?;
                for y in 0..=255u8 {
                    put(&[x, y], ns)?;
                    if t.thorough {
                        for z in 0..=255u8 {
                            put(&[x, y, z], ns)?;
                        }
                    } else {
                        for z in [0x00, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xff] {
                            put(&[x, y, z], ns)?;
                        }
                    }
                }
            }
            for s in [&b"\xf0\x9f\x98\x80"[..], b"\xf4\x90\x80\x80", b"\xed\xa0\x80", b"\xf0\x80\x80\x80", b"abc\xff", b"\xf0\x9f\x98"] {
                put(s, ns)?;
            }
        }
        Ok(())
    }));
    v
}

#[derive(Clone, Copy, Debug)]
enum Side {
    Server,
    Client,
}
/// The kinds of malformed input sent on a connection.
fn malformed() -> Vec<(&'static str, Vec<u8>)> {
    let f = Frame::new(77, INIT, None, "m", b"malformed");
    let enc = f.encode();
    let with = |at: usize, x: &[u8]| {
        let mut b = enc.clone();
        b[at..at + x.len()].copy_from_slice(x);
        b
    };
    let h = enc.len() - 10 - 9;
    vec![
        ("total=0", with(0, &0u64.to_be_bytes())),
        ("total=hl-1", with(0, &(h as u64 - 1).to_be_bytes())),
        ("total=max", with(0, &u64::MAX.to_be_bytes())),
        ("total=2^40", with(0, &(1u64 << 40).to_be_bytes())),
        ("total=2^62", with(0, &(1u64 << 62).to_be_bytes())),
        ("hl=0", with(8, &[0, 0])),
        ("hl=1", with(8, &[0, 1])),
        ("hl-1", with(8, &(h as u16 - 1).to_be_bytes())),
        ("version", with(10, &[1])),
        ("version255", with(10, &[255, 9, 0])),
        ("kind=4", with(10 + 11, &[4])),
        ("kind=255", with(10 + 11, &[255])),
        ("refflag=1", with(10 + 12, &[1])),
        ("refflag=ff", with(10 + 12, &[0xff])),
        ("nslen", with(10 + 13, &[0xff, 0xff])),
        ("namelen", with(10 + 15, &[0xff, 0xff])),
        ("name-utf8", with(10 + 17, &[0xff])),
        ("text", b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n".to_vec()),
        ("zeros", vec![0; 64]),
        ("ones", vec![0xff; 64]),
    ]
}
/// Valid events, the malformed input, valid events again: on one of two connections to a server,
/// or on the connection of a client.
fn conn_case(side: Side, before: usize, what: Vec<u8>, end: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let what = what.clone();
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 6, nolog: false, ..Default::default() });
            let log = Arc::new(Mutex::new(Vec::<Frame>::new()));
            let l2 = log.clone();
            let h = cbk(move |ctx, ev| {
                let l2 = l2.clone();
                Box::pin(async move {
                    l2.lock().unwrap().push(frame(&ev));
                    ctx.response(b(ev.data_raw()))
                })
            });
            let h2 = h.clone();
            let mut raw;
            let mut keep = None;
            let mut good = None;
            match side {
                Side::Server => {
                    let _ = serve::<Plain>(&net, Plain::builder(&net).on("ev", h).on("m", h2)).await;
                    raw = lift(SimRaw::connect(&net), "connect", "raw")?;
                    good = Some(lift(Plain::builder(&net).timeout(ms(100)).build_client().await, "connect", "client")?);
                }
                Side::Client => {
                    let l = net.listen();
                    keep = Some(lift(Plain::builder(&net).on("ev", h).on("m", h2).timeout(ms(100)).build_client().await, "connect", "client")?);
                    raw = SimRaw::accept(&l).await;
                    Box::leak(Box::new(())); // nothing: the listener may go
                }
            }
            // some events are pending at the time: a request of the client
            let pend = keep.clone().map(|c: Context| tokio::spawn(async move { got(c.emit("q", b(b"")).await_reply().await) }));
            idle().await;
            let mut sent = vec![];
            let mut bytes = vec![];
            for k in 0..before {
                let f = Frame::new(raw.id(), INIT, None, "ev", &[k as u8; 3]);
                bytes.extend(f.encode());
                sent.push(f);
            }
            let m = alloc::mark();
            bytes.extend(&what);
            for k in 0..3 {
                let f = Frame::new(raw.id(), INIT, None, "ev", &[0x80 + k; 3]);
                bytes.extend(f.encode());
            }
            let want: Vec<Frame> = {
                // what a correct reader makes of it
                let mut v = vec![];
                let mut i = 0;
                while let Ok(Some((f, n))) = Frame::decode(&bytes[i..]) {
                    v.push(f);
                    i += n
                }
                v
            };
            // end events are not handled, all others get a conclusion
            let concl = want.iter().filter(|f| f.kind != END).count();
            let want: Vec<Frame> = want.into_iter().filter(|f| f.kind != END && f.ns.is_none() && (f.name == "ev" || f.name == "m")).collect();
            let broken = {
                let mut i = 0;
                loop {
                    match Frame::decode(&bytes[i..]) {
                        Ok(Some((_, n))) => i += n,
                        Ok(None) => break false,
                        Err(_) => break true,
                    }
                }
            };
            let _ = raw.send_bytes(&bytes).await;
            idle().await;
            let peak = alloc::peak_since(m);
            ensure!(peak < (1 << 21) + 8 * bytes.len() as i64, "memory", "{} received bytes made the process reserve {peak}", bytes.len());
            let mut gotl = log.lock().unwrap().clone();
            let mut w2 = want.clone();
            gotl.sort_by_key(|f| f.id);
            w2.sort_by_key(|f| f.id);
            ensure!(gotl == w2, "malformed", "handled {gotl:?} instead of {w2:?}");
            if let Side::Server = side {
                // the replies to the valid ones arrive, then the connection is given up
                let mut n = 0;
                if broken || end {
                    if end {
                        // the peer ends the connection
                        use tokio::io::AsyncWriteExt;
                        let _ = raw.w.shutdown().await;
                    }
                    loop {
                        match within(ms(50), "waiting for the server to give up the connection", raw.recv()).await? {
                            Ok(Some(f)) => {
                                n += 1;
                                ensure!(f.kind == END, "malformed", "{f:?}");
                            }
                            Ok(None) => break,
                            Err(e) => return bad("malformed", format!("{e}")),
                        }
                    }
                    ensure!(n == concl, "malformed", "{n} conclusions for {concl} valid events");
                }
                let g = good.unwrap();
                let r = got(g.emit("ev", b(b"other")).await_reply().await);
                ensure!(r == Got::Ok(b"other".to_vec()), "malformed", "a request on another connection: {r:?}");
                let c = lift(Plain::builder(&net).timeout(ms(100)).build_client().await, "malformed", "a new client")?;
                let r = got(c.emit("ev", b(b"new")).await_reply().await);
                ensure!(r == Got::Ok(b"new".to_vec()), "malformed", "a request on a new connection: {r:?}");
            }
            if end && matches!(side, Side::Client) {
                drop(raw);
                idle().await;
                let mut g2 = log.lock().unwrap().clone();
                g2.sort_by_key(|f| f.id);
                ensure!(g2 == w2, "malformed", "after the end of the connection {g2:?} were handled instead of {w2:?}");
            }
            if let Some(p) = pend {
                let r = lift(within(ms(1000), "a pending request", p).await?, "panic", "task")?;
                ensure!(matches!(r, Got::Timeout | Got::Other(_)), "malformed", "a pending request yielded {r:?}");
            }
            Ok(())
        })
    }
}
fn c09_conn(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for side in [Side::Server, Side::Client] {
        for before in [0usize, 1, 2] {
            for (n, m) in malformed() {
                for end in [false, true] {
                    v.push(Scn::new(format!("conn/{side:?}/{before}/{n}/{end}"), K_SCHED | 1 << READ, t.p(1, 2), t.p(700, 40_000), conn_case(side, before, m.clone(), end)));
                }
            }
        }
        // every byte of a frame changed to some values on a live connection
        let enc = Frame::new(77, INIT, None, "m", b"xy").encode();
        for p in 0..enc.len() {
            for x in [0u8, 1, 3, 4, 0x41, 0x7f, 0x80, 0xfe, 0xff] {
                let mut m = enc.clone();
                m[p] = x;
                v.push(Scn::new(format!("conn/{side:?}/byte/{p}/{x}"), K_SCHED | 1 << READ, t.p(0, 1), t.p(1, 1000), conn_case(side, 1, m, true)));
            }
        }
        for n in 0..enc.len() {
            v.push(Scn::new(format!("conn/{side:?}/cut/{n}"), K_SCHED | 1 << READ, t.p(0, 1), t.p(1, 1000), conn_case(side, 1, enc[..n].to_vec(), true)));
        }
    }
    v
}
/// Replies to a pending request whose payload is malformed.
fn c09_replies() -> Vec<Scn> {
    let mut v = vec![];
    let err_loads: Vec<(&str, Vec<u8>)> = vec![
        ("empty", vec![]),
        ("one", vec![1]),
        ("code", vec![1, 0xf4]),
        ("len", vec![1, 0xf4, 0, 0, 0]),
        ("huge", vec![1, 0xf4, 0xff, 0xff, 0xff, 0xff, b'x']),
        ("short", vec![1, 0xf4, 0, 0, 0, 5, b'x']),
        ("utf8", vec![1, 0xf4, 0, 0, 0, 2, 0xff, 0xfe]),
        ("long", vec![1, 0xf4, 0, 0, 0, 1, b'x', b'y', b'z']),
    ];
    for (n, load) in err_loads {
        for stream in [false, true] {
            let load = load.clone();
            v.push(Scn::new(format!("error-payload/{n}/{stream}"), K_SCHED, 1, 2000, move || {
                let load = load.clone();
                async move {
                    let net = Net::new(NetCfg::default());
                    let l = net.listen();
                    let c = lift(Plain::builder(&net).timeout(ms(100)).build_client().await, "connect", "client")?;
                    let mut raw = SimRaw::accept(&l).await;
                    let c2 = c.clone();
                    let h = tokio::spawn(async move {
                        if stream {
                            let mut s = c2.emit("q", b(b"")).stream_replies().await?;
                            use futures::StreamExt;
                            match s.next().await {
                                Some(r) => r.map(|e| e.data_raw().to_vec()),
                                None => Err(IPCError::from("ended")),
                            }
                        } else {
                            c2.emit("q", b(b"")).await_reply().await.map(|e| e.data_raw().to_vec())
                        }
                    });
                    let q = lift(raw.recv_some().await, "frame", "recv")?;
                    let m = alloc::mark();
                    let id = raw.id();
                    lift(raw.send(&Frame::new(id, ERR, Some(q.id), "error", &load)).await, "io", "send")?;
                    let r = lift(h.await, "panic", "a request answered with a malformed error event")?;
                    let peak = alloc::peak_since(m);
                    ensure!(peak < 1 << 20, "memory", "a malformed error event made the process reserve {peak} bytes");
                    match (r, parse_err(&load[..load.len().min(7)])) {
                        // a stream hands out the error event itself
                        (Ok(d), _) if stream && d == load => {}
                        (Ok(d), _) => return bad("malformed", format!("an error event was delivered as reply {d:?}")),
                        (Err(IPCError::ErrorEvent(e)), Some((code, m))) => ensure!(e.code == code && e.message == m, "malformed", "error {e:?}"),
                        (Err(IPCError::ErrorEvent(e)), None) => ensure!(!(load.len() < 6), "malformed", "a malformed error payload was decoded to {e:?}"),
                        _ => {}
                    }
                    // the connection is still usable
                    let h = tokio::spawn(async move { got(c.emit("q", b(b"")).await_reply().await) });
                    let q = lift(raw.recv_some().await, "frame", "recv")?;
                    let id = raw.id();
                    lift(raw.send(&Frame::new(id, END, Some(q.id), "end", b"fine")).await, "io", "send")?;
                    let g = lift(h.await, "panic", "task")?;
                    ensure!(g == Got::Ok(b"fine".to_vec()), "malformed", "a request after the malformed error event: {g:?}");
                    Ok(())
                }
            }));
        }
    }
    v
}
pub fn c09(t: Tier) -> Vec<Scn> {
    let mut v = c09_codec(t);
    v.extend(c09_conn(t));
    v.extend(c09_replies());
    v
}

// ---------------------------------------------------------------------------------------- C10

async fn a_context(f: impl Fn(Builder<Plain>) -> Builder<Plain>) -> Result<Context, Bad> {
    let net = Net::new(NetCfg::default());
    let _l = net.listen();
    lift(f(Plain::builder(&net)).build_client().await, "connect", "client")
}
fn byte_loads() -> Vec<Vec<u8>> {
    let mut v = vec![vec![], vec![0], vec![255], (0..=255).collect::<Vec<u8>>(), vec![0; 8], vec![0xff; 16]];
    for n in [7, 8, 9, 255, 256, 1024, 70_000] {
        v.push((0..n).map(|i| i as u8).collect());
    }
    v
}
fn messages() -> Vec<String> {
    vec!["".into(), "m".into(), "é日本\u{10ffff}".into(), "\0\0".into(), "x".repeat(255), "x".repeat(256), "y".repeat(70_000)]
}
fn c10_plain(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    v.push(Scn::new("bytes", 0, 0, 1, || async {
        let ctx = a_context(|b| b).await?;
        for d in byte_loads() {
            eval();
            let p = lift(BytePayload::new(d.clone()).into_payload(&ctx), "payload", "encoding")?;
            ensure!(p == d, "payload", "raw bytes {} were encoded to {}", show(&d), show(&p));
            let q = lift(BytePayload::from(Bytes::from(d.clone())).into_payload(&ctx), "payload", "encoding")?;
            ensure!(q == d, "payload", "raw bytes were encoded to {}", show(&q));
            let x = lift(BytePayload::from_payload(&p[..]), "payload", "decoding")?;
            ensure!(x.clone().into_inner() == d && x.into_bytes() == d, "payload", "raw bytes differ");
            // a tandem payload of all pairs
            for e in byte_loads() {
                eval();
                let w = tandem(&d, &e);
                let p = lift(TandemPayload::new(BytePayload::new(d.clone()), BytePayload::new(e.clone())).into_payload(&ctx), "payload", "encoding")?;
                ensure!(p == w, "payload", "tandem payload {} instead of {}", show(&p), show(&w));
                let (a, c) = lift(TandemPayload::<BytePayload, BytePayload>::from_payload(&p[..]), "payload", "decoding")?.into_inner();
                ensure!(a.into_inner() == d && c.into_inner() == e, "payload", "parts differ");
            }
        }
        Ok(())
    }));
    v.push(Scn::new("nested", 0, 0, 1, || async {
        let ctx = a_context(|b| b).await?;
        let l = [vec![], vec![1], vec![0; 9], vec![7; 300]];
        for a in &l {
            for c in &l {
                for d in &l {
                    for e in &l {
                        eval();
                        let p = TandemPayload::new(
                            TandemPayload::new(BytePayload::new(a.clone()), BytePayload::new(c.clone())),
                            TandemPayload::new(BytePayload::new(d.clone()), BytePayload::new(e.clone())),
                        );
                        let enc = lift(p.into_payload(&ctx), "payload", "encoding")?;
                        ensure!(enc == tandem(&tandem(a, c), &tandem(d, e)), "payload", "nested tandem {}", show(&enc));
                        type B = BytePayload;
                        let (x, y) = lift(TandemPayload::<TandemPayload<B, B>, TandemPayload<B, B>>::from_payload(&enc[..]), "payload", "decoding")?.into_inner();
                        let ((a2, c2), (d2, e2)) = (x.into_inner(), y.into_inner());
                        ensure!(a2.into_inner() == *a && c2.into_inner() == *c && d2.into_inner() == *d && e2.into_inner() == *e, "payload", "nested parts differ");
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(Scn::new("errors", 0, 0, 1, || async {
        let ctx = a_context(|b| b).await?;
        for code in [0u16, 1, 255, 256, 500, 0x0102, 65535] {
            for m in messages() {
                eval();
                let p = lift(ErrorEventData { code, message: m.clone() }.into_payload(&ctx), "payload", "encoding")?;
                ensure!(p == err_payload(code, &m), "payload", "error payload {}", show(&p));
                let e = lift(ErrorEventData::from_payload(&p[..]), "payload", "decoding")?;
                ensure!(e.code == code && e.message == m, "payload", "error payload {e:?}");
                for d in [vec![], vec![9; 20]] {
                    let p = lift(TandemPayload::new(ErrorEventData { code, message: m.clone() }, BytePayload::new(d.clone())).into_payload(&ctx), "payload", "encoding")?;
                    ensure!(p == tandem(&err_payload(code, &m), &d), "payload", "tandem of an error payload");
                    let (e, x) = lift(TandemPayload::<ErrorEventData, BytePayload>::from_payload(&p[..]), "payload", "decoding")?.into_inner();
                    ensure!(e.code == code && e.message == m && x.into_inner() == d, "payload", "tandem parts of an error payload");
                }
            }
        }
        Ok(())
    }));
    // malformed tandem and error payloads
    let check_t = |b: &[u8]| -> Res {
        eval();
        let want: Option<(Vec<u8>, Vec<u8>)> = (|| {
            let n = u64::from_be_bytes(b.get(..8)?.try_into().unwrap());
            let end1 = 8usize.checked_add(usize::try_from(n).ok()?)?;
            let a = b.get(8..end1)?;
            let m = u64::from_be_bytes(b.get(end1..end1.checked_add(8)?)?.try_into().unwrap());
            let s2 = end1 + 8;
            let c = b.get(s2..s2.checked_add(usize::try_from(m).ok()?)?)?;
            Some((a.to_vec(), c.to_vec()))
        })();
        let m = alloc::mark();
        let r = TandemPayload::<BytePayload, BytePayload>::from_payload(b);
        let peak = alloc::peak_since(m);
        ensure!(peak < allowed(b.len()), "memory", "decoding a tandem payload {} reserved {peak} bytes", show(b));
        match (want, r) {
            (Some((a, c)), Ok(t)) => {
                let (x, y) = t.into_inner();
                ensure!(x.into_inner() == a && y.into_inner() == c, "payload", "tandem payload {} was decoded wrongly", show(b));
            }
            (None, Ok(_)) => return bad("payload", format!("a malformed tandem payload {} was accepted", show(b))),
            (Some(_), Err(e)) => return bad("payload", format!("the tandem payload {} was refused: {e:?}", show(b))),
            _ => {}
        }
        Ok(())
    };
    let check_e = |b: &[u8]| -> Res {
        eval();
        let want: Option<(u16, String)> = (|| {
            let code = u16::from_be_bytes(b.get(..2)?.try_into().unwrap());
            let n = u32::from_be_bytes(b.get(2..6)?.try_into().unwrap()) as usize;
            Some((code, String::from_utf8(b.get(6..6 + n)?.to_vec()).ok()?))
        })();
        let m = alloc::mark();
        let r = ErrorEventData::from_payload(b);
        let peak = alloc::peak_since(m);
        ensure!(peak < allowed(b.len()), "memory", "decoding an error payload {} reserved {peak} bytes", show(b));
        match (want, r) {
            (Some((c, s)), Ok(e)) => ensure!(e.code == c && e.message == s, "payload", "error payload {} was decoded to {e:?}", show(b)),
            (None, Ok(e)) => return bad("payload", format!("a malformed error payload {} was decoded to {e:?}", show(b))),
            (Some(_), Err(e)) => return bad("payload", format!("the error payload {} was refused: {e:?}", show(b))),
            _ => {}
        }
        Ok(())
    };
    v.push(Scn::sync("malformed/tandem", move || {
        for (a, c) in [(vec![], vec![]), (vec![1, 2, 3], vec![4; 5]), (vec![0; 20], vec![]), (vec![9; 40], vec![0xff; 10])] {
            let enc = tandem(&a, &c);
            for n in 0..enc.len() {
                check_t(&enc[..n])?;
            }
            for p in 0..enc.len() {
                for x in 0..=255u8 {
                    let mut b = enc.clone();
                    b[p] = x;
                    check_t(&b)?;
                }
            }
            for at in [0, 8 + a.len()] {
                for x in interesting_u64(t).into_iter().chain(0..80) {
                    let mut b = enc.clone();
                    b[at..at + 8].copy_from_slice(&x.to_be_bytes());
                    check_t(&b)?;
                    b.extend([0; 30]);
                    check_t(&b)?;
                }
            }
            for x in interesting_u64(t) {
                for y in interesting_u64(Tier { thorough: false }) {
                    let mut b = enc.clone();
                    b[..8].copy_from_slice(&x.to_be_bytes());
                    b[8 + a.len()..16 + a.len()].copy_from_slice(&y.to_be_bytes());
                    check_t(&b)?;
                }
            }
        }
        Ok(())
    }));
    v.push(Scn::sync("malformed/error", move || {
        for (code, m) in [(0, ""), (500, "text"), (65535, "日本")] {
            let enc = err_payload(code, m);
            for n in 0..enc.len() {
                check_e(&enc[..n])?;
            }
            for p in 0..enc.len() {
                for x in 0..=255u8 {
                    let mut b = enc.clone();
                    b[p] = x;
                    check_e(&b)?;
                    b.extend([0x80; 10]);
                    check_e(&b)?;
                }
            }
            for x in interesting_u64(t).into_iter().filter(|x| *x <= u32::MAX as u64).chain(0..40) {
                let mut b = enc.clone();
                b[2..6].copy_from_slice(&(x as u32).to_be_bytes());
                check_e(&b)?;
            }
        }
        Ok(())
    }));
    v
}

/// A payload that cannot be encoded.
struct Failing;
#[cfg(not(feature = "full"))]
impl IntoPayload for Failing {
    fn into_payload(self, _: &Context) -> IPCResult<Bytes> {
        Err(IPCError::from("cannot be encoded"))
    }
}
#[cfg(feature = "full")]
impl serde::Serialize for Failing {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("cannot be encoded"))
    }
}
fn c10_failing<T: Tp>() -> Vec<Scn> {
    let mut v = vec![];
    for kind in 0..8usize {
        v.push(Scn::new(format!("failing/{}/{kind}", T::NAME), K_SCHED, 2, 3000, move || async move {
            let net = Net::new(NetCfg::default());
            let seen = Log::new();
            let s2 = seen.clone();
            let sb = T::builder(&net)
                .on("echo", |ctx, ev| Box::pin(async move { ctx.response(b(ev.data_raw())) }))
                .on("emits", move |ctx, _| {
                    let s2 = s2.clone();
                    Box::pin(async move {
                        s2.add(format!("{}", ctx.emit("x", Failing).await.is_ok()));
                        s2.add(format!("{}", ctx.emit("x", TandemPayload::new(b(b"1"), Failing)).await.is_ok()));
                        ctx.response(b(b"after"))
                    })
                })
                .on("responds", |ctx, _| Box::pin(async move { ctx.response(Failing) }))
                .on("responds_payload", |ctx, _| Box::pin(async move { Response::payload(ctx, TandemPayload::new(Failing, b(b"2"))) }));
            let _s = serve::<T>(&net, sb).await;
            let c = lift(T::builder(&net).timeout(ms(500)).build_client().await, "connect", "client")?;
            idle().await;
            let w = net.wire(0);
            let before = w.c2s_log().len();
            let silent = |r: bool| -> Res {
                ensure!(r, "payload", "the emission of a payload that cannot be encoded succeeded");
                ensure!(w.c2s_log().len() == before, "payload", "something was sent for a payload that cannot be encoded");
                Ok(())
            };
            match kind {
                0 => silent(c.emit("echo", Failing).await.is_err())?,
                1 => silent(c.emit("echo", Failing).await_reply().await.is_err())?,
                2 => silent(c.emit("echo", TandemPayload::new(b(b"1"), Failing)).stream_replies().await.is_err())?,
                3 => silent(c.emit_to("n", "echo", TandemPayload::new(Failing, b(b"1"))).await.is_err())?,
                4 => {
                    let c2 = c.clone();
                    let h = tokio::spawn(async move { got(c2.emit("echo", b(b"par")).await_reply().await) });
                    ensure!(c.emit("echo", Failing).await.is_err(), "payload", "emitting succeeded");
                    let g = lift(h.await, "panic", "task")?;
                    ensure!(g == Got::Ok(b"par".to_vec()), "payload", "a request at the same time: {g:?}");
                }
                5 => {
                    let g = got(c.emit("emits", b(b"")).await_reply().await);
                    ensure!(g == Got::Ok(b"after".to_vec()) && seen.get() == ["false", "false"], "payload", "failing emissions of a handler: {g:?} {:?}", seen.get());
                }
                k => {
                    let g = got(c.emit(if k == 6 { "responds" } else { "responds_payload" }, b(b"")).await_reply().await);
                    ensure!(matches!(&g, Got::Event { code: 500, .. }), "payload", "a response that cannot be encoded: {g:?}");
                }
            }
            for d in [&b"a"[..], b"bb"] {
                let g = got(c.emit("echo", b(d)).await_reply().await);
                ensure!(g == Got::Ok(d.to_vec()), "payload", "a request afterwards: {g:?}");
            }
            Ok(())
        }));
    }
    v
}
fn c10_empty() -> Vec<Scn> {
    let mut v = vec![];
    v.push(Scn::new("empty", K_SCHED | K_IO, 1, 3000, || async {
        let net = Net::new(NetCfg::default());
        let sb = Plain::builder(&net)
            .on("empty", |_c, _e| Box::pin(async move { Ok(Response::empty()) }))
            .on("unit", |c, _e| Box::pin(async move { c.response(()) }))
            .on("bytes", |c, e| {
                Box::pin(async move {
                    let d = e.payload::<BytePayload>()?.into_inner();
                    c.response(b(&[d.len() as u8]))
                })
            });
        let _s = serve::<Plain>(&net, sb).await;
        let c = lift(Plain::builder(&net).timeout(ms(500)).build_client().await, "connect", "client")?;
        let e = lift(c.emit("empty", b(b"")).await_reply().await, "payload", "empty")?;
        ensure!(e.data_raw().is_empty(), "payload", "an empty response carries {:?}", e.data_raw());
        ensure!(lift(e.payload::<BytePayload>(), "payload", "empty bytes")?.into_inner().is_empty(), "payload", "not empty");
        let e = lift(c.emit("unit", ()).await_reply().await, "payload", "unit")?;
        #[cfg(feature = "full")]
        lift(e.payload::<()>(), "payload", "decoding a unit payload")?;
        #[cfg(not(feature = "full"))]
        ensure!(e.data_raw().is_empty(), "payload", "a unit payload carries {:?}", e.data_raw());
        let e = lift(c.emit("bytes", b(b"")).await_reply().await, "payload", "bytes")?;
        ensure!(e.data_raw() == [0], "payload", "an empty payload arrived with {:?} bytes", e.data_raw());
        #[cfg(not(feature = "full"))]
        {
            let e = lift(c.emit("bytes", ()).await_reply().await, "payload", "bytes")?;
            ensure!(e.data_raw() == [0], "payload", "a unit payload arrived with {:?} bytes", e.data_raw());
        }
        Ok(())
    }));
    v
}

#[cfg(feature = "full")]
mod ser {
    use super::*;
    use serde::{de::DeserializeOwned, Deserialize, Serialize};
    use std::collections::BTreeMap;
    use std::fmt::Debug;

    pub const FMTS: [DynamicSerializer; 4] = [DynamicSerializer::Messagepack, DynamicSerializer::Bincode, DynamicSerializer::Postcard, DynamicSerializer::Json];

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct Rec {
        pub name: String,
        pub n: u64,
        pub neg: i64,
        pub f: f64,
        pub small: (u8, i8, u16, i16, u32, i32),
        pub flag: bool,
        pub c: char,
        pub opt: Option<String>,
        pub list: Vec<u32>,
        pub map: BTreeMap<String, Vec<i64>>,
        pub kind: Kind,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub enum Kind {
        Unit,
        New(u32),
        Tuple(u8, String),
        Struct { a: Option<u8>, b: Vec<String> },
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct Unit;
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct New(pub Vec<Kind>);

    pub fn kinds() -> Vec<Kind> {
        vec![
            Kind::Unit,
            Kind::New(0),
            Kind::New(u32::MAX),
            Kind::Tuple(7, "é".into()),
            Kind::Struct { a: None, b: vec![] },
            Kind::Struct { a: Some(255), b: vec!["".into(), "日本".into()] },
        ]
    }
    pub fn recs() -> Vec<Rec> {
        let mut v = vec![];
        for (i, k) in kinds().into_iter().enumerate() {
            for (name, n, neg, f) in [("", 0, 0, 0.0), ("x", u64::MAX, i64::MIN, -1.5e300), ("\"q\"\\\n", 1 << 53, i64::MAX, 1.0 / 3.0)] {
                let mut map = BTreeMap::new();
                for j in 0..i {
                    map.insert(format!("k{j}"), vec![neg; j]);
                }
                v.push(Rec {
                    name: name.into(),
                    n,
                    neg,
                    f,
                    small: (u8::MAX, i8::MIN, u16::MAX, i16::MIN, u32::MAX, i32::MIN),
                    flag: i % 2 == 0,
                    c: ['a', '\0', '\u{10ffff}', 'é'][i % 4],
                    opt: if i % 3 == 0 { None } else { Some("o".repeat(i * 50)) },
                    list: (0..(i * 40) as u32).map(|x| x.wrapping_mul(0x1234567)).collect(),
                    map,
                    kind: k.clone(),
                })
            }
        }
        v
    }

    fn round<T: Serialize + DeserializeOwned + PartialEq + Debug + Clone>(ctxs: &[Context], vals: Vec<T>) -> Res {
        for v in vals {
            for (fi, f) in FMTS.into_iter().enumerate() {
                eval();
                // by the sender's default
                let a = lift(v.clone().into_payload(&ctxs[fi]), "payload", "encoding")?;
                ensure!(a[0] as usize == fi, "payload", "{v:?} with default {f:?} is marked as format {}", a[0]);
                // explicitly
                for c in ctxs {
                    let x = lift(SerdePayload::new(f, v.clone()).into_payload(c), "payload", "encoding")?;
                    ensure!(x == a, "payload", "{v:?} encoded explicitly as {f:?} differs from the default encoding");
                }
                ensure!(lift(SerdePayload::new(f, v.clone()).try_into_bytes(), "payload", "encoding")? == a, "payload", "try_into_bytes differs");
                ensure!(lift(ctxs[fi].create_serde_payload(v.clone()).into_payload(&ctxs[(fi + 1) % 4]), "payload", "encoding")? == a, "payload", "create_serde_payload uses another format");
                let d = lift(T::from_payload(&a[..]), "payload", "decoding")?;
                ensure!(d == v, "payload", "{v:?} as {f:?} was decoded to {d:?}");
                let d = lift(SerdePayload::<T>::from_payload(&a[..]), "payload", "decoding")?;
                let again = lift(d.clone().into_payload(&ctxs[(fi + 2) % 4]), "payload", "encoding again")?;
                ensure!(again == a, "payload", "a decoded payload is encoded in another format again");
                ensure!(d.data() == v, "payload", "{v:?} as {f:?} was decoded differently");
                // as parts of tandem payloads next to other formats
                for (gi, g) in FMTS.into_iter().enumerate() {
                    let t = lift(TandemPayload::new(SerdePayload::new(f, v.clone()), SerdePayload::new(g, v.clone())).into_payload(&ctxs[0]), "payload", "encoding")?;
                    let b = lift(v.clone().into_payload(&ctxs[gi]), "payload", "encoding")?;
                    ensure!(t == tandem(&a, &b), "payload", "tandem payload of {v:?}");
                    let (x, y) = lift(TandemPayload::<T, T>::from_payload(&t[..]), "payload", "decoding")?.into_inner();
                    ensure!(x == v && y == v, "payload", "tandem parts {x:?} {y:?} instead of {v:?}");
                    let t = lift(TandemPayload::new(v.clone(), b_(&[1, 2, 3])).into_payload(&ctxs[gi]), "payload", "encoding")?;
                    let (x, y) = lift(TandemPayload::<T, BytePayload>::from_payload(&t[..]), "payload", "decoding")?.into_inner();
                    ensure!(x == v && y.into_inner() == [1, 2, 3], "payload", "tandem parts differ");
                }
            }
        }
        Ok(())
    }
    fn b_(d: &[u8]) -> BytePayload {
        b(d)
    }
    async fn contexts() -> Result<Vec<Context>, Bad> {
        let mut v = vec![];
        for f in FMTS {
            v.push(a_context(move |b| b.default_serializer(f)).await?);
        }
        Ok(v)
    }
    /// Decodes malformed bytes as several types: no panic, bounded memory.
    fn no_harm(bytes: &[u8]) -> Res {
        fn one<T: FromPayload>(b: &[u8], what: &str) -> Res {
            eval();
            let m = alloc::mark();
            let r = T::from_payload(b);
            let peak = alloc::peak_since(m);
            drop(r);
            ensure!(peak < (5 << 20) + 64 * b.len() as i64, "memory", "decoding {} as {what} reserved {peak} bytes", show(b));
            Ok(())
        }
        one::<Rec>(bytes, "struct")?;
        one::<New>(bytes, "vec of enums")?;
        one::<String>(bytes, "string")?;
        one::<Vec<u64>>(bytes, "vec of u64")?;
        one::<Vec<String>>(bytes, "vec of strings")?;
        one::<BTreeMap<String, u32>>(bytes, "map")?;
        one::<u64>(bytes, "u64")?;
        one::<Option<String>>(bytes, "option")?;
        one::<TandemPayload<String, Vec<u8>>>(bytes, "tandem")?;
        Ok(())
    }

    pub fn c10(t: Tier) -> Vec<Scn> {
        let mut v = vec![];
        v.push(Scn::new("serde/records", 0, 0, 1, || async { round(&contexts().await?, recs()) }));
        v.push(Scn::new("serde/enums", 0, 0, 1, || async {
            let c = contexts().await?;
            round(&c, kinds())?;
            round(&c, vec![New(vec![]), New(kinds())])?;
            round(&c, vec![Unit])
        }));
        v.push(Scn::new("serde/scalars", 0, 0, 1, || async {
            let c = contexts().await?;
            let mut u = vec![];
            for k in 0..64 {
                let p = 1u64 << k;
                u.extend([p, p - 1, p + 1]);
            }
            round(&c, u.clone())?;
            round(&c, u.iter().map(|x| *x as i64).collect())?;
            round(&c, u.iter().map(|x| -((*x >> 1) as i64)).collect())?;
            round(&c, u.iter().map(|x| *x as u32).collect())?;
            round(&c, u.iter().map(|x| *x as i16).collect())?;
            round(&c, (0..=255u8).collect())?;
            round(&c, (-128..=127i8).collect())?;
            round(&c, vec![true, false])?;
            round(&c, vec![()])?;
            round(&c, vec!['a', '\0', 'é', '\u{10ffff}'])?;
            round(&c, vec![0.0f64, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, 1e-300])?;
            round(&c, vec![0.0f32, 1.5, f32::MAX])?;
            round(&c, vec![None, Some(0u8), Some(255)])?;
            round(&c, vec![(1u8, "x".to_string(), Some(vec![1u16])), (0, "".into(), None)])
        }));
        v.push(Scn::new("serde/sizes", 0, 0, 1, || async {
            let c = contexts().await?;
            let sizes = [0usize, 1, 15, 16, 31, 32, 127, 128, 255, 256, 1023, 65535, 65536, 100_000];
            round(&c, sizes.iter().map(|n| "s".repeat(*n)).collect::<Vec<_>>())?;
            round(&c, sizes.iter().map(|n| vec![0xa5u8; *n]).collect::<Vec<_>>())?;
            round(&c, sizes.iter().map(|n| (0..*n as u64).map(|i| i << 20).collect::<Vec<_>>()).collect::<Vec<_>>())?;
            round(&c, sizes.iter().filter(|n| **n < 2000).map(|n| (0..*n).map(|i| (format!("{i}"), i as u32)).collect::<BTreeMap<_, _>>()).collect::<Vec<_>>())
        }));
        // the bytes of simple values, per format
        v.push(Scn::new("serde/golden", 0, 0, 1, || async {
            let c = contexts().await?;
            for (i, w) in [&[0u8, 5][..], &[1, 5, 0, 0, 0], &[2, 5], &[3, b'5']].into_iter().enumerate() {
                let p = lift(5u32.into_payload(&c[i]), "payload", "encoding")?;
                ensure!(p == w, "payload", "5 as {:?} is {}", FMTS[i], show(&p));
            }
            for (i, w) in [&[0u8, 0xa2, b'h', b'i'][..], &[1, 2, 0, 0, 0, 0, 0, 0, 0, b'h', b'i'], &[2, 2, b'h', b'i'], b"\x03\"hi\""].into_iter().enumerate() {
                let p = lift("hi".to_string().into_payload(&c[i]), "payload", "encoding")?;
                ensure!(p == w, "payload", "\"hi\" as {:?} is {}", FMTS[i], show(&p));
            }
            for x in 4..=255u8 {
                eval();
                let mut b = lift(5u8.into_payload(&c[0]), "payload", "encoding")?.to_vec();
                b[0] = x;
                ensure!(u8::from_payload(&b[..]).is_err(), "payload", "the unknown format {x} was accepted");
                ensure!(DynamicSerializer::from_primitive(x as usize).is_err(), "payload", "the unknown format {x} exists");
            }
            ensure!(DynamicSerializer::from_primitive(256).is_err() && DynamicSerializer::from_primitive(usize::MAX).is_err(), "payload", "an unknown format exists");
            for (i, f) in FMTS.into_iter().enumerate() {
                ensure!(lift(DynamicSerializer::from_primitive(i), "payload", "format")? == f, "payload", "format {i} is not {f:?}");
            }
            Ok(())
        }));
        for i in 0..4usize {
            v.push(Scn::new(format!("serde/malformed/{i}"), 0, 0, 1, move || async move {
                let c = a_context(|b| b.default_serializer(FMTS[i])).await?;
                let mut encs: Vec<Vec<u8>> = vec![];
                for r in [&recs()[3], &recs()[10]] {
                    let mut r = r.clone();
                    r.list.truncate(4);
                    r.opt = r.opt.map(|s| s[..3.min(s.len())].to_string());
                    encs.push(lift(r.into_payload(&c), "payload", "encoding")?.to_vec());
                }
                encs.push(lift(New(kinds()).into_payload(&c), "payload", "encoding")?.to_vec());
                encs.push(lift("some text".to_string().into_payload(&c), "payload", "encoding")?.to_vec());
                encs.push(lift(vec![1u64, 2, 3].into_payload(&c), "payload", "encoding")?.to_vec());
                encs.push(lift(vec!["a".to_string(), "b".into()].into_payload(&c), "payload", "encoding")?.to_vec());
                for enc in encs {
                    for n in 0..enc.len() {
                        no_harm(&enc[..n])?;
                    }
                    let vals: Vec<u8> = if t.thorough { (0..=255).collect() } else { (0..=255).step_by(5).chain([1, 2, 3, 4, 0x7f, 0x80, 0xc4, 0xc6, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xfe]).collect() };
                    for p in 0..enc.len() {
                        for &x in &vals {
                            let mut b = enc.clone();
                            b[p] = x;
                            no_harm(&b)?;
                        }
                    }
                    // lengths of every size at every place
                    for p in 1..enc.len() {
                        for x in [0u64, 1, 0xffff, 0x7fff_ffff, 0xffff_ffff, 1 << 33, 1 << 46, u64::MAX] {
                            let mut b = enc[..p].to_vec();
                            match i {
                                0 => {
                                    for m in [0xc6u8, 0xdb, 0xdd, 0xdf, 0xc9] {
                                        let mut b = b.clone();
                                        b.push(m);
                                        b.extend((x as u32).to_be_bytes());
                                        b.extend(&enc[p..]);
                                        no_harm(&b)?;
                                    }
                                }
                                1 => {
                                    b.extend(x.to_le_bytes());
                                    b.extend(&enc[(p + 8).min(enc.len())..]);
                                    no_harm(&b)?;
                                }
                                2 => {
                                    let mut y = x;
                                    loop {
                                        b.push((y & 0x7f) as u8 | if y > 0x7f { 0x80 } else { 0 });
                                        y >>= 7;
                                        if y == 0 {
                                            break;
                                        }
                                    }
                                    b.extend(&enc[p..]);
                                    no_harm(&b)?;
                                }
                                _ => {
                                    b.extend(x.to_string().bytes());
                                    no_harm(&b)?;
                                }
                            }
                        }
                    }
                }
                for f in 0..=255u8 {
                    for b in [vec![f], vec![f, 0xff], vec![f, 0xdd, 0xff, 0xff, 0xff, 0xff], [vec![f], vec![0xff; 40]].concat(), [vec![f], vec![0; 40]].concat(), [vec![f], vec![b'['; 2000]].concat(), [vec![f], vec![0x91; 2000]].concat()] {
                        no_harm(&b)?;
                    }
                }
                no_harm(&[])
            }));
        }
        // end to end: each side has its own default
        for (i, fs) in FMTS.into_iter().enumerate() {
            for (j, fc) in FMTS.into_iter().enumerate() {
                for pool in [false, true] {
                    v.push(Scn::new(format!("serde/defaults/{i}/{j}/{pool}"), K_SCHED, 1, t.p(60, 4000), move || async move {
                        let net = Net::new(NetCfg::default());
                        let sb = Plain::builder(&net)
                            .default_serializer(fs)
                            .on("rec", |ctx, ev| {
                                Box::pin(async move {
                                    let r = ev.payload::<Rec>()?;
                                    // what the handler emits has the server's default
                                    ctx.emit("back", r.kind.clone()).await?;
                                    ctx.response(r)
                                })
                            })
                            .namespace("n")
                            .on("t", |ctx, ev| {
                                Box::pin(async move {
                                    let (a, c) = ev.payload::<TandemPayload<Rec, BytePayload>>()?.into_inner();
                                    Response::payload(ctx, TandemPayload::new(c, a))
                                })
                            })
                            .build();
                        let _s = serve::<Plain>(&net, sb).await;
                        let cb = Plain::builder(&net).default_serializer(fc).timeout(ms(500));
                        let (mut one, mut pl) = (None, None);
                        if pool {
                            pl = Some(lift(cb.build_pooled_client(2).await, "connect", "pool")?);
                        } else {
                            one = Some(lift(cb.build_client().await, "connect", "client")?);
                        }
                        for r in recs().into_iter().step_by(5) {
                            eval();
                            let g1 = pl.as_ref().map(|p| p.acquire());
                            let c: &Context = match &g1 {
                                Some(g) => g,
                                None => one.as_ref().unwrap(),
                            };
                            use futures::StreamExt;
                            let mut s = lift(c.emit("rec", r.clone()).stream_replies().await, "payload", "emitting")?;
                            let e = match s.next().await {
                                Some(x) => lift(x, "payload", "first reply")?,
                                None => return bad("payload", "no reply"),
                            };
                            ensure!(e.data_raw()[0] as usize == i, "payload", "the server with default {fs:?} sent format {}", e.data_raw()[0]);
                            ensure!(lift(e.payload::<Kind>(), "payload", "decoding")? == r.kind, "payload", "the first reply differs");
                            let e = match s.next().await {
                                Some(x) => lift(x, "payload", "response")?,
                                None => return bad("payload", "no response"),
                            };
                            ensure!(lift(e.payload::<Rec>(), "payload", "decoding")? == r, "payload", "the response differs");
                            ensure!(e.data_raw()[0] as usize == i, "payload", "the server with default {fs:?} responded with format {}", e.data_raw()[0]);
                            let e = lift(c.emit_to("n", "t", TandemPayload::new(r.clone(), b(b"raw"))).await_reply().await, "payload", "tandem")?;
                            let (x, y) = lift(e.payload::<TandemPayload<BytePayload, Rec>>(), "payload", "decoding")?.into_inner();
                            ensure!(x.into_inner() == b"raw" && y == r, "payload", "the parts of the response differ");
                        }
                        let sent = Frame::split(&net.wire(0).c2s_log()).map(|x| x.0).unwrap_or_default();
                        ensure!(sent.iter().filter(|f| f.name == "rec").all(|f| f.data[0] as usize == j), "payload", "the client with default {fc:?} sent another format");
                        Ok(())
                    }));
                }
            }
        }
        v.push(Scn::new("serde/first_available", 0, 0, 1, || async {
            // without a configured default both sides still understand each other
            let c = a_context(|b| b).await?;
            let p = lift(7u64.into_payload(&c), "payload", "encoding")?;
            ensure!(lift(u64::from_payload(&p[..]), "payload", "decoding")? == 7, "payload", "differs");
            ensure!(DynamicSerializer::first_available() == FMTS[p[0] as usize], "payload", "the default is not the first available format");
            Ok(())
        }));
        v
    }
}
pub fn c10(t: Tier) -> Vec<Scn> {
    let mut v = c10_plain(t);
    v.extend(c10_failing::<Plain>());
    #[cfg(feature = "full")]
    v.extend(c10_failing::<Enc>().into_iter().filter(|s| s.id.ends_with("/0") || s.id.ends_with("/5")));
    v.extend(c10_empty());
    #[cfg(feature = "full")]
    v.extend(ser::c10(t));
    v
}
