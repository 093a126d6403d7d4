//! C11 (transparent stream), C12 (tampering), C13 (admission), C14 (confidentiality).
use crate::alloc;
use crate::common::keys;
use crate::common::*;
use crate::ensure;
use crate::ex::*;
use crate::net::*;
use crate::refc::*;
use crate::s_reply::Tier;
use bromine::prelude::*;
use bromine::protocol::encrypted::*;
use chacha20poly1305::aead::Aead;
use chacha20poly1305::{ChaCha20Poly1305, KeyInit};
use std::future::poll_fn;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};

type ES = EncryptedStream<SimStream>;

// ------------------------------------------------------------------ independent implementation
fn ref_nonce(n: u64) -> [u8; 12] {
    let b = n.to_be_bytes();
    let mut v = [0; 12];
    v[..8].copy_from_slice(&b);
    v[8..].copy_from_slice(&b[..4]);
    v
}
pub fn ref_seal(key: &[u8; 32], n: u64, pt: &[u8]) -> Vec<u8> {
    let c = ChaCha20Poly1305::new(key.into());
    let ct = c.encrypt(&ref_nonce(n).into(), pt).unwrap();
    let mut v = (ct.len() as u32).to_be_bytes().to_vec();
    v.extend(ct);
    v
}
fn ref_open(key: &[u8; 32], n: u64, ct: &[u8]) -> Option<Vec<u8>> {
    ChaCha20Poly1305::new(key.into()).decrypt(&ref_nonce(n).into(), ct).ok()
}
/// Splits what was sent after the public key into packages (with their length prefix).
fn packages(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    while b.len() >= i + 4 {
        let n = u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        if b.len() < i + 4 + n {
            break;
        }
        v.push(b[i..i + 4 + n].to_vec());
        i += 4 + n;
    }
    v
}

/// Two ends of a transport: client's, server's.
async fn ends(net: &Net) -> Result<(SimStream, SimStream), Bad> {
    let l = net.listen();
    let c = lift(net.dial(), "connect", "dial")?;
    let s = l.accept().await;
    Ok((c, s))
}
fn shared() -> x25519_dalek::SharedSecret {
    keys::secret(1).diffie_hellman(&keys::public(2))
}
async fn pair(net: &Net) -> Result<(ES, ES), Bad> {
    let (c, s) = ends(net).await?;
    Ok((ES::new(c, shared()), ES::new(s, shared())))
}
async fn exchanged(net: &Net) -> Result<(ES, ES), Bad> {
    let (c, s) = ends(net).await?;
    let h = tokio::spawn(async move { ES::from_server_key_exchange(s, &keys::keys(1, &[2], false)).await });
    let c = lift(within(long(), "the key exchange", ES::from_client_key_exchange(c, &keys::keys(2, &[1], false))).await?, "exchange", "client")?;
    let s = lift(lift(within(long(), "the key exchange", h).await?, "panic", "task")?, "exchange", "server")?;
    Ok((c, s))
}
fn pat(at: u64) -> u8 {
    (mix(at / 7) >> (at % 7 * 8)) as u8
}
fn pattern(at: usize, n: usize) -> Vec<u8> {
    (at..at + n).map(|i| pat(i as u64)).collect()
}

// ---------------------------------------------------------------------------------------- C11

#[derive(Clone, Copy, Debug, PartialEq)]
enum W {
    Write(usize),
    Flush,
}
/// How the reader asks: sizes of successive reads.
fn read_sizes(k: usize) -> Vec<usize> {
    match k {
        0 => vec![100_000],
        1 => vec![1],
        2 => vec![1000, 24, 1, 5000],
        3 => vec![1024],
        _ => vec![3, 0, 7],
    }
}
fn script(ops: Vec<W>, rk: usize, cfg: NetCfg, how: usize, split: bool, duplex: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let (ops, cfg) = (ops.clone(), cfg.clone());
        Box::pin(async move {
            let net = Net::new(cfg.clone());
            let (a, z) = if how == 0 { pair(&net).await? } else { exchanged(&net).await? };
            let (a, z) = if how == 2 { (z, a) } else { (a, z) };
            type R = Box<dyn AsyncRead + Send + Unpin>;
            type Wr = Box<dyn AsyncWrite + Send + Unpin>;
            let halves = |s: ES| -> (R, Wr) {
                if split {
                    let (r, w) = s.protocol_into_split();
                    (Box::new(r), Box::new(w))
                } else {
                    let (r, w) = tokio::io::split(s);
                    (Box::new(r), Box::new(w))
                }
            };
            let (ar, aw) = halves(a);
            let (zr, zw) = halves(z);
            let cfg2 = cfg.clone();
            let run = |mut w: Wr, mut r: R, ops: Vec<W>, dir: &'static str| {
                let seen: Arc<Mutex<(Vec<u8>, bool)>> = Default::default();
                let s2 = seen.clone();
                let cfg = cfg2.clone();
                let reader = tokio::spawn(async move {
                    let sizes = read_sizes(rk);
                    let mut i = 0;
                    loop {
                        let n = sizes[i % sizes.len()];
                        i += 1;
                        let mut buf = vec![0; n];
                        match r.read(&mut buf).await {
                            Ok(0) if n == 0 => continue,
                            Ok(0) => break,
                            Ok(k) => {
                                let mut s = s2.lock().unwrap();
                                s.0.extend(&buf[..k]);
                            }
                            Err(e) => {
                                // the end of the stream
                                if e.kind() != std::io::ErrorKind::UnexpectedEof {
                                    return bad("stream", format!("{dir}: reading failed: {e:?}"));
                                }
                                break;
                            }
                        }
                    }
                    s2.lock().unwrap().1 = true;
                    Ok(())
                });
                async move {
                    let mut sent = vec![];
                    for op in ops {
                        match op {
                            W::Write(n) => {
                                let d = pattern(sent.len(), n);
                                let mut at = 0;
                                while at < d.len() {
                                    let k = lift(within(long(), "a write", w.write(&d[at..])).await?, "stream", "writing")?;
                                    ensure!(k > 0 && k <= d.len() - at, "stream", "{dir}: a write of {} bytes reported {k}", d.len() - at);
                                    at += k;
                                }
                                sent.extend(d);
                            }
                            W::Flush => {
                                lift(within(long(), "a flush", w.flush()).await?, "stream", "flushing")?;
                                settle(1, &cfg).await;
                                let s = seen.lock().unwrap();
                                ensure!(s.0.len() >= sent.len(), "stream", "{dir}: only {} of {} flushed bytes arrived", s.0.len(), sent.len());
                            }
                        }
                        let s = seen.lock().unwrap();
                        ensure!(s.0.len() <= sent.len() && s.0[..] == sent[..s.0.len()], "stream", "{dir}: the reader got other bytes than were written");
                    }
                    lift(within(long(), "shutdown", w.shutdown()).await?, "stream", "shutdown")?;
                    lift(within(long(), "reading to the end after shutdown", reader).await?, "panic", "reader")??;
                    let s = seen.lock().unwrap();
                    ensure!(s.0 == sent, "stream", "{dir}: {} of {} bytes arrived, intact: {}", s.0.len(), sent.len(), sent.starts_with(&s.0));
                    Ok(w)
                }
            };
            if duplex {
                let h = tokio::spawn(run(zw, ar, ops.iter().rev().copied().collect(), "back"));
                let w = run(aw, zr, ops, "forth").await?;
                let w2 = lift(within(long(), "the other direction", h).await?, "panic", "task")??;
                drop((w, w2));
            } else {
                let w = run(aw, zr, ops, "forth").await?;
                let n = net.wires() - 1;
                let f = net.wire(n).fin();
                ensure!(if how == 2 { f.1 } else { f.0 }, "stream", "the transport is not closed after shutdown");
                drop((w, ar, zw));
            }
            Ok(())
        })
    }
}
fn scripts(len: usize, alpha: &[W]) -> Vec<Vec<W>> {
    let mut all = vec![];
    let mut last: Vec<Vec<W>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for s in &last {
            for a in alpha {
                let mut x = s.clone();
                x.push(*a);
                next.push(x);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
/// Single polls of the writer against a transport that is drained now and then: what was accepted
/// arrives, what was not accepted (pending) does not.
fn poll_writer(len: usize, first: usize, capacity: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            const OPS: usize = 6;
            let total = OPS.pow(len as u32 - 1);
            for code in 0..total {
                eval();
                let mut ops = vec![first];
                let mut c = code;
                for _ in 1..len {
                    ops.push(c % OPS);
                    c /= OPS;
                }
                let net = Net::new(NetCfg { cap: capacity, buffered: true, nolog: true, ..Default::default() });
                let (mut a, mut z) = pair(&net).await?;
                let wk = futures::task::noop_waker();
                let mut cx = Cx::from_waker(&wk);
                let mut accepted: Vec<u8> = vec![];
                let mut received: Vec<u8> = vec![];
                let mut fresh = 0usize;
                let what = |ops: &[usize]| format!("polls {ops:?} (0-2: write 10/1024/1500 bytes, 3: flush, 4: drain, 5: read 1), capacity {capacity}");
                let mut drain = |z: &mut ES, cx: &mut Cx<'_>, max: usize| -> Result<usize, Bad> {
                    let mut n = 0;
                    loop {
                        let mut mem = vec![0u8; if max == 1 { 1 } else { 4096 }];
                        let mut rb = ReadBuf::new(&mut mem);
                        match Pin::new(&mut *z).poll_read(cx, &mut rb) {
                            Poll::Ready(Ok(())) => {
                                let f = rb.filled();
                                if f.is_empty() {
                                    return bad("stream", "the stream ended");
                                }
                                n += f.len();
                                received.extend(f);
                            }
                            Poll::Ready(Err(e)) => return bad("stream", format!("reading failed: {e:?}")),
                            Poll::Pending => return Ok(n),
                        }
                        if n >= max {
                            return Ok(n);
                        }
                    }
                };
                let mut flushed_to = 0usize;
                for &o in &ops {
                    match o {
                        0 | 1 | 2 => {
                            let n = [10, 1024, 1500][o];
                            fresh += 10_000;
                            let d = pattern(fresh, n);
                            match Pin::new(&mut a).poll_write(&mut cx, &d) {
                                Poll::Ready(Ok(k)) => {
                                    ensure!(k > 0 && k <= n, "stream", "{}: a write reported {k} of {n}", what(&ops));
                                    accepted.extend(&d[..k])
                                }
                                Poll::Ready(Err(e)) => return bad("stream", format!("{}: writing failed: {e:?}", what(&ops))),
                                Poll::Pending => {}
                            }
                        }
                        3 => match Pin::new(&mut a).poll_flush(&mut cx) {
                            Poll::Ready(Ok(())) => flushed_to = accepted.len(),
                            Poll::Ready(Err(e)) => return bad("stream", format!("{}: flushing failed: {e:?}", what(&ops))),
                            Poll::Pending => {}
                        },
                        4 => {
                            drain(&mut z, &mut cx, usize::MAX)?;
                        }
                        _ => {
                            drain(&mut z, &mut cx, 1)?;
                        }
                    }
                }
                drain(&mut z, &mut cx, usize::MAX)?;
                let mut polls = 0;
                loop {
                    match Pin::new(&mut a).poll_flush(&mut cx) {
                        Poll::Ready(Ok(())) => break,
                        Poll::Ready(Err(e)) => return bad("stream", format!("{}: flushing failed: {e:?}", what(&ops))),
                        Poll::Pending => {
                            drain(&mut z, &mut cx, usize::MAX)?;
                        }
                    }
                    polls += 1;
                    ensure!(polls < 5000, "stream", "{}: flushing never completes", what(&ops));
                }
                drain(&mut z, &mut cx, usize::MAX)?;
                ensure!(received == accepted, "stream", "{}: {} bytes were accepted ({flushed_to} flushed), {} received, equal up to {}", what(&ops), accepted.len(), received.len(), received.iter().zip(&accepted).take_while(|(a, b)| a == b).count());
            }
            Ok(())
        })
    }
}
fn read_once(z: &mut ES, n: usize) -> Poll<std::io::Result<Vec<u8>>> {
    let wk = futures::task::noop_waker();
    let mut cx = Cx::from_waker(&wk);
    let mut mem = vec![0u8; n];
    let mut rb = ReadBuf::new(&mut mem);
    match Pin::new(z).poll_read(&mut cx, &mut rb) {
        Poll::Ready(Ok(())) => Poll::Ready(Ok(rb.filled().to_vec())),
        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        Poll::Pending => Poll::Pending,
    }
}
/// Single polls of the reader while the encrypted bytes arrive in pieces.
fn poll_reader(len: usize, first: usize, sizes: Vec<usize>) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let sizes = sizes.clone();
        Box::pin(async move {
            // record
            let net = Net::new(NetCfg::default());
            let (mut a, _z) = pair(&net).await?;
            let mut plain = vec![];
            for n in &sizes {
                let d = pattern(plain.len(), *n);
                lift(a.write_all(&d).await, "stream", "writing")?;
                lift(a.flush().await, "stream", "flushing")?;
                plain.extend(d);
            }
            let rec = net.wire(0).c2s_log();
            const OPS: usize = 8;
            for code in 0..OPS.pow(len as u32 - 1) {
                eval();
                let mut ops = vec![first];
                let mut c = code;
                for _ in 1..len {
                    ops.push(c % OPS);
                    c /= OPS;
                }
                let net = Net::new(NetCfg { nolog: true, ..Default::default() });
                let (mut tx, rx) = ends(&net).await?;
                let mut z = ES::new(rx, shared());
                let (mut fed, mut got) = (0usize, Vec::<u8>::new());
                // what is readable once so many bytes have arrived
                let bounds: Vec<(usize, usize)> = {
                    let mut v = vec![];
                    let (mut e, mut p) = (0, 0);
                    for x in packages(&rec) {
                        e += x.len();
                        p += x.len() - 20;
                        v.push((e, p));
                    }
                    v
                };
                ops.push(7);
                for _ in 0..sizes.len() {
                    ops.extend([7, 2]);
                }
                let what = || format!("polls {ops:?} (0-2: read 1/30/5000 bytes, 3: read 0, 4-7: 1/5/half/whole of the next package arrive), packages of {sizes:?}");
                for &o in &ops {
                    if o < 4 {
                        let n = [1, 30, 5000, 0][o];
                        let ready = bounds.iter().filter(|b| b.0 <= fed).map(|b| b.1).last().unwrap_or(0);
                        match read_once(&mut z, n) {
                            Poll::Ready(Ok(d)) => {
                                ensure!(n == 0 || !d.is_empty(), "stream", "{}: the end is reported", what());
                                got.extend(d);
                            }
                            Poll::Ready(Err(e)) => return bad("stream", format!("{}: reading failed: {e:?}", what())),
                            Poll::Pending => ensure!(n > 0 && got.len() >= ready, "stream", "{}: {ready} bytes have arrived, {} were read, but a read of {n} waits", what(), got.len()),
                        }
                        ensure!(plain.starts_with(&got), "stream", "{}: other bytes were read", what());
                    } else if fed < rec.len() {
                        let end = bounds.iter().map(|b| b.0).find(|e| *e > fed).unwrap();
                        let k = match o {
                            4 => 1,
                            5 => 5,
                            6 => (end - fed).div_ceil(2),
                            _ => end - fed,
                        }
                        .min(rec.len() - fed);
                        lift(tx.write_all(&rec[fed..fed + k]).await, "io", "feeding")?;
                        fed += k;
                    }
                }
                ensure!(fed == rec.len(), "stream", "harness: not everything was fed");
                loop {
                    match read_once(&mut z, 700) {
                        Poll::Ready(Ok(d)) => got.extend(d),
                        Poll::Ready(Err(e)) => return bad("stream", format!("{}: reading failed: {e:?}", what())),
                        Poll::Pending => break,
                    }
                }
                ensure!(got == plain, "stream", "{}: {} of {} bytes were read", what(), got.len(), plain.len());
            }
            Ok(())
        })
    }
}
/// The transport fails at the nth operation of a kind: operations fail, nothing panics or hangs,
/// what was read is a prefix.
fn c11_fault(f: Fault, size: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { fault: Some(f), buffered: true, cap: 700, ..Default::default() });
            let (a, z) = pair(&net).await?;
            let (_ar, mut aw) = a.protocol_into_split();
            let (mut zr, _zw) = z.protocol_into_split();
            let h = tokio::spawn(async move {
                let mut got = vec![];
                let mut errs = 0;
                let mut buf = vec![0; 333];
                for _ in 0..200 {
                    match zr.read(&mut buf).await {
                        Ok(0) => break,
                        Ok(n) => {
                            if errs > 0 {
                                return bad("stream", "reading succeeded after it failed");
                            }
                            got.extend(&buf[..n])
                        }
                        Err(_) => {
                            errs += 1;
                            if errs > 3 {
                                break;
                            }
                        }
                    }
                }
                Ok(got)
            });
            let mut sent = vec![];
            let mut flushed = 0;
            let mut failed = false;
            for k in 0..6 {
                let d = pattern(sent.len(), size + k);
                match within(ms(5000), "a write", aw.write_all(&d)).await? {
                    Ok(()) => {
                        // (it may have been buffered only)
                        sent.extend(d);
                    }
                    Err(_) => {
                        failed = true;
                        sent.extend(d);
                    }
                }
                match within(ms(5000), "a flush", aw.flush()).await? {
                    Ok(()) => {
                        ensure!(!failed, "stream", "a flush succeeded after data was lost");
                        flushed = sent.len();
                    }
                    // a transport that failed to flush did not lose anything yet
                    Err(_) => failed |= f.op != Op::Flush,
                }
            }
            let _ = within(ms(5000), "shutdown", aw.shutdown()).await?;
            drop((aw, _ar));
            let got = lift(within(ms(5000), "reading on a failing transport", h).await?, "panic", "task")??;
            ensure!(sent.starts_with(&got), "stream", "{} bytes were read that are no prefix of what was written", got.len());
            obs(format!("{} of {} bytes read, {flushed} flushed", got.len(), sent.len()));
            if f.client_side {
                // nothing is wrong with the reader's end: what was flushed arrives
                ensure!(got.len() >= flushed, "stream", "{flushed} bytes were flushed but {} arrived", got.len());
            }
            Ok(())
        })
    }
}
pub fn c11(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let alpha = [W::Write(1), W::Write(1000), W::Write(1024), W::Write(1500), W::Write(5000), W::Flush];
    let nets = |i: usize| match i {
        0 => NetCfg { io_points: 12, ..Default::default() },
        1 => NetCfg { buffered: true, cap: 500, io_points: 12, ..Default::default() },
        2 => NetCfg { buffered: true, cap: 64, max_read: 5, io_points: 8, ..Default::default() },
        _ => NetCfg { max_write: 1, max_read: 3, io_points: 8, ..Default::default() },
    };
    for (si, s) in scripts(t.p(3, 4), &alpha).into_iter().enumerate() {
        for rk in 0..5 {
            if s.len() > 2 && rk != si % 5 && !t.thorough {
                continue;
            }
            for ni in 0..3 {
                let small = s.len() <= 2;
                let d = if small { 1 } else { t.p(0, 1) };
                v.push(Scn::new(format!("script/{s:?}/{rk}/{ni}"), K_SCHED | K_IO, d, t.p(120, 300), script(s.clone(), rk, nets(ni), 0, si % 2 == 0, false)));
            }
        }
    }
    for (k, s) in [
        vec![W::Write(1500), W::Flush, W::Write(10), W::Flush],
        vec![W::Write(10), W::Write(1024), W::Write(1024), W::Flush],
        vec![W::Write(2000), W::Write(1)],
        vec![W::Flush, W::Write(1023), W::Write(1), W::Write(1), W::Flush],
    ]
    .into_iter()
    .enumerate()
    {
        for how in 0..3 {
            for ni in 0..3 {
                for split in [true, false] {
                    let cfg = NetCfg { io_points: 25, ..nets(ni) };
                    v.push(Scn::new(format!("deep/{k}/{how}/{ni}/{split}"), K_SCHED | K_IO, t.p(1, 2), t.p(2000, 60_000), script(s.clone(), 2, cfg.clone(), how, split, false)));
                    v.push(Scn::new(format!("duplex/{k}/{how}/{ni}/{split}"), K_SCHED | K_IO, t.p(1, 2), t.p(2000, 60_000), script(s.clone(), 3, cfg, how, split, true)));
                }
            }
        }
    }
    for (k, s) in [
        vec![W::Write(1500), W::Flush, W::Write(10), W::Flush],
        vec![W::Write(10), W::Write(1024), W::Write(1024), W::Flush],
        vec![W::Write(2000), W::Write(1)],
    ]
    .into_iter()
    .enumerate()
    {
        for ni in 0..3 {
            for how in [1, 2] {
                let cfg = nets(ni).stall();
                v.push(Scn::new(format!("stall/{k}/{how}/{ni}"), K_IO, t.p(1, 2), t.p(1000, 60_000), script(s.clone(), 2, cfg.clone(), how, true, false)));
                v.push(Scn::new(format!("stall-duplex/{k}/{how}/{ni}"), K_IO, t.p(1, 2), t.p(1000, 60_000), script(s.clone(), 3, cfg, how, k % 2 == 0, true)));
            }
        }
    }
    for ni in 0..4 {
        let big = vec![W::Write(70_000), W::Flush, W::Write(1 << 20), W::Write(3), W::Flush];
        v.push(Scn::new(format!("large/{ni}"), K_SCHED | K_IO, t.p(0, 1), t.p(1, 60), script(if ni > 1 { vec![W::Write(3000), W::Flush, W::Write(9000)] } else { big }, 2, nets(ni), 0, true, true)));
    }
    for first in 0..6 {
        for cap in [1usize, 30, 500, 1100, 4000] {
            let f = poll_writer(t.p(6, 7), first, cap);
            v.push(Scn::new(format!("poll/write/{first}/{cap}"), 0, 0, 1, f));
        }
    }
    for first in 0..8 {
        for (i, sizes) in [vec![1usize, 1500, 40], vec![1024, 1], vec![3, 3, 3, 3]].into_iter().enumerate() {
            v.push(Scn::new(format!("poll/read/{first}/{i}"), 0, 0, 1, poll_reader(t.p(5, 6), first, sizes)));
        }
    }
    for client_side in [true, false] {
        for op in [Op::Read, Op::Write, Op::Flush, Op::Shutdown] {
            for nth in 0..t.p(12, 40) {
                for kind in [FaultKind::Err(std::io::ErrorKind::ConnectionReset), FaultKind::Zero] {
                    for size in [5usize, 400, 1200] {
                        let f = Fault { conn: 0, client_side, op, nth, kind };
                        v.push(Scn::new(format!("fault/{client_side}/{op:?}/{nth}/{kind:?}/{size}"), K_SCHED | K_IO, 1, t.p(20, 1000), c11_fault(f, size)));
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------- C12

/// Recorded packages of a connection: what each side sent, package by package.
struct Recorded {
    plain: Vec<Vec<u8>>,
    fwd: Vec<Vec<u8>>,
    back: Vec<Vec<u8>>,
}
async fn record(a: &mut ES, z: &mut ES, net: &Net, n: usize, skip: (usize, usize)) -> Result<Recorded, Bad> {
    let mut plain = vec![];
    for i in 0..n {
        let d: Vec<u8> = pattern(i * 1000, 7 + 5 * i);
        lift(a.write_all(&d).await, "io", "write")?;
        lift(a.flush().await, "io", "flush")?;
        // the same plaintexts in the other direction
        lift(z.write_all(&d).await, "io", "write")?;
        lift(z.flush().await, "io", "flush")?;
        plain.push(d);
    }
    let w = net.wire(0);
    Ok(Recorded { plain, fwd: packages(&w.c2s_log()[skip.0..]), back: packages(&w.s2c_log()[skip.1..]) })
}
/// What a receiver makes of a byte string that is followed by the end of the transport.
async fn receive(bytes: &[u8], size: usize) -> Result<Vec<u8>, Bad> {
    let net = Net::new(NetCfg { nolog: true, ..Default::default() });
    let (mut tx, rx) = ends(&net).await?;
    let z = ES::new(rx, shared());
    let (mut zr, _zw) = z.protocol_into_split();
    lift(tx.write_all(bytes).await, "io", "feeding")?;
    lift(tx.shutdown().await, "io", "feeding")?;
    let mut got = vec![];
    let mut buf = vec![0; size];
    let m = alloc::mark();
    let mut over = 0;
    loop {
        let (before, mut rb) = (got.len(), ReadBuf::new(&mut buf));
        let r = poll_fn(|cx| match Pin::new(&mut zr).poll_read(cx, &mut rb) {
            Poll::Pending => Poll::Ready(Err(std::io::ErrorKind::WouldBlock.into())),
            x => x,
        })
        .await;
        match r {
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return bad("tamper", "reading waits although the transport has ended"),
            Err(_) => over += 1,
            Ok(()) => got.extend(rb.filled()),
        }
        if got.len() > before {
            ensure!(over == 0, "tamper", "bytes were read after the connection was given up");
        } else {
            over = over.max(1);
            over += 1;
        }
        if over > 4 {
            break;
        }
    }
    let peak = alloc::peak_since(m);
    ensure!(peak < (1 << 18) + 8 * bytes.len() as i64, "memory", "{} received bytes made the process reserve {peak}", bytes.len());
    Ok(got)
}
fn prefix_of(plain: &[Vec<u8>], n: usize) -> Vec<u8> {
    plain[..n].concat()
}
fn c12_bytes(back: bool, size: usize, part: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg::default());
            let (mut a, mut z) = pair(&net).await?;
            let r = record(&mut a, &mut z, &net, 3, (0, 0)).await?;
            let pk = if back { &r.back } else { &r.fwd };
            ensure!(pk.len() == 3, "tamper", "{} packages for 3 flushed writes", pk.len());
            let all = pk.concat();
            let ok = receive(&all, size).await?;
            ensure!(ok == r.plain.concat(), "tamper", "the unaltered packages were received wrongly");
            let bound = |i: usize| {
                // packages that end before byte i
                let mut e = 0;
                pk.iter().take_while(|p| { e += p.len(); e <= i }).count()
            };
            match part {
                0 => {
                    for p in 0..all.len() {
                        for x in 0..=255u8 {
                            if all[p] == x {
                                continue;
                            }
                            eval();
                            let mut m = all.clone();
                            m[p] = x;
                            let got = receive(&m, size).await?;
                            let want = prefix_of(&r.plain, bound(p));
                            ensure!(got == want, "tamper", "byte {p} changed to {x:#x}: {} bytes were accepted, expected {} ", got.len(), want.len());
                        }
                    }
                }
                1 => {
                    // truncated, removed and inserted bytes, pairs of changes
                    for p in 0..=all.len() {
                        eval();
                        let got = receive(&all[..p], size).await?;
                        ensure!(got == prefix_of(&r.plain, bound(p)), "tamper", "cut after {p} bytes: {} were accepted", got.len());
                        for k in 1..5 {
                            if p + k <= all.len() {
                                eval();
                                let m = [&all[..p], &all[p + k..]].concat();
                                let got = receive(&m, size).await?;
                                let n = bound(m.iter().zip(&all).take_while(|(a, b)| a == b).count());
                                ensure!(got == prefix_of(&r.plain, n), "tamper", "{k} bytes removed at {p}: {} were accepted", got.len());
                            }
                            for x in [0u8, 1, 0xff] {
                                eval();
                                let m = [&all[..p], &vec![x; k], &all[p..]].concat();
                                let got = receive(&m, size).await?;
                                let n = bound(m.iter().zip(&all).take_while(|(a, b)| a == b).count());
                                ensure!(got == prefix_of(&r.plain, n), "tamper", "{k} bytes inserted at {p}: {} were accepted", got.len());
                            }
                        }
                    }
                }
                _ => {
                    // lengths of every class in every package
                    let mut at = 0;
                    for (i, p) in pk.iter().enumerate() {
                        for x in (0..200u32).chain((0..32).flat_map(|k| [(1u32 << k), (1u32 << k) - 1, u32::MAX - (1 << k)])).chain([u32::MAX]) {
                            if x == p.len() as u32 - 4 {
                                continue;
                            }
                            for extra in [0usize, 100_000] {
                                eval();
                                let mut m = all.clone();
                                m[at..at + 4].copy_from_slice(&x.to_be_bytes());
                                m.extend(vec![7; extra]);
                                let got = receive(&m, size).await?;
                                ensure!(got == prefix_of(&r.plain, i), "tamper", "length of package {i} set to {x}: {} bytes were accepted", got.len());
                            }
                        }
                        at += p.len();
                    }
                }
            }
            Ok(())
        })
    }
}
/// Every sequence of recorded packages: own direction, reflected, of another connection, forged.
fn c12_sequences(back: bool, len: usize, first: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg::default());
            let (mut a, mut z) = pair(&net).await?;
            let r = record(&mut a, &mut z, &net, 4, (0, 0)).await?;
            let (own, refl) = if back { (&r.back, &r.fwd) } else { (&r.fwd, &r.back) };
            // another connection, established by a real key exchange
            let net2 = Net::new(NetCfg::default());
            let (mut a2, mut z2) = exchanged(&net2).await?;
            let (l1, l2) = (net2.wire(0).c2s_log().len(), net2.wire(0).s2c_log().len());
            let o = record(&mut a2, &mut z2, &net2, 2, (l1, l2)).await?;
            let mut items: Vec<(String, Vec<u8>)> = vec![];
            for (i, p) in own.iter().enumerate() {
                items.push((format!("own{i}"), p.clone()));
            }
            for i in 0..2 {
                items.push((format!("reflected{i}"), refl[i].clone()));
                items.push((format!("other{i}"), if back { o.back[i].clone() } else { o.fwd[i].clone() }));
            }
            items.push(("empty".into(), vec![0, 0, 0, 0]));
            items.push(("zeros16".into(), [vec![0, 0, 0, 16], vec![0; 16]].concat()));
            // the tag of one package on the body of another
            let mut mixed = own[0].clone();
            let n = mixed.len();
            let k = own[1].len();
            mixed[n - 16..].copy_from_slice(&own[1][k - 16..]);
            items.push(("mixed".into(), mixed));
            let m = items.len();
            for code in 0..m.pow(len as u32 - 1) {
                eval();
                let mut seq = vec![first % m];
                let mut c = code;
                for _ in 1..len {
                    seq.push(c % m);
                    c /= m;
                }
                let bytes: Vec<u8> = seq.iter().flat_map(|i| items[*i].1.clone()).collect();
                let got = receive(&bytes, 4096).await?;
                let n = seq.iter().enumerate().take_while(|(p, i)| **i == *p && *p < 4).count();
                let want = prefix_of(&r.plain, n);
                if got != want {
                    let shown: Vec<&str> = seq.iter().map(|i| items[*i].0.as_str()).collect();
                    // recorded: a package of the other direction is accepted in place of the one with its number
                    let nr = seq.iter().enumerate().take_while(|(p, i)| (**i == *p && *p < 4) || items[**i].0 == format!("reflected{p}")).count();
                    if nr > n && got == prefix_of(&r.plain, nr) {
                        finding("reflected-package", format!("{shown:?}: a reflected package is accepted: {} bytes instead of {}", got.len(), want.len()));
                    } else {
                        return bad("tamper", format!("packages {shown:?}: {} bytes were accepted, expected {}", got.len(), want.len()));
                    }
                }
            }
            Ok(())
        })
    }
}

/// Forwards between a client and a server and edits what passes.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Edit {
    None,
    Flip { at: usize, x: u8 },
    Drop,
    Dup,
    Swap,
    Truncate(usize),
    Insert(u8),
    Replace(u8),
}
struct Mitm {
    /// sent so far: per direction, per unit (key, packages)
    log: Arc<Mutex<[Vec<Vec<u8>>; 2]>>,
}
async fn pump<R: AsyncRead + Unpin, Wt: AsyncWrite + Unpin>(mut r: R, mut w: Wt, dir: usize, target: (usize, usize), e: Edit, log: Arc<Mutex<[Vec<Vec<u8>>; 2]>>) {
    let mut n = 0;
    let mut held: Option<Vec<u8>> = None;
    loop {
        // unit 0 is the public key, the others are packages
        let mut unit = vec![];
        if n == 0 {
            unit.resize(32, 0);
            if r.read_exact(&mut unit).await.is_err() {
                break;
            }
        } else {
            let mut l = [0; 4];
            if r.read_exact(&mut l).await.is_err() {
                break;
            }
            unit = l.to_vec();
            unit.resize(4 + u32::from_be_bytes(l) as usize, 0);
            if r.read_exact(&mut unit[4..]).await.is_err() {
                break;
            }
        }
        log.lock().unwrap()[dir].push(unit.clone());
        let mut out = vec![];
        if (dir, n) == target {
            match e {
                Edit::None => out.push(unit),
                Edit::Flip { at, x } => {
                    let k = unit.len();
                    unit[at % k] ^= x;
                    out.push(unit)
                }
                Edit::Drop => {}
                Edit::Dup => out.extend([unit.clone(), unit]),
                Edit::Swap => held = Some(unit),
                Edit::Truncate(k) => {
                    let l = unit.len();
                    out.push(unit[..l.saturating_sub(k)].to_vec())
                }
                Edit::Insert(x) => {
                    out.push([vec![0, 0, 0, 24], vec![x; 24]].concat());
                    out.push(unit)
                }
                Edit::Replace(x) => {
                    let l = unit.len();
                    let mut u = vec![x; l];
                    if n > 0 {
                        u[..4].copy_from_slice(&unit[..4]);
                    }
                    out.push(u)
                }
            }
        } else {
            out.push(unit);
            if n > target.1 {
                if let Some(h) = held.take() {
                    out.push(h);
                }
            }
        }
        for o in out {
            if w.write_all(&o).await.is_err() || w.flush().await.is_err() {
                return;
            }
        }
        n += 1;
    }
    let _ = w.shutdown().await;
}
/// A client talking to a server through an attacker who edits one unit in one direction.
fn c12_conn(target: (usize, usize), e: Edit, allow: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let front = Net::new(NetCfg { nolog: true, ..Default::default() });
            let back = Net::with(NetCfg { nolog: true, ..Default::default() }, NetCfg { nolog: true, ..Default::default() }, 1);
            let fl = front.listen();
            let seen: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
            let s2 = seen.clone();
            let sb = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(back.clone()).server_options(keys::opt(1, &[2], false)).on("ev", move |ctx, ev| {
                let s2 = s2.clone();
                Box::pin(async move {
                    s2.lock().unwrap().push(ev.data_raw().to_vec());
                    ctx.response(b(&[ev.data_raw(), b"!"].concat()))
                })
            });
            let srv = tokio::spawn(async move { sb.build_server().await });
            back.bound().await;
            let m = Mitm { log: Default::default() };
            let (log, b2) = (m.log.clone(), back.clone());
            let mh = tokio::spawn(async move {
                let c = fl.accept().await;
                let s = b2.dial().unwrap();
                let (cr, cw) = c.protocol_into_split();
                let (sr, sw) = s.protocol_into_split();
                let h = tokio::spawn(pump(cr, sw, 0, target, e, log.clone()));
                pump(sr, cw, 1, target, e, log).await;
                let _ = h.await;
            });
            let cb = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(front.clone()).client_options(keys::opt(2, &[1], false)).timeout(ms(50));
            let c = within(ms(10_000), "connecting", tokio::time::timeout(ms(500), cb.build_client())).await?;
            let mut replies = vec![];
            let mut sent = vec![];
            let connected = matches!(c, Ok(Ok(_)));
            if let Ok(Ok(c)) = c {
                for k in 0..4u8 {
                    let d = vec![k; 6];
                    sent.push(d.clone());
                    let r = got(within(ms(5000), "a request", c.emit("ev", b(&d)).await_reply()).await?);
                    match &r {
                        Got::Ok(x) => ensure!(*x == [&d[..], b"!"].concat(), "tamper", "request {k} was answered with {x:?}"),
                        Got::Timeout | Got::Other(_) => {}
                        r => return bad("tamper", format!("request {k}: {r:?}")),
                    }
                    replies.push(matches!(r, Got::Ok(_)));
                }
            }
            idle().await;
            let handled = seen.lock().unwrap().clone();
            obs(format!("{connected} {replies:?} {}", handled.len()));
            if e == Edit::None {
                ensure!(replies == [true; 4], "tamper", "the untouched conversation: {connected} {replies:?}");
                return Ok(());
            }
            // events are handled whole, once, in order, and none after the edit
            ensure!(handled.len() <= sent.len() && handled[..] == sent[..handled.len()], "tamper", "handled {handled:?} of {sent:?}");
            let (dir, n) = target;
            // the highest bit of a public key has no meaning: the key stays the same
            let same_key = n == 0 && matches!(e, Edit::Flip { at: 31, x: 0x80 });
            // a missing byte is supplied by the next package and may be the right one
            let slack = matches!(e, Edit::Truncate(1)) as usize;
            if same_key {
            } else if n == 0 || (dir == 1 && n == 1) {
                // the exchange package itself was fine, its repetition ends the connection at the client
                let fine = n == 1 && e == Edit::Dup;
                ensure!((handled.is_empty() || fine) && replies.iter().all(|r| !r), "tamper", "events were accepted after the key exchange was altered: {replies:?} {handled:?}");
                if dir == 1 {
                    ensure!(!connected || e == Edit::Dup || matches!(e, Edit::None), "tamper", "the client accepted an altered key exchange");
                }
            } else {
                // client packages 1.. carry events 0.., server packages 2.. carry replies 0..
                let ev = if dir == 0 { n - 1 } else { n - 2 };
                if matches!(e, Edit::Dup) {
                    // the original passes, its repetition is the one that is refused
                    if dir == 0 {
                        ensure!(handled.len() == ev + 1, "tamper", "{} events handled although package {n} was repeated", handled.len());
                    } else {
                        ensure!(replies.iter().filter(|r| **r).count() == ev + 1, "tamper", "{replies:?} although package {n} was repeated");
                    }
                } else {
                    if dir == 0 {
                        ensure!(handled.len() >= ev && handled.len() <= ev + slack, "tamper", "{} events handled although package {n} was altered", handled.len());
                    }
                    ensure!(replies[..ev].iter().all(|r| *r) && replies[(ev + slack).min(4)..].iter().all(|r| !r), "tamper", "package {n} in direction {dir} was altered: replies {replies:?}");
                }
            }
            ensure!(!srv.is_finished(), "tamper", "the server ended");
            // others get through
            let cb = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(back.clone()).client_options(keys::opt(2, &[1], false)).timeout(ms(50));
            let c = lift(within(ms(5000), "connecting directly", cb.build_client()).await?, "tamper", "connecting directly")?;
            let r = got(c.emit("ev", b(b"direct")).await_reply().await);
            ensure!(r == Got::Ok(b"direct!".to_vec()), "tamper", "a direct request: {r:?}");
            mh.abort();
            let _ = allow;
            Ok(())
        })
    }
}
pub fn c12(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for back in [false, true] {
        for (size, part) in [(4096, 0), (4096, 1), (4096, 2), (1, 0), (1, 1), (50, 2)] {
            v.push(Scn::new(format!("bytes/{back}/{size}/{part}"), 0, 0, 1, c12_bytes(back, size, part)));
        }
        for first in 0..11 {
            v.push(Scn::new(format!("sequences/{back}/{first}"), 0, 0, 1, c12_sequences(back, t.p(4, 5), first)));
        }
    }
    v.push(Scn::new("conn/none", K_SCHED | K_IO, t.p(1, 2), t.p(4000, 100_000), c12_conn((9, 9), Edit::None, false)));
    for dir in 0..2usize {
        for unit in 0..6usize {
            if dir == 0 && unit > 4 {
                continue;
            }
            let mut edits = vec![Edit::Drop, Edit::Dup, Edit::Swap, Edit::Truncate(1), Edit::Truncate(16), Edit::Truncate(1000), Edit::Insert(0), Edit::Insert(0xff), Edit::Replace(0), Edit::Replace(0xff), Edit::Replace(9)];
            let len = if unit == 0 { 32 } else if dir == 1 && unit == 1 { 52 } else { t.p(90, 90) };
            for at in 0..len {
                for x in if t.thorough { vec![1u8, 2, 4, 8, 16, 32, 64, 128, 0xff] } else { vec![1, 0x80, 0xff] } {
                    edits.push(Edit::Flip { at, x });
                }
            }
            for e in edits {
                // the end of a conversation cannot be told from a dropped last package
                if matches!(e, Edit::Swap) && ((dir == 0 && unit == 4) || (dir == 1 && unit == 5)) {
                    continue;
                }
                let light = matches!(e, Edit::Flip { .. });
                v.push(Scn::new(format!("conn/{dir}/{unit}/{e:?}"), K_SCHED | K_IO, if light { t.p(0, 1) } else { 1 }, if light { t.p(1, 40) } else { t.p(300, 5000) }, c12_conn((dir, unit), e, false)));
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------- C13

#[derive(Clone, Debug)]
struct Side {
    own: u8,
    known: Vec<u8>,
    allow: bool,
}
fn admission(s: Side, c: Side, pool: usize, cfg: NetCfg) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        let (s, c, cfg) = (s.clone(), c.clone(), cfg.clone());
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 8, ..cfg.clone() });
            let patience = if cfg.stall > 0 { ms(10_000_000) } else { ms(100) };
            let log = Log::new();
            let l2 = log.clone();
            let srv_b = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(net.clone()).server_options(keys::opt(s.own, &s.known, s.allow)).on("ev", move |ctx, ev| {
                let l2 = l2.clone();
                Box::pin(async move {
                    l2.add("handled");
                    ctx.response(b(ev.data_raw()))
                })
            });
            let srv = tokio::spawn(async move { srv_b.build_server().await });
            net.bound().await;
            let cb = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(net.clone()).client_options(keys::opt(c.own, &c.known, c.allow)).timeout(patience);
            let s_ok = s.allow || s.known.contains(&c.own);
            let c_ok = c.allow || c.known.contains(&s.own);
            let r = if pool == 0 {
                within(long(), "connecting", cb.build_client()).await?.map(|c| (Some(c), None))
            } else {
                within(long(), "connecting", cb.build_pooled_client(pool)).await?.map(|p| (None, Some(p)))
            };
            match r {
                Ok((one, pl)) => {
                    ensure!(s_ok && c_ok, "admission", "a connection was established; server {s:?} (admits: {s_ok}), client {c:?} (admits: {c_ok})");
                    for k in 0..pool.max(1) {
                        let g = pl.as_ref().map(|p| p.acquire());
                        let ctx: &Context = match &g {
                            Some(g) => g,
                            None => one.as_ref().unwrap(),
                        };
                        let r = got(ctx.emit("ev", b(&[k as u8])).await_reply().await);
                        ensure!(r == Got::Ok(vec![k as u8]), "admission", "a request on an admitted connection: {r:?}");
                    }
                    ensure!(log.count("handled") == pool.max(1), "admission", "{:?}", log.get());
                }
                Err(e) => {
                    ensure!(!(s_ok && c_ok), "admission", "no connection was established ({e:?}); server {s:?}, client {c:?}");
                    if s_ok {
                        ensure!(matches!(e, IPCError::UnknownPeer(_)), "admission", "the client refuses the server but fails with {e:?}");
                        if let IPCError::UnknownPeer(k) = e {
                            ensure!(k == keys::public(s.own), "admission", "the unknown-peer error names another key");
                        }
                    }
                    settle(1, &cfg).await;
                    ensure!(log.get().is_empty(), "admission", "a handler ran for a refused peer");
                    // the server dropped the connection
                    settle(1, &cfg).await;
                    if !s_ok {
                        ensure!(net.wire(0).gone().1, "admission", "the server keeps the connection of a refused peer");
                    }
                }
            }
            ensure!(!srv.is_finished(), "admission", "the server ended");
            // an admitted peer still gets in
            let own = if s.allow { 7 } else { *s.known.first().unwrap_or(&7) };
            if s.allow || !s.known.is_empty() {
                let cb = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(net.clone()).client_options(keys::opt(own, &[s.own], false)).timeout(patience);
                let c = lift(within(long(), "connecting", cb.build_client()).await?, "admission", "an admitted peer afterwards")?;
                let r = got(c.emit("ev", b(b"z")).await_reply().await);
                ensure!(r == Got::Ok(b"z".to_vec()), "admission", "a request of an admitted peer afterwards: {r:?}");
            }
            Ok(())
        })
    }
}
fn pk_bytes(n: u8) -> Vec<u8> {
    keys::public(n).as_bytes().to_vec()
}
/// An attacker without a secret tries to pass for an admitted client.
fn impostor_client(tries: usize, pk_of: u8, allow: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 6, ..Default::default() });
            let log = Log::new();
            let l2 = log.clone();
            let b_ = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(net.clone()).server_options(keys::opt(1, &[2, 3], allow)).on("ev", move |ctx, ev| {
                let l2 = l2.clone();
                Box::pin(async move {
                    l2.add(format!("handled {:?}", ev.data_raw()));
                    ctx.response(b(b"secret-response"))
                })
            });
            let srv = tokio::spawn(async move { b_.build_server().await });
            net.bound().await;
            let s = lift(net.dial(), "connect", "dial")?;
            let (mut r, mut w) = s.protocol_into_split();
            lift(w.write_all(&pk_bytes(pk_of)).await, "io", "write")?;
            let mut spk = [0; 32];
            let read = tokio::time::timeout(ms(50), r.read_exact(&mut spk)).await;
            let mut secret_pkg = vec![];
            if matches!(read, Ok(Ok(_))) {
                let mut buf = vec![0; 52];
                if let Ok(Ok(_)) = tokio::time::timeout(ms(50), r.read_exact(&mut buf)).await {
                    secret_pkg = buf;
                }
            }
            let ev = Frame::new(RAW_ID + 1, INIT, None, "ev", b"forged").encode();
            let arr = |v: &[u8]| -> [u8; 32] {
                let mut a = [0; 32];
                let n = v.len().min(32);
                a[..n].copy_from_slice(&v[..n]);
                a
            };
            // keys an attacker can derive from what is public or was seen
            let pubs: Vec<[u8; 32]> = vec![
                [0; 32],
                [0xff; 32],
                arr(&pk_bytes(pk_of)),
                spk,
                arr(&secret_pkg),
                arr(secret_pkg.get(4..).unwrap_or(&[])),
                {
                    let mut x = spk;
                    x.iter_mut().zip(pk_bytes(pk_of)).for_each(|(a, b)| *a ^= b);
                    x
                },
                keys::secret(5).diffie_hellman(&keys::public(1)).to_bytes(),
            ];
            let n = pubs.len();
            let forged: Vec<u8> = match tries {
                k if k < n => ref_seal(&pubs[k], 0, &ev),
                k if k < 2 * n => ref_seal(&pubs[k - n], 1, &ev),
                k => match k - 2 * n {
                    0 => ev.clone(),                                       // plaintext
                    1 => [(ev.len() as u32).to_be_bytes().to_vec(), ev.clone()].concat(), // unencrypted package
                    2 => secret_pkg.clone(),                               // reflected
                    3 => [vec![0, 0, 0, 0], ev.clone()].concat(),
                    4 => vec![0, 0, 0, 16].into_iter().chain([0; 16]).collect(),
                    5 => [secret_pkg.clone(), ref_seal(&spk, 0, &ev)].concat(),
                    6 => [&(ev.len() as u32 + 16).to_be_bytes()[..], &ev, &[0; 16]].concat(),
                    _ => vec![0xff; 300],
                },
            };
            let _ = w.write_all(&forged).await;
            let _ = w.write_all(&forged).await;
            idle().await;
            ensure!(log.get().is_empty(), "admission", "an event of an impostor was handled: {:?}", log.get());
            let mut rest = vec![];
            let _ = tokio::time::timeout(ms(50), r.read_to_end(&mut rest)).await;
            ensure!(rest.is_empty(), "admission", "an impostor was sent {} more bytes", rest.len());
            ensure!(!srv.is_finished(), "admission", "the server ended");
            let cb = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(net.clone()).client_options(keys::opt(2, &[1], false)).timeout(ms(100));
            let c = lift(within(ms(5000), "connecting", cb.build_client()).await?, "admission", "the real peer")?;
            let r = got(c.emit("ev", b(b"z")).await_reply().await);
            ensure!(r == Got::Ok(b"secret-response".to_vec()), "admission", "a request of the real peer: {r:?}");
            Ok(())
        })
    }
}
/// An attacker without a secret tries to pass for a known server.
fn impostor_server(tries: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 6, ..Default::default() });
            let l = net.listen();
            let log = Log::new();
            let l2 = log.clone();
            let h = tokio::spawn(async move {
                let s = l.accept().await;
                let (mut r, mut w) = s.protocol_into_split();
                let mut pk = [0; 32];
                let _ = r.read_exact(&mut pk).await;
                let _ = w.write_all(&pk_bytes(1)).await;
                let key = [4u8; 32];
                let guess: [u8; 32] = match tries % 4 {
                    0 => [0; 32],
                    1 => pk,
                    2 => *keys::public(1).as_bytes(),
                    _ => keys::secret(5).diffie_hellman(&keys::public(2)).to_bytes(),
                };
                let p = match tries / 4 {
                    0 => ref_seal(&guess, 0, &key),
                    1 => [vec![0, 0, 0, 32], key.to_vec()].concat(),
                    2 => [vec![0, 0, 0, 48], key.to_vec(), vec![0; 16]].concat(),
                    3 => key.to_vec(),
                    4 => vec![0; 52],
                    _ => [vec![0, 0, 0, 0], key.to_vec()].concat(),
                };
                let _ = w.write_all(&p).await;
                let ev = Frame::new(RAW_ID + 1, INIT, None, "ev", b"forged").encode();
                for n in 0..2 {
                    let _ = w.write_all(&ref_seal(&key, n, &ev)).await;
                    let _ = w.write_all(&ref_seal(&guess, n, &ev)).await;
                }
                let mut rest = vec![];
                let _ = tokio::time::timeout(ms(300), r.read_to_end(&mut rest)).await;
                rest
            });
            let cb = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(net.clone()).client_options(keys::opt(2, &[1], false)).timeout(ms(100)).on("ev", move |_c, _e| {
                let l2 = l2.clone();
                Box::pin(async move {
                    l2.add("handled");
                    Ok(Response::empty())
                })
            });
            let c = within(ms(5000), "connecting", tokio::time::timeout(ms(1000), cb.build_client())).await?;
            ensure!(!matches!(c, Ok(Ok(_))), "admission", "a client accepted a server that does not hold the secret of its key");
            idle().await;
            let rest = lift(h.await, "panic", "task")?;
            ensure!(log.get().is_empty(), "admission", "an event of an impostor was handled");
            ensure!(rest.is_empty(), "admission", "the client sent {} bytes to an impostor", rest.len());
            Ok(())
        })
    }
}
/// A peer implemented independently, with a secret, is admitted and understood.
fn independent_peer(as_server: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { io_points: 10, ..Default::default() });
            let log = Log::new();
            let l2 = log.clone();
            let h = cbk(move |ctx, ev| {
                let l2 = l2.clone();
                Box::pin(async move {
                    l2.add("handled");
                    ctx.response(b(ev.data_raw()))
                })
            });
            let dh = if as_server { keys::secret(1).diffie_hellman(&keys::public(2)) } else { keys::secret(2).diffie_hellman(&keys::public(1)) }.to_bytes();
            let (mut r, mut w, key);
            let mut hold = None;
            if as_server {
                let l = net.listen();
                let cb = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(net.clone()).client_options(keys::opt(2, &[1], false)).on("ev", h);
                let j = tokio::spawn(cb.build_client());
                let s = l.accept().await;
                let x = s.protocol_into_split();
                r = x.0;
                w = x.1;
                let mut pk = [0; 32];
                lift(r.read_exact(&mut pk).await, "io", "key")?;
                ensure!(pk[..] == pk_bytes(2)[..], "admission", "the client presents another key");
                lift(w.write_all(&pk_bytes(1)).await, "io", "key")?;
                key = [0x5a; 32];
                lift(w.write_all(&ref_seal(&dh, 0, &key)).await, "io", "secret")?;
                let c = lift(lift(within(ms(5000), "connecting", j).await?, "panic", "task")?, "admission", "an independent server")?;
                hold = Some(c);
            } else {
                let b_ = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(net.clone()).server_options(keys::opt(1, &[2], false)).on("ev", h);
                tokio::spawn(async move { b_.build_server().await });
                net.bound().await;
                let s = lift(net.dial(), "connect", "dial")?;
                let x = s.protocol_into_split();
                r = x.0;
                w = x.1;
                lift(w.write_all(&pk_bytes(2)).await, "io", "key")?;
                let mut pk = [0; 32];
                lift(r.read_exact(&mut pk).await, "io", "key")?;
                ensure!(pk[..] == pk_bytes(1)[..], "admission", "the server presents another key");
                let mut p = vec![0; 52];
                lift(r.read_exact(&mut p).await, "io", "secret")?;
                let k = ref_open(&dh, 0, &p[4..]);
                ensure!(k.as_ref().map_or(false, |k| k.len() == 32), "admission", "the secret cannot be read by an independent implementation");
                key = k.unwrap().try_into().unwrap();
            }
            for n in 0..3u64 {
                let ev = Frame::new(RAW_ID + n, INIT, None, "ev", &[n as u8; 5]).encode();
                lift(w.write_all(&ref_seal(&key, n, &ev)).await, "io", "event")?;
                let mut l = [0; 4];
                lift(within(ms(1000), "a reply", r.read_exact(&mut l)).await?, "io", "reply")?;
                let mut p = vec![0; u32::from_be_bytes(l) as usize];
                lift(r.read_exact(&mut p).await, "io", "reply")?;
                let pt = match ref_open(&key, n, &p) {
                    Some(p) => p,
                    None => return bad("admission", "a reply cannot be read by an independent implementation"),
                };
                let f = Frame::decode(&pt).ok().flatten();
                ensure!(f.as_ref().map_or(false, |f| f.0.re == Some(RAW_ID + n) && f.0.data == [n as u8; 5]), "admission", "reply {f:?}");
            }
            ensure!(log.count("handled") == 3, "admission", "{:?}", log.get());
            drop(hold);
            Ok(())
        })
    }
}
/// Lists of keys that resemble the peer's own: all but one bit is equal.
fn near_keys(server: bool, lo: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            for bit in (lo..256).step_by(8).chain([256, 257, 258]) {
                eval();
                let (s_pk, c_pk) = (keys::public(1), keys::public(2));
                let truth = if server { c_pk } else { s_pk };
                let mut k = *truth.as_bytes();
                match bit {
                    256 => k.reverse(),
                    257 => k.rotate_left(1),
                    258 => k = [0; 32],
                    _ => k[bit / 8] ^= 1 << (bit % 8),
                }
                let near = x25519_dalek::PublicKey::from(k);
                for known in [vec![near], vec![near; 3], vec![keys::public(3), near, keys::public(4)], vec![near, truth, near]] {
                    let good = known.contains(&truth);
                    let net = Net::new(NetCfg { io_points: 0, ..Default::default() });
                    let log = Log::new();
                    let l2 = log.clone();
                    let mut so = keys::opt(1, &[2], false);
                    let mut co = keys::opt(2, &[1], false);
                    if server {
                        so.keys.known_peers = known.clone();
                    } else {
                        co.keys.known_peers = known.clone();
                    }
                    let bld = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(net.clone()).server_options(so).on("ev", move |ctx, ev| {
                        let l2 = l2.clone();
                        Box::pin(async move {
                            l2.add("handled");
                            ctx.response(b(ev.data_raw()))
                        })
                    });
                    let srv = tokio::spawn(async move { bld.build_server().await });
                    net.bound().await;
                    let cb = bromine::IPCBuilder::<EncryptedListener<SimListener>>::new().address(net.clone()).client_options(co).timeout(ms(50));
                    let r = within(long(), "connecting", cb.build_client()).await?;
                    ensure!(r.is_ok() == good, "admission", "server={server}: known is {:?}, the peer is {:?}, connecting: {}", known.iter().map(|k| k.as_bytes()).collect::<Vec<_>>(), truth.as_bytes(), if r.is_ok() { "succeeded" } else { "failed" });
                    if let Ok(c) = r {
                        let r = got(c.emit("ev", b(b"a")).await_reply().await);
                        ensure!(r == Got::Ok(b"a".to_vec()), "admission", "a request on an admitted connection: {r:?}");
                    }
                    idle().await;
                    ensure!(log.count("handled") == good as usize, "admission", "{:?}", log.get());
                    ensure!(!srv.is_finished(), "admission", "the server ended");
                    srv.abort();
                }
            }
            Ok(())
        })
    }
}
pub fn c13(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for server in [false, true] {
        for lo in 0..8 {
            v.push(Scn::new(format!("near/{server}/{lo}"), 0, 0, 1, near_keys(server, lo)).vast());
        }
    }
    let lists: Vec<Vec<u8>> = vec![vec![], vec![1], vec![2], vec![3], vec![1, 2], vec![2, 1], vec![3, 2], vec![3, 1], vec![3, 4, 5, 2], vec![3, 4, 1], vec![3, 4, 5, 6]];
    for (i, ks) in lists.iter().enumerate() {
        for (j, kc) in lists.iter().enumerate() {
            for sa in [false, true] {
                for ca in [false, true] {
                    let s = Side { own: 1, known: ks.clone(), allow: sa };
                    let c = Side { own: 2, known: kc.clone(), allow: ca };
                    v.push(Scn::new(format!("admit/{i}/{j}/{sa}/{ca}"), K_SCHED | K_IO, 1, t.p(30, 2000), admission(s.clone(), c.clone(), 0, NetCfg::default())));
                    if (i + j) % 3 == 0 {
                        v.push(Scn::new(format!("admit-pool/{i}/{j}/{sa}/{ca}"), K_SCHED | K_IO, 1, t.p(10, 500), admission(s, c, 2, NetCfg::default())));
                    }
                }
            }
        }
    }
    // every ordered pair of keys, also one key on both sides
    for a in 0..5u8 {
        for z in 0..5u8 {
            for known in 0..5u8 {
                let s = Side { own: a, known: vec![known], allow: false };
                let c = Side { own: z, known: vec![a], allow: false };
                v.push(Scn::new(format!("pairs/{a}/{z}/{known}"), K_SCHED | K_IO, t.p(0, 1), t.p(1, 300), admission(s, c, 0, NetCfg::default())));
                let s = Side { own: a, known: vec![z], allow: false };
                let c = Side { own: z, known: vec![known], allow: false };
                v.push(Scn::new(format!("pairs-c/{a}/{z}/{known}"), K_SCHED | K_IO, t.p(0, 1), t.p(1, 300), admission(s, c, 0, NetCfg::default())));
            }
        }
    }
    for (n, (s, c)) in [
        (Side { own: 1, known: vec![2], allow: false }, Side { own: 2, known: vec![1], allow: false }),
        (Side { own: 1, known: vec![3], allow: false }, Side { own: 2, known: vec![1], allow: false }),
        (Side { own: 1, known: vec![2], allow: false }, Side { own: 2, known: vec![3], allow: false }),
        (Side { own: 1, known: vec![], allow: true }, Side { own: 2, known: vec![], allow: true }),
    ]
    .into_iter()
    .enumerate()
    {
        for (m, cfg) in [("", NetCfg::default()), ("-buffered", NetCfg::buffered())] {
            v.push(Scn::new(format!("stall/{n}{m}"), K_IO, t.p(2, 3), t.p(6_000, 300_000), admission(s.clone(), c.clone(), 0, cfg.stall())));
        }
        v.push(Scn::new(format!("deep/{n}"), K_SCHED | K_IO, 2, t.p(20_000, 300_000), admission(s, c, 0, NetCfg::default())));
    }
    for tries in 0..24 {
        for (pk, allow) in [(2u8, false), (3, false), (4, false), (2, true), (1, false)] {
            v.push(Scn::new(format!("impostor/client/{tries}/{pk}/{allow}"), K_SCHED | K_IO, t.p(0, 1), t.p(1, 1000), impostor_client(tries, pk, allow)));
        }
        v.push(Scn::new(format!("impostor/server/{tries}"), K_SCHED | K_IO, 1, t.p(300, 2000), impostor_server(tries)));
    }
    for s in [false, true] {
        v.push(Scn::new(format!("independent/{s}"), K_SCHED | K_IO, t.p(1, 2), t.p(5000, 100_000), independent_peer(s)));
    }
    v
}

// ---------------------------------------------------------------------------------------- C14

const PLAIN: &[u8] = b"the same forty-eight bytes in every package here";

/// Keystream of a package: nothing but plaintext and ciphertext is needed.
fn keystream(pkg: &[u8], plain: &[u8]) -> Vec<u8> {
    pkg[4..].iter().zip(plain).map(|(a, b)| a ^ b).collect()
}
/// Every history of up to `len` packages over directions and connections, equal plaintexts.
fn c14_history(conns: usize, len: usize, first: usize, exchange: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let m = conns * 2;
            for code in 0..m.pow(len as u32 - 1) {
                eval();
                let mut seq = vec![first % m];
                let mut c = code;
                for _ in 1..len {
                    seq.push(c % m);
                    c /= m;
                }
                let mut nets = vec![];
                let mut cs = vec![];
                for k in 0..conns {
                    let net = Net::with(NetCfg::default(), NetCfg::default(), k as u64);
                    let p = if exchange { exchanged(&net).await? } else { pair(&net).await? };
                    let w = net.wire(0);
                    cs.push((p, w.c2s_log().len(), w.s2c_log().len()));
                    nets.push(net);
                }
                for &x in &seq {
                    let (k, d) = (x / 2, x % 2);
                    let s = if d == 0 { &mut cs[k].0 .0 } else { &mut cs[k].0 .1 };
                    lift(s.write_all(PLAIN).await, "io", "write")?;
                    lift(s.flush().await, "io", "flush")?;
                }
                // (connection, direction, index, package)
                let mut all: Vec<(usize, usize, usize, Vec<u8>)> = vec![];
                for k in 0..conns {
                    let w = nets[k].wire(0);
                    for (d, log) in [(0, w.c2s_log()[cs[k].1..].to_vec()), (1, w.s2c_log()[cs[k].2..].to_vec())] {
                        ensure!(!log.windows(16).any(|x| x == &PLAIN[..16]), "secrecy", "plaintext appears on the transport");
                        let ps = packages(&log);
                        ensure!(ps.len() == seq.iter().filter(|x| **x == k * 2 + d).count(), "secrecy", "harness: packages");
                        for (i, p) in ps.into_iter().enumerate() {
                            all.push((k, d, i, p));
                        }
                    }
                }
                for i in 0..all.len() {
                    for j in i + 1..all.len() {
                        let (a, z) = (&all[i], &all[j]);
                        if keystream(&a.3, PLAIN) == keystream(&z.3, PLAIN) {
                            let msg = format!("history {seq:?} (2*connection+direction): package {} of direction {} of connection {} and package {} of direction {} of connection {} use the same key and nonce", a.2, a.1, a.0, z.2, z.1, z.0);
                            if a.0 == z.0 && a.1 != z.1 && a.2 == z.2 {
                                finding("both-directions-same-nonce", msg);
                            } else {
                                return bad("secrecy", msg);
                            }
                        }
                    }
                }
            }
            Ok(())
        })
    }
}
/// A long conversation: nonces do not come back.
fn c14_long(n: usize, exchange: bool) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let net = Net::new(NetCfg { cap: 1 << 30, ..Default::default() });
            let (mut a, mut z) = if exchange { exchanged(&net).await? } else { pair(&net).await? };
            let w = net.wire(0);
            let skip = w.c2s_log().len();
            let mut buf = vec![0; PLAIN.len()];
            for _ in 0..n {
                eval();
                lift(a.write_all(PLAIN).await, "io", "write")?;
                lift(a.flush().await, "io", "flush")?;
                lift(z.read_exact(&mut buf).await, "stream", "reading")?;
                ensure!(buf == PLAIN, "stream", "other bytes arrived");
            }
            let mut set = std::collections::HashSet::new();
            let ps = packages(&w.c2s_log()[skip..]);
            ensure!(ps.len() == n, "secrecy", "harness: packages");
            for (i, p) in ps.iter().enumerate() {
                ensure!(set.insert(keystream(p, PLAIN)), "secrecy", "package {i} repeats key and nonce of an earlier package");
            }
            obs(format!("{n} packages with distinct keystreams"));
            Ok(())
        })
    }
}
/// The package of the key exchange that carries the connection's secret.
fn c14_exchange() -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let dh = shared().to_bytes();
            let mut streams: Vec<(usize, usize, Vec<u8>)> = vec![];
            let mut secrets = std::collections::HashSet::new();
            for k in 0..3 {
                let net = Net::with(NetCfg::default(), NetCfg::default(), k);
                let (mut a, mut z) = exchanged(&net).await?;
                let log = net.wire(0).s2c_log();
                let c2s = net.wire(0).c2s_log();
                ensure!(log[..32] == pk_bytes(1)[..] && c2s == pk_bytes(2), "secrecy", "harness: the key exchange is another one");
                for (i, p) in packages(&log[32..]).into_iter().enumerate() {
                    match ref_open(&dh, i as u64, &p[4..]) {
                        Some(pt) => {
                            ensure!(secrets.insert(pt.clone()), "secrecy", "two connections have the same secret");
                            ensure!(pt.len() == 32 && pt.iter().filter(|b| **b == pt[0]).count() < 16, "secrecy", "the connection's secret is {pt:?}");
                            ensure!(!log.windows(8).any(|w| w == &pt[..8]), "secrecy", "the connection's secret appears on the transport");
                            streams.push((k as usize, i, keystream(&p, &pt)));
                        }
                        None => obs("the exchange package is protected in another way"),
                    }
                }
                // the exchange's key is not used for anything else
                for s in [&mut a, &mut z] {
                    lift(s.write_all(PLAIN).await, "io", "write")?;
                    lift(s.flush().await, "io", "flush")?;
                }
                for p in packages(&net.wire(0).s2c_log()[log.len()..]).iter().chain(&packages(&net.wire(0).c2s_log()[c2s.len()..])) {
                    for n in 0..5 {
                        ensure!(ref_open(&dh, n, &p[4..]).is_none(), "secrecy", "an event is encrypted with the long-term key");
                    }
                    let ks = keystream(p, PLAIN)[..32].to_vec();
                    ensure!(!streams.iter().any(|s| s.2[..32] == ks), "secrecy", "an event uses key and nonce of a key exchange");
                }
            }
            for i in 0..streams.len() {
                for j in i + 1..streams.len() {
                    if streams[i].2 == streams[j].2 {
                        let (a, z) = (&streams[i], &streams[j]);
                        let msg = format!("the key exchange packages of connections {} and {} use the same key and nonce", a.0, z.0);
                        if a.1 == 0 && z.1 == 0 {
                            finding("exchange-same-nonce", msg);
                        } else {
                            return bad("secrecy", msg);
                        }
                    }
                }
            }
            Ok(())
        })
    }
}
/// Recorded traffic of an earlier connection is played to a new one.
fn c14_replay(to_server: bool, pick_: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let log = Log::new();
            let mk = |log: &Log| {
                let l2 = log.clone();
                cbk(move |ctx, ev| {
                    let l2 = l2.clone();
                    Box::pin(async move {
                        l2.add(format!("handled {:?}", ev.data_raw()));
                        ctx.response(b(b"re"))
                    })
                })
            };
            type B = bromine::IPCBuilder<EncryptedListener<SimListener>>;
            let net = Net::new(NetCfg::default());
            let sb = B::new().address(net.clone()).server_options(keys::opt(1, &[2], false)).on("ev", mk(&log)).on("back", |ctx, _| {
                Box::pin(async move {
                    ctx.emit("ev", b(b"from server")).await?;
                    Ok(Response::empty())
                })
            });
            tokio::spawn(async move { sb.build_server().await });
            net.bound().await;
            let c = lift(B::new().address(net.clone()).client_options(keys::opt(2, &[1], false)).timeout(ms(50)).on("ev", mk(&log)).build_client().await, "connect", "client")?;
            for k in 0..3u8 {
                lift(c.emit("ev", b(&[k])).await_reply().await, "exchange", "recording")?;
            }
            lift(c.emit("back", b(b"")).await, "exchange", "recording")?;
            idle().await;
            let w = net.wire(0);
            let (c2s, s2c) = (w.c2s_log(), w.s2c_log());
            let n0 = log.get().len();
            ensure!(n0 == 4, "exchange", "recording: {:?}", log.get());
            if to_server {
                // the recorded client talks to the server again, whole or from the nth package on
                let s = lift(net.dial(), "connect", "dial")?;
                let (mut r, mut wr) = s.protocol_into_split();
                let ps = packages(&c2s[32..]);
                let bytes = match pick_ {
                    0 => c2s.clone(),
                    k if k <= ps.len() => [&c2s[..32], &ps[k - 1..].concat()].concat(),
                    k => {
                        let x = &packages(&s2c[32..])[(k - ps.len()) % 5];
                        [&c2s[..32], x].concat()
                    }
                };
                let _ = wr.write_all(&bytes).await;
                idle().await;
                ensure!(log.get().len() == n0, "secrecy", "recorded events were handled again: {:?}", &log.get()[n0..]);
                let mut rest = vec![];
                let _ = tokio::time::timeout(ms(20), r.read_to_end(&mut rest)).await;
                ensure!(rest.len() == 32 + 52, "secrecy", "the server answered the replay with {} bytes", rest.len());
                return Ok(());
            }
            // a recorded server talks to a new client
            let net2 = Net::with(NetCfg::default(), NetCfg::default(), 1);
            let l = net2.listen();
            let ps = packages(&s2c[32..]);
            let bytes = match pick_ {
                0 => s2c.clone(),
                k if k < ps.len() => [&s2c[..32], &ps[k..].concat()].concat(),
                k => {
                    let q = packages(&c2s[32..]);
                    [&s2c[..32], &ps[0], &q[k % q.len()]].concat()
                }
            };
            tokio::spawn(async move {
                let s = l.accept().await;
                let (mut r, mut wr) = s.protocol_into_split();
                let _ = wr.write_all(&bytes).await;
                let mut rest = vec![];
                let _ = r.read_to_end(&mut rest).await;
                drop(wr);
            });
            let n1 = log.get().len();
            let c2 = within(ms(5000), "connecting to a replay", tokio::time::timeout(ms(500), B::new().address(net2.clone()).client_options(keys::opt(2, &[1], false)).timeout(ms(50)).on("ev", mk(&log)).build_client())).await?;
            idle().await;
            let handled = log.get()[n1..].to_vec();
            let connected = matches!(c2, Ok(Ok(_)));
            obs(format!("connected {connected} handled {handled:?}"));
            if connected || !handled.is_empty() {
                // the whole recording, or the recorded key exchange followed by recorded packages
                if (pick_ == 0 && handled.len() <= 1) || (pick_ >= ps.len()) {
                    finding("exchange-replay", format!("a client accepts the recorded key exchange of an earlier connection (replay {pick_}): connected {connected}, handled again {handled:?}"));
                } else {
                    return bad("secrecy", format!("recorded traffic {pick_} was accepted by a new client: connected {connected}, handled {handled:?}"));
                }
            }
            Ok(())
        })
    }
}
/// Packages of one connection injected into another one of the same peers.
fn c14_inject(dir: usize, at: usize, from: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            let (n1, n2) = (Net::new(NetCfg::default()), Net::with(NetCfg::default(), NetCfg::default(), 1));
            let (mut a1, mut z1) = exchanged(&n1).await?;
            let (s0, s1) = (n1.wire(0).c2s_log().len(), n1.wire(0).s2c_log().len());
            let r = record(&mut a1, &mut z1, &n1, 3, (s0, s1)).await?;
            let pool = [&r.fwd[..], &r.back[..]].concat();
            // the second connection through a man in the middle
            let (c, mid_s) = ends(&n2).await?;
            let n3 = Net::with(NetCfg::default(), NetCfg::default(), 2);
            let (mid_c, s) = ends(&n3).await?;
            let h = tokio::spawn(async move { ES::from_server_key_exchange(s, &keys::keys(1, &[2], false)).await });
            let (mut mr, mut mw) = mid_s.protocol_into_split();
            let (mut nr, mut nw) = mid_c.protocol_into_split();
            let mp = tokio::spawn(async move {
                let mut k = [0; 32];
                let _ = mr.read_exact(&mut k).await;
                let _ = nw.write_all(&k).await;
                let mut k = vec![0; 32 + 52];
                let _ = nr.read_exact(&mut k).await;
                let _ = mw.write_all(&k).await;
                (mr, mw, nr, nw)
            });
            let mut a = lift(ES::from_client_key_exchange(c, &keys::keys(2, &[1], false)).await, "exchange", "client")?;
            let mut z = lift(lift(h.await, "panic", "task")?, "exchange", "server")?;
            let (mut mr, mut mw, mut nr, mut nw) = lift(mp.await, "panic", "task")?;
            let mut want = vec![];
            for i in 0..4 {
                if i == at {
                    let x = &pool[from];
                    let _ = if dir == 0 { nw.write_all(x).await } else { mw.write_all(x).await };
                }
                let d = pattern(i * 777, 20);
                let src = if dir == 0 { &mut a } else { &mut z };
                lift(src.write_all(&d).await, "io", "write")?;
                lift(src.flush().await, "io", "flush")?;
                let mut p = vec![0; 4 + 20 + 16];
                if dir == 0 {
                    lift(mr.read_exact(&mut p).await, "io", "forward")?;
                    let _ = nw.write_all(&p).await;
                } else {
                    lift(nr.read_exact(&mut p).await, "io", "forward")?;
                    let _ = mw.write_all(&p).await;
                }
                if i < at {
                    want.extend(d);
                }
            }
            drop((mr, mw, nr, nw));
            let dst = if dir == 0 { &mut z } else { &mut a };
            let mut got: Vec<u8> = vec![];
            let mut buf = [0; 64];
            let mut fails = 0;
            while fails < 3 {
                match within(ms(1000), "reading", dst.read(&mut buf)).await? {
                    Ok(0) => break,
                    Ok(n) => {
                        ensure!(fails == 0, "secrecy", "reading went on after a foreign package");
                        got.extend(&buf[..n])
                    }
                    Err(_) => fails += 1,
                }
            }
            ensure!(got == want, "secrecy", "a package of another connection: {} bytes were read, expected {}", got.len(), want.len());
            Ok(())
        })
    }
}
/// Whole conversations: nothing of an event appears on the transport.
fn c14_events(pool: usize) -> impl Fn() -> BoxFut<Res> + Send + Sync {
    move || {
        Box::pin(async move {
            type B = bromine::IPCBuilder<EncryptedListener<SimListener>>;
            let net = Net::new(NetCfg::default());
            let words: [&str; 6] = ["EVENTNAME-top-secret", "NAMESPACE-top-secret", "PAYLOAD-top-secret", "RESPONSE-top-secret", "PART-top-secret", "FAILURE-top-secret"];
            let sb = B::new().address(net.clone()).server_options(keys::opt(1, &[2], false)).on("EVENTNAME-top-secret", move |ctx, _| {
                Box::pin(async move {
                    ctx.emit_to("NAMESPACE-top-secret", "x", b(b"PART-top-secret")).await?;
                    ctx.response(b(b"RESPONSE-top-secret"))
                })
            });
            let sb = sb.namespace("NAMESPACE-top-secret").on("EVENTNAME-top-secret", |_c, _e| Box::pin(async move { Err(IPCError::from("FAILURE-top-secret")) })).build();
            tokio::spawn(async move { sb.build_server().await });
            net.bound().await;
            let p = lift(B::new().address(net.clone()).client_options(keys::opt(2, &[1], false)).timeout(ms(100)).build_pooled_client(pool).await, "connect", "pool")?;
            let gs: Vec<_> = (0..pool).map(|_| p.acquire()).collect();
            for g in &gs {
                for k in 0..3 {
                    let d = [b"PAYLOAD-top-secret".repeat([1, 70, 4000][k])].concat();
                    let mut s = lift(g.emit("EVENTNAME-top-secret", b(&d)).stream_replies().await, "io", "emit")?;
                    use futures::StreamExt;
                    let mut n = 0;
                    while let Some(e) = s.next().await {
                        lift(e, "io", "reply")?;
                        n += 1;
                    }
                    ensure!(n == 2, "secrecy", "harness: {n} replies");
                }
                let r = got(g.emit_to("NAMESPACE-top-secret", "EVENTNAME-top-secret", b(b"PAYLOAD-top-secret")).await_reply().await);
                ensure!(matches!(r, Got::Event { .. }), "secrecy", "harness: {r:?}");
            }
            for i in 0..net.wires() {
                for log in [net.wire(i).c2s_log(), net.wire(i).s2c_log()] {
                    for w in words {
                        for part in [&w.as_bytes()[..6], &w.as_bytes()[w.len() - 8..]] {
                            ensure!(!log.windows(part.len()).any(|x| x == part), "secrecy", "\"{}\" appears on the transport", String::from_utf8_lossy(part));
                        }
                    }
                    // only the public keys are the same on different connections
                    if i > 0 {
                        let first = if log[..32] == pk_bytes(2)[..] { net.wire(0).c2s_log() } else { net.wire(0).s2c_log() };
                        let n = first[36..].windows(16).step_by(16).filter(|x| log[36..].windows(16).any(|y| *x == y)).count();
                        ensure!(n == 0, "secrecy", "connections share {n} blocks of 16 bytes");
                    }
                }
            }
            Ok(())
        })
    }
}
pub fn c14(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    for ex in [false, true] {
        for first in 0..2 {
            v.push(Scn::new(format!("history/1/{ex}/{first}"), 0, 0, 1, c14_history(1, t.p(7, 10), first, ex)));
        }
    }
    for first in 0..4 {
        v.push(Scn::new(format!("history/2/{first}"), 0, 0, 1, c14_history(2, t.p(5, 7), first, true)));
    }
    for first in 0..6 {
        v.push(Scn::new(format!("history/3/{first}"), 0, 0, 1, c14_history(3, t.p(4, 5), first, true)));
    }
    v.push(Scn::new("long/a", 0, 0, 1, c14_long(t.p(70_000, 300_000), false)));
    v.push(Scn::new("long/b", 0, 0, 1, c14_long(t.p(70_000, 300_000), true)));
    v.push(Scn::new("exchange", 0, 0, 1, c14_exchange()));
    for k in 0..12 {
        v.push(Scn::new(format!("replay/server/{k}"), K_SCHED, 1, t.p(300, 3000), c14_replay(true, k)));
        v.push(Scn::new(format!("replay/client/{k}"), K_SCHED, 1, t.p(300, 3000), c14_replay(false, k)));
    }
    for dir in 0..2 {
        for at in 0..4 {
            for from in 0..6 {
                v.push(Scn::new(format!("inject/{dir}/{at}/{from}"), K_SCHED, t.p(0, 1), t.p(1, 1000), c14_inject(dir, at, from)));
            }
        }
    }
    for pool in [1, 3] {
        v.push(Scn::new(format!("events/{pool}"), K_SCHED, 0, 1, c14_events(pool)));
    }
    v
}
