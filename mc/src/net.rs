//! In-memory transport implementing bromine's protocol traits. Reads and writes may be split or
//! delayed, bytes may stay invisible until flushed, capacity is bounded, and every operation is a
//! possible fault point; all of that is decided by the explorer.
use crate::ex::{choose, fp_change, mix2, FAULT, FLUSH, READ, WRITE};
use async_trait::async_trait;
use bromine::prelude::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener, IPCResult};
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::io;
use std::pin::Pin;
use crate::ex::NetMutex as Mutex;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    Err(io::ErrorKind),
    /// write reports 0 bytes / read reports end of file
    Zero,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Read,
    Write,
    Flush,
    Shutdown,
}
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub conn: usize,
    /// the operation is performed by the client's end
    pub client_side: bool,
    pub op: Op,
    /// the nth such operation (0-based) that could proceed fails, as do all later ones
    pub nth: usize,
    pub kind: FaultKind,
}

#[derive(Clone, Debug)]
pub struct NetCfg {
    /// bytes a direction holds before writes block
    pub cap: usize,
    /// written bytes reach the reader only once flushed
    pub buffered: bool,
    /// at most this many bytes per read / write
    pub max_read: usize,
    pub max_write: usize,
    pub fault: Option<Fault>,
    /// the explorer may inject a failure at any operation
    pub fault_choice: bool,
    /// only the operation at fault fails, nothing is closed
    pub transient: bool,
    /// only the ends' first n operations of each sort are choice points
    pub io_points: usize,
    /// what was sent is not kept
    pub nolog: bool,
    /// the explorer may suspend an operation for this many milliseconds (0: it may not)
    pub stall: u64,
    /// every flush takes this many milliseconds: bytes are visible at once (or, if `late`, at
    /// the end), the flush completes later
    pub flush_ms: u64,
    pub late: bool,
}
impl Default for NetCfg {
    fn default() -> Self {
        NetCfg {
            cap: 1 << 20,
            buffered: false,
            max_read: usize::MAX,
            max_write: usize::MAX,
            fault: None,
            fault_choice: false,
            transient: false,
            io_points: usize::MAX,
            nolog: false,
            stall: 0,
            flush_ms: 0,
            late: false,
        }
    }
}
impl NetCfg {
    /// operations may be suspended for longer than any timer that is not a request timeout
    pub fn stall(self) -> Self {
        NetCfg { stall: 600_000, ..self }
    }
    pub fn cap(n: usize) -> Self {
        NetCfg { cap: n, ..Default::default() }
    }
    pub fn buffered() -> Self {
        NetCfg { buffered: true, ..Default::default() }
    }
}

#[derive(Default)]
pub struct Pipe {
    id: u64,
    buf: VecDeque<u8>,
    staged: VecDeque<u8>,
    /// everything that became visible to the reader's side, ever
    pub log: Vec<u8>,
    /// accepted by write, ever
    pub accepted: u64,
    pub consumed: u64,
    fin: bool,
    reader_gone: bool,
    rd: Option<Waker>,
    wr: Option<Waker>,
    fp: u64,
    nolog: bool,
}
impl Pipe {
    fn fp(&mut self) {
        let n = mix2(self.accepted << 20 | self.consumed, (self.staged.len() as u64) << 2 | (self.fin as u64) << 1 | self.reader_gone as u64);
        fp_change(self.id, self.fp, n);
        self.fp = n;
    }
    fn publish(&mut self) {
        let n = self.staged.len();
        for _ in 0..n {
            let b = self.staged.pop_front().unwrap();
            self.buf.push_back(b);
            if !self.nolog {
                self.log.push(b);
            }
        }
        if n > 0 {
            if let Some(w) = self.rd.take() {
                w.wake()
            }
        }
    }
    fn wake_all(&mut self) {
        if let Some(w) = self.rd.take() {
            w.wake()
        }
        if let Some(w) = self.wr.take() {
            w.wake()
        }
    }
}

type Stall = Pin<Box<tokio::time::Sleep>>;

struct EndState {
    conn: usize,
    client: bool,
    cfg: NetCfg,
    counts: Mutex<[usize; 4]>,
    broken: Mutex<Option<FaultKind>>,
    /// a suspended read, a suspended write or flush
    stalls: Mutex<[Option<Stall>; 2]>,
    inp: Arc<Mutex<Pipe>>,
    out: Arc<Mutex<Pipe>>,
}
impl EndState {
    fn begin(&self, dir: usize, ms: u64, cx: &mut Context<'_>) -> Poll<()> {
        self.stalls.lock().unwrap()[dir] = Some(Box::pin(tokio::time::sleep(std::time::Duration::from_millis(ms))));
        match self.resume(dir, cx) {
            Some(p) => p,
            None => Poll::Ready(()),
        }
    }
    /// None: nothing is suspended; Ready: it was and goes on now
    fn resume(&self, dir: usize, cx: &mut Context<'_>) -> Option<Poll<()>> {
        let mut g = self.stalls.lock().unwrap();
        let s = g[dir].as_mut()?;
        let p = std::pin::pin!(tokio::task::unconstrained(s.as_mut())).poll(cx);
        if p.is_ready() {
            g[dir] = None;
        }
        Some(p)
    }
    fn fault(&self, op: Op) -> Option<FaultKind> {
        if let Some(k) = *self.broken.lock().unwrap() {
            return Some(k);
        }
        let mut c = self.counts.lock().unwrap();
        let n = c[op as usize];
        c[op as usize] += 1;
        drop(c);
        let mut hit = None;
        if let Some(f) = self.cfg.fault {
            if f.conn == self.conn && f.client_side == self.client && f.op == op && f.nth == n {
                hit = Some(f.kind)
            }
        }
        if hit.is_none() && self.cfg.fault_choice {
            match choose(FAULT, 2) {
                0 => {}
                _ => hit = Some(FaultKind::Err(io::ErrorKind::ConnectionReset)),
            }
        }
        if hit.is_some() && !self.cfg.transient {
            *self.broken.lock().unwrap() = hit;
            self.reset();
        }
        hit
    }
    fn points(&self, op: Op) -> bool {
        self.cfg.io_points == usize::MAX || self.counts.lock().unwrap()[op as usize] <= self.cfg.io_points
    }
    /// the connection broke at this end: the other end sees end of file / broken pipe
    fn reset(&self) {
        for (i, p) in [&self.inp, &self.out].into_iter().enumerate() {
            let mut p = p.lock().unwrap();
            if i == 0 {
                p.reader_gone = true
            } else {
                p.staged.clear();
                p.fin = true
            }
            p.wake_all();
            p.fp();
        }
    }
}
impl Drop for EndState {
    fn drop(&mut self) {
        let mut p = self.inp.lock().unwrap();
        p.reader_gone = true;
        p.wake_all();
        p.fp();
    }
}

pub struct SimRead(Arc<EndState>);
pub struct SimWrite(Arc<EndState>, bool);
pub struct SimStream {
    r: SimRead,
    w: SimWrite,
}

impl AsyncRead for SimRead {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let e = &self.0;
        if let Some(k) = *e.broken.lock().unwrap() {
            return Poll::Ready(match k {
                FaultKind::Err(k) => Err(k.into()),
                FaultKind::Zero => Ok(()),
            });
        }
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        {
            let mut p = e.inp.lock().unwrap();
            if p.buf.is_empty() && !p.fin {
                p.rd = Some(cx.waker().clone());
                return Poll::Pending;
            }
        }
        let resumed = match e.resume(0, cx) {
            Some(Poll::Pending) => return Poll::Pending,
            r => r.is_some(),
        };
        if !resumed {
            if let Some(k) = e.fault(Op::Read) {
                return Poll::Ready(match k {
                    FaultKind::Err(k) => Err(k.into()),
                    FaultKind::Zero => Ok(()),
                });
            }
        }
        let mut p = e.inp.lock().unwrap();
        if p.buf.is_empty() {
            return Poll::Ready(Ok(()));
        }
        let m = p.buf.len().min(buf.remaining()).min(e.cfg.max_read);
        let k = if !resumed && e.points(Op::Read) {
            let n = if m > 3 { 4 } else if m > 1 { 3 } else { 2 };
            match choose(READ, n + (e.cfg.stall > 0) as u32) {
                0 => m,
                c if c == n => {
                    drop(p);
                    if e.begin(0, e.cfg.stall, cx).is_pending() {
                        return Poll::Pending;
                    }
                    p = e.inp.lock().unwrap();
                    m
                }
                1 => 0,
                2 => 1,
                _ => m / 2,
            }
        } else {
            m
        };
        if k == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let v: Vec<u8> = p.buf.drain(..k).collect();
        buf.put_slice(&v);
        p.consumed += k as u64;
        if let Some(w) = p.wr.take() {
            w.wake()
        }
        p.fp();
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for SimWrite {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let e = &self.0;
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        {
            let mut p = e.out.lock().unwrap();
            if !p.reader_gone && !p.fin && e.broken.lock().unwrap().is_none() {
                if p.buf.len() + p.staged.len() >= e.cfg.cap {
                    if !p.staged.is_empty() {
                        p.publish();
                    }
                    p.wr = Some(cx.waker().clone());
                    return Poll::Pending;
                }
            }
        }
        let resumed = match e.resume(1, cx) {
            Some(Poll::Pending) => return Poll::Pending,
            r => r.is_some(),
        };
        if !resumed {
            if let Some(k) = e.fault(Op::Write) {
                return Poll::Ready(match k {
                    FaultKind::Err(k) => Err(k.into()),
                    FaultKind::Zero => Ok(0),
                });
            }
        }
        let mut p = e.out.lock().unwrap();
        if p.reader_gone || p.fin {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let free = e.cfg.cap - (p.buf.len() + p.staged.len());
        let m = free.min(data.len()).min(e.cfg.max_write);
        let k = if !resumed && e.points(Op::Write) {
            let n = if m > 3 { 4 } else if m > 1 { 3 } else { 2 };
            match choose(WRITE, n + (e.cfg.stall > 0) as u32) {
                0 => m,
                c if c == n => {
                    drop(p);
                    if e.begin(1, e.cfg.stall, cx).is_pending() {
                        return Poll::Pending;
                    }
                    p = e.out.lock().unwrap();
                    m
                }
                1 => 0,
                2 => 1,
                _ => m / 2,
            }
        } else {
            m
        };
        if k == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        p.staged.extend(&data[..k]);
        p.accepted += k as u64;
        if !e.cfg.buffered {
            p.publish();
        }
        p.fp();
        Poll::Ready(Ok(k))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let e = &self.0;
        let resumed = match e.resume(1, cx) {
            Some(Poll::Pending) => return Poll::Pending,
            r => r.is_some(),
        };
        if !resumed {
            if let Some(k) = e.fault(Op::Flush) {
                return Poll::Ready(match k {
                    FaultKind::Err(k) => Err(k.into()),
                    FaultKind::Zero => Err(io::ErrorKind::BrokenPipe.into()),
                });
            }
            if e.points(Op::Flush) {
                // 0: done; buffered: 1: later; suspended, the bytes being visible already or not
                let (bf, st) = (e.cfg.buffered as u32, (e.cfg.stall > 0) as u32);
                let c = if bf + st > 0 { choose(FLUSH, 1 + bf + st + bf * st) } else { 0 };
                if c == 1 && bf == 1 {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                let ms = if c > 0 { e.cfg.stall } else { e.cfg.flush_ms };
                if ms > 0 {
                    if !(c > 1 + bf || c == 0 && e.cfg.late) {
                        let mut p = e.out.lock().unwrap();
                        p.publish();
                        p.fp();
                    }
                    if e.begin(1, ms, cx).is_pending() {
                        return Poll::Pending;
                    }
                }
            }
        }
        if let (true, Some(k)) = (resumed, *e.broken.lock().unwrap()) {
            // it broke meanwhile
            return Poll::Ready(Err(match k {
                FaultKind::Err(k) => k.into(),
                FaultKind::Zero => io::ErrorKind::BrokenPipe.into(),
            }));
        }
        let mut p = e.out.lock().unwrap();
        if p.reader_gone && e.cfg.buffered && !p.staged.is_empty() {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        p.publish();
        p.fp();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let e = &self.0;
        if let Some(Poll::Pending) = e.resume(1, cx) {
            return Poll::Pending;
        }
        if let Some(k) = e.fault(Op::Shutdown) {
            return Poll::Ready(match k {
                FaultKind::Err(k) => Err(k.into()),
                FaultKind::Zero => Err(io::ErrorKind::BrokenPipe.into()),
            });
        }
        if e.cfg.buffered && choose(FLUSH, 2) == 1 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut p = e.out.lock().unwrap();
        p.publish();
        p.fin = true;
        p.wake_all();
        p.fp();
        Poll::Ready(Ok(()))
    }
}
impl Drop for SimWrite {
    fn drop(&mut self) {
        let mut p = self.0.out.lock().unwrap();
        p.staged.clear(); // never flushed: lost
        p.fin = true;
        p.wake_all();
        p.fp();
    }
}
impl AsyncRead for SimStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.r).poll_read(cx, b)
    }
}
impl AsyncWrite for SimStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, d: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.w).poll_write(cx, d)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.w).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.w).poll_shutdown(cx)
    }
}
impl AsyncProtocolStreamSplit for SimStream {
    type OwnedSplitReadHalf = SimRead;
    type OwnedSplitWriteHalf = SimWrite;
    fn protocol_into_split(self) -> (SimRead, SimWrite) {
        (self.r, self.w)
    }
}

/// Test access to one connection's two directions.
#[derive(Clone)]
pub struct Wire {
    pub c2s: Arc<Mutex<Pipe>>,
    pub s2c: Arc<Mutex<Pipe>>,
}
impl Wire {
    pub fn c2s_log(&self) -> Vec<u8> {
        self.c2s.lock().unwrap().log.clone()
    }
    pub fn s2c_log(&self) -> Vec<u8> {
        self.s2c.lock().unwrap().log.clone()
    }
    /// (client end released both halves, server end released both halves)
    pub fn gone(&self) -> (bool, bool) {
        (self.s2c.lock().unwrap().reader_gone, self.c2s.lock().unwrap().reader_gone)
    }
    pub fn fin(&self) -> (bool, bool) {
        (self.c2s.lock().unwrap().fin, self.s2c.lock().unwrap().fin)
    }
    /// the server's end refuses whatever is still sent to it
    pub fn refuse_c2s(&self) {
        let mut p = self.c2s.lock().unwrap();
        p.reader_gone = true;
        p.wake_all();
        p.fp();
    }
    /// everything written to the pipe was read and nothing is staged
    pub fn drained(&self) -> bool {
        let a = self.c2s.lock().unwrap();
        let b = self.s2c.lock().unwrap();
        a.buf.is_empty() && a.staged.is_empty() && b.buf.is_empty() && b.staged.is_empty()
    }
}

struct Inner {
    bound: bool,
    queue: VecDeque<SimStream>,
    accept: Option<Waker>,
    bind_wait: Vec<Waker>,
    wires: Vec<Wire>,
    cfg_s: NetCfg,
    cfg_c: NetCfg,
    accept_errors: Vec<(usize, Result<io::ErrorKind, i32>, bool)>,
    accepts: usize,
    dials: usize,
    tries: usize,
    fail_dials: Vec<(usize, io::ErrorKind)>,
}
#[derive(Clone)]
pub struct Net(Arc<Mutex<Inner>>, u64);
impl fmt::Debug for Net {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("sim")
    }
}
impl Net {
    pub fn new(cfg: NetCfg) -> Net {
        Self::with(cfg.clone(), cfg, 0)
    }
    pub fn with(cfg_c: NetCfg, cfg_s: NetCfg, id: u64) -> Net {
        Net(
            Arc::new(Mutex::new(Inner {
                bound: false,
                queue: VecDeque::new(),
                accept: None,
                bind_wait: vec![],
                wires: vec![],
                cfg_s,
                cfg_c,
                accept_errors: vec![],
                accepts: 0,
                dials: 0,
                tries: 0,
                fail_dials: vec![],
            })),
            id,
        )
    }
    pub fn set_cfg(&self, c: NetCfg) {
        let mut i = self.0.lock().unwrap();
        i.cfg_c = c.clone();
        i.cfg_s = c;
    }
    /// The nth accept (1-based) fails; the connection stays queued or is lost.
    pub fn fail_accept(&self, n: usize, k: io::ErrorKind, keep: bool) {
        self.0.lock().unwrap().accept_errors.push((n, Ok(k), keep))
    }
    /// Likewise with an error of the operating system; the connection stays queued.
    pub fn fail_accept_os(&self, n: usize, code: i32) {
        self.0.lock().unwrap().accept_errors.push((n, Err(code), true))
    }
    /// The nth attempt to connect (1-based) fails.
    pub fn fail_dial(&self, n: usize, k: io::ErrorKind) {
        self.0.lock().unwrap().fail_dials.push((n, k))
    }
    pub fn accepts(&self) -> usize {
        self.0.lock().unwrap().accepts
    }
    pub fn tries(&self) -> usize {
        self.0.lock().unwrap().tries
    }
    pub fn wire(&self, i: usize) -> Wire {
        self.0.lock().unwrap().wires[i].clone()
    }
    pub fn wires(&self) -> usize {
        self.0.lock().unwrap().wires.len()
    }
    pub fn is_bound(&self) -> bool {
        self.0.lock().unwrap().bound
    }
    pub async fn bound(&self) {
        let n = self.clone();
        std::future::poll_fn(move |cx| {
            let mut i = n.0.lock().unwrap();
            if i.bound {
                Poll::Ready(())
            } else {
                i.bind_wait.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
    pub fn dial(&self) -> io::Result<SimStream> {
        let mut i = self.0.lock().unwrap();
        i.tries += 1;
        if !i.bound {
            return Err(io::ErrorKind::ConnectionRefused.into());
        }
        if let Some((_, k)) = i.fail_dials.iter().find(|f| f.0 == i.tries) {
            return Err((*k).into());
        }
        let n = i.dials;
        let base = (self.1 + 1) * 1000 + n as u64 * 2;
        let a = Arc::new(Mutex::new(Pipe { id: base, nolog: i.cfg_c.nolog, ..Default::default() }));
        let b = Arc::new(Mutex::new(Pipe { id: base + 1, nolog: i.cfg_c.nolog, ..Default::default() }));
        if !i.cfg_c.nolog {
            i.wires.push(Wire { c2s: a.clone(), s2c: b.clone() });
        }
        i.dials += 1;
        let mk = |client: bool, cfg: NetCfg, inp: &Arc<Mutex<Pipe>>, out: &Arc<Mutex<Pipe>>| {
            let e = Arc::new(EndState {
                conn: n,
                client,
                cfg,
                counts: Mutex::new([0; 4]),
                broken: Mutex::new(None),
                stalls: Mutex::new([None, None]),
                inp: inp.clone(),
                out: out.clone(),
            });
            SimStream { r: SimRead(e.clone()), w: SimWrite(e, client) }
        };
        let c = mk(true, i.cfg_c.clone(), &b, &a);
        let s = mk(false, i.cfg_s.clone(), &a, &b);
        i.queue.push_back(s);
        if let Some(w) = i.accept.take() {
            w.wake()
        }
        Ok(c)
    }
    pub fn listen(&self) -> SimListener {
        let mut i = self.0.lock().unwrap();
        i.bound = true;
        for w in i.bind_wait.drain(..) {
            w.wake()
        }
        SimListener(self.clone())
    }
}
pub struct SimListener(Net);
impl SimListener {
    pub async fn accept(&self) -> SimStream {
        std::future::poll_fn(|cx| {
            let mut i = self.0 .0.lock().unwrap();
            match i.queue.pop_front() {
                Some(s) => Poll::Ready(s),
                None => {
                    i.accept = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await
    }
}
impl Drop for SimListener {
    fn drop(&mut self) {
        let q = {
            let mut i = self.0 .0.lock().unwrap();
            i.bound = false;
            std::mem::take(&mut i.queue)
        };
        drop(q);
    }
}

#[async_trait]
impl AsyncStreamProtocolListener for SimListener {
    type AddressType = Net;
    type RemoteAddressType = u32;
    type Stream = SimStream;
    type ListenerOptions = ();
    async fn protocol_bind(address: Net, _: ()) -> IPCResult<Self> {
        Ok(address.listen())
    }
    async fn protocol_accept(&self) -> IPCResult<(SimStream, u32)> {
        let s = self.accept().await;
        let mut i = self.0 .0.lock().unwrap();
        i.accepts += 1;
        let n = i.accepts;
        if let Some((_, k, keep)) = i.accept_errors.iter().find(|e| e.0 == n).copied() {
            if keep {
                i.queue.push_front(s);
            } else {
                drop(i);
                drop(s);
            }
            return Err(k.map_or_else(io::Error::from_raw_os_error, io::Error::from).into());
        }
        Ok((s, n as u32))
    }
}
#[async_trait]
impl AsyncProtocolStream for SimStream {
    type AddressType = Net;
    type StreamOptions = ();
    async fn protocol_connect(address: Net, _: ()) -> IPCResult<Self> {
        Ok(address.dial()?)
    }
}
