//! Building blocks shared by the scenarios.
use crate::ex::{bad, Bad, Res};
use crate::net::{Net, NetCfg, SimListener};
use bromine::prelude::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll};
use std::time::Duration;

pub type Builder<T> = bromine::IPCBuilder<<T as Tp>::L>;

/// Transport under test.
pub trait Tp: Send + Sync + 'static {
    const NAME: &'static str;
    type L: AsyncStreamProtocolListener<AddressType = Net> + 'static;
    fn builder(net: &Net) -> Builder<Self>
    where
        Self: Sized;
    /// requests outlast the longest suspensions of the transport
    fn patient(net: &Net) -> Builder<Self>
    where
        Self: Sized,
    {
        Self::builder(net).timeout(Duration::from_secs(10_000))
    }
}
pub struct Plain;
impl Tp for Plain {
    const NAME: &'static str = "plain";
    type L = SimListener;
    fn builder(net: &Net) -> Builder<Self> {
        bromine::IPCBuilder::<SimListener>::new().address(net.clone())
    }
}
#[cfg(feature = "full")]
pub struct Enc;
#[cfg(feature = "full")]
pub mod keys {
    use bromine::protocol::encrypted::*;
    use x25519_dalek::{PublicKey, StaticSecret};
    pub fn secret(n: u8) -> StaticSecret {
        StaticSecret::from([n; 32])
    }
    pub fn public(n: u8) -> PublicKey {
        static C: std::sync::OnceLock<Vec<PublicKey>> = std::sync::OnceLock::new();
        C.get_or_init(|| (0..8).map(|i| PublicKey::from(&secret(i))).collect())[n as usize]
    }
    pub fn keys(own: u8, known: &[u8], allow: bool) -> Keys {
        Keys { secret: secret(own), known_peers: known.iter().map(|n| public(*n)).collect(), allow_unknown: allow }
    }
    pub fn opt<T: Clone + Default>(own: u8, known: &[u8], allow: bool) -> EncryptionOptions<T> {
        EncryptionOptions { inner_options: T::default(), keys: keys(own, known, allow) }
    }
}
#[cfg(feature = "full")]
impl Tp for Enc {
    const NAME: &'static str = "enc";
    type L = bromine::protocol::encrypted::EncryptedListener<SimListener>;
    fn builder(net: &Net) -> Builder<Self> {
        bromine::IPCBuilder::<Self::L>::new()
            .address(net.clone())
            .server_options(keys::opt(1, &[2], false))
            .client_options(keys::opt(2, &[1], false))
    }
}

pub fn b(v: &[u8]) -> BytePayload {
    BytePayload::new(v.to_vec())
}
pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
/// Waits until nothing can run any more (virtual time only advances when the runtime is idle).
pub async fn idle() {
    tokio::time::sleep(ms(1)).await;
}
/// Starts a server task and waits until it listens.
pub async fn serve<T: Tp>(net: &Net, bld: Builder<T>) -> tokio::task::JoinHandle<IPCResult<()>> {
    let h = tokio::spawn(async move { bld.build_server().await });
    net.bound().await;
    h
}
pub fn lift<X, E: std::fmt::Debug>(r: Result<X, E>, key: &str, what: &str) -> Result<X, Bad> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => bad(key, format!("{what}: {e:?}")),
    }
}
/// Fails unless the future finishes within the given virtual time.
pub async fn within<F: Future>(d: Duration, what: &str, f: F) -> Result<F::Output, Bad> {
    match tokio::time::timeout(d, f).await {
        Ok(v) => Ok(v),
        Err(_) => bad("hang", format!("{what} did not finish within {d:?} of virtual time")),
    }
}
pub fn long() -> Duration {
    Duration::from_secs(20_000)
}

/// Longer than every suspension of the transport that one execution can contain.
pub async fn settle(base: u64, cfg: &NetCfg) {
    tokio::time::sleep(ms(base + 5 * cfg.stall)).await;
}

/// Append-only shared log.
#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<String>>>);
impl Log {
    pub fn new() -> Log {
        Log::default()
    }
    pub fn add(&self, s: impl Into<String>) {
        let s = s.into();
        crate::ex::obs(s.clone());
        self.0.lock().unwrap().push(s);
    }
    pub fn get(&self) -> Vec<String> {
        self.0.lock().unwrap().clone()
    }
    pub fn count(&self, s: &str) -> usize {
        self.0.lock().unwrap().iter().filter(|x| x.as_str() == s).count()
    }
    pub fn clear(&self) {
        self.0.lock().unwrap().clear()
    }
}

/// Sets of replies as seen by a requester.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Got {
    Ok(Vec<u8>),
    Event { code: u16, msg: String },
    Timeout,
    Other(String),
}
pub fn got(r: IPCResult<Event>) -> Got {
    match r {
        Ok(e) => Got::Ok(e.data_raw().to_vec()),
        Err(e) => got_err(e),
    }
}
pub fn got_err(e: IPCError) -> Got {
    match e {
        IPCError::ErrorEvent(d) => Got::Event { code: d.code, msg: d.message },
        IPCError::Timeout => Got::Timeout,
        e => Got::Other(format!("{e:?}")),
    }
}

/// Polls a future at most n times (n polls that return Pending), then drops it.
/// Returns None if it was dropped while pending.
pub struct PollN<F> {
    pub f: Option<Pin<Box<F>>>,
    pub left: usize,
}
impl<F: Future> Future for PollN<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            self.f = None;
            return Poll::Ready(None);
        }
        match self.f.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                self.left -= 1;
                if self.left == 0 {
                    self.f = None;
                    return Poll::Ready(None);
                }
                Poll::Pending
            }
        }
    }
}
impl<F> Unpin for PollN<F> {}
pub fn poll_n<F: Future>(f: F, n: usize) -> PollN<F> {
    PollN { f: Some(Box::pin(f)), left: n }
}
pub fn ok(_: ()) -> Res {
    Ok(())
}

/// A barrier-like gate a handler can wait on.
#[derive(Clone)]
pub struct Gate(Arc<tokio::sync::Semaphore>);
impl Gate {
    pub fn new() -> Gate {
        Gate(Arc::new(tokio::sync::Semaphore::new(0)))
    }
    pub fn open(&self, n: usize) {
        self.0.add_permits(n)
    }
    pub async fn wait(&self) {
        if let Ok(p) = self.0.acquire().await {
            p.forget()
        }
    }
}

pub type HFut<'a> = Pin<Box<dyn Future<Output = IPCResult<Response>> + Send + 'a>>;
/// Gives a closure the signature of an event callback.
pub fn cbk<F>(f: F) -> F
where
    F: for<'a> Fn(&'a Context, Event) -> HFut<'a> + Send + Sync + 'static,
{
    f
}
