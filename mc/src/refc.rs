//! Independent reference implementation of the wire format, and a raw peer speaking it.
use crate::net::{Net, SimListener, SimRead, SimStream, SimWrite};
use bromine::prelude::AsyncProtocolStreamSplit;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

pub const INIT: u8 = 0;
pub const RESP: u8 = 1;
pub const END: u8 = 2;
pub const ERR: u8 = 3;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frame {
    pub id: u64,
    pub kind: u8,
    pub re: Option<u64>,
    pub ns: Option<String>,
    pub name: String,
    pub data: Vec<u8>,
}
impl Frame {
    pub fn new(id: u64, kind: u8, re: Option<u64>, name: &str, data: &[u8]) -> Frame {
        Frame { id, kind, re, ns: None, name: name.into(), data: data.to_vec() }
    }
    pub fn ns(mut self, ns: &str) -> Frame {
        self.ns = Some(ns.into());
        self
    }
    pub fn header(&self, version: [u8; 3], extra: &[u8]) -> Vec<u8> {
        let mut h = version.to_vec();
        h.extend(self.id.to_be_bytes());
        h.push(self.kind);
        match self.re {
            Some(r) => {
                h.push(0xff);
                h.extend(r.to_be_bytes())
            }
            None => h.push(0),
        }
        let ns = self.ns.clone().unwrap_or_default();
        h.extend((ns.len() as u16).to_be_bytes());
        h.extend(ns.as_bytes());
        h.extend((self.name.len() as u16).to_be_bytes());
        h.extend(self.name.as_bytes());
        h.extend(extra);
        h
    }
    pub fn encode(&self) -> Vec<u8> {
        self.encode_with([0, 9, 0], &[])
    }
    pub fn encode_with(&self, version: [u8; 3], extra: &[u8]) -> Vec<u8> {
        let h = self.header(version, extra);
        let mut v = ((h.len() + self.data.len()) as u64).to_be_bytes().to_vec();
        v.extend((h.len() as u16).to_be_bytes());
        v.extend(h);
        v.extend(&self.data);
        v
    }
    /// What a reader of the format must make of a header.
    pub fn parse_header(h: &[u8]) -> Result<Frame, String> {
        let mut i = 0usize;
        let mut take = |n: usize| -> Result<Vec<u8>, String> {
            if i + n > h.len() {
                return Err("short header".into());
            }
            i += n;
            Ok(h[i - n..i].to_vec())
        };
        let ver = take(3)?;
        if ver[0] != 0 {
            return Err("version".into());
        }
        let id = u64::from_be_bytes(take(8)?.try_into().unwrap());
        let kind = take(1)?[0];
        if kind > 3 {
            return Err("kind".into());
        }
        let re = match take(1)?[0] {
            0 => None,
            0xff => Some(u64::from_be_bytes(take(8)?.try_into().unwrap())),
            _ => return Err("ref flag".into()),
        };
        let n = u16::from_be_bytes(take(2)?.try_into().unwrap()) as usize;
        let ns = String::from_utf8(take(n)?).map_err(|_| "ns utf8")?;
        let n = u16::from_be_bytes(take(2)?.try_into().unwrap()) as usize;
        let name = String::from_utf8(take(n)?).map_err(|_| "name utf8")?;
        Ok(Frame { id, kind, re, ns: if ns.is_empty() { None } else { Some(ns) }, name, data: vec![] })
    }
    /// Decodes the first frame of a byte string: the frame and its length, None if more bytes are
    /// needed, or why it is not a frame.
    pub fn decode(b: &[u8]) -> Result<Option<(Frame, usize)>, String> {
        if b.len() < 10 {
            return Ok(None);
        }
        let total = u64::from_be_bytes(b[..8].try_into().unwrap());
        let hl = u16::from_be_bytes(b[8..10].try_into().unwrap()) as u64;
        if hl > total {
            return Err("header longer than frame".into());
        }
        if (b.len() as u64) < 10 + hl {
            return Ok(None);
        }
        let mut f = Frame::parse_header(&b[10..10 + hl as usize])?;
        if ((b.len() - 10) as u64) < total {
            return Ok(None);
        }
        f.data = b[10 + hl as usize..10 + total as usize].to_vec();
        Ok(Some((f, 10 + total as usize)))
    }
    /// Splits a wire log into whole frames; the rest must be empty unless `partial` is allowed.
    pub fn split(b: &[u8]) -> Result<(Vec<Frame>, usize), String> {
        let mut v = vec![];
        let mut i = 0;
        while i < b.len() {
            match Frame::decode(&b[i..])? {
                Some((f, n)) => {
                    v.push(f);
                    i += n;
                }
                None => break,
            }
        }
        Ok((v, b.len() - i))
    }
}
pub fn err_payload(code: u16, msg: &str) -> Vec<u8> {
    let mut v = code.to_be_bytes().to_vec();
    v.extend((msg.len() as u32).to_be_bytes());
    v.extend(msg.as_bytes());
    v
}
pub fn parse_err(b: &[u8]) -> Option<(u16, String)> {
    if b.len() < 6 {
        return None;
    }
    let n = u32::from_be_bytes(b[2..6].try_into().unwrap()) as usize;
    if b.len() != 6 + n {
        return None;
    }
    Some((u16::from_be_bytes(b[..2].try_into().unwrap()), String::from_utf8(b[6..].to_vec()).ok()?))
}
pub fn tandem(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = (a.len() as u64).to_be_bytes().to_vec();
    v.extend(a);
    v.extend((b.len() as u64).to_be_bytes());
    v.extend(b);
    v
}

/// the process under test never generates ids with the top 16 bits set
pub const RAW_ID: u64 = 0xffff_0000_0000_0000;

pub struct Raw<R, W> {
    pub r: R,
    pub w: W,
    pub buf: Vec<u8>,
    pub next_id: u64,
}
pub type SimRaw = Raw<SimRead, SimWrite>;
impl<R: AsyncRead + Unpin, W: AsyncWrite + Unpin> Raw<R, W> {
    pub async fn send_bytes(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.w.write_all(b).await?;
        self.w.flush().await
    }
    pub async fn send(&mut self, f: &Frame) -> std::io::Result<()> {
        self.send_bytes(&f.encode()).await
    }
    pub fn id(&mut self) -> u64 {
        self.next_id += 1;
        self.next_id
    }
    /// The next frame; None at end of stream. Err if the bytes are no frame.
    pub async fn recv(&mut self) -> Result<Option<Frame>, String> {
        loop {
            if let Some((f, n)) = Frame::decode(&self.buf)? {
                self.buf.drain(..n);
                return Ok(Some(f));
            }
            let mut t = [0u8; 4096];
            match self.r.read(&mut t).await {
                Ok(0) => {
                    return if self.buf.is_empty() { Ok(None) } else { Err(format!("stream ended inside a frame ({} bytes)", self.buf.len())) }
                }
                Ok(n) => self.buf.extend(&t[..n]),
                Err(e) => return Err(format!("read: {e}")),
            }
        }
    }
    pub async fn recv_some(&mut self) -> Result<Frame, String> {
        self.recv().await?.ok_or_else(|| "connection closed".to_string())
    }
}
impl SimRaw {
    pub fn over(s: SimStream) -> SimRaw {
        let (r, w) = s.protocol_into_split();
        Raw { r, w, buf: vec![], next_id: RAW_ID }
    }
    pub fn connect(net: &Net) -> std::io::Result<SimRaw> {
        Ok(Self::over(net.dial()?))
    }
    pub async fn accept(l: &SimListener) -> SimRaw {
        Self::over(l.accept().await)
    }
}
