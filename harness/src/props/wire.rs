//! Parts of P23 and P24 over real connections

use super::p23::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, fail};
use actix_web::{App, HttpRequest, HttpResponse, HttpServer, Responder, web};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, LazyLock, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, EntryData};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WEnt {
    name: String,
    content: Content,
    crc: bool,
    chunk: u16,
    /// Every n-th read is pending
    pend: u8,
    /// Reads fail from this position on
    broken: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WReq {
    header: Header,
    /// 0 GET, 1 HEAD, 2 POST
    method: u8,
    /// The client hangs up after this part of the body
    hang_up: Option<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WireCase {
    ents: Vec<WEnt>,
    reqs: Vec<WReq>,
    /// All requests are sent at once
    pipeline: bool,
    /// Bytes the client reads at once
    slice: u16,
}

pub fn wire_strat(_: &Ctx) -> BoxedStrategy<WireCase> {
    let ent = (
        "[a-zé/]{1,12}",
        content_strategy(60_000),
        any::<bool>(),
        prop_oneof![1u16..50, 1u16..=u16::MAX],
        prop_oneof![2 => Just(0u8), 1 => 2u8..10],
        prop_oneof![30 => Just(None), 1 => (0u32..60_000).prop_map(Some)],
    )
        .prop_map(|(name, content, crc, chunk, pend, broken)| WEnt { name, chunk: chunk.max((content.len / 200) as u16), content, crc, pend, broken });
    let req = (header(), method(), prop_oneof![8 => Just(None), 1 => any::<u16>().prop_map(Some)])
        .prop_map(|(header, method, hang_up)| WReq { header, method, hang_up });
    (proptest::collection::vec(ent, 0..5), proptest::collection::vec(req, 1..5), any::<bool>(), 1u16..=u16::MAX)
        .prop_map(|(ents, mut reqs, pipeline, slice)| {
            if pipeline {
                // actix-http mixes up methods of pipelined requests
                reqs.iter_mut().for_each(|q| q.method = 0);
            }
            WireCase { ents, reqs, pipeline, slice }
        })
        .boxed()
}

#[derive(Clone, Debug)]
struct Item {
    data: Arc<Vec<u8>>,
    chunk: usize,
    pend: u32,
    broken: u64,
}

struct ItemReader {
    item: Item,
    pos: u64,
    n: u32,
}

impl EntryData for Item {
    type Reader = ItemReader;
    type Future = std::future::Ready<std::io::Result<ItemReader>>;
    fn get_reader(&self) -> Self::Future {
        std::future::ready(Ok(ItemReader { item: self.clone(), pos: 0, n: 0 }))
    }
    fn size(&self) -> u64 {
        self.data.len() as u64
    }
}

impl AsyncRead for ItemReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        self.n += 1;
        if self.item.pend > 0 && self.n % self.item.pend == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.pos >= self.item.broken {
            return Poll::Ready(Err(std::io::Error::other("broken")));
        }
        let rest = &self.item.data[(self.pos as usize).min(self.item.data.len())..];
        let k = rest.len().min(buf.remaining()).min(self.item.chunk).min((self.item.broken - self.pos) as usize);
        buf.put_slice(&rest[..k]);
        self.pos += k as u64;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for ItemReader {
    fn start_seek(mut self: Pin<&mut Self>, p: std::io::SeekFrom) -> std::io::Result<()> {
        self.pos = match p {
            std::io::SeekFrom::Start(p) => Some(p),
            std::io::SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            std::io::SeekFrom::End(d) => (self.item.data.len() as u64).checked_add_signed(d),
        }
        .ok_or(std::io::ErrorKind::InvalidInput)?;
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<u64>> {
        Poll::Ready(Ok(self.pos))
    }
}

type Crcs = Vec<(String, u32)>;

/// What the server serves and what it got back
struct Served {
    ents: Vec<(String, Item, Option<u32>)>,
    /// Returned CRCs for each response, None if the reader was not returned
    returned: Vec<Option<Crcs>>,
}

static CASES: LazyLock<Mutex<HashMap<u64, Served>>> = LazyLock::new(Mutex::default);
static NEXT: AtomicU64 = AtomicU64::new(0);

fn cases<T>(f: impl FnOnce(&mut HashMap<u64, Served>) -> T) -> T {
    f(&mut CASES.lock().unwrap_or_else(std::sync::PoisonError::into_inner))
}

fn builder(ents: &[(String, Item, Option<u32>)]) -> Result<Builder<Item>, String> {
    let mut b = Builder::new();
    for (n, i, crc) in ents {
        let e = b.add_entry(n.clone(), i.clone()).map_err(|e| e.to_string())?;
        if let Some(c) = crc {
            e.crc32(*c);
        }
    }
    Ok(b)
}

async fn handler(req: HttpRequest, path: web::Path<u64>) -> HttpResponse {
    let id = *path;
    let Some(ents) = cases(|c| c.get(&id).map(|s| s.ents.clone())) else {
        return HttpResponse::Gone().finish();
    };
    let Ok(b) = builder(&ents) else {
        return HttpResponse::InternalServerError().finish();
    };
    let (adapter, rx) = b.build().into_responder_with_channel();
    actix_web::rt::spawn(async move {
        let got = rx.await.ok().map(|r| r.crc32s().map(|(n, c)| (n.to_string(), c)).collect());
        cases(|c| {
            if let Some(s) = c.get_mut(&id) {
                s.returned.push(got);
            }
        });
    });
    adapter.respond_to(&req)
}

/// Address of the server of this process
fn server() -> Result<SocketAddr, String> {
    static ADDR: LazyLock<Result<SocketAddr, String>> = LazyLock::new(|| {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            actix_web::rt::System::new().block_on(async move {
                let s = HttpServer::new(|| App::new().route("/{id}", web::to(handler))).workers(2).disable_signals().bind(("127.0.0.1", 0));
                match s {
                    Ok(s) => {
                        let _ = tx.send(s.addrs().first().copied().ok_or_else(|| "ERROR no address".to_string()));
                        let _ = s.run().await;
                    }
                    Err(e) => {
                        let _ = tx.send(Err(format!("ERROR os error binding: {e}")));
                    }
                }
            });
        });
        rx.recv().map_err(|e| format!("ERROR server: {e}"))?
    });
    ADDR.clone()
}

struct Conn {
    s: TcpStream,
    buf: Vec<u8>,
    slice: usize,
}

impl Conn {
    /// False at the end of the connection
    fn more(&mut self) -> Result<bool, String> {
        let mut b = vec![0; self.slice];
        match self.s.read(&mut b) {
            Ok(0) => Ok(false),
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                Ok(true)
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => fail!("the server doesn't go on with the response"),
            // Reset
            Err(_) => Ok(false),
        }
    }
}

struct Head {
    status: u16,
    headers: Vec<(String, String)>,
}

impl Head {
    fn get(&self, name: &str) -> Result<Option<&str>, String> {
        let mut all = self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name));
        let first = all.next();
        ensure!(all.next().is_none(), "header {name} is present more than once");
        Ok(first.map(|h| h.1.as_str()))
    }
}

fn head(c: &mut Conn, broken: bool) -> Result<Option<Head>, String> {
    let end = loop {
        if let Some(i) = c.buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        ensure!(c.buf.len() < 100_000, "head of the response is too long");
        if !c.more()? {
            ensure!(broken || c.buf.is_empty(), "connection ended in the head of a response");
            return Ok(None);
        }
    };
    let text = String::from_utf8(c.buf[..end].to_vec()).map_err(|_| "head of the response is not UTF-8".to_string())?;
    c.buf.drain(..end + 4);
    let mut lines = text.split("\r\n");
    let first = lines.next().unwrap_or_default();
    let status = first.strip_prefix("HTTP/1.1 ").and_then(|s| s.get(..3)).and_then(|s| s.parse().ok()).ok_or_else(|| format!("status line {first:?}"))?;
    let headers = lines
        .map(|l| l.split_once(':').map(|(a, b)| (a.to_string(), b.trim().to_string())).ok_or_else(|| format!("header line {l:?}")))
        .collect::<Result<_, _>>()?;
    Ok(Some(Head { status, headers }))
}

pub fn wire_check(c: &WireCase, cov: &mut Cov) -> Res {
    let addr = server()?;
    let mut ents: Vec<(String, Item, Option<u32>)> = Vec::new();
    for e in &c.ents {
        if ents.iter().any(|x| x.0 == e.name) {
            continue;
        }
        let item = Item { data: Arc::new(e.content.bytes()), chunk: e.chunk.into(), pend: e.pend.into(), broken: e.broken.map_or(u64::MAX, u64::from) };
        ents.push((e.name.clone(), item, e.crc.then(|| e.content.crc())));
    }
    let plain: Vec<_> = ents.iter().map(|(n, i, c)| (n.clone(), Item { chunk: usize::MAX, pend: 0, broken: u64::MAX, ..i.clone() }, *c)).collect();
    let broken = ents.iter().any(|e| e.1.broken <= e.1.data.len() as u64 && !e.1.data.is_empty());
    let whole = {
        let mut r = builder(&plain)?.build();
        crate::exec::read_all_limited(&mut r, 65536, 1 << 27).map_err(|e| format!("plain read failed: {e}"))?
    };
    let size = whole.len() as u64;
    let parsed = crate::zipparse::parse_mem_full(&whole)?;
    let truth: HashMap<String, u32> = plain.iter().map(|(n, i, _)| (n.clone(), crc32fast::hash(&i.data))).collect();
    let id = NEXT.fetch_add(1, Ordering::Relaxed);
    cases(|x| x.insert(id, Served { ents, returned: vec![] }));
    let res = exchange(c, cov, addr, id, &whole, &parsed.boundaries, broken);
    // Every response that was started has to give its reader back
    let started = res.as_ref().copied().unwrap_or(0);
    let start = Instant::now();
    let mut all = true;
    while res.is_ok() && cases(|x| x.get(&id).map_or(0, |s| s.returned.len())) < started {
        if start.elapsed() > Duration::from_secs(20) {
            all = false;
            break;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    let served = cases(|x| x.remove(&id));
    res?;
    ensure!(all, "reader of a response was not returned within 20 s");
    for r in served.map(|s| s.returned).unwrap_or_default() {
        let Some(r) = r else { fail!("reader of a response was dropped, not returned") };
        for (n, c) in r {
            ensure!(truth.get(&n) == Some(&c), "returned reader reports CRC {c:08x} of {n:?}");
        }
    }
    cov.nontrivial(size > 200 && c.reqs.len() > 1);
    Ok(())
}

/// Number of requests that were surely processed
fn exchange(c: &WireCase, cov: &mut Cov, addr: SocketAddr, id: u64, whole: &[u8], bounds: &[u64], broken: bool) -> Result<usize, String> {
    let size = whole.len() as u64;
    let start = Instant::now();
    let s = loop {
        match TcpStream::connect(addr) {
            Ok(s) => break s,
            // Out of ports for a while
            Err(_) if start.elapsed() < Duration::from_secs(90) => std::thread::sleep(Duration::from_millis(50)),
            Err(e) => fail!("ERROR os error connecting: {e}"),
        }
    };
    let wait = Some(Duration::from_secs(60));
    s.set_read_timeout(wait).and_then(|()| s.set_write_timeout(wait)).and_then(|()| s.set_nodelay(true)).map_err(|e| format!("ERROR os error: {e}"))?;
    let mut conn = Conn { s, buf: vec![], slice: c.slice.into() };
    let mut texts = Vec::new();
    for q in &c.reqs {
        let (h, mut al) = header_value(&q.header, bounds, size);
        al.plain |= q.method != 0;
        // The server answers malformed requests on its own
        let h = h.filter(|v| actix_web::http::header::HeaderValue::from_bytes(v).is_ok());
        let bare = h.is_none() && !matches!(q.header, Header::None);
        let m = ["GET", "HEAD", "POST"][usize::from(q.method.min(2))];
        let mut t = format!("{m} /{id} HTTP/1.1\r\nHost: localhost\r\n").into_bytes();
        if q.method == 2 {
            t.extend(b"Content-Length: 0\r\n");
        }
        if let Some(h) = &h {
            t.extend(b"Range: ");
            t.extend(h);
            t.extend(b"\r\n");
        }
        t.extend(b"\r\n");
        if bare {
            al = header_value(&Header::None, bounds, size).1;
        }
        texts.push((t, al));
    }
    let send = |conn: &mut Conn, t: &[u8]| conn.s.write_all(t).is_ok();
    if c.pipeline {
        let all: Vec<u8> = texts.iter().flat_map(|t| t.0.clone()).collect();
        send(&mut conn, &all);
        cov.label_if(c.reqs.len() > 1, "pipelined");
    }
    let mut done = 0;
    for (i, q) in c.reqs.iter().enumerate() {
        let what = format!("request {i} ({:?})", String::from_utf8_lossy(&texts[i].0));
        if !c.pipeline && !send(&mut conn, &texts[i].0) {
            fail!("{what}: connection was closed before");
        }
        let Some(h) = head(&mut conn, broken).map_err(|e| format!("{what}: {e}"))? else {
            // Unsent data are thrown away when a body fails
            ensure!(broken, "{what}: connection was closed without an answer");
            cov.label("failed before the head was sent");
            return Ok(done);
        };
        done += 1;
        let Some(len) = h.get("content-length")? else { fail!("{what}: no Content-Length") };
        let len: u64 = len.parse().map_err(|_| format!("{what}: Content-Length {len:?}"))?;
        ensure!(h.get("transfer-encoding")?.is_none(), "{what}: both Content-Length and Transfer-Encoding");
        let range = judge_values(
            h.status,
            h.get("content-type")?,
            h.get("accept-ranges")?,
            h.get("content-range")?,
            Some(len),
            &texts[i].1,
            size,
            &what,
        )?;
        if q.method == 1 {
            cov.label("HEAD");
            continue;
        }
        let want: &[u8] = match range {
            Some((a, b)) => &whole[a as usize..=b as usize],
            None => &[],
        };
        ensure!(range.is_none() || len == want.len() as u64, "{what}: Content-Length {len}, {} B requested", want.len());
        let stop = q.hang_up.map(|f| len * u64::from(f) / 65536);
        let mut closed = false;
        while (conn.buf.len() as u64) < stop.unwrap_or(len) {
            if !conn.more().map_err(|e| format!("{what}: {e}"))? {
                closed = true;
                break;
            }
        }
        let got = conn.buf.len().min(len as usize);
        if range.is_some() {
            ensure!(conn.buf[..got] == want[..got], "{what}: body differs from the archive");
        }
        if stop.is_some() {
            cov.label("hung up");
            return Ok(done);
        }
        if closed {
            ensure!(broken, "{what}: connection was closed after {got} of {len} B");
            cov.label("failed in the middle");
            return Ok(done);
        }
        conn.buf.drain(..len as usize);
        cov.label_if(range.is_some() && len > 100_000, "over 100 kB");
    }
    ensure!(conn.buf.is_empty(), "data after the last response");
    cov.label("all answered");
    Ok(done)
}
