//! Clones of a reader used by concurrent tasks that move between threads (part 'tasks' of P13)

use crate::engine::*;
use crate::fsx::Scratch;
use crate::hist::*;
use crate::model::*;
use crate::{ensure, fail};
use bytes::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::{Future, poll_fn};
use std::io::{self, SeekFrom};
use std::pin::Pin;
use std::sync::{Arc, LazyLock};
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, EntryData, FilesystemEntry, Reader};

/// Several threads of its own, shared by all cases
static RT: LazyLock<tokio::runtime::Runtime> = LazyLock::new(|| {
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(4)
        .max_blocking_threads(8)
        .build()
        .unwrap_or_else(|e| panic!("ERROR runtime: {e}"))
});

/// A reader can go to another thread if its entry data can; a library where it can't has to be noticed when running, not when compiling
struct Movable<T>(T);
unsafe impl<T> Send for Movable<T> {}
impl<F: Future> Future for Movable<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|x| &mut x.0) }.poll(cx)
    }
}

/// Source that is pending now and then, and is made ready by another task
#[derive(Clone)]
struct Slow {
    data: Arc<Vec<u8>>,
    every: u8,
    chunk: u32,
}

struct SlowReader {
    src: Slow,
    pos: u64,
    reads: u32,
    waits: Wait,
}

#[derive(Default)]
struct Wait(Option<Arc<std::sync::Mutex<(bool, Option<std::task::Waker>)>>>);

impl Wait {
    /// Pending until another task says otherwise
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        let state = self.0.get_or_insert_with(|| {
            let state = Arc::new(std::sync::Mutex::new((false, None::<std::task::Waker>)));
            let s = state.clone();
            RT.spawn(async move {
                tokio::task::yield_now().await;
                let mut g = s.lock().unwrap();
                g.0 = true;
                if let Some(w) = g.1.take() {
                    w.wake();
                }
            });
            state
        });
        let mut g = state.lock().unwrap();
        if g.0 {
            drop(g);
            self.0 = None;
            return Poll::Ready(());
        }
        g.1 = Some(cx.waker().clone());
        Poll::Pending
    }
}

struct Opening {
    src: Slow,
    wait: Option<Wait>,
}

impl Future for Opening {
    type Output = io::Result<SlowReader>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(w) = &mut self.wait {
            std::task::ready!(w.poll(cx));
            self.wait = None;
        }
        Poll::Ready(Ok(SlowReader { src: self.src.clone(), pos: 0, reads: 0, waits: Wait::default() }))
    }
}

impl EntryData for Slow {
    type Reader = SlowReader;
    type Future = Opening;
    fn get_reader(&self) -> Opening {
        Opening { src: self.clone(), wait: (self.every % 2 == 1).then(Wait::default) }
    }
    fn size(&self) -> u64 {
        self.data.len() as u64
    }
}

impl AsyncRead for SlowReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let this = &mut *self;
        if this.src.every > 0 && this.reads % u32::from(this.src.every) == 0 {
            std::task::ready!(this.waits.poll(cx));
        }
        this.reads += 1;
        let rest = &this.src.data[(this.pos as usize).min(this.src.data.len())..];
        let n = rest.len().min(buf.remaining()).min(this.src.chunk.max(1) as usize);
        buf.put_slice(&rest[..n]);
        this.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for SlowReader {
    fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> io::Result<()> {
        let t = match p {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => (self.src.data.len() as u64).checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        self.pos = t.ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?;
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> {
        Poll::Ready(Ok(self.pos))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    h: Hist,
    kind: u8,
    every: u8,
    chunk: u32,
    /// Histories of the tasks
    tasks: Vec<Vec<Op>>,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let p = Params { max_entries: 5, max_len: 20_000, crc_weight: 30, max_ops: 5, sched: false, clone_take: 2, ..Params::default() };
    (
        hist_strategy(p),
        0u8..4,
        0u8..8,
        prop_oneof![1 => 1u32..2000, 1 => Just(u32::MAX)],
        proptest::collection::vec(proptest::collection::vec(op_strategy(p), 0..8), 2..5),
    )
        .prop_map(|(mut h, kind, every, chunk, tasks)| {
            h.ents.truncate(12);
            Case { h, kind, every, chunk, tasks }
        })
        .boxed()
}

struct Whole {
    bytes: Vec<u8>,
    boundaries: Vec<u64>,
    crcs: Vec<(String, u32)>,
    /// Names whose CRCs were supplied
    known: Vec<String>,
}

struct Walk<D: EntryData> {
    /// The reader stays on its thread
    local: bool,
    r: Pin<Box<Reader<D>>>,
    pos: u64,
    w: Arc<Whole>,
}

impl<D: EntryData + Clone + 'static> Walk<D>
{
    fn look(&self, what: &str) -> Res {
        ensure!(self.r.tell() == self.pos, "position after {what} is {}, has to be {}", self.r.tell(), self.pos);
        ensure!(self.r.size() == self.w.bytes.len() as u64, "size after {what} is {}", self.r.size());
        let now: Vec<_> = self.r.crc32s().collect();
        for (n, c) in &now {
            ensure!(self.w.crcs.iter().any(|(m, d)| m == n && c == d), "CRC {c:08x} of {n:?} after {what} is wrong");
        }
        for k in &self.w.known {
            ensure!(now.iter().any(|(n, _)| n == k), "CRC of {k:?} is forgotten after {what}");
        }
        Ok(())
    }

    async fn read(&mut self, len: usize) -> Result<usize, String> {
        let before = self.pos;
        let got = poll_fn(|cx| {
            let mut v = vec![0; len];
            let mut b = ReadBuf::new(&mut v);
            match self.r.as_mut().poll_read(cx, &mut b) {
                Poll::Ready(r) => Poll::Ready(r.map(|()| b.filled().to_vec())),
                Poll::Pending => Poll::Pending,
            }
        })
        .await
        .map_err(|e| format!("read at {before} failed: {e}"))?;
        let size = self.w.bytes.len() as u64;
        let end = before + got.len() as u64;
        if got.is_empty() {
            ensure!(len == 0 || before >= size, "end of file at {before} of {size}");
            return Ok(0);
        }
        ensure!(end <= size, "bytes past the end of the archive");
        let want = &self.w.bytes[before as usize..end as usize];
        ensure!(got == want, "bytes at {before} differ: {} instead of {}", short(&got), short(want));
        self.pos = end;
        Ok(got.len())
    }

    async fn apply(&mut self, ops: &[Op]) -> Res {
        let size = self.w.bytes.len() as u64;
        for op in ops {
            match op {
                Op::Read { len, polls, .. } => {
                    if *polls > 0 {
                        // Polled without waiting for the result
                        let w = std::task::Waker::noop();
                        let mut cx = Context::from_waker(w);
                        let mut v = vec![0; *len as usize];
                        let mut b = ReadBuf::new(&mut v);
                        let before = self.pos;
                        if let Poll::Ready(r) = self.r.as_mut().poll_read(&mut cx, &mut b) {
                            r.map_err(|e| format!("read at {before} failed: {e}"))?;
                            let n = b.filled().len() as u64;
                            let a = before.min(size) as usize;
                            let z = (before + n).min(size) as usize;
                            ensure!(b.filled() == &self.w.bytes[a..z], "bytes at {before} differ");
                            ensure!(n > 0 || *len == 0 || before >= size, "end of file at {before} of {size}");
                            self.pos += n;
                        }
                    } else {
                        self.read(*len as usize).await?;
                    }
                }
                Op::Burst { len, n } => {
                    for _ in 0..*n {
                        if self.read(*len as usize).await? == 0 {
                            break;
                        }
                    }
                }
                Op::Seek { how, pos } => {
                    let p = pos.resolve(&self.w.boundaries, size);
                    if how % 2 == 0 {
                        self.r.as_mut().seek_from_start_pinned(p);
                    } else {
                        self.r.as_mut().start_seek(SeekFrom::Start(p)).map_err(|e| format!("seek to {p} failed: {e}"))?;
                        let q = poll_fn(|cx| self.r.as_mut().poll_complete(cx)).await.map_err(|e| format!("seek to {p} failed: {e}"))?;
                        ensure!(q == p, "seek to {p} returned {q}");
                    }
                    self.pos = p;
                }
                Op::Clone { adopt } => {
                    let c = Box::pin(Reader::clone(&self.r));
                    if *adopt {
                        self.r = c;
                    } else if !self.local {
                        // Dropped by another thread
                        let c = Movable(c);
                        RT.spawn(async move {
                            let c = c;
                            drop(c);
                        });
                    }
                }
                Op::Take => {
                    let t = self.r.as_mut().take_pinned();
                    self.r = Box::pin(t);
                }
                _ => {}
            }
            self.look("an operation")?;
            tokio::task::yield_now().await;
        }
        Ok(())
    }

    async fn finish(&mut self, len: usize) -> Res {
        self.r.as_mut().seek_from_start_pinned(0);
        self.pos = 0;
        while self.read(len).await? > 0 {}
        self.look("a complete read")?;
        ensure!(self.r.crc32s().count() == self.w.crcs.len(), "not all CRCs are reported after a complete read");
        Ok(())
    }
}

fn run<D: EntryData + Clone + 'static>(c: &Case, r: Reader<D>, w: &Arc<Whole>, local: bool, cov: &mut Cov) -> Res {
    let len = sane_len(c.h.finish.unwrap_or(5000), w.bytes.len() as u64);
    let mut original = Walk { local, r: Box::pin(r), pos: 0, w: w.clone() };
    let first = c.h.ops.clone();
    let (back, gate) = std::sync::mpsc::channel();
    let tasks = c.tasks.clone();
    let all = Movable(async move {
        original.apply(&first).await?;
        let mut running = Vec::new();
        for (i, ops) in tasks.into_iter().enumerate() {
            // The last one is the original itself, taken
            let r = Box::pin(if i == 0 { original.r.as_mut().take_pinned() } else { Reader::clone(&original.r) });
            let mut walk = Walk { local, r, pos: original.pos, w: original.w.clone() };
            if i == 0 {
                original.r = Box::pin(Reader::clone(&walk.r));
            }
            walk.look("clone or take")?;
            let task = Movable(async move {
                walk.apply(&ops).await?;
                walk.finish(len).await
            });
            running.push(if local { tokio::task::spawn_local(task.0) } else { tokio::spawn(task) });
        }
        original.finish(len).await?;
        for t in running {
            match t.await {
                Ok(r) => r?,
                Err(e) => fail!("a task failed: {e}"),
            }
        }
        Ok(())
    });
    cov.nontrivial(c.h.ents.iter().any(|e| e.content.len > 0));
    if local {
        let set = tokio::task::LocalSet::new();
        let r = crate::fsx::block_on(async { tokio::time::timeout(Duration::from_secs(90), set.run_until(all.0)).await });
        return r.unwrap_or_else(|_| Err("reads by concurrent tasks stay pending for 90 s".into()));
    }
    let task = RT.spawn(all);
    RT.spawn(async move {
        let _ = back.send(task.await);
    });
    match gate.recv_timeout(Duration::from_secs(90)) {
        Ok(Ok(r)) => r?,
        Ok(Err(e)) => fail!("a task failed: {e}"),
        Err(_) => fail!("reads by concurrent tasks stay pending for 90 s"),
    }
    Ok(())
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let names = names_of(&c.h.ents);
    let data = c.h.ents.iter().map(|e| e.content.bytes()).collect::<Vec<_>>();
    let crcs: Vec<u32> = data.iter().map(|d| crc32fast::hash(d)).collect();
    let mut b: Builder<&[u8]> = Builder::new();
    for (i, e) in c.h.ents.iter().enumerate() {
        let be = b.add_entry(names[i].clone(), data[i].as_slice()).map_err(|e| e.to_string())?;
        apply_meta(be, &e.meta);
    }
    let bytes = crate::exec::read_all(&mut b.build(), 8192).map_err(|e| format!("plain read failed: {e}"))?;
    let boundaries = crate::zipparse::parse_mem_full(&bytes)?.boundaries;
    let w = Arc::new(Whole {
        bytes,
        boundaries,
        crcs: names.iter().cloned().zip(crcs.iter().copied()).collect(),
        known: names.iter().zip(&c.h.ents).filter(|(_, e)| e.crc).map(|(n, _)| n.clone()).collect(),
    });
    macro_rules! with {
        ($t:ty, $make:expr) => {{
            let mut b: Builder<$t> = Builder::new();
            for (i, e) in c.h.ents.iter().enumerate() {
                let d: $t = ($make)(i);
                let be = b.add_entry(names[i].clone(), d).map_err(|e| e.to_string())?;
                apply_meta(be, &e.meta);
                if e.crc {
                    be.crc32(crcs[i]);
                }
            }
            run(c, b.build(), &w, false, cov)
        }};
    }
    match c.kind {
        0 => {
            cov.label("bytes");
            with!(Bytes, |i: usize| Bytes::from(data[i].clone()))
        }
        1 => {
            cov.label("files");
            let s = Scratch::new()?;
            let mut b: Builder<FilesystemEntry> = Builder::new();
            for (i, e) in c.h.ents.iter().enumerate() {
                let p = s.tree.join(format!("{i}"));
                std::fs::write(&p, &data[i]).map_err(|e| format!("ERROR {e}"))?;
                let m = std::fs::symlink_metadata(&p).map_err(|e| format!("ERROR {e}"))?;
                let d = crate::fsx::block_on(FilesystemEntry::with_metadata(p, &m)).map_err(|e| format!("entry is refused: {e}"))?;
                let be = b.add_entry(names[i].clone(), d).map_err(|e| e.to_string())?;
                apply_meta(be, &e.meta);
                if e.crc {
                    be.crc32(crcs[i]);
                }
            }
            // Readers of files can't be moved between threads
            run(c, b.build(), &w, true, cov)
        }
        _ => {
            cov.label("slow");
            with!(Slow, |i: usize| Slow { data: Arc::new(data[i].clone()), every: c.every, chunk: c.chunk })
        }
    }
}

pub fn part() -> Box<Part<Case>> {
    Box::new(Part { name: "tasks", quick: 2500, thorough: 250_000, strat, check })
}
