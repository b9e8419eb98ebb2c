//! P22 The byte-stream adapter delivers exactly the reader's remaining bytes

use super::p12::fault;
use crate::engine::*;
use crate::exec::flag;
use crate::hist::*;
use crate::model::*;
use crate::source::*;
use crate::{ensure, fail};
use bytes::Bytes;
use futures_core::Stream;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll};
use zippity::BytesStream;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    /// Items, pending answers tolerated until giving up (0 = no limit)
    Next { n: u8, pendings: u8 },
    /// Polls until the item, or end
    ToEnd,
    Seek { how: u8, pos: Pos },
    /// Operation of the wrapped reader
    Reader(Op),
    Clone { adopt: bool },
    /// Unwraps the reader, does the operation on it and wraps it again
    Rewrap { how: u8, op: Option<Op> },
    Query,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ents: Vec<Ent>,
    /// On the reader before wrapping
    first: Vec<Op>,
    ops: Vec<SOp>,
    faults: Vec<(u8, Fault)>,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let p = Params { crc_weight: 40, clone_take: 1, ..Params::default() };
    let small = Params { max_len: 300, max_entries: 4, long_names: 0, ..p };
    let op = move || {
        prop_oneof![
            10 => (prop_oneof![3 => 1u8..3, 1 => 1u8..20], prop_oneof![2 => Just(0u8), 1 => 1u8..4]).prop_map(|(n, pendings)| SOp::Next { n, pendings }),
            1 => Just(SOp::ToEnd),
            3 => (0u8..5, pos_strategy()).prop_map(|(how, pos)| SOp::Seek { how, pos }),
            2 => op_strategy(p).prop_map(SOp::Reader),
            1 => any::<bool>().prop_map(|adopt| SOp::Clone { adopt }),
            2 => (0u8..3, proptest::option::of(op_strategy(p))).prop_map(|(how, op)| SOp::Rewrap { how, op }),
            1 => Just(SOp::Query),
        ]
    };
    (
        prop_oneof![3 => ents_strategy(p), 2 => ents_strategy(small)],
        proptest::collection::vec(op_strategy(p), 0..4),
        proptest::collection::vec(op(), 1..16),
        prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(fault(), 1..6)],
    )
        .prop_map(|(ents, first, ops, faults)| Case { ents, first, ops, faults })
        .boxed()
}

fn large(ctx: &Ctx) -> BoxedStrategy<Case> {
    (strat(ctx), enlarge_strategy())
        .prop_map(|(mut c, e)| {
            c.ents.truncate(4);
            enlarge(&mut c.ents, &mut c.first, &e);
            c
        })
        .boxed()
}

#[derive(PartialEq, Debug)]
enum Item {
    Chunk,
    End,
    Failed,
    GaveUp,
}

struct SRun<'a> {
    s: BytesStream<Src>,
    pos: u64,
    t: &'a Truth,
    w: Shared,
    /// All chunks with their positions
    chunks: Vec<(u64, Bytes)>,
    polls: u64,
    pending: u64,
    failed: u64,
    abandoned: u64,
}

impl SRun<'_> {
    fn next(&mut self, max_pendings: u32) -> Result<Item, String> {
        let mut pendings = 0;
        let size = self.t.size();
        loop {
            self.w.borrow_mut().begin_poll();
            let (woken, waker) = flag();
            let mut cx = Context::from_waker(&waker);
            let res = Pin::new(&mut self.s).poll_next(&mut cx);
            self.polls += 1;
            let (source_pendings, fired) = {
                let w = self.w.borrow();
                (w.pendings, w.fired.clone())
            };
            let item = match res {
                Poll::Ready(Some(Ok(b))) => {
                    ensure!(!b.is_empty(), "stream yielded an empty chunk at {}", self.pos);
                    ensure!(fired.is_empty(), "source failure {fired:?} was swallowed by the stream");
                    let a = self.pos.min(size) as usize;
                    let z = (a + b.len()).min(size as usize);
                    ensure!(
                        b[..] == self.t.bytes[a..z],
                        "chunk of {} B at {} is {}, expected {}",
                        b.len(),
                        self.pos,
                        short(&b),
                        short(&self.t.bytes[a..z])
                    );
                    let n = b.len() as u64;
                    self.chunks.push((self.pos, b));
                    self.pos += n;
                    Item::Chunk
                }
                Poll::Ready(None) => {
                    ensure!(fired.is_empty(), "source failure {fired:?} ended the stream");
                    ensure!(self.pos >= size, "stream ended at {} of {size}", self.pos);
                    Item::End
                }
                Poll::Ready(Some(Err(e))) => {
                    let id = injected_id(&e);
                    ensure!(
                        fired.len() == 1 && id == Some(fired[0]),
                        "stream failed at {} with '{e}', source failures: {fired:?}",
                        self.pos
                    );
                    self.failed += 1;
                    Item::Failed
                }
                Poll::Pending => {
                    ensure!(fired.is_empty(), "source failure {fired:?} was swallowed by a pending stream");
                    ensure!(source_pendings > 0, "stream is pending at {}, although no source is", self.pos);
                    let waker = self.w.borrow_mut().waker.take();
                    if let Some(waker) = waker {
                        waker.wake();
                    }
                    ensure!(woken.0.load(Ordering::SeqCst), "lost wake-up of the stream at {}", self.pos);
                    self.check_pos("after a pending poll")?;
                    self.pending += 1;
                    pendings += 1;
                    ensure!(pendings < 5_000_000, "stream stays pending forever");
                    if max_pendings > 0 && pendings >= max_pendings {
                        self.abandoned += 1;
                        return Ok(Item::GaveUp);
                    }
                    continue;
                }
            };
            self.check_pos("after an item")?;
            return Ok(item);
        }
    }

    fn check_pos(&self, what: &str) -> Res {
        let got = self.s.reader_ref().tell();
        ensure!(got == self.pos, "{what}: reader of the stream is at {got}, has to be at {}", self.pos);
        Ok(())
    }

    fn to_end(&mut self) -> Res {
        let mut fails = 0;
        // Hints of the stream, and how many items there were before
        let mut hints = Vec::new();
        let mut items = 0;
        loop {
            hints.push((self.s.size_hint(), items));
            items += 1;
            match self.next(0)? {
                Item::End => break,
                Item::Failed => fails += 1,
                _ => {}
            }
            ensure!(fails < 1000 && self.pos <= self.t.size() + 100_000, "stream doesn't end");
        }
        for _ in 0..3 {
            ensure!(self.next(0)? == Item::End, "stream continued after its end");
        }
        items -= 1;
        for ((lower, upper), before) in hints {
            let left = items - before;
            ensure!(
                lower <= left && upper.is_none_or(|u| left <= u),
                "stream announces {lower} to {upper:?} items, and {left} come"
            );
        }
        Ok(())
    }

    /// Hands the reader over to the reader model
    fn with_reader(&mut self, how: Option<u8>, op: Option<&Op>, faults: bool, cov: &mut Cov) -> Res {
        let flags = BYTES | POS | EOF | if faults { FAULTS } else { 0 };
        let reader = match how {
            None => std::mem::replace(self.s.reader_mut(), zippity::Reader::new_empty_file()),
            Some(_) => std::mem::replace(&mut self.s, BytesStream::new(zippity::Reader::new_empty_file())).into_reader(),
        };
        let mut run = Run::new(reader, self.t, &self.w, flags);
        run.pos = self.pos;
        run.check_pos("reader taken from a stream")?;
        if let Some(op) = op {
            run.apply(op, cov)?;
        }
        self.pos = run.pos;
        match how {
            None => *self.s.reader_mut() = run.r,
            Some(0) => self.s = run.r.into_bytes_stream(),
            Some(1) => self.s = BytesStream::new(run.r),
            Some(_) => self.s = run.r.into(),
        }
        self.check_pos("after work with the reader")
    }
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let t = truth(&c.ents)?;
    let w = make_world(&c.ents, &t, budget(&c.ents, (c.ops.len() * 20 + c.first.len() * 8 + 50) as u64));
    {
        let mut wb = w.borrow_mut();
        wb.keep_log = false;
        if !c.ents.is_empty() {
            for (e, f) in &c.faults {
                wb.srcs[usize::from(*e) % c.ents.len()].faults.push(f.clone());
            }
        }
    }
    let faults = !c.faults.is_empty();
    let flags = BYTES | POS | EOF | if faults { FAULTS } else { 0 };
    let mut run = Run::new(make_builder(&c.ents, &t, &w)?.build(), &t, &w, flags);
    for op in &c.first {
        run.apply(op, cov)?;
    }
    let pos = run.pos;
    let mut s = SRun {
        s: run.r.into_bytes_stream(),
        pos,
        t: &t,
        w,
        chunks: Vec::new(),
        polls: 0,
        pending: 0,
        failed: 0,
        abandoned: 0,
    };
    s.check_pos("new stream")?;
    let mut left: Vec<(BytesStream<Src>, u64)> = Vec::new();
    for op in &c.ops {
        match op {
            SOp::Next { n, pendings } => {
                for _ in 0..*n {
                    if matches!(s.next(u32::from(*pendings))?, Item::End | Item::GaveUp) {
                        break;
                    }
                }
            }
            SOp::ToEnd => {
                s.to_end()?;
                cov.label("read to the end");
            }
            SOp::Seek { how, pos } => {
                let target = pos.resolve(&t.parsed.boundaries, t.size());
                match how {
                    0 => s.s.reader_mut().seek_from_start_mut(target),
                    1 => Pin::new(&mut s.s).reader_pin_mut().seek_from_start_pinned(target),
                    _ => {
                        use tokio::io::AsyncSeek as _;
                        let mut cx = Context::from_waker(std::task::Waker::noop());
                        let mut r = Pin::new(&mut s.s).reader_pin_mut();
                        r.as_mut().start_seek(std::io::SeekFrom::Start(target)).map_err(|e| format!("seek to {target} failed: {e}"))?;
                        match r.poll_complete(&mut cx) {
                            Poll::Ready(Ok(p)) => ensure!(p == target, "seek to {target} returned {p}"),
                            x => fail!("seek to {target} gives {x:?}"),
                        }
                    }
                }
                s.pos = target;
                s.check_pos("after a seek")?;
                cov.label("seek");
            }
            SOp::Reader(op) => {
                s.with_reader(None, Some(op), faults, cov)?;
                cov.label("direct use of the reader");
            }
            SOp::Clone { adopt } => {
                let c = s.s.clone();
                let old = if *adopt { std::mem::replace(&mut s.s, c) } else { c };
                left.push((old, s.pos));
                s.check_pos("after a clone")?;
                cov.label("clone");
            }
            SOp::Rewrap { how, op } => {
                s.with_reader(Some(*how), op.as_ref(), faults, cov)?;
                cov.label("unwrapped");
            }
            SOp::Query => {
                let n = s.s.reader_ref().size();
                ensure!(n == t.size(), "size() is {n}, archive has {}", t.size());
            }
        }
    }
    s.to_end()?;
    // Clones go on from where they were
    let count = left.len();
    for (stream, pos) in left.into_iter().skip(count.saturating_sub(3)) {
        s.s = stream;
        s.pos = pos;
        s.check_pos("clone left behind")?;
        s.to_end()?;
    }
    let mut known: HashMap<&str, u32> = HashMap::new();
    for (n, c) in s.s.reader_ref().crc32s() {
        ensure!(t.crcs.get(n) == Some(&c), "stream reports a wrong CRC of {n:?}");
        known.insert(n, c);
    }
    // Chunks stay what they were
    for (pos, b) in &s.chunks {
        let a = *pos as usize;
        ensure!(b[..] == t.bytes[a..a + b.len()], "chunk delivered at {pos} was changed later");
    }
    cov.label_if(s.pending > 0, "pending polls");
    cov.label_if(s.abandoned > 0, "abandoned polls");
    cov.label_if(s.failed > 0, "source failures");
    cov.nontrivial(s.chunks.len() > 1 && c.ents.iter().any(|e| e.content.len > 0));
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P22",
        rule: "Case = entries from instrumented sources (pending, short reads, some with injected failures), reader operations before wrapping, then a history of stream polls (completed or abandoned), \
seeks through the stream, direct operations on the reader, clones and re-wrapping; every stream and up to 3 left clones are read to the end. Non-trivial: entry with data and more than one chunk.",
        assumptions: &["Truth is the plain sequential read of vectors (judged by P01, P02)"],
        parts: vec![
            Box::new(Part { name: "stream", quick: 320_000, thorough: 32_000_000, strat, check }),
            Box::new(Part { name: "large", quick: 3000, thorough: 300000, strat: large, check }),
        ],
    }
}
