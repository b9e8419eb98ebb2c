//! Instrumented asynchronous entry source: scripted readiness, short reads, wake-ups, faults; full event log.

use crate::engine::HarnessViolation;
use crate::model::fill_pattern;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::EntryData;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RStep {
    /// Answer pending
    Pend,
    /// Deliver at most this many bytes
    Take(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Sched {
    /// Pending answers before an open completes
    pub open: u8,
    /// Behavior of reads of one opened reader, repeated; empty = always ready, as much as possible
    pub reads: Vec<RStep>,
    /// Pending answers before a seek completes
    pub seek: u8,
    /// The source keeps the waker and only wakes when told so by the executor (otherwise it wakes immediately)
    pub deferred: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultOp {
    Open,
    Read,
    SeekStart,
    SeekPoll,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub op: FaultOp,
    /// Index of the call (of that kind, on that entry) that fails
    pub nth: u16,
    pub kind: u8,
}

pub fn error_kind(k: u8) -> io::ErrorKind {
    use io::ErrorKind::*;
    const KINDS: [io::ErrorKind; 12] = [
        Other,
        Interrupted,
        WouldBlock,
        UnexpectedEof,
        NotFound,
        PermissionDenied,
        TimedOut,
        InvalidData,
        InvalidInput,
        BrokenPipe,
        ConnectionReset,
        WriteZero,
    ];
    KINDS[usize::from(k) % KINDS.len()]
}

#[derive(Debug)]
pub struct Injected(pub u64);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected failure {}", self.0)
    }
}
impl std::error::Error for Injected {}

pub fn injected_id(e: &io::Error) -> Option<u64> {
    e.get_ref()?.downcast_ref::<Injected>().map(|i| i.0)
}

#[derive(Clone, Debug)]
pub enum Data {
    Mem(Rc<Vec<u8>>),
    Virt { len: u64, seed: u64 },
}
impl Data {
    pub fn len(&self) -> u64 {
        match self {
            Data::Mem(v) => v.len() as u64,
            Data::Virt { len, .. } => *len,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn fill(&self, pos: u64, out: &mut [u8]) {
        match self {
            Data::Mem(v) => out.copy_from_slice(&v[pos as usize..pos as usize + out.len()]),
            Data::Virt { seed, .. } => fill_pattern(*seed, pos, out),
        }
    }
}

#[derive(Clone, Debug)]
pub struct SrcSpec {
    pub data: Data,
    /// Size reported to zippity
    pub reported: u64,
    pub sched: Sched,
    pub faults: Vec<Fault>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Open(usize),
    Opened(usize),
    /// entry, position, bytes delivered
    Read(usize, u64, u64),
    Seek(usize, u64),
    Close(usize),
    Pend(usize),
    Fail(usize, u64),
    /// `EntryData::size()` was called
    Size(usize),
}

#[derive(Default)]
pub struct Counters {
    pub opens: u64,
    pub reads: u64,
    pub seek_starts: u64,
    pub seek_polls: u64,
}

pub struct World {
    pub srcs: Vec<SrcSpec>,
    pub counters: Vec<Counters>,
    pub log: Vec<Ev>,
    pub keep_log: bool,
    pub live: i32,
    pub max_live: i32,
    pub calls: u64,
    /// Calls allowed until the run is judged as not terminating
    pub budget: u64,
    /// Pending answers given since the executor reset it
    pub pendings: u64,
    pub waker: Option<Waker>,
    pub next_fault_id: u64,
    pub fault_kinds: Vec<io::ErrorKind>,
    /// Faults that happened since the executor has reset it
    pub fired: Vec<u64>,
    pub opens_total: u64,
    pub pulled: Vec<u64>,
}

pub type Shared = Rc<RefCell<World>>;

pub fn world(srcs: Vec<SrcSpec>, budget: u64) -> Shared {
    let n = srcs.len();
    Rc::new(RefCell::new(World {
        srcs,
        counters: (0..n).map(|_| Counters::default()).collect(),
        log: Vec::new(),
        keep_log: true,
        live: 0,
        max_live: 0,
        calls: 0,
        budget,
        pendings: 0,
        waker: None,
        next_fault_id: 1,
        fault_kinds: Vec::new(),
        fired: Vec::new(),
        opens_total: 0,
        pulled: vec![0; n],
    }))
}

impl World {
    fn push(&mut self, e: Ev) {
        if self.keep_log {
            self.log.push(e);
        }
    }
    fn pend(&mut self, id: usize, deferred: bool, cx: &Context<'_>) {
        self.pendings += 1;
        self.push(Ev::Pend(id));
        if deferred {
            self.waker = Some(cx.waker().clone());
        } else {
            cx.waker().wake_by_ref();
        }
    }
    fn fault(&mut self, id: usize, op: FaultOp, nth: u64) -> Option<io::Error> {
        let f = self.srcs[id].faults.iter().find(|f| f.op == op && u64::from(f.nth) == nth)?;
        let kind = error_kind(f.kind);
        let n = self.next_fault_id;
        self.next_fault_id += 1;
        self.fault_kinds.push(kind);
        self.fired.push(n);
        self.push(Ev::Fail(id, n));
        Some(io::Error::new(kind, Injected(n)))
    }
    /// Resets per poll information
    pub fn begin_poll(&mut self) {
        self.pendings = 0;
        self.fired.clear();
    }
}

/// Panics when the budget is exceeded; must not be called with the world borrowed
fn spend(w: &Shared) {
    let over = {
        let mut b = w.borrow_mut();
        b.calls += 1;
        b.calls > b.budget
    };
    if over {
        // Let destructors run in peace
        w.borrow_mut().budget = u64::MAX;
        std::panic::panic_any(HarnessViolation(
            "sources were called far more often than any terminating read could need (livelock)".into(),
        ));
    }
}

#[derive(Clone)]
pub struct Src {
    pub id: usize,
    pub w: Shared,
}

impl std::fmt::Debug for Src {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Src({})", self.id)
    }
}

pub struct OpenFut {
    id: usize,
    w: Shared,
    pend: u8,
    deferred: bool,
    done: bool,
    nth: u64,
}

pub struct SrcReader {
    id: usize,
    w: Shared,
    pos: u64,
    step: usize,
    seeking: Option<(u64, u8)>,
    sched: Sched,
    data: Data,
}

impl EntryData for Src {
    type Reader = SrcReader;
    type Future = OpenFut;
    fn get_reader(&self) -> OpenFut {
        spend(&self.w);
        let mut w = self.w.borrow_mut();
        w.push(Ev::Open(self.id));
        w.opens_total += 1;
        let nth = w.counters[self.id].opens;
        w.counters[self.id].opens += 1;
        w.live += 1;
        w.max_live = w.max_live.max(w.live);
        let s = &w.srcs[self.id].sched;
        OpenFut {
            id: self.id,
            w: Rc::clone(&self.w),
            pend: s.open,
            deferred: s.deferred,
            done: false,
            nth,
        }
    }
    fn size(&self) -> u64 {
        let mut w = self.w.borrow_mut();
        w.push(Ev::Size(self.id));
        w.srcs[self.id].reported
    }
}

impl Future for OpenFut {
    type Output = io::Result<SrcReader>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        spend(&self.w);
        if self.done {
            std::panic::panic_any(HarnessViolation(format!(
                "opening future of entry {} was polled again after completion",
                self.id
            )));
        }
        let w = Rc::clone(&self.w);
        let mut w = w.borrow_mut();
        if self.pend > 0 {
            self.pend -= 1;
            w.pend(self.id, self.deferred, cx);
            return Poll::Pending;
        }
        self.done = true;
        if let Some(e) = w.fault(self.id, FaultOp::Open, self.nth) {
            return Poll::Ready(Err(e));
        }
        let id = self.id;
        w.push(Ev::Opened(id));
        w.live += 1; // The future is still counted until it is dropped
        let spec = &w.srcs[id];
        Poll::Ready(Ok(SrcReader {
            id,
            w: Rc::clone(&self.w),
            pos: 0,
            step: 0,
            seeking: None,
            sched: spec.sched.clone(),
            data: spec.data.clone(),
        }))
    }
}

impl Drop for OpenFut {
    fn drop(&mut self) {
        if let Ok(mut w) = self.w.try_borrow_mut() {
            w.live -= 1;
            if !self.done {
                let id = self.id;
                w.push(Ev::Close(id));
            }
        }
    }
}

impl Drop for SrcReader {
    fn drop(&mut self) {
        if let Ok(mut w) = self.w.try_borrow_mut() {
            w.live -= 1;
            let id = self.id;
            w.push(Ev::Close(id));
        }
    }
}

impl AsyncRead for SrcReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        spend(&self.w);
        let id = self.id;
        if self.seeking.is_some() {
            std::panic::panic_any(HarnessViolation(format!("entry {id} was read while a seek was in progress")));
        }
        let shared = Rc::clone(&self.w);
        let mut w = shared.borrow_mut();
        // A finished open future is dropped right after delivering the reader, fix up the maximum
        let nth = w.counters[id].reads;
        w.counters[id].reads = nth.saturating_add(1);
        if let Some(e) = w.fault(id, FaultOp::Read, nth) {
            return Poll::Ready(Err(e));
        }
        let mut limit = u64::MAX;
        if !self.sched.reads.is_empty() {
            let k = self.step % self.sched.reads.len();
            self.step += 1;
            match self.sched.reads[k] {
                RStep::Pend => {
                    // A script of pendings only would never end
                    let any_take = self.sched.reads.iter().any(|s| matches!(s, RStep::Take(_)));
                    if any_take || self.step % 8 != 0 {
                        w.pend(id, self.sched.deferred, cx);
                        return Poll::Pending;
                    }
                }
                RStep::Take(n) => limit = u64::from(n.max(1)),
            }
        }
        let rest = self.data.len().saturating_sub(self.pos);
        let n = rest.min(limit).min(buf.remaining() as u64) as usize;
        if n > 0 {
            let data = self.data.clone();
            data.fill(self.pos, buf.initialize_unfilled_to(n));
            buf.advance(n);
        }
        w.push(Ev::Read(id, self.pos, n as u64));
        w.pulled[id] += n as u64;
        self.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for SrcReader {
    fn start_seek(mut self: Pin<&mut Self>, position: io::SeekFrom) -> io::Result<()> {
        spend(&self.w);
        let id = self.id;
        let shared = Rc::clone(&self.w);
        let mut w = shared.borrow_mut();
        let nth = w.counters[id].seek_starts;
        w.counters[id].seek_starts = nth.saturating_add(1);
        if self.seeking.is_some() {
            drop(w);
            // tokio::fs::File refuses this in the same way
            return Err(io::Error::other("other file operation is pending, call poll_complete before start_seek"));
        }
        if let Some(e) = w.fault(id, FaultOp::SeekStart, nth) {
            return Err(e);
        }
        let target = match position {
            io::SeekFrom::Start(p) => Some(p),
            io::SeekFrom::Current(o) => self.pos.checked_add_signed(o),
            io::SeekFrom::End(o) => self.data.len().checked_add_signed(o),
        }
        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "seek out of range"))?;
        w.push(Ev::Seek(id, target));
        self.seeking = Some((target, self.sched.seek));
        Ok(())
    }

    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        spend(&self.w);
        let id = self.id;
        let shared = Rc::clone(&self.w);
        let mut w = shared.borrow_mut();
        let nth = w.counters[id].seek_polls;
        w.counters[id].seek_polls = nth.saturating_add(1);
        if let Some(e) = w.fault(id, FaultOp::SeekPoll, nth) {
            // The seek is lost, but may have moved the position before it failed
            if let Some((target, _)) = self.seeking.take()
                && nth % 2 == 0
            {
                self.pos = target;
            }
            return Poll::Ready(Err(e));
        }
        match self.seeking {
            None => Poll::Ready(Ok(self.pos)),
            Some((target, 0)) => {
                self.seeking = None;
                self.pos = target;
                Poll::Ready(Ok(target))
            }
            Some((target, n)) => {
                self.seeking = Some((target, n - 1));
                w.pend(id, self.sched.deferred, cx);
                Poll::Pending
            }
        }
    }
}

pub fn sched_strategy() -> BoxedStrategy<Sched> {
    let step = prop_oneof![
        2 => Just(RStep::Pend),
        2 => (1u32..5).prop_map(RStep::Take),
        2 => (1u32..100).prop_map(RStep::Take),
        2 => (1u32..20000).prop_map(RStep::Take),
        1 => proptest::sample::select(vec![4096u32, 8191, 8192, 8193]).prop_map(RStep::Take),
    ];
    prop_oneof![
        2 => Just(Sched::default()),
        5 => (0u8..4, proptest::collection::vec(step, 0..6), 0u8..4, any::<bool>())
            .prop_map(|(open, mut reads, seek, deferred)| {
                // 1 byte reads of everything are slow, make sure that on average reads progress
                if !reads.is_empty() && !reads.iter().any(|r| matches!(r, RStep::Take(n) if *n > 50)) {
                    reads.push(RStep::Take(3000));
                }
                Sched { open, reads, seek, deferred }
            }),
    ]
    .boxed()
}
