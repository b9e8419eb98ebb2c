//! Operation histories on readers over instrumented sources, with a byte/position/CRC model.

use crate::engine::{Cov, Res};
use crate::exec::{self, Polled, flag, poll_read};
use crate::model::*;
use crate::source::*;
use crate::zipparse::{Parsed, parse_mem_full};
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::io::{ErrorKind, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll};
use tokio::io::AsyncSeek;
use zippity::{Builder, Reader};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ent {
    pub name: Name,
    pub content: Content,
    /// CRC is supplied in advance
    pub crc: bool,
    pub meta: Vec<MetaOp>,
    pub sched: Sched,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// polls: 0 = poll until ready, n = give up after n pending answers
    Read { len: u32, pre: u8, uninit: bool, polls: u8 },
    /// n reads with the same buffer size
    Burst { len: u32, n: u16 },
    Seek { how: u8, pos: Pos },
    SeekNeg { how: u8, by: u32 },
    Clone { adopt: bool },
    Take,
    Query,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Hist {
    pub ents: Vec<Ent>,
    pub ops: Vec<Op>,
    /// Finish with reading everything to the end by this buffer size
    pub finish: Option<u32>,
}

#[derive(Clone, Copy)]
pub struct Params {
    pub max_entries: usize,
    pub max_len: u32,
    pub long_names: u32,
    pub crc_weight: u32,
    pub max_ops: usize,
    pub sched: bool,
    pub meta: usize,
    pub clone_take: u32,
    pub seeks: u32,
}

impl Default for Params {
    fn default() -> Self {
        Params {
            max_entries: 6,
            max_len: 45000,
            long_names: 4,
            crc_weight: 40,
            max_ops: 24,
            sched: true,
            meta: 2,
            clone_take: 1,
            seeks: 7,
        }
    }
}

pub fn ent_strategy(p: Params) -> BoxedStrategy<Ent> {
    let sched = if p.sched { sched_strategy() } else { Just(Sched::default()).boxed() };
    (
        name_mix(p.long_names),
        content_strategy(p.max_len),
        0u32..100,
        meta_ops(p.meta),
        sched,
    )
        .prop_map(move |(name, content, c, meta, sched)| Ent {
            name,
            content,
            crc: c < p.crc_weight,
            meta,
            sched,
        })
        .boxed()
}

pub fn ents_strategy(p: Params) -> BoxedStrategy<Vec<Ent>> {
    let similar = proptest::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 1..4);
    (ents_plain(p), proptest::option::weighted(0.15, similar))
        .prop_map(|(mut ents, similar)| {
            let n = ents.len();
            if n > 1 {
                for (i, j, kind) in similar.into_iter().flatten() {
                    let (i, j) = (usize::from(i) % n, usize::from(j) % n);
                    if i != j {
                        ents[i].name = Name::Lit(near(&ents[j].name.text(), kind));
                    }
                }
            }
            ents
        })
        .boxed()
}

fn ents_plain(p: Params) -> BoxedStrategy<Vec<Ent>> {
    let many = proptest::collection::vec(ent_strategy(Params { max_len: p.max_len.min(20), long_names: 0, meta: p.meta.min(1), ..p }), 40..=p.max_entries.max(4) * 50);
    prop_oneof![
        48 => proptest::collection::vec(ent_strategy(p), 0..=p.max_entries),
        4 => proptest::collection::vec(ent_strategy(Params { max_len: p.max_len.min(600), ..p }), 0..=p.max_entries * 5),
        1 => many,
    ]
    .boxed()
}

pub fn op_strategy(p: Params) -> BoxedStrategy<Op> {
    let ct = p.clone_take;
    prop_oneof![
        8 => (buf_len(), prop_oneof![3 => Just(0u8), 1 => 1u8..20], any::<bool>(), prop_oneof![2 => Just(0u8), 1 => 1u8..4])
            .prop_map(|(len, pre, uninit, polls)| Op::Read { len, pre, uninit, polls }),
        5 => (buf_len(), prop_oneof![4 => 1u16..8, 1 => 1u16..60]).prop_map(|(len, n)| Op::Burst { len, n }),
        p.seeks => (0u8..5, pos_strategy()).prop_map(|(how, pos)| Op::Seek { how, pos }),
        1 => (0u8..2, prop_oneof![0u32..10, any::<u32>()]).prop_map(|(how, by)| Op::SeekNeg { how, by }),
        ct => any::<bool>().prop_map(|adopt| Op::Clone { adopt }),
        ct => Just(Op::Take),
        1 => Just(Op::Query),
        1 => Just(Op::Read { len: 0, pre: 0, uninit: false, polls: 0 }),
    ]
    .boxed()
}

pub fn hist_strategy(p: Params) -> BoxedStrategy<Hist> {
    (
        ents_strategy(p),
        proptest::collection::vec(op_strategy(p), 1..=p.max_ops),
        proptest::option::weighted(0.5, buf_len()),
    )
        .prop_map(|(ents, ops, finish)| Hist { ents, ops, finish })
        .boxed()
}

/// Sizes of entries up to megabytes, for some of the entries: (index, length)
pub type Enlarge = Vec<(u8, u32)>;

pub fn enlarge_strategy() -> BoxedStrategy<Enlarge> {
    let len = prop_oneof![
        4 => 60_000u32..700_000,
        2 => 1_000_000u32..3_000_000,
        1 => 3_000_000u32..5_000_000,
        4 => (prop_oneof![Just(1u32 << 16), Just(1 << 17), Just(1 << 18), Just(1 << 19), Just(1 << 20), Just(1 << 21), Just(1 << 22)], 0u32..7)
            .prop_map(|(n, d)| n + d - 3),
    ];
    proptest::collection::vec((any::<u8>(), len), 1..3).boxed()
}

/// Makes some of the entries large; everything else grows with them
pub fn enlarge(ents: &mut [Ent], ops: &mut [Op], e: &Enlarge) {
    if ents.is_empty() {
        return;
    }
    for (i, len) in e {
        let i = usize::from(*i) % ents.len();
        let ent = &mut ents[i];
        ent.content.len = *len;
        let mut big = ent.sched.reads.is_empty();
        for r in &mut ent.sched.reads {
            if let RStep::Take(n) = r {
                *n = n.saturating_mul(500);
                big |= *n > 20_000;
            }
        }
        if !big {
            ent.sched.reads.push(RStep::Take(300_000));
        }
    }
    for op in ops {
        if let Op::Read { len, .. } | Op::Burst { len, .. } = op {
            if *len >= 64 {
                *len = len.saturating_mul(64).min(4_000_000);
            }
        }
    }
}

pub fn large_hist_strategy(p: Params) -> BoxedStrategy<Hist> {
    (hist_strategy(Params { max_entries: p.max_entries.min(3), max_ops: p.max_ops.min(12), ..p }), enlarge_strategy())
        .prop_map(|(mut h, e)| {
            if h.ents.len() > 5 {
                h.ents.truncate(5);
            }
            enlarge(&mut h.ents, &mut h.ops, &e);
            h.finish = h.finish.map(|f| f.saturating_mul(16));
            h
        })
        .boxed()
}

pub fn names_of(ents: &[Ent]) -> Vec<String> {
    unique_names(ents.iter().map(|e| &e.name))
}

/// What the archive has to look like
pub struct Truth {
    pub names: Vec<String>,
    pub contents: Vec<Rc<Vec<u8>>>,
    pub crcs: BTreeMap<String, u32>,
    pub crc_list: Vec<u32>,
    pub bytes: Vec<u8>,
    pub parsed: Parsed,
}

impl Truth {
    pub fn size(&self) -> u64 {
        self.bytes.len() as u64
    }
}

pub fn truth(ents: &[Ent]) -> Result<Truth, String> {
    let names = names_of(ents);
    let contents: Vec<Rc<Vec<u8>>> = ents.iter().map(|e| Rc::new(e.content.bytes())).collect();
    let crc_list: Vec<u32> = contents.iter().map(|c| crc32fast::hash(c)).collect();
    let mut b: Builder<Vec<u8>> = Builder::new();
    for (i, e) in ents.iter().enumerate() {
        let be = b
            .add_entry(names[i].clone(), contents[i].as_ref().clone())
            .map_err(|x| format!("adding a valid entry failed: {x}"))?;
        apply_meta(be, &e.meta);
    }
    let bytes = exec::plain_archive(b)?;
    let parsed = parse_mem_full(&bytes).map_err(|e| format!("plain archive is malformed: {e}"))?;
    ensure!(parsed.entries.len() == ents.len(), "plain archive has {} entries, not {}", parsed.entries.len(), ents.len());
    for (i, e) in parsed.entries.iter().enumerate() {
        ensure!(e.size == contents[i].len() as u64, "plain archive: entry {i} has size {}", e.size);
    }
    let crcs = names.iter().cloned().zip(crc_list.iter().copied()).collect();
    Ok(Truth {
        names,
        contents,
        crcs,
        crc_list,
        bytes,
        parsed,
    })
}

/// Generous upper bound of source calls of a history
pub fn budget(ents: &[Ent], reads: u64) -> u64 {
    let total: u64 = ents.iter().map(|e| u64::from(e.content.len)).sum();
    // every source call may deliver a single byte and be preceded by a few pendings; every read may recompute all CRCs
    (total + 1000 * (ents.len() as u64 + 1)) * 16 * (reads + 4) + 100_000
}

pub fn make_world(ents: &[Ent], t: &Truth, budget: u64) -> Shared {
    world(
        ents.iter()
            .enumerate()
            .map(|(i, e)| SrcSpec {
                data: Data::Mem(Rc::clone(&t.contents[i])),
                reported: t.contents[i].len() as u64,
                sched: e.sched.clone(),
                faults: Vec::new(),
            })
            .collect(),
        budget,
    )
}

pub fn make_builder(ents: &[Ent], t: &Truth, w: &Shared) -> Result<Builder<Src>, String> {
    let mut b: Builder<Src> = Builder::new();
    for (i, e) in ents.iter().enumerate() {
        let be = b
            .add_entry(t.names[i].clone(), Src { id: i, w: Rc::clone(w) })
            .map_err(|x| format!("adding a valid entry failed: {x}"))?;
        apply_meta(be, &e.meta);
        if e.crc {
            be.crc32(t.crc_list[i]);
        }
    }
    Ok(b)
}

pub const BYTES: u32 = 1;
pub const POS: u32 = 2;
pub const EOF: u32 = 4;
pub const PROGRESS: u32 = 8;
pub const PURE: u32 = 16;
pub const CRC: u32 = 32;
pub const FAULTS: u32 = 64;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Got {
    Bytes(usize),
    /// Gave up while pending
    Abandoned,
    /// Injected failure surfaced
    Failed(u64),
}

pub struct Run<'a> {
    pub r: Reader<Src>,
    pub pos: u64,
    pub t: &'a Truth,
    pub w: Shared,
    pub flags: u32,
    /// CRCs that were reported or supplied
    pub known: HashMap<String, u32>,
    pub total_pendings: u64,
    pub polls: u64,
    pub pending_polls: u64,
    pub abandoned: u64,
}

pub fn short(b: &[u8]) -> String {
    let n = b.len().min(24);
    format!("{:02x?}{}", &b[..n], if b.len() > n { format!("...({} B)", b.len()) } else { String::new() })
}

impl<'a> Run<'a> {
    pub fn new(r: Reader<Src>, t: &'a Truth, w: &Shared, flags: u32) -> Run<'a> {
        Run {
            r,
            pos: 0,
            t,
            w: Rc::clone(w),
            flags,
            known: HashMap::new(),
            total_pendings: 0,
            polls: 0,
            pending_polls: 0,
            abandoned: 0,
        }
    }

    fn has(&self, f: u32) -> bool {
        self.flags & f != 0
    }

    pub fn check_pos(&self, what: &str) -> Res {
        if self.has(POS) {
            ensure!(
                self.r.tell() == self.pos,
                "{what}: reported position {} but it has to be {}",
                self.r.tell(),
                self.pos
            );
        }
        Ok(())
    }

    pub fn check_crcs(&mut self, what: &str) -> Res {
        if !self.has(CRC) {
            return Ok(());
        }
        let mut now = HashMap::new();
        for (n, c) in self.r.crc32s() {
            ensure!(now.insert(n.to_string(), c).is_none(), "{what}: CRC of entry {n:?} is reported twice");
            let Some(expected) = self.t.crcs.get(n) else {
                fail!("{what}: CRC of a nonexistent entry {n:?} is reported");
            };
            ensure!(*expected == c, "{what}: CRC of entry {n:?} is reported as {c:08x}, true value is {expected:08x}");
        }
        for n in self.known.keys() {
            ensure!(now.contains_key(n), "{what}: CRC of entry {n:?} was known and is not reported any more");
        }
        self.known = now;
        Ok(())
    }

    /// One read, polled until ready / failed / abandoned.
    pub fn read(&mut self, len: usize, pre: usize, uninit: bool, max_pendings: u32) -> Result<Got, String> {
        let mut pendings = 0;
        loop {
            self.w.borrow_mut().begin_poll();
            let p = poll_read(Pin::new(&mut self.r), len, pre, uninit);
            self.polls += 1;
            let (source_pendings, fired) = {
                let w = self.w.borrow();
                (w.pendings, w.fired.clone())
            };
            self.total_pendings += source_pendings;
            let Polled {
                result,
                leaked,
                prefix_damaged,
                woken,
            } = p;
            if self.has(PURE) {
                ensure!(!prefix_damaged, "read at {} modified bytes the caller's buffer already held", self.pos);
            }
            if self.has(PURE | FAULTS | PROGRESS) {
                ensure!(
                    leaked == 0,
                    "read at {} left {leaked} bytes in the buffer, although it didn't succeed",
                    self.pos
                );
            }
            match result {
                Poll::Ready(Ok(v)) => {
                    if self.has(FAULTS) {
                        ensure!(
                            fired.is_empty(),
                            "source failure {fired:?} was swallowed, the read at {} returned {} bytes",
                            self.pos,
                            v.len()
                        );
                    }
                    ensure!(v.len() <= len, "read returned more bytes than the size of the buffer");
                    self.take_bytes(&v, len)?;
                    return Ok(Got::Bytes(v.len()));
                }
                Poll::Ready(Err(e)) => {
                    if self.has(FAULTS) {
                        let id = injected_id(&e);
                        ensure!(
                            fired.len() == 1 && id == Some(fired[0]),
                            "read at {} failed with '{e}' ({:?}), source failures of this poll: {fired:?}",
                            self.pos,
                            e.kind()
                        );
                        let kind = self.w.borrow().fault_kinds[fired[0] as usize - 1];
                        ensure!(
                            e.kind() == kind,
                            "read at {} failed with kind {:?}, the source failed with {kind:?}",
                            self.pos,
                            e.kind()
                        );
                        self.check_pos("after a failed read")?;
                        return Ok(Got::Failed(fired[0]));
                    }
                    if !fired.is_empty() {
                        return Ok(Got::Failed(fired[0]));
                    }
                    fail!("read at {} failed, although no source failed: {e}", self.pos);
                }
                Poll::Pending => {
                    self.pending_polls += 1;
                    pendings += 1;
                    if self.has(FAULTS) {
                        ensure!(fired.is_empty(), "source failure {fired:?} was swallowed by a pending read at {}", self.pos);
                    }
                    if self.has(PROGRESS) {
                        ensure!(
                            source_pendings > 0,
                            "read at {} is pending, although no source is",
                            self.pos
                        );
                        // Only now the source becomes ready
                        let waker = self.w.borrow_mut().waker.take();
                        if let Some(waker) = waker {
                            waker.wake();
                        }
                        ensure!(
                            woken.0.load(Ordering::SeqCst),
                            "lost wake-up: source became ready, but the task of the last poll at {} was not woken",
                            self.pos
                        );
                    }
                    self.check_pos("after a pending read")?;
                    ensure!(pendings < 5_000_000, "read stays pending forever");
                    if max_pendings != 0 && pendings >= max_pendings {
                        self.abandoned += 1;
                        return Ok(Got::Abandoned);
                    }
                }
            }
        }
    }

    fn take_bytes(&mut self, v: &[u8], len: usize) -> Res {
        let size = self.t.size();
        if self.has(EOF) {
            if len > 0 {
                ensure!(
                    !v.is_empty() || self.pos >= size,
                    "end of file reported at {} of {size}",
                    self.pos
                );
            }
            ensure!(
                v.is_empty() || self.pos < size,
                "{} bytes were delivered at {}, past the end of the archive {size}",
                v.len(),
                self.pos
            );
        }
        if self.has(BYTES) && !v.is_empty() {
            let start = self.pos.min(size) as usize;
            let end = (start + v.len()).min(size as usize);
            let expected = &self.t.bytes[start..end];
            if v != expected {
                let at = v.iter().zip(expected).position(|(a, b)| a != b).unwrap_or(expected.len().min(v.len()));
                fail!(
                    "wrong bytes read at {}+{at}: {}, expected {}",
                    self.pos,
                    short(&v[at.min(v.len())..]),
                    short(&expected[at.min(expected.len())..])
                );
            }
        }
        self.pos += v.len() as u64;
        self.check_pos("after a read")
    }

    pub fn seek(&mut self, how: u8, target: u64) -> Res {
        let (_f, waker) = flag();
        let mut cx = Context::from_waker(&waker);
        let from = match how {
            1 => {
                Pin::new(&mut self.r).seek_from_start_pinned(target);
                None
            }
            2 => {
                self.r.seek_from_start_mut(target);
                None
            }
            3 => i64::try_from(i128::from(target) - i128::from(self.t.size())).ok().map(SeekFrom::End),
            4 => i64::try_from(i128::from(target) - i128::from(self.pos)).ok().map(SeekFrom::Current),
            _ => Some(SeekFrom::Start(target)),
        };
        if how == 1 || how == 2 {
            self.pos = target;
            return self.check_pos("after a direct seek");
        }
        let from = from.unwrap_or(SeekFrom::Start(target));
        if let Err(e) = Pin::new(&mut self.r).start_seek(from) {
            fail!("valid seek {from:?} from {} failed: {e}", self.pos);
        }
        match Pin::new(&mut self.r).poll_complete(&mut cx) {
            Poll::Ready(Ok(p)) => {
                if self.has(POS) {
                    ensure!(p == target, "seek {from:?} from {} returned {p}, has to be {target}", self.pos);
                }
            }
            Poll::Ready(Err(e)) => fail!("completing seek {from:?} failed: {e}"),
            Poll::Pending => fail!("seek {from:?} is pending"),
        }
        self.pos = target;
        self.check_pos("after a seek")
    }

    pub fn seek_negative(&mut self, how: u8, by: u32) -> Res {
        let by = i64::from(by);
        let back = i64::try_from(self.pos).ok().and_then(|p| (-p).checked_sub(1 + by));
        let from = if let (0, Some(back)) = (how, back) {
            SeekFrom::Current(back)
        } else {
            SeekFrom::End(-(self.t.size() as i64) - 1 - by)
        };
        match Pin::new(&mut self.r).start_seek(from) {
            Ok(()) => {
                if self.has(BYTES | POS) {
                    fail!("seek {from:?} from {} to a negative position succeeded", self.pos);
                }
                // Not judged here, get back
                self.seek(0, self.pos)?;
            }
            Err(e) => {
                if self.has(BYTES | POS) {
                    ensure!(
                        e.kind() == ErrorKind::InvalidInput,
                        "seek to a negative position fails with {:?} instead of InvalidInput",
                        e.kind()
                    );
                }
            }
        }
        self.check_pos("after a refused seek")
    }

    pub fn apply(&mut self, op: &Op, cov: &mut Cov) -> Res {
        match op {
            Op::Read { len, pre, uninit, polls } => {
                cov.label_if(*len == 0, "empty read");
                let before = self.abandoned;
                self.read(*len as usize, usize::from(*pre), *uninit, u32::from(*polls))?;
                cov.label_if(self.abandoned != before, "abandoned read");
            }
            Op::Burst { len, n } => {
                for _ in 0..*n {
                    let at_end = self.pos >= self.t.size();
                    self.read(*len as usize, 0, false, 0)?;
                    if at_end {
                        break;
                    }
                }
            }
            Op::Seek { how, pos } => {
                let target = pos.resolve(&self.t.parsed.boundaries, self.t.size());
                cov.label_if(target >= self.t.size(), "seek to/past the end");
                cov.label_if(target < self.t.parsed.cd_off, "seek to entries");
                cov.label_if(
                    target >= self.t.parsed.cd_off && target < self.t.parsed.end_off,
                    "seek to central directory",
                );
                self.seek(*how, target)?;
            }
            Op::SeekNeg { how, by } => {
                cov.label("refused seek");
                self.seek_negative(*how, *by)?;
            }
            Op::Clone { adopt } => {
                cov.label("clone");
                let c = self.r.clone();
                if *adopt {
                    self.r = c;
                }
                self.check_pos("after a clone")?;
            }
            Op::Take => {
                cov.label("take");
                let taken = Pin::new(&mut self.r).take_pinned();
                self.r = taken;
                self.check_pos("after a take")?;
            }
            Op::Query => {
                let size = self.r.size();
                if self.has(EOF | POS) {
                    ensure!(size == self.t.size(), "size() is {size}, archive has {}", self.t.size());
                }
            }
        }
        self.check_crcs("after an operation")
    }

    /// Reads from the current position to the end
    pub fn finish(&mut self, len: usize) -> Res {
        loop {
            match self.read(len, 0, false, 0)? {
                Got::Bytes(0) => break,
                Got::Bytes(_) | Got::Failed(_) | Got::Abandoned => {}
            }
            if self.pos > self.t.size() + 1_000_000 {
                fail!("reading doesn't end, position is {}, archive has {}", self.pos, self.t.size());
            }
        }
        self.check_crcs("after reading to the end")
    }
}

/// Buffer sizes that would need an enormous number of polls for this much data are made bigger
pub fn sane_len(len: u32, size: u64) -> usize {
    (len as u64).max(size / 30_000).max(1) as usize
}

pub fn run_hist(h: &Hist, flags: u32, cov: &mut Cov) -> Res {
    let t = truth(&h.ents)?;
    let w = make_world(&h.ents, &t, budget(&h.ents, h.ops.len() as u64 * 8));
    w.borrow_mut().keep_log = false;
    let b = make_builder(&h.ents, &t, &w)?;
    let mut run = Run::new(b.build(), &t, &w, flags);
    for (i, e) in h.ents.iter().enumerate() {
        if e.crc {
            run.known.insert(t.names[i].clone(), t.crc_list[i]);
        }
    }
    run.check_pos("new reader")?;
    run.check_crcs("new reader")?;
    for op in &h.ops {
        run.apply(op, cov)?;
    }
    if let Some(len) = h.finish {
        run.finish(sane_len(len, t.size()))?;
    }
    cov.label_if(run.pending_polls > 0, "case with pending reads");
    cov.label_if(run.abandoned > 0, "case with abandoned reads");
    cov.label_if(h.ents.iter().any(|e| e.crc), "case with known CRC");
    cov.label_if(t.size() > 30000, "archive over 30 kB");
    Ok(())
}
