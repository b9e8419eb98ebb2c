//! P11 Lying sizes and CRCs are detected

use super::p23::{BodyItem, poll_body, request};
use crate::engine::*;
use crate::exec::poll_read;
use crate::hist::*;
use crate::model::*;
use crate::source::*;
use crate::{ensure, fail};
use actix_web::Responder as _;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;
use zippity::{Builder, ReadError, Reader};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Lie {
    /// Reports this many bytes
    Size(u32),
    /// Supplied CRC xored with this
    Crc(u32),
    Both(u32, u32),
    /// Supplied CRC is this value, whatever the data are
    CrcIs(u32),
    /// Supplied CRC is one easily mistaken for the right one
    CrcLike(u8),
}

impl Lie {
    /// The wrong CRC supplied
    fn wrong_crc(&self, ents: &[Ent], i: usize, right: &[u32]) -> Option<u32> {
        let r = right[i];
        let v = match self {
            Lie::Size(_) => return None,
            Lie::Crc(x) | Lie::Both(_, x) => r ^ x,
            Lie::CrcIs(v) => *v,
            Lie::CrcLike(0) => r.swap_bytes(),
            Lie::CrcLike(1) => right[(i + 1) % right.len()],
            Lie::CrcLike(2) => r.reverse_bits(),
            Lie::CrcLike(k) => {
                let mut b = ents[i].content.bytes();
                match k {
                    3 => b.push(0),
                    4 => {
                        b.pop();
                    }
                    5 => b.truncate(b.len() / 2),
                    _ => {
                        b.remove(0);
                    }
                }
                crc32fast::hash(&b)
            }
        };
        Some(if v == r { !r } else { v })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ents: Vec<Ent>,
    liar: u16,
    lie: Lie,
    /// Operations before the sequential read
    before: Vec<Op>,
    bufs: Vec<u32>,
    /// Polls tried after the error
    retries: u8,
    /// Then start again
    again: bool,
    clone: bool,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let p = Params { crc_weight: 25, max_len: 20_000, max_entries: 5, ..Params::default() };
    let small = Params { max_len: 100, long_names: 0, ..p };
    let lie = prop_oneof![
        4 => prop_oneof![
            2 => 1u32..60, 3 => len_strategy(45000)].prop_map(Lie::Size),
        2 => Just(Lie::Size(u32::MAX)), // replaced by something close to the true size
        3 => prop_oneof![1u32..4, 1u32..=u32::MAX].prop_map(Lie::Crc),
        1 => (1u32..100, 1u32..=u32::MAX).prop_map(|(a, b)| Lie::Both(a, b)),
        1 => prop_oneof![2 => Just(0u32), 1 => Just(u32::MAX), 1 => Just(1), 1 => Just(0x0807_4b50)].prop_map(Lie::CrcIs),
        1 => (0u8..7).prop_map(Lie::CrcLike),
    ];
    (
        prop_oneof![
            2 => proptest::collection::vec(ent_strategy(p), 1..5),
            3 => proptest::collection::vec(ent_strategy(small), 1..5),
        ],
        any::<u16>(),
        lie,
        -3i32..4,
        prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(op_strategy(p), 1..8)],
        proptest::collection::vec(buf_len(), 1..4),
        0u8..25,
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(mut ents, liar, mut lie, delta, before, bufs, retries, again, clone)| {
            let i = usize::from(liar) % ents.len();
            match &mut lie {
                Lie::Size(n) | Lie::Both(n, _) => {
                    if *n == u32::MAX {
                        *n = (i64::from(ents[i].content.len) + i64::from(if delta == 0 { 4 } else { delta })).max(1) as u32;
                    }
                    *n = (*n).max(1);
                    if *n == ents[i].content.len {
                        *n += 1;
                    }
                }
                Lie::Crc(_) | Lie::CrcIs(_) | Lie::CrcLike(_) => ents[i].content.len = ents[i].content.len.max(1),
            }
            // Zero length data with a wrong CRC is out of the promise
            if let Lie::Both(..) = lie {
                ents[i].content.len = ents[i].content.len.max(1);
                if let Lie::Both(n, _) = &mut lie {
                    if *n == ents[i].content.len {
                        *n += 1;
                    }
                }
            }
            Case { ents, liar, lie, before, bufs, retries, again, clone }
        })
        .boxed()
}

/// Megabytes of data in some of the entries
fn large_strat(ctx: &Ctx) -> BoxedStrategy<Case> {
    (strat(ctx), enlarge_strategy(), any::<bool>(), -70_000i32..70_000)
        .prop_map(|(mut c, e, liar_too, delta)| {
            let i = usize::from(c.liar) % c.ents.len();
            let old = c.ents[i].content.len;
            enlarge(&mut c.ents, &mut c.before, &e);
            if liar_too {
                let k = usize::from(e[0].0) % c.ents.len();
                c.liar = k as u16;
            }
            let i = usize::from(c.liar) % c.ents.len();
            let len = c.ents[i].content.len;
            let len = if matches!(c.lie, Lie::Size(_)) { len } else { len.max(1) };
            c.ents[i].content.len = len;
            if let Lie::Size(n) | Lie::Both(n, _) = &mut c.lie {
                if *n % 3 == 0 {
                    // The same difference as before
                    *n = (i64::from(len) + i64::from(*n) - i64::from(old)).max(1) as u32;
                } else if *n % 3 == 1 {
                    *n = (i64::from(len) + i64::from(delta)).max(1) as u32;
                }
                if *n == len {
                    *n += 1;
                }
            }
            for b in &mut c.bufs {
                *b = b.saturating_mul(64).min(4_000_000);
            }
            c
        })
        .boxed()
}

/// Checks that the error is the right one
fn judge(e: &std::io::Error, c: &Case, t: &Truth, i: usize) -> Res {
    let Some(re) = e.get_ref().and_then(|x| x.downcast_ref::<ReadError>()) else {
        fail!("lying entry is reported by an error that isn't a ReadError: {e}");
    };
    let actual_len = u64::from(c.ents[i].content.len);
    let true_crc = t.crc_list[i];
    match re {
        ReadError::SizeMismatch { entry_name, expected_size, actual_size } => {
            let (Lie::Size(n) | Lie::Both(n, _)) = c.lie else {
                fail!("size mismatch {expected_size} {actual_size} is reported for an entry with the right size");
            };
            ensure!(*entry_name == t.names[i], "error names entry {entry_name:?}, not {:?}", t.names[i]);
            ensure!(
                *expected_size == u64::from(n) && *actual_size == actual_len,
                "error reports sizes {expected_size} (expected) {actual_size} (actual), they are {n} and {actual_len}"
            );
        }
        ReadError::Crc32Mismatch { entry_name, expected_crc, actual_crc } => {
            let Some(wrong) = c.lie.wrong_crc(&c.ents, i, &t.crc_list) else {
                fail!("CRC mismatch is reported for an entry with the right CRC");
            };
            ensure!(*entry_name == t.names[i], "error names entry {entry_name:?}, not {:?}", t.names[i]);
            ensure!(
                *expected_crc == wrong && *actual_crc == true_crc,
                "error reports CRC {expected_crc:08x} (expected) {actual_crc:08x} (actual), they are {wrong:08x} and {true_crc:08x}"
            );
        }
        e => fail!("unexpected error {e}"),
    }
    Ok(())
}

/// Reader after the history, the truth, the announced truth
fn prepare(c: &Case) -> Result<(Reader<Src>, Truth, Truth), String> {
    let i = usize::from(c.liar) % c.ents.len();
    // What was really delivered by sources
    let t = truth(&c.ents)?;
    // Archive as announced, for the positions before the lying entry
    let mut announced = c.ents.clone();
    let reported = match c.lie {
        Lie::Size(n) | Lie::Both(n, _) => n,
        _ => c.ents[i].content.len,
    };
    announced[i].content.len = reported;
    let ta = truth(&announced)?;
    let w = make_world(&c.ents, &t, budget(&c.ents, 100 + c.before.len() as u64 * 8));
    {
        let mut wb = w.borrow_mut();
        wb.srcs[i].reported = reported.into();
        wb.keep_log = false;
    }
    let mut b: Builder<Src> = Builder::new();
    for (k, e) in c.ents.iter().enumerate() {
        let be = b
            .add_entry(t.names[k].clone(), Src { id: k, w: Rc::clone(&w) })
            .map_err(|x| format!("adding a valid entry failed: {x}"))?;
        apply_meta(be, &e.meta);
        if e.crc {
            be.crc32(t.crc_list[k]);
        }
        if k == i {
            if let Some(wrong) = c.lie.wrong_crc(&c.ents, i, &t.crc_list) {
                be.crc32(wrong);
            }
        }
    }
    let mut r: Reader<Src> = b.build();
    // Random history before, nothing is promised for it, but it must not make the lie pass later
    let mut pos = 0u64;
    for op in &c.before {
        match op {
            Op::Read { len, .. } | Op::Burst { len, .. } => {
                let n = if let Op::Burst { n, .. } = op { *n } else { 1 };
                for _ in 0..n {
                    if let Poll::Ready(Ok(v)) = poll_read(Pin::new(&mut r), *len as usize, 0, false).result {
                        pos += v.len() as u64;
                    }
                }
            }
            Op::Seek { pos: p, .. } => {
                pos = p.resolve(&ta.parsed.boundaries, ta.size());
                r.seek_from_start_mut(pos);
            }
            Op::Clone { .. } => r = r.clone(),
            Op::Take => r = Pin::new(&mut r).take_pinned(),
            _ => {}
        }
    }
    let _ = pos;
    if c.clone && !c.before.is_empty() {
        r = r.clone();
    }
    Ok((r, t, ta))
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let i = usize::from(c.liar) % c.ents.len();
    let (mut r, t, ta) = prepare(c)?;
    if !c.before.is_empty() {
        r.seek_from_start_mut(0);
    }
    let limit = ta.parsed.entries[i].data_off;
    let rounds = if c.again { 2 } else { 1 };
    for round in 0..rounds {
        if round > 0 {
            r.seek_from_start_mut(0);
        }
        let mut out: Vec<u8> = Vec::new();
        let mut k = 0;
        let mut pendings = 0u64;
        let err = loop {
            let len = sane_len(c.bufs[k % c.bufs.len()], t.size() + ta.size());
            k += 1;
            match poll_read(Pin::new(&mut r), len, 0, false).result {
                Poll::Pending => {
                    pendings += 1;
                    ensure!(pendings < 3_000_000, "read stays pending forever");
                }
                Poll::Ready(Err(e)) => break e,
                Poll::Ready(Ok(v)) => {
                    ensure!(
                        !v.is_empty(),
                        "sequential read (round {round}) ends by end of file at {}, although entry {i} lies: {:?}",
                        out.len(),
                        c.lie
                    );
                    out.extend(v);
                    ensure!(
                        out.len() as u64 <= t.size() + ta.size() + 1_000_000,
                        "sequential read of a lying entry never ends"
                    );
                }
            }
        };
        judge(&err, c, &t, i)?;
        ensure!(out.len() as u64 >= limit, "the error came at {}, before data of the lying entry at {limit}", out.len());
        ensure!(
            out[..limit as usize] == ta.bytes[..limit as usize],
            "data before the lying entry are damaged"
        );
        // Data of the lying entry: what it has, but no more than what was reported
        let has = t.contents[i].len() as u64;
        let most = match c.lie {
            Lie::Size(n) | Lie::Both(n, _) => has.min(n.into()),
            _ => has,
        };
        let data = &out[limit as usize..];
        ensure!(
            data.len() as u64 <= most && data == &t.contents[i][..data.len()],
            "{} B, or wrong ones, were read of the data of lying entry {i}, which has {has} B: {:?}",
            data.len(),
            c.lie
        );
        // Going on must not get to a seemingly complete archive
        for n in 0..c.retries {
            let mut extra = 0;
            loop {
                match poll_read(Pin::new(&mut r), 8192, 0, false).result {
                    Poll::Pending => {
                        pendings += 1;
                        ensure!(pendings < 3_000_000, "read stays pending forever");
                    }
                    Poll::Ready(Err(_)) => break,
                    Poll::Ready(Ok(v)) => {
                        ensure!(!v.is_empty(), "retry {n} after the error reached end of file");
                        extra += v.len() as u64;
                        ensure!(extra < t.size() + ta.size() + 1_000_000, "reading after an error never ends");
                    }
                }
            }
        }
    }
    cov.label(match c.lie {
        Lie::Size(n) if n < c.ents[i].content.len => "reported too short",
        Lie::Size(_) if c.ents[i].content.len == 0 => "reported non-empty, is empty",
        Lie::Size(_) => "reported too long",
        Lie::Crc(_) => "wrong CRC",
        Lie::CrcIs(_) => "wrong CRC of a special value",
        Lie::CrcLike(_) => "wrong CRC similar to the right one",
        Lie::Both(..) => "wrong size and CRC",
    });
    cov.label_if(!c.before.is_empty(), "with history before");
    cov.label_if(c.retries > 0, "with retries");
    cov.nontrivial(true);
    Ok(())
}

/// Reading that starts in the data of the entry with a wrong size, or before it
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Resumed {
    c: Case,
    at: Pos,
}

fn resumed_strat(ctx: &Ctx) -> BoxedStrategy<Resumed> {
    (strat(ctx), pos_strategy(), -4i32..40)
        .prop_map(|(mut c, at, d)| {
            let i = usize::from(c.liar) % c.ents.len();
            if !matches!(c.lie, Lie::Size(_) | Lie::Both(..)) {
                let len = c.ents[i].content.len;
                let mut n = (i64::from(len) + i64::from(d)).max(1) as u32;
                if n == len {
                    n += 1;
                }
                c.lie = Lie::Size(n);
            }
            Resumed { c, at }
        })
        .boxed()
}

fn http_strat(ctx: &Ctx) -> BoxedStrategy<Resumed> {
    prop_oneof![
        2 => resumed_strat(ctx),
        1 => (strat(ctx), pos_strategy()).prop_map(|(c, at)| Resumed { c, at }),
    ]
    .boxed()
}

fn resumed(x: &Resumed, cov: &mut Cov) -> Res {
    let c = &x.c;
    let i = usize::from(c.liar) % c.ents.len();
    let (Lie::Size(n) | Lie::Both(n, _)) = c.lie else { return Ok(()) };
    let (mut r, t, ta) = prepare(c)?;
    let data_off = ta.parsed.entries[i].data_off;
    // The last position where the lie has to be found
    let mut marks = ta.parsed.boundaries.clone();
    marks.push(data_off + t.contents[i].len() as u64);
    let start = x.at.resolve(&marks, ta.size()) % (data_off + u64::from(n));
    // What may be delivered
    let mut expected = ta.bytes[..data_off as usize].to_vec();
    // Nothing over the reported size
    expected.extend(&t.contents[i][..t.contents[i].len().min(n as usize)]);
    let expected = &expected[(start as usize).min(expected.len())..];
    for round in 0..if c.again { 2 } else { 1 } {
        r.seek_from_start_mut(start);
        let mut out: Vec<u8> = Vec::new();
        let mut k = 0;
        let mut pendings = 0u64;
        let err = loop {
            let len = sane_len(c.bufs[k % c.bufs.len()], t.size() + ta.size());
            k += 1;
            match poll_read(Pin::new(&mut r), len, 0, false).result {
                Poll::Pending => {
                    pendings += 1;
                    ensure!(pendings < 1_000_000, "read stays pending forever");
                }
                Poll::Ready(Err(e)) => break e,
                Poll::Ready(Ok(v)) => {
                    ensure!(
                        !v.is_empty(),
                        "read from {start} (round {round}) ends by end of file, although entry {i} with data at {data_off} has {} bytes instead of {n}",
                        t.contents[i].len()
                    );
                    out.extend(v);
                    ensure!(
                        out.len() <= expected.len() && out[..] == expected[..out.len()],
                        "wrong bytes are read from {start} of an archive, where entry {i} with data at {data_off} has {} bytes instead of {n}",
                        t.contents[i].len()
                    );
                }
            }
        };
        let Some(ReadError::SizeMismatch { entry_name, expected_size, .. }) = err.get_ref().and_then(|e| e.downcast_ref::<ReadError>()) else {
            fail!("wrong size of an entry is reported as {err}");
        };
        ensure!(*entry_name == t.names[i], "error names entry {entry_name:?}, not {:?}", t.names[i]);
        ensure!(*expected_size == u64::from(n), "error reports expected size {expected_size}, it's {n}");
        if let Poll::Ready(Ok(v)) = poll_read(Pin::new(&mut r), 8192, 0, false).result {
            ensure!(!v.is_empty(), "end of file after a wrong size was found");
        }
    }
    cov.label_if(start >= data_off + t.contents[i].len() as u64, "from missing data");
    cov.label_if(start >= data_off, "from the data of the entry");
    cov.nontrivial(start > 0);
    Ok(())
}

/// A response serving the archive must not look complete
fn http_check(x: &Resumed, cov: &mut Cov) -> Res {
    let c = &x.c;
    let i = usize::from(c.liar) % c.ents.len();
    let (mut r, t, ta) = prepare(c)?;
    let data_off = ta.parsed.entries[i].data_off;
    let start = match c.lie {
        Lie::Size(n) | Lie::Both(n, _) => x.at.resolve(&ta.parsed.boundaries, ta.size()) % (data_off + u64::from(n)),
        _ => {
            r.seek_from_start_mut(0);
            0
        }
    };
    let range = format!("bytes={start}-");
    let request = request((start > 0).then_some(range.as_bytes()), 0);
    let mut body = if c.again {
        let (responder, _) = r.into_responder_with_channel();
        responder.respond_to(&request)
    } else {
        r.into_responder().respond_to(&request)
    }
    .into_body();
    let (mut out, mut pendings) = (Vec::new(), 0);
    loop {
        match poll_body(&mut body) {
            BodyItem::Chunk(v) => out.extend_from_slice(&v),
            BodyItem::Err(..) => break,
            BodyItem::End => fail!(
                "response from {start} ends after {} B as if it was complete, although entry {i} with {} B of data at {data_off} lies: {:?}",
                out.len(),
                t.contents[i].len(),
                c.lie
            ),
            BodyItem::Pending => {
                pendings += 1;
                ensure!(pendings < 3_000_000, "body stays pending forever");
            }
        }
        ensure!(out.len() as u64 <= ta.size() - start, "body is longer than announced");
    }
    cov.label_if(start > 0, "range to the end");
    cov.nontrivial(true);
    Ok(())
}

/// Truthful entries never cause such an error
fn truthful(h: &Hist, cov: &mut Cov) -> Res {
    cov.nontrivial(h.ents.iter().any(|e| e.crc && e.content.len > 0));
    run_hist(h, 0, cov)?;
    let mut seq = h.clone();
    seq.ops.clear();
    seq.finish = Some(h.finish.unwrap_or(8192));
    run_hist(&seq, 0, cov)
}

fn truthful_strat(_: &Ctx) -> BoxedStrategy<Hist> {
    hist_strategy(Params { crc_weight: 60, ..Params::default() })
}

pub fn property() -> Property {
    Property {
        id: "P11",
        rule: "Case 'lies' = entries of which one has a reported size or a supplied CRC that doesn't match its data, optional history before, \
sequential read with a script of buffers, retries after the error, second attempt. All of them are non-trivial. Case 'truthful' = history without lies, \
must have no error; non-trivial if a CRC was supplied. 'resumed' = the same with a wrong size, read from any position up to the end of the entry's data; non-trivial unless it starts at zero. 'http' = both served as HTTP responses (a wrong size also to ranges up to the end of the archive), all non-trivial. 'large' = 'lies' with entries up to megabytes. 'long' = reported size differs by a multiple of 2^32 (and some bytes).",
        assumptions: &[
            "Entries reported as empty, and wrong CRCs of empty entries are outside of the promise",
        ],
        parts: vec![
            Box::new(Part { name: "lies", quick: 150_000, thorough: 15_000_000, strat, check }),
            Box::new(Part { name: "resumed", quick: 60_000, thorough: 6_000_000, strat: resumed_strat, check: resumed }),
            Box::new(Part { name: "large", quick: 1800, thorough: 180_000, strat: large_strat, check }),
            Box::new(Part { name: "http", quick: 40_000, thorough: 4_000_000, strat: http_strat, check: http_check }),
            super::long::lie_part(),
            Box::new(Part { name: "truthful", quick: 25_000, thorough: 2_500_000, strat: truthful_strat, check: truthful }),
        ],
    }
}
