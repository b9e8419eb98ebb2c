//! P25 Memory use is bounded regardless of entry sizes

use crate::alloc::Meter;
use crate::engine::*;
use crate::model::*;
use crate::source::*;
use crate::{ensure, fail};
use futures_core::Stream;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead as _, ReadBuf};
use zippity::{Builder, BytesStream, Reader};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct E {
    name: Name,
    len: u64,
    seed: u32,
    crc: bool,
    /// Bytes per read of the source, 0 = any
    step: u32,
    pend: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    /// Buffer, bytes
    Read(u32, u32),
    Stream(u32),
    Seek(Pos),
    Take,
    /// Gives up in the middle of an operation
    Abandon(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ents: Vec<E>,
    ops: Vec<MOp>,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let big = 1u64 << 22;
    let len = prop_oneof![
        3 => 0u64..3000,
        3 => 0u64..200_000,
        3 => 200_000u64..big,
        // Never read whole, so the CRC has to be known
        2 => (any::<u64>(), 4u8..32).prop_map(move |(a, b)| (a >> b).max(big)),
    ];
    let name = prop_oneof![10 => small_name(), 2 => any_name()];
    let ent = (name, len, prop_oneof![Just(0u32), seed_strategy()], any::<bool>(), prop_oneof![4 => Just(0u32), 1 => 1000u32..100_000], any::<bool>()).prop_map(
        move |(name, len, seed, crc, step, pend)| E { name, len, seed, crc: crc || len >= big, step, pend },
    );
    let buf = prop_oneof![2 => 16u32..9000, 2 => 9000u32..200_000, 1 => 200_000u32..4_000_000];
    let op = prop_oneof![
        5 => (buf.clone(), 0u32..6_000_000).prop_map(|(a, b)| MOp::Read(a, b)),
        2 => (1u32..100, 0u32..100_000).prop_map(|(a, b)| MOp::Read(a, b / 4)),
        3 => (0u32..6_000_000).prop_map(MOp::Stream),
        5 => pos_strategy().prop_map(MOp::Seek),
        2 => Just(MOp::Take),
        1 => buf.prop_map(MOp::Abandon),
    ];
    (
        prop_oneof![
            6 => proptest::collection::vec(ent.clone(), 1..6),
            1 => proptest::collection::vec(ent.prop_map(|mut e| { e.len %= 3000; e }), 20..120),
        ],
        proptest::collection::vec(op, 1..12),
    )
        .prop_map(|(ents, ops)| Case { ents, ops })
        .boxed()
}

const CONSTANT: i64 = 128 * 1024;

fn check(c: &Case, cov: &mut Cov) -> Res {
    let names = unique_names(c.ents.iter().map(|e| &e.name));
    let w = world(
        c.ents
            .iter()
            .map(|e| SrcSpec {
                data: Data::Virt { len: e.len, seed: e.seed.into() },
                reported: e.len,
                sched: Sched {
                    open: u8::from(e.pend),
                    reads: match (e.step, e.pend) {
                        (0, false) => vec![],
                        (0, true) => vec![RStep::Take(1 << 30), RStep::Take(1 << 30), RStep::Pend],
                        (n, false) => vec![RStep::Take(n)],
                        (n, true) => vec![RStep::Take(n), RStep::Take(n), RStep::Pend],
                    },
                    seek: u8::from(e.pend),
                    deferred: false,
                },
                faults: vec![],
            })
            .collect(),
        100_000_000,
    );
    w.borrow_mut().keep_log = false;
    let mut b: Builder<Src> = Builder::new();
    let mut bounds = vec![0u64];
    for (i, e) in c.ents.iter().enumerate() {
        let be = b.add_entry(names[i].clone(), Src { id: i, w: w.clone() }).map_err(|e| format!("valid addition failed: {e}"))?;
        if e.crc {
            let crc = if e.len < 1 << 22 && e.len < 300_000 {
                let mut v = vec![0; e.len as usize];
                fill_pattern(e.seed.into(), 0, &mut v);
                crc32fast::hash(&v)
            } else {
                0
            };
            be.crc32(crc);
        }
        let s = b.size();
        bounds.push(s.saturating_sub(98));
        bounds.push(s.saturating_sub(98 + e.len / 2));
    }
    let mut r: Reader<Src> = b.build();
    let size = r.size();
    bounds.push(size);
    let longest = names.iter().map(String::len).max().unwrap_or(0) as i64;
    let bound = CONSTANT + 4 * longest;
    // Position up to which an entry would be read whole
    let max_buf = c
        .ops
        .iter()
        .map(|o| match o {
            MOp::Read(b, _) | MOp::Abandon(b) => *b,
            _ => 0,
        })
        .max()
        .unwrap_or(0);
    let mut store = vec![0u8; max_buf as usize + 1];
    let mut cx = Context::from_waker(Waker::noop());
    let mut moved = 0u64;
    let mut at_most = 0i64;
    let m = Meter::start();
    for op in &c.ops {
        let what;
        match op {
            MOp::Seek(p) => {
                r.seek_from_start_mut(p.resolve(&bounds, size));
                what = "seek";
            }
            MOp::Take => {
                let before = m.count();
                r = Pin::new(&mut r).take_pinned();
                let n = m.count() - before;
                ensure!(n == 0, "taking a reader at {} made {n} allocations", r.tell());
                what = "take";
                cov.label("take");
            }
            MOp::Read(buf, n) => {
                let mut n = u64::from(*n);
                let mut pend = 0u32;
                while n > 0 {
                    let k = n.min(u64::from(*buf)) as usize;
                    let mut rb = ReadBuf::new(&mut store[..k]);
                    match Pin::new(&mut r).poll_read(&mut cx, &mut rb) {
                        Poll::Ready(Ok(())) => {
                            let k = rb.filled().len() as u64;
                            if k == 0 {
                                break;
                            }
                            n -= k;
                            moved += k;
                        }
                        // Wrong CRC of an entry that was read whole
                        Poll::Ready(Err(_)) => break,
                        Poll::Pending => {
                            pend += 1;
                            if pend > 10_000_000 {
                                fail!("pending forever");
                            }
                        }
                    }
                }
                what = "read";
            }
            MOp::Abandon(buf) => {
                let mut rb = ReadBuf::new(&mut store[..*buf as usize]);
                let _ = Pin::new(&mut r).poll_read(&mut cx, &mut rb);
                what = "read";
            }
            MOp::Stream(n) => {
                let mut s: BytesStream<Src> = r.into_bytes_stream();
                let mut n = u64::from(*n);
                loop {
                    match Pin::new(&mut s).poll_next(&mut cx) {
                        Poll::Ready(Some(Ok(b))) => {
                            n = n.saturating_sub(b.len() as u64);
                            moved += b.len() as u64;
                            if n == 0 {
                                break;
                            }
                        }
                        Poll::Ready(_) => break,
                        Poll::Pending => {}
                    }
                }
                r = s.into_reader();
                what = "stream";
                cov.label("stream");
            }
        }
        let peak = m.peak();
        at_most = at_most.max(peak);
        ensure!(
            peak <= bound,
            "after {what}: {peak} B were allocated at once on top of the reader, the longest name has {longest} B, {moved} B were delivered"
        );
    }
    cov.label_if(moved > 4_000_000, "over 4 MB delivered");
    cov.label_if(longest > 10_000, "long names");
    cov.label_if(at_most > 16_384, "peak over 16 kB");
    cov.nontrivial(moved > 300_000);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P25",
        rule: "Case = virtual entries up to 2^60 B (those over 4 MB with a CRC supplied, so that they needn't be read whole), and a history of reads with buffers of 1 B - 4 MB, streaming, seeks and takes, \
all allocations counted by the allocator. Bound: 128 KiB + 4 * longest name. Non-trivial: over 300 kB delivered.",
        assumptions: &["memory of the caller's buffer and of the sources is not counted (sources allocate nothing)"],
        parts: vec![Box::new(Part { name: "memory", quick: 36_000, thorough: 3_600_000, strat, check })],
    }
}
