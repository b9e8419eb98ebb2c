//! P07 Progress, wake-ups, end of file

use crate::ensure;
use crate::engine::*;
use crate::hist::*;
use crate::exec::poll_read;
use crate::model::buf_len;
use crate::source::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::task::Poll;
use zippity::Reader;

fn strat(_: &Ctx) -> BoxedStrategy<Hist> {
    prop_oneof![
        4 => hist_strategy(Params { crc_weight: 25, ..Params::default() }),
        3 => hist_strategy(Params { crc_weight: 25, max_len: 300, max_entries: 4, long_names: 0, ..Params::default() }),
    ]
    .prop_map(defer)
    .boxed()
}

fn defer(mut h: Hist) -> Hist {
    for e in &mut h.ents {
        e.sched.deferred = true;
    }
    h
}

fn large(_: &Ctx) -> BoxedStrategy<Hist> {
    large_hist_strategy(Params { crc_weight: 40, ..Params::default() }).prop_map(defer).boxed()
}

fn check(h: &Hist, cov: &mut Cov) -> Res {
    let t = truth(&h.ents)?;
    let w = make_world(&h.ents, &t, budget(&h.ents, h.ops.len() as u64 * 8));
    w.borrow_mut().keep_log = false;
    let b = make_builder(&h.ents, &t, &w)?;
    let mut run = Run::new(b.build(), &t, &w, PROGRESS | EOF);
    for op in &h.ops {
        run.apply(op, cov)?;
        ensure!(
            run.pending_polls <= run.total_pendings,
            "{} polls were pending, sources only answered pending {} times",
            run.pending_polls,
            run.total_pendings
        );
    }
    if let Some(len) = h.finish {
        run.finish(sane_len(len, t.size()))?;
        for _ in 0..3 {
            // It stays at the end
            run.read(len as usize, 0, false, 0)?;
        }
        cov.label("read to the end");
    }
    cov.nontrivial(run.pending_polls > 0);
    cov.add("pending polls", run.pending_polls);
    cov.label_if(run.abandoned > 0, "abandoned reads");
    Ok(())
}

/// Entries whose reported sizes are wrong and failing sources: reads may fail, but they have to get somewhere
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trouble {
    h: Hist,
    /// entry (modulo), difference of the reported size
    lies: Vec<(u8, i32)>,
    /// entry (modulo), fault
    faults: Vec<(u8, Fault)>,
}

fn trouble(_: &Ctx) -> BoxedStrategy<Trouble> {
    let small = Params { crc_weight: 40, max_len: 300, max_entries: 4, long_names: 0, max_ops: 30, ..Params::default() };
    (
        prop_oneof![2 => hist_strategy(Params { crc_weight: 40, ..Params::default() }), 3 => hist_strategy(small)],
        proptest::collection::vec((any::<u8>(), prop_oneof![3 => -3i32..4, 1 => -200i32..200, 1 => -100_000i32..100_000]), 0..3),
        proptest::collection::vec(crate::props::p12::fault(), 0..3),
        any::<bool>(),
        buf_len(),
    )
        .prop_map(|(mut h, lies, faults, deferred, len)| {
            h.finish = Some(h.finish.unwrap_or(len));
            Trouble { h: if deferred { defer(h) } else { h }, lies, faults }
        })
        .boxed()
}

fn check_trouble(c: &Trouble, cov: &mut Cov) -> Res {
    let h = &c.h;
    if h.ents.is_empty() {
        return Ok(());
    }
    let t = truth(&h.ents)?;
    let w = make_world(&h.ents, &t, 4 * budget(&h.ents, h.ops.len() as u64 * 8 + 100));
    {
        let mut wb = w.borrow_mut();
        wb.keep_log = false;
        let n = h.ents.len();
        for (e, d) in &c.lies {
            let s = &mut wb.srcs[usize::from(*e) % n];
            s.reported = s.reported.saturating_add_signed(i64::from(*d));
        }
        for (e, f) in &c.faults {
            wb.srcs[usize::from(*e) % n].faults.push(f.clone());
        }
    }
    let mut r = make_builder(&h.ents, &t, &w)?.build();
    let size = r.size();
    let mut pendings = 0u64;
    let mut failed = 0u64;
    // One read, with as many polls as it takes
    let mut read = |r: &mut Reader<Src>, len: usize, polls: u32| -> Result<Option<std::io::Result<usize>>, String> {
        let mut n = 0u32;
        loop {
            w.borrow_mut().begin_poll();
            let p = poll_read(Pin::new(r), len, 0, false);
            match p.result {
                Poll::Ready(Ok(v)) => return Ok(Some(Ok(v.len()))),
                Poll::Ready(Err(e)) => {
                    failed += 1;
                    return Ok(Some(Err(e)));
                }
                Poll::Pending => {
                    let mut wb = w.borrow_mut();
                    ensure!(wb.pendings > 0, "read at {} is pending, although no source is", r.tell());
                    if let Some(waker) = wb.waker.take() {
                        waker.wake();
                    }
                    ensure!(
                        p.woken.0.load(Ordering::SeqCst),
                        "lost wake-up: source became ready, but the task of the last poll at {} was not woken",
                        r.tell()
                    );
                    pendings += 1;
                    n += 1;
                    ensure!(n < 1_000_000, "read stays pending forever");
                    if polls != 0 && n >= polls {
                        return Ok(None);
                    }
                }
            }
        }
    };
    for op in &h.ops {
        match op {
            Op::Read { len, polls, .. } => {
                read(&mut r, *len as usize, u32::from(*polls))?;
            }
            Op::Burst { len, n } => {
                for _ in 0..*n {
                    if matches!(read(&mut r, *len as usize, 0)?, Some(Ok(0))) {
                        break;
                    }
                }
            }
            Op::Seek { pos, .. } => {
                r.seek_from_start_mut(pos.resolve(&t.parsed.boundaries, size));
            }
            Op::Clone { .. } => r = r.clone(),
            Op::Take => r = Pin::new(&mut r).take_pinned(),
            Op::SeekNeg { .. } | Op::Query => {}
        }
    }
    // Reading ends: by the end of the file, or by an error that doesn't go away
    r.seek_from_start_mut(0);
    let len = sane_len(h.finish.unwrap_or(8192), size);
    let mut errors = 0;
    let mut total = 0u64;
    loop {
        match read(&mut r, len, 0)? {
            Some(Ok(0)) => {
                cov.label("reached the end of file");
                break;
            }
            Some(Ok(n)) => total += n as u64,
            _ => {
                errors += 1;
                if errors > 8 {
                    cov.label("failing for good");
                    break;
                }
            }
        }
        // The archive and the data over the reported sizes
        ensure!(total <= size.saturating_mul(20) + 10_000_000, "{total} bytes were read of an archive of size {size}");
    }
    cov.nontrivial(failed > 0);
    cov.add("pending polls", pendings);
    cov.add("failed reads", failed);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P07",
        rule: "Case = history over sources that keep the waker of their last poll and are woken by the executor; every poll has its own \
waker; 'large' with entries up to 5 MB; 'trouble' with wrong reported sizes and failing sources. Non-trivial: at least one poll was pending (trouble: at least one read failed).",
        assumptions: &[
            "A loop inside the library that calls no source is a violation when a case takes over 120 s",
        ],
        parts: vec![
            Box::new(Part { name: "wakeups", quick: 200_000, thorough: 20_000_000, strat, check }),
            Box::new(Part { name: "large", quick: 4500, thorough: 450000, strat: large, check }),
            Box::new(Part { name: "trouble", quick: 60_000, thorough: 6_000_000, strat: trouble, check: check_trouble }),
        ],
    }
}
