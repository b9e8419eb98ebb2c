//! P12 I/O failures of sources

use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use crate::source::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    h: Hist,
    /// entry (modulo), fault
    faults: Vec<(u8, Fault)>,
    /// What to do after a failed read: retry it at once this many times
    retry: u8,
}

pub fn fault() -> BoxedStrategy<(u8, Fault)> {
    (
        any::<u8>(),
        prop_oneof![
            3 => Just(FaultOp::Open),
            5 => Just(FaultOp::Read),
            2 => Just(FaultOp::SeekStart),
            2 => Just(FaultOp::SeekPoll),
        ],
        prop_oneof![4 => 0u16..4, 2 => 0u16..12, 1 => 0u16..60],
        0u8..12,
    )
        .prop_map(|(e, op, nth, kind)| (e, Fault { op, nth, kind }))
        .boxed()
}

pub fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let p = Params { crc_weight: 40, ..Params::default() };
    let small = Params { crc_weight: 40, max_len: 200, max_entries: 4, long_names: 0, max_ops: 30, ..p };
    (
        prop_oneof![2 => hist_strategy(p), 3 => hist_strategy(small)],
        proptest::collection::vec(fault(), 1..10),
        0u8..3,
        any::<bool>(),
        buf_len(),
    )
        .prop_map(|(mut h, faults, retry, seq, len)| {
            if seq {
                h.ops.truncate(4);
            }
            h.finish = Some(h.finish.unwrap_or(len));
            Case { h, faults, retry }
        })
        .boxed()
}

fn large(ctx: &Ctx) -> BoxedStrategy<Case> {
    (strat(ctx), large_hist_strategy(Params { crc_weight: 40, ..Params::default() }), buf_len())
        .prop_map(|(mut c, mut h, len)| {
            h.finish = Some(h.finish.unwrap_or(len * 16));
            c.h = h;
            c
        })
        .boxed()
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    run_case(c, FAULTS | BYTES | POS | EOF, cov)
}

pub fn run_case(c: &Case, flags: u32, cov: &mut Cov) -> Res {
    let h = &c.h;
    if h.ents.is_empty() {
        return Ok(());
    }
    let t = truth(&h.ents)?;
    let w = make_world(&h.ents, &t, budget(&h.ents, h.ops.len() as u64 * 8 + 100));
    {
        let mut wb = w.borrow_mut();
        wb.keep_log = false;
        for (e, f) in &c.faults {
            let n = h.ents.len();
            wb.srcs[usize::from(*e) % n].faults.push(f.clone());
        }
    }
    let b = make_builder(&h.ents, &t, &w)?;
    let mut run = Run::new(b.build(), &t, &w, flags);
    for (i, e) in h.ents.iter().enumerate() {
        if e.crc {
            run.known.insert(t.names[i].clone(), t.crc_list[i]);
        }
    }
    let mut failures = 0u64;
    for op in &h.ops {
        match op {
            Op::Read { len, pre, uninit, polls } => {
                for _ in 0..=c.retry {
                    match run.read(*len as usize, usize::from(*pre), *uninit, u32::from(*polls))? {
                        Got::Failed(_) => failures += 1,
                        _ => break,
                    }
                }
            }
            Op::Burst { len, n } => {
                for _ in 0..*n {
                    match run.read(*len as usize, 0, false, 0)? {
                        Got::Failed(_) => failures += 1,
                        Got::Bytes(0) => break,
                        _ => {}
                    }
                }
            }
            op => run.apply(op, cov)?,
        }
        run.check_crcs("after an operation")?;
    }
    // Everything to the end through the remaining failures, and once again from the start
    for round in 0..2 {
        if round == 1 {
            run.seek(0, 0)?;
        }
        let start = run.pos;
        let len = sane_len(h.finish.unwrap_or(8192), t.size());
        loop {
            match run.read(len, 0, false, 0)? {
                Got::Bytes(0) => break,
                Got::Failed(_) => {
                    failures += 1;
                    run.check_crcs("after a failed read")?;
                }
                Got::Bytes(_) => {}
                Got::Abandoned => fail!("impossible"),
            }
        }
        ensure!(
            flags & POS == 0 || run.pos == t.size().max(start),
            "read through failures from {start} ended at {}, archive has {}",
            run.pos,
            t.size()
        );
    }
    run.check_crcs("after complete reads")?;
    let total = w.borrow().next_fault_id - 1;
    ensure!(flags & FAULTS == 0 || failures == total, "{total} source failures happened, {failures} were reported");
    cov.nontrivial(failures > 0);
    cov.add("failures", failures);
    let wb = w.borrow();
    for (i, s) in wb.srcs.iter().enumerate() {
        for f in &s.faults {
            let n = match f.op {
                FaultOp::Open => wb.counters[i].opens,
                FaultOp::Read => wb.counters[i].reads,
                FaultOp::SeekStart => wb.counters[i].seek_starts,
                FaultOp::SeekPoll => wb.counters[i].seek_polls,
            };
            if n > u64::from(f.nth) {
                cov.label(format!("failed {:?}", f.op));
            }
        }
    }
    Ok(())
}

/// Every single call of every kind made by a given history fails once
fn each(h: &Hist, cov: &mut Cov) -> Res {
    if h.ents.is_empty() {
        return Ok(());
    }
    // Count calls without faults
    let t = truth(&h.ents)?;
    let w = make_world(&h.ents, &t, budget(&h.ents, h.ops.len() as u64 * 8 + 100));
    w.borrow_mut().keep_log = false;
    let mut run = Run::new(make_builder(&h.ents, &t, &w)?.build(), &t, &w, 0);
    for op in &h.ops {
        run.apply(op, cov)?;
    }
    let len = h.finish.unwrap_or(8192);
    run.finish(sane_len(len, t.size()))?;
    drop(run);
    let mut all = Vec::new();
    for (i, k) in w.borrow().counters.iter().enumerate() {
        for (op, n) in [
            (FaultOp::Open, k.opens),
            (FaultOp::Read, k.reads),
            (FaultOp::SeekStart, k.seek_starts),
            (FaultOp::SeekPoll, k.seek_polls),
        ] {
            for nth in 0..n.min(40) {
                all.push((i as u8, Fault { op, nth: nth.min(60_000) as u16, kind: nth as u8 }));
            }
        }
    }
    for f in all {
        cov.add("single faults enumerated", 1);
        let c = Case { h: h.clone(), faults: vec![f.clone()], retry: 0 };
        check(&c, cov).map_err(|e| format!("with {f:?}: {e}"))?;
    }
    Ok(())
}

fn each_strat(_: &Ctx) -> BoxedStrategy<Hist> {
    let p = Params { crc_weight: 50, max_len: 20_000, max_entries: 3, max_ops: 6, long_names: 0, ..Params::default() };
    (hist_strategy(p), buf_len())
        .prop_map(|(mut h, len)| {
            h.finish = Some(h.finish.unwrap_or(len).max(10));
            h
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "P12",
        rule: "Case 'faults' = history over sources with a plan of failures of opens, reads, seek starts and seek completions, then reading to \
the end and a complete read through the remaining failures; 'large' has entries up to 5 MB; 'each' fails every single source call of a history in turn. Non-trivial: at least one failure happened.",
        assumptions: &[
            "A failed source call has no effect on the source, a failed seek completion loses the seek (as tokio::fs::File)",
        ],
        parts: vec![
            Box::new(Part { name: "faults", quick: 60_000, thorough: 6_000_000, strat, check }),
            Box::new(Part { name: "large", quick: 2400, thorough: 240000, strat: large, check }),
            Box::new(Part { name: "each", quick: 2_000, thorough: 200_000, strat: each_strat, check: each }),
        ],
    }
}
