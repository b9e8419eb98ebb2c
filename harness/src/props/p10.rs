//! P10 Entry data is touched only when needed

use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use crate::source::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// What the library may read ahead in a single read
const SLACK: u64 = 8192;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    h: Hist,
    /// No history, just a complete sequential read with these buffers
    sequential: Option<Vec<u32>>,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let p = Params { crc_weight: 60, max_entries: 5, ..Params::default() };
    let bigger = |mut h: Hist, big: Vec<u32>| {
        for (e, b) in h.ents.iter_mut().zip(big) {
            if b > 0 {
                e.content.len = b;
                // Keep them cheap
                e.sched.reads.clear();
            }
        }
        h
    };
    let lens = proptest::collection::vec(prop_oneof![2 => Just(0u32), 1 => 20_000u32..200_000], 5);
    prop_oneof![
        3 => (hist_strategy(p), lens.clone()).prop_map(move |(h, l)| Case { h: bigger(h, l), sequential: None }),
        3 => hist_strategy(Params { crc_weight: 60, max_len: 200, max_entries: 4, long_names: 0, max_ops: 40, seeks: 10, ..Params::default() })
            .prop_map(|h| Case { h, sequential: None }),
        2 => (hist_strategy(Params { crc_weight: 30, ..Params::default() }), proptest::collection::vec(buf_len(), 1..6))
            .prop_map(|(mut h, s)| { h.ops.clear(); Case { h, sequential: Some(s) } }),
    ]
    .boxed()
}

fn large(_: &Ctx) -> BoxedStrategy<Case> {
    (
        large_hist_strategy(Params { crc_weight: 60, ..Params::default() }),
        proptest::option::weighted(0.3, proptest::collection::vec(buf_len(), 1..6)),
    )
        .prop_map(|(mut h, sequential)| {
            if sequential.is_some() {
                h.ops.clear();
            }
            Case { h, sequential }
        })
        .boxed()
}

fn untouched(w: &Shared, what: &str) -> Res {
    let log = std::mem::take(&mut w.borrow_mut().log);
    for e in &log {
        match e {
            Ev::Size(_) | Ev::Close(_) => {}
            e => fail!("{what} touched entry data: {e:?}"),
        }
    }
    Ok(())
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let h = &c.h;
    let t = truth(&h.ents)?;
    let w = make_world(&h.ents, &t, budget(&h.ents, h.ops.len() as u64 * 8));
    let b = make_builder(&h.ents, &t, &w)?;
    let _ = b.size();
    untouched(&w, "building")?;
    let b2 = b.clone();
    let _ = b2.size();
    untouched(&w, "cloning a builder")?;
    let mut run = Run::new(b.build(), &t, &w, 0);
    let _ = (run.r.size(), run.r.tell(), run.r.crc32s().count());
    untouched(&w, "building and querying")?;

    if let Some(bufs) = &c.sequential {
        let mut delivered = 0u64;
        let mut opened_after = vec![0u32; h.ents.len()];
        let mut log_len = 0;
        'outer: loop {
            for len in bufs {
                let len = sane_len(*len, t.size() / bufs.len() as u64);
                match run.read(len, 0, false, 0)? {
                    Got::Bytes(0) => break 'outer,
                    Got::Bytes(n) => delivered += n as u64,
                    _ => fail!("impossible"),
                }
                let wb = w.borrow();
                log_len = log_len.max(wb.log.len());
                for (i, e) in t.parsed.entries.iter().enumerate() {
                    let data_done = delivered.clamp(e.data_off, e.desc_off) - e.data_off;
                    ensure!(
                        wb.pulled[i] <= data_done + SLACK,
                        "sequential read: {} B of entry {i} were pulled, {data_done} B delivered",
                        wb.pulled[i]
                    );
                }
            }
        }
        let wb = w.borrow();
        for e in &wb.log {
            if let Ev::Open(i) = e {
                opened_after[*i] += 1;
            }
        }
        for (i, e) in t.parsed.entries.iter().enumerate() {
            let expected = u32::from(e.size > 0);
            ensure!(
                opened_after[i] == expected,
                "sequential read: entry {i} of {} B was opened {} times",
                e.size,
                opened_after[i]
            );
            ensure!(
                wb.pulled[i] <= e.size,
                "sequential read: {} B were pulled from entry {i} of {} B",
                wb.pulled[i],
                e.size
            );
        }
        ensure!(wb.max_live <= 1, "{} entries were open at the same time", wb.max_live);
        cov.label("sequential");
        cov.nontrivial(h.ents.iter().any(|e| e.content.len > 0));
        return Ok(());
    }

    let mut interesting = false;
    for op in &h.ops {
        let known: std::collections::HashSet<String> = run.r.crc32s().map(|(n, _)| n.to_string()).collect();
        let reads: Vec<(usize, usize, u32)> = match op {
            Op::Read { len, polls, .. } => vec![(*len as usize, 1, u32::from(*polls))],
            Op::Burst { len, n } => vec![(*len as usize, usize::from(*n), 0)],
            _ => vec![],
        };
        if reads.is_empty() {
            run.apply(op, cov)?;
            untouched(&w, &format!("{op:?}"))?;
            continue;
        }
        for (len, n, patience) in reads {
            for _ in 0..n {
                let from = run.pos;
                let pulled_before = w.borrow().pulled.clone();
                let got = run.read(len, 0, false, patience)?;
                let requested_end = from.saturating_add(len as u64);
                let log = std::mem::take(&mut w.borrow_mut().log);
                let intersects = |a: u64, b: u64| a < requested_end && from < b && len > 0;
                for ev in &log {
                    let Ev::Open(i) = ev else { continue };
                    let e = &t.parsed.entries[*i];
                    ensure!(e.size > 0, "zero length entry {i} was opened");
                    let data = intersects(e.data_off, e.desc_off);
                    if known.contains(&t.names[*i]) {
                        ensure!(
                            data,
                            "entry {i} with a known CRC was opened by a read {from}..{requested_end}, its data are {}..{}",
                            e.data_off,
                            e.desc_off
                        );
                    } else {
                        let cd_end = t.parsed.entries.get(i + 1).map_or(t.parsed.end_off, |n| n.cd_off);
                        ensure!(
                            data || intersects(e.desc_off, e.end) || intersects(e.cd_off, cd_end),
                            "entry {i} was opened by a read {from}..{requested_end} that needs neither its data nor its CRC"
                        );
                    }
                }
                let wb = w.borrow();
                for (i, e) in t.parsed.entries.iter().enumerate() {
                    if !known.contains(&t.names[i]) {
                        continue;
                    }
                    let pulled = wb.pulled[i] - pulled_before[i];
                    let overlap = requested_end.min(e.desc_off).saturating_sub(from.max(e.data_off));
                    ensure!(
                        pulled <= overlap + SLACK,
                        "read {from}..{requested_end} pulled {pulled} B from entry {i} with a known CRC, {overlap} B are needed"
                    );
                    if overlap > 0 && from > e.data_off + SLACK {
                        interesting = true;
                    }
                }
                drop(wb);
                ensure!(w.borrow().max_live <= 1, "{} entries were open at the same time", w.borrow().max_live);
                if got == Got::Bytes(0) {
                    break;
                }
            }
        }
    }
    cov.label_if(interesting, "read deep inside of a known entry");
    cov.nontrivial(
        h.ops.iter().any(|o| matches!(o, Op::Seek { .. }))
            && h.ents.iter().any(|e| e.crc && e.content.len > 0),
    );
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P10",
        rule: "Case = history (or complete sequential read) over sources that log every open, read, seek and close; the log of each operation is \
compared with what the operation may touch. Non-trivial: sequential with some data, or a seek and an entry with data and known CRC.",
        assumptions: &["'About the requested data' means at most 8192 bytes more per read"],
        parts: vec![
            Box::new(Part { name: "touch", quick: 160_000, thorough: 16_000_000, strat, check }),
            Box::new(Part { name: "large", quick: 3000, thorough: 300000, strat: large, check }),
        ],
    }
}
