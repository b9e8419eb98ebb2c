//! P08 Reported CRCs are correct and never forgotten

use crate::ensure;
use crate::engine::*;
use crate::hist::*;
use crate::props::p12;
use proptest::prelude::*;

fn strat(_: &Ctx) -> BoxedStrategy<Hist> {
    prop_oneof![
        4 => hist_strategy(Params { crc_weight: 20, clone_take: 2, ..Params::default() }),
        3 => hist_strategy(Params { crc_weight: 10, max_len: 300, max_entries: 4, long_names: 0, max_ops: 50, seeks: 10, clone_take: 2, ..Params::default() }),
    ]
    .boxed()
}

fn large(_: &Ctx) -> BoxedStrategy<Hist> {
    large_hist_strategy(Params { crc_weight: 15, clone_take: 2, ..Params::default() })
}

fn check(h: &Hist, cov: &mut Cov) -> Res {
    run_hist(h, CRC, cov)?;
    // A complete read (after whatever happened before) reports all
    let t = truth(&h.ents)?;
    let w = make_world(&h.ents, &t, budget(&h.ents, h.ops.len() as u64 * 8));
    w.borrow_mut().keep_log = false;
    let b = make_builder(&h.ents, &t, &w)?;
    let mut run = Run::new(b.build(), &t, &w, CRC);
    let n = h.ops.len() / 2;
    for op in &h.ops[..n] {
        run.apply(op, cov)?;
    }
    let before = run.r.crc32s().count();
    run.seek(0, 0)?;
    run.finish(sane_len(h.finish.unwrap_or(8192), t.size()))?;
    let count = run.r.crc32s().count();
    ensure!(count == h.ents.len(), "after a complete read {count} CRCs are reported, there are {} entries", h.ents.len());
    let known: Vec<_> = run.r.crc32s().map(|(n, c)| (n.to_string(), c)).collect();
    for r in [run.r.clone(), std::pin::Pin::new(&mut run.r).take_pinned()] {
        let k: Vec<_> = r.crc32s().map(|(n, c)| (n.to_string(), c)).collect();
        let (mut a, mut b) = (k, known.clone());
        a.sort();
        b.sort();
        ensure!(a == b, "clone/take after a complete read reports different CRCs");
    }
    cov.nontrivial(h.ents.iter().any(|e| e.content.len > 0 && !e.crc));
    cov.label_if(before > 0 && before < h.ents.len(), "part of CRCs known in the middle");
    Ok(())
}

/// Also when sources fail on the way
fn failing(c: &p12::Case, cov: &mut Cov) -> Res {
    p12::run_case(c, CRC, cov)
}

pub fn property() -> Property {
    Property {
        id: "P08",
        rule: "Case 'history' = entries and a history; crc32s() is compared with the model after each operation; 'failing' the same with \
failures of sources on the way; 'large' with entries up to 5 MB. Non-trivial: some entry with data has no CRC supplied; some failure happened.",
        assumptions: &["crc32fast computes CRC-32 of the model content"],
        parts: vec![
            Box::new(Part { name: "history", quick: 80_000, thorough: 8_000_000, strat, check }),
            Box::new(Part { name: "failing", quick: 40_000, thorough: 4_000_000, strat: p12::strat, check: failing }),
            Box::new(Part { name: "large", quick: 3000, thorough: 300000, strat: large, check }),
        ],
    }
}
