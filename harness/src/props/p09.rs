//! P09 Known CRCs don't change the archive

use crate::engine::*;
use crate::hist::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    h: Hist,
    /// History of an earlier reader (without supplied CRCs) that provides the CRCs; None = all entries marked by `crc`
    earlier: Option<Vec<Op>>,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let p = Params { crc_weight: 65, ..Params::default() };
    let small = Params { crc_weight: 65, max_len: 100, max_entries: 4, long_names: 0, max_ops: 50, seeks: 10, ..Params::default() };
    (
        prop_oneof![1 => hist_strategy(p), 1 => hist_strategy(small)],
        proptest::option::weighted(0.5, proptest::collection::vec(op_strategy(p), 1..12)),
    )
        .prop_map(|(h, earlier)| Case { h, earlier })
        .boxed()
}

fn large(_: &Ctx) -> BoxedStrategy<Case> {
    let p = Params { crc_weight: 65, ..Params::default() };
    (large_hist_strategy(p), proptest::option::weighted(0.5, proptest::collection::vec(op_strategy(p), 1..12)))
        .prop_map(|(h, earlier)| Case { h, earlier })
        .boxed()
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let t = truth(&c.h.ents)?;
    let mut ents = c.h.ents.clone();
    if let Some(ops) = &c.earlier {
        for e in &mut ents {
            e.crc = false;
        }
        let w = make_world(&ents, &t, budget(&ents, ops.len() as u64 * 8));
        w.borrow_mut().keep_log = false;
        let mut run = Run::new(make_builder(&ents, &t, &w)?.build(), &t, &w, BYTES);
        for op in ops {
            run.apply(op, cov)?;
        }
        let known: std::collections::HashMap<String, u32> = run.r.crc32s().map(|(n, c)| (n.to_string(), c)).collect();
        cov.label_if(!known.is_empty(), "CRCs from an earlier reader");
        // Supply what the earlier reader reported
        let w = make_world(&ents, &t, budget(&ents, c.h.ops.len() as u64 * 8));
        w.borrow_mut().keep_log = false;
        let mut b = make_builder(&ents, &t, &w)?;
        for (n, e) in b.get_entries_mut() {
            if let Some(c) = known.get(n) {
                e.crc32(*c);
            }
        }
        cov.nontrivial(known.len() < ents.len() || !known.is_empty());
        let mut run = Run::new(b.build(), &t, &w, BYTES | EOF);
        for op in &c.h.ops {
            run.apply(op, cov)?;
        }
        if let Some(len) = c.h.finish {
            run.finish(sane_len(len, t.size()))?;
        }
        return Ok(());
    }
    cov.nontrivial(ents.iter().any(|e| e.crc && e.content.len > 0));
    cov.label_if(ents.iter().any(|e| e.crc) && ents.iter().any(|e| !e.crc), "mixed known and unknown");
    run_hist(&c.h, BYTES | EOF, cov)?;
    // And the whole archive from the start
    let w = make_world(&ents, &t, budget(&ents, 8));
    w.borrow_mut().keep_log = false;
    let mut run = Run::new(make_builder(&ents, &t, &w)?.build(), &t, &w, BYTES | EOF);
    run.finish(8192)
}

pub fn property() -> Property {
    Property {
        id: "P09",
        rule: "Case = entries with a subset of CRCs supplied (directly or as reported by an earlier reader after its own history) and a history, \
compared with the archive built without CRCs; 'large' with entries up to 5 MB. Non-trivial: some CRC was supplied for an entry with data.",
        assumptions: &["Truth is the plain sequential read of vectors without any CRC supplied (judged by P01, P02)"],
        parts: vec![
            Box::new(Part { name: "supplied", quick: 180_000, thorough: 18_000_000, strat, check }),
            Box::new(Part { name: "large", quick: 3000, thorough: 300000, strat: large, check }),
        ],
    }
}
