//! P13 Clone and take

use crate::ensure;
use crate::engine::*;
use crate::hist::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    h: Hist,
    take: bool,
    /// Operations after, true = on the original, false = on the clone / taken
    after: Vec<(bool, Op)>,
    drop_original: bool,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let p = Params { crc_weight: 30, max_ops: 12, clone_take: 1, ..Params::default() };
    let small = Params { max_len: 200, max_entries: 4, long_names: 0, ..p };
    (
        prop_oneof![1 => hist_strategy(p), 1 => hist_strategy(small)],
        any::<bool>(),
        proptest::collection::vec((any::<bool>(), op_strategy(p)), 0..14),
        any::<bool>(),
    )
        .prop_map(|(h, take, after, drop_original)| Case { h, take, after, drop_original })
        .boxed()
}

fn large(ctx: &Ctx) -> BoxedStrategy<Case> {
    (strat(ctx), large_hist_strategy(Params { crc_weight: 30, ..Params::default() }))
        .prop_map(|(mut c, h)| {
            c.h = h;
            c
        })
        .boxed()
}

const F: u32 = BYTES | POS | EOF | CRC;

fn check(c: &Case, cov: &mut Cov) -> Res {
    let h = &c.h;
    let t = truth(&h.ents)?;
    let empty = truth(&[])?;
    let w = make_world(&h.ents, &t, budget(&h.ents, (h.ops.len() + c.after.len()) as u64 * 8));
    w.borrow_mut().keep_log = false;
    let mut a = Run::new(make_builder(&h.ents, &t, &w)?.build(), &t, &w, F);
    for op in &h.ops {
        a.apply(op, cov)?;
    }
    let crcs = |r: &zippity::Reader<crate::source::Src>| -> Vec<(String, u32)> {
        let mut v: Vec<_> = r.crc32s().map(|(n, c)| (n.to_string(), c)).collect();
        v.sort();
        v
    };
    let before = (a.r.size(), a.r.tell(), crcs(&a.r));
    let opens = w.borrow().opens_total;
    let moved = if c.take { Pin::new(&mut a.r).take_pinned() } else { a.r.clone() };
    ensure!(w.borrow().opens_total == opens, "clone/take opened an entry");
    let after = (moved.size(), moved.tell(), crcs(&moved));
    ensure!(before == after, "state before clone/take: {before:?}, state of the result: {after:?}");
    let mut b = Run::new(moved, &t, &w, F);
    b.pos = a.pos;
    b.known = a.known.clone();
    let mut original = if c.take {
        ensure!(a.r.size() == empty.size(), "reader left behind by take has size {}", a.r.size());
        ensure!(a.r.tell() == 0, "reader left behind by take is at {}", a.r.tell());
        ensure!(a.r.crc32s().next().is_none(), "reader left behind by take reports CRCs");
        Run::new(a.r, &empty, &w, F)
    } else {
        let now = (a.r.size(), a.r.tell(), crcs(&a.r));
        ensure!(before == now, "cloning changed the original from {before:?} to {now:?}");
        a
    };
    let split = if c.drop_original { c.after.len() / 2 } else { c.after.len() };
    for (on_original, op) in &c.after[..split] {
        let run = if *on_original { &mut original } else { &mut b };
        run.apply(op, cov)?;
    }
    if c.drop_original {
        drop(original);
        for (_, op) in &c.after[split..] {
            b.apply(op, cov)?;
        }
    } else {
        let n = original.t.size();
        original.finish(sane_len(h.finish.unwrap_or(4096), n))?;
    }
    b.finish(sane_len(h.finish.unwrap_or(4096), t.size()))?;
    cov.label(if c.take { "take" } else { "clone" });
    cov.label_if(b.pos > 0 && before.1 > 0 && before.1 < t.size(), "in the middle");
    cov.label_if(before.1 > t.size(), "past the end");
    cov.nontrivial(h.ents.iter().any(|e| e.content.len > 0) && before.1 > 0);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P13",
        rule: "Case = history, clone or take, interleaved history on both readers, both read to the end; 'large' with entries up to 5 MB. Non-trivial: entry with data and position \
other than zero at the clone/take.",
        assumptions: &["Truth is the plain sequential read of vectors (judged by P01, P02)"],
        parts: vec![
            Box::new(Part { name: "fork", quick: 200_000, thorough: 20_000_000, strat, check }),
            Box::new(Part { name: "large", quick: 3000, thorough: 300000, strat: large, check }),
            super::threads::part(),
        ],
    }
}
