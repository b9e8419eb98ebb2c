//! P06 Output doesn't depend on buffer sizes, source chunking or readiness

use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    len: u32,
    pre: u8,
    uninit: bool,
    /// Pending answers after which the read is abandoned, 0 = never
    patience: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ents: Vec<Ent>,
    /// Repeated until the end of the archive
    steps: Vec<Step>,
    /// Where to start reading (None = from the start without any seek)
    start: Option<Pos>,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let step = (
        buf_len(),
        prop_oneof![2 => Just(0u8), 1 => 1u8..60],
        any::<bool>(),
        prop_oneof![1 => Just(0u8), 2 => 1u8..4],
    )
        .prop_map(|(len, pre, uninit, patience)| Step { len, pre, uninit, patience });
    let ents = prop_oneof![
        4 => ents_strategy(Params { crc_weight: 25, ..Params::default() }),
        2 => ents_strategy(Params { crc_weight: 25, max_len: 300, max_entries: 10, ..Params::default() }),
        1 => ents_strategy(Params { long_names: 30, max_entries: 3, ..Params::default() }),
    ];
    (
        ents,
        prop_oneof![
            3 => proptest::collection::vec(step.clone(), 1..2),
            3 => proptest::collection::vec(step, 1..12),
        ],
        proptest::option::weighted(0.25, pos_strategy()),
    )
        .prop_map(|(ents, steps, start)| Case { ents, steps, start })
        .boxed()
}

fn large(ctx: &Ctx) -> BoxedStrategy<Case> {
    (strat(ctx), enlarge_strategy())
        .prop_map(|(mut c, e)| {
            c.ents.truncate(4);
            enlarge(&mut c.ents, &mut [], &e);
            for s in &mut c.steps {
                if s.len >= 64 {
                    s.len *= 32;
                }
            }
            c
        })
        .boxed()
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let t = truth(&c.ents)?;
    let w = make_world(&c.ents, &t, budget(&c.ents, 1000));
    w.borrow_mut().keep_log = false;
    let b = make_builder(&c.ents, &t, &w)?;
    let mut run = Run::new(b.build(), &t, &w, PURE | BYTES | EOF);
    if let Some(p) = &c.start {
        let target = p.resolve(&t.parsed.boundaries, t.size());
        run.seek(0, target)?;
    }
    let start = run.pos;
    let mut pieces = 0u64;
    'all: loop {
        for s in &c.steps {
            let len = sane_len(s.len, t.size() / c.steps.len() as u64);
            match run.read(len, usize::from(s.pre), s.uninit, u32::from(s.patience))? {
                Got::Bytes(0) => break 'all,
                Got::Bytes(_) => pieces += 1,
                Got::Abandoned => {}
                Got::Failed(_) => fail!("impossible"),
            }
        }
    }
    ensure!(
        run.pos == t.size().max(start),
        "read from {start} ended at {}, archive has {}",
        run.pos,
        t.size()
    );
    cov.nontrivial(run.pending_polls > 0 || pieces > 3);
    cov.label_if(run.pending_polls > 0, "pending reads");
    cov.label_if(run.abandoned > 0, "abandoned reads");
    cov.label_if(c.start.is_some(), "started by a seek");
    cov.label_if(c.steps.iter().any(|s| s.pre > 0), "prefilled buffers");
    cov.add("pieces", pieces);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P06",
        rule: "Case = entries with source schedules (short reads, pending answers of opens/reads/seeks), a repeated script of caller \
reads (buffer size, prefilled bytes, initialized or not, patience); 'large' with entries up to 5 MB. Non-trivial: some poll was pending or at least 4 pieces were delivered.",
        assumptions: &["Truth is the plain sequential read of vectors (judged by P01, P02)"],
        parts: vec![
            Box::new(Part { name: "schedule", quick: 110_000, thorough: 11_000_000, strat, check }),
            Box::new(Part { name: "large", quick: 3000, thorough: 300000, strat: large, check }),
        ],
    }
}
