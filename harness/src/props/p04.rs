//! P04 bytes under random access, P05 reported position

use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use proptest::prelude::*;

fn nontrivial(h: &Hist) -> bool {
    h.ents.iter().any(|e| e.content.len > 0)
        && h.ops.iter().any(|o| matches!(o, Op::Seek { .. }))
        && h.ops.iter().any(|o| matches!(o, Op::Read { len, .. } | Op::Burst { len, .. } if *len > 0))
}

fn strat(_: &Ctx) -> BoxedStrategy<Hist> {
    prop_oneof![
        5 => hist_strategy(Params::default()),
        // Many seeks among a few small records
        4 => hist_strategy(Params { max_entries: 4, max_len: 60, long_names: 0, max_ops: 60, seeks: 12, ..Params::default() }),
        1 => hist_strategy(Params { max_entries: 3, long_names: 40, ..Params::default() }),
        1 => hist_strategy(Params { max_entries: 4, max_len: 400, crc_weight: 0, max_ops: 40, ..Params::default() }),
    ]
    .boxed()
}

fn large(_: &Ctx) -> BoxedStrategy<Hist> {
    large_hist_strategy(Params { crc_weight: 30, ..Params::default() })
}

fn bytes(h: &Hist, cov: &mut Cov) -> Res {
    cov.nontrivial(nontrivial(h));
    run_hist(h, BYTES | EOF, cov)
}

fn position(h: &Hist, cov: &mut Cov) -> Res {
    cov.nontrivial(nontrivial(h));
    run_hist(h, POS, cov)
}

/// Every single position of an archive as a target of a seek followed by a read of a given size
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Sweep {
    pub ents: Vec<Ent>,
    pub how: u8,
    pub len: u32,
    pub second: u32,
}

fn sweep_strat(_: &Ctx) -> BoxedStrategy<Sweep> {
    (
        proptest::collection::vec(
            ent_strategy(Params { max_len: 90, long_names: 0, ..Params::default() }),
            0..4,
        ),
        0u8..5,
        buf_len(),
        buf_len(),
    )
        .prop_map(|(ents, how, len, second)| Sweep { ents, how, len, second })
        .boxed()
}

fn sweep(s: &Sweep, flags: u32, cov: &mut Cov) -> Res {
    let t = truth(&s.ents)?;
    let w = make_world(&s.ents, &t, budget(&s.ents, t.size() * 4 + 10));
    w.borrow_mut().keep_log = false;
    let b = make_builder(&s.ents, &t, &w)?;
    cov.nontrivial(!s.ents.is_empty());
    cov.add("positions", t.size() + 3);
    // One reader for everything (CRCs get known on the way) and a fresh one for each position
    let mut common = Run::new(b.clone().build(), &t, &w, flags);
    for p in 0..t.size() + 3 {
        // Visit positions in an order that mixes forward and backward seeks
        let p = if s.how % 2 == 0 { t.size() + 2 - p } else { p };
        let mut fresh = Run::new(b.clone().build(), &t, &w, flags);
        for run in [&mut common, &mut fresh] {
            run.seek(s.how, p)?;
            run.read(s.len as usize, 0, false, 0)?;
            run.read(s.second as usize, 0, false, 0)?;
        }
    }
    Ok(())
}

fn sweep_bytes(s: &Sweep, cov: &mut Cov) -> Res {
    sweep(s, BYTES | EOF, cov)
}
fn sweep_pos(s: &Sweep, cov: &mut Cov) -> Res {
    sweep(s, POS, cov)
}

const RULE: &str = "Case = entries (names, contents, metadata, known/unknown CRC, source schedule) and a history of \
reads, abandoned reads, seeks by every interface, clones and takes; 'sweep' visits every position of a small archive, 'large' has entries up to 5 MB. \
Non-trivial: at least one entry with data, one seek and one read (sweep: at least one entry).";

pub fn property() -> Property {
    Property {
        id: "P04",
        rule: RULE,
        assumptions: &["The plain sequential read used as the truth is judged by P01 and P02"],
        parts: vec![
            Box::new(Part { name: "history", quick: 130_000, thorough: 13_000_000, strat, check: bytes }),
            Box::new(Part { name: "sweep", quick: 6_000, thorough: 600_000, strat: sweep_strat, check: sweep_bytes }),
            Box::new(Part { name: "large", quick: 3600, thorough: 360000, strat: large, check: bytes }),
        ],
    }
}

pub fn property_p05() -> Property {
    Property {
        id: "P05",
        rule: RULE,
        assumptions: &["Position model: last seek target + number of delivered bytes"],
        parts: vec![
            Box::new(Part { name: "history", quick: 130_000, thorough: 13_000_000, strat, check: position }),
            Box::new(Part { name: "sweep", quick: 6_000, thorough: 600_000, strat: sweep_strat, check: sweep_pos }),
            Box::new(Part { name: "large", quick: 3600, thorough: 360000, strat: large, check: position }),
        ],
    }
}
