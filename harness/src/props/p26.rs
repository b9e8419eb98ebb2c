//! P26 A builder's archive depends only on its final entries

use crate::edits::*;
use crate::engine::*;
use crate::exec::plain_archive;
use crate::model::*;
use crate::ensure;
use proptest::prelude::*;
use zippity::Builder;

fn small_edits() -> BoxedStrategy<Edit> {
    edit_strategy(true)
        .prop_map(|e| match e {
        Edit::Add(n, mut c, m) => {
            c.len %= 300;
            Edit::Add(n, c, m)
        }
        e => e,
    })
    .boxed()
}

fn many_strat(_: &Ctx) -> BoxedStrategy<Vec<Edit>> {
    many_strategy(small_edits(), 14)
}

fn strat(_: &Ctx) -> BoxedStrategy<Vec<Edit>> {
    let small = small_edits();
    prop_oneof![
        1 => proptest::collection::vec(edit_strategy(true), 1..20),
        2 => proptest::collection::vec(small.clone(), 1..30),
        1 => proptest::collection::vec(small, 20..80),
    ]
    .boxed()
}

fn scratch(model: &[MEntry]) -> Result<Vec<u8>, String> {
    let mut b: Builder<Vec<u8>> = Builder::new();
    for m in model {
        let be = b.add_entry(m.name.clone(), m.content.bytes()).map_err(|e| format!("adding final entries failed: {e}"))?;
        apply_meta(be, &m.meta);
        if m.crc {
            be.crc32(m.content.crc());
        }
    }
    plain_archive(b)
}

fn check(c: &Vec<Edit>, cov: &mut Cov) -> Res {
    let mut s: State<Vec<u8>> = State::new();
    let mut rejected = 0;
    for (i, e) in c.iter().enumerate() {
        rejected += u32::from(s.apply(e, &mut Content::bytes)?);
        // Sizes asked in the middle must not matter
        if i % 5 == 4 {
            let _ = s.builder.size();
        }
        // Nor formatting
        if i % 11 == 6 && s.builder.size() < 2000 {
            let _ = format!("{:?} {:?}", s.builder, s.builder.clone().build());
        }
    }
    settle(&mut s.builder, &mut s.model);
    for (b, model, _) in &mut s.left {
        settle(b, model);
    }
    let expected = scratch(&s.model)?;
    let twice = s.builder.clone();
    let size = twice.size();
    ensure!(size == expected.len() as u64, "builder has size {size}, the same entries added from scratch {}", expected.len());
    for (b, what) in [(s.builder, "builder after a history of edits"), (twice, "its clone")] {
        let got = plain_archive(b).map_err(|e| format!("{what}: {e}"))?;
        ensure!(
            got == expected,
            "archive of {what} ({} B) differs from one built from scratch of the final entries ({} B) at {:?}",
            got.len(),
            expected.len(),
            got.iter().zip(&expected).position(|(a, b)| a != b)
        );
    }
    let left = s.left.len();
    for (b, model, _) in s.left {
        let got = plain_archive(b).map_err(|e| format!("builder left behind by cloning: {e}"))?;
        ensure!(got == scratch(&model)?, "edits of a clone changed the archive of the original builder");
    }
    cov.label_if(left > 0, "clones left behind");
    cov.label_if(rejected > 0, "rejected additions");
    cov.label_if(s.model.len() > 10, "over 10 final entries");
    cov.label_if(s.model.len() > 60, "over 60 final entries");
    cov.label_if(s.model.len() > 256, "over 256 final entries");
    cov.nontrivial(!s.model.is_empty() && c.iter().any(Edit::is_map_edit));
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P26",
        rule: "Case = history of additions (also rejected ones), removals, reorderings, replacements, metadata and CRC edits and clones; in part many there are 20 to 700 entries. Non-trivial: some final entry and some edit through the entry map.",
        assumptions: &[],
        parts: vec![
            Box::new(Part { name: "edits", quick: 240_000, thorough: 24_000_000, strat, check }),
            Box::new(Part { name: "many", quick: 4000, thorough: 400_000, strat: many_strat, check }),
        ],
    }
}
