//! P03 Size is exact and known ahead
use crate::engine::*;
use crate::edits::*;
use crate::exec;
use crate::hist::*;
use crate::model::*;
use crate::source::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use zippity::Builder;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    edits: Vec<Edit>,
    /// Check sizes after every operation, not just at the end
    often: bool,
    ops: Vec<Op>,
    buf: u32,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    (
        proptest::collection::vec(edit_strategy(true), 0..14),
        any::<bool>(),
        proptest::collection::vec(op_strategy(Params::default()), 0..8),
        buf_len(),
    )
        .prop_map(|(edits, often, ops, buf)| Case { edits, often, ops, buf })
        .boxed()
}

fn many_strat(_: &Ctx) -> BoxedStrategy<Case> {
    (many_strategy(edit_strategy(true), 10), proptest::collection::vec(op_strategy(Params::default()), 0..8), buf_len())
        .prop_map(|(edits, ops, buf)| Case { edits, often: true, ops, buf: buf.max(64) })
        .boxed()
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let mut st = State::<Src>::new();
    let w = world(vec![], 10_000_000);
    let mut maker = |content: &Content| -> Src {
        let mut wb = w.borrow_mut();
        let id = wb.srcs.len();
        let bytes = content.bytes();
        wb.srcs.push(SrcSpec {
            reported: bytes.len() as u64,
            data: Data::Mem(bytes.into()),
            sched: Sched::default(),
            faults: vec![],
        });
        wb.counters.push(Counters::default());
        wb.pulled.push(0);
        Src { id, w: w.clone() }
    };
    let mut rejected = 0;
    let sizes = |b: &Builder<Src>, when: &str| -> Res {
        let (a, r) = (b.size(), b.clone().build().size());
        ensure!(a == r, "{when}: builder reports size {a}, its reader would report {r}");
        Ok(())
    };
    for e in &c.edits {
        rejected += u32::from(st.apply(e, &mut maker)?);
        if c.often {
            sizes(&st.builder, &format!("after {e:?}"))?;
        }
    }
    settle(&mut st.builder, &mut st.model);
    let touched = |what: &str| -> Res {
        let wb = w.borrow();
        if let Some(e) = wb.log.iter().find(|e| !matches!(e, Ev::Size(_))) {
            fail!("{what} touched entry data: {e:?}");
        }
        Ok(())
    };
    let announced = st.builder.size();
    sizes(&st.builder, "at the end")?;
    let names: Vec<String> = st.model.iter().map(|m| m.name.clone()).collect();
    let t = {
        let mut b: Builder<Vec<u8>> = Builder::new();
        for m in &st.model {
            b.add_entry(m.name.clone(), m.content.bytes()).map_err(|e| e.to_string())?;
        }
        ensure!(b.size() == announced, "size after edits is {announced}, builder made from scratch has {}", b.size());
        exec::plain_archive(b)?
    };
    ensure!(t.len() as u64 == announced, "announced size {announced}, complete read delivers {}", t.len());
    let mut r = st.builder.build();
    ensure!(r.size() == announced, "builder reports size {announced}, reader {}", r.size());
    touched("building and asking for size")?;
    // Size is stable, seeks to the end report it
    let boundaries = vec![0, announced / 2, announced];
    for op in &c.ops {
        match op {
            Op::Read { len, .. } => {
                let p = exec::poll_read(Pin::new(&mut r), *len as usize, 0, false);
                if let std::task::Poll::Ready(Err(e)) = p.result {
                    fail!("read failed: {e}");
                }
            }
            Op::Seek { pos, .. } => r.seek_from_start_mut(pos.resolve(&boundaries, announced)),
            Op::Clone { .. } => r = r.clone(),
            Op::Take => r = Pin::new(&mut r).take_pinned(),
            _ => {
                use tokio::io::AsyncSeekExt;
                let n = exec::block_on_simple(r.seek(std::io::SeekFrom::End(0))).map_err(|e| format!("seek to the end failed: {e}"))?;
                ensure!(n == announced, "seek to the end returns {n}, announced size is {announced}");
            }
        }
        ensure!(r.size() == announced, "size changed from {announced} to {} after {op:?}", r.size());
    }
    r.seek_from_start_mut(0);
    let all = exec::read_all_limited(&mut r, sane_len(c.buf, announced), announced + 100_000)
        .map_err(|e| format!("complete read failed: {e}"))?;
    ensure!(all.len() as u64 == announced, "announced size {announced}, complete read delivers {}", all.len());
    ensure!(r.size() == announced, "size changed to {} by a complete read", r.size());
    ensure!(r.tell() == announced, "position after a complete read is {}, size {announced}", r.tell());
    cov.label_if(rejected > 0, "with rejected additions");
    cov.label_if(c.edits.iter().any(Edit::is_map_edit), "with entry map edits");
    cov.label_if(names.iter().any(|n| n.len() > 1000), "long names");
    cov.nontrivial(!names.is_empty() && c.edits.len() > 2);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P03",
        rule: "Case = builder history (additions, additions that have to be rejected, metadata edits, edits of the entry map, entries replaced by copies of others), then reader history; in part many there are 20 to 700 entries. \
Non-trivial: a non-empty result of at least 3 edits.",
        assumptions: &[],
        parts: vec![
            Box::new(Part { name: "sizes", quick: 320_000, thorough: 32_000_000, strat, check }),
            Box::new(Part { name: "many", quick: 3000, thorough: 300_000, strat: many_strat, check }),
        ],
    }
}
