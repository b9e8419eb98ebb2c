//! P27 Kind of the source is invisible

use crate::engine::*;
use crate::exec::poll_read;
use crate::hist::*;
use crate::model::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;
use zippity::{Builder, EntryData, FilesystemEntry, Reader};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    h: Hist,
    /// Contents are UTF-8 text, so that String can be used
    text: bool,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let p = Params { max_entries: 4, max_ops: 16, crc_weight: 50, clone_take: 1, ..Params::default() };
    (
        prop_oneof![
            1 => hist_strategy(p),
            1 => hist_strategy(Params { max_len: 100, long_names: 0, ..p })
        ],
        any::<bool>(),
    )
        .prop_map(|(h, text)| Case { h, text })
        .boxed()
}

fn large(_: &Ctx) -> BoxedStrategy<Case> {
    (large_hist_strategy(Params { crc_weight: 50, ..Params::default() }), any::<bool>())
        .prop_map(|(h, text)| Case { h, text })
        .boxed()
}

fn contents(c: &Case) -> Vec<Vec<u8>> {
    c.h.ents
        .iter()
        .map(|e| {
            let mut b = e.content.bytes();
            if c.text {
                for x in &mut b {
                    *x &= 0x7f;
                }
            }
            b
        })
        .collect()
}

fn build<D: EntryData>(c: &Case, names: &[String], crcs: &[u32], data: Vec<D>) -> Result<Reader<D>, String> {
    let mut b: Builder<D> = Builder::new();
    for ((e, d), (n, crc)) in c.h.ents.iter().zip(data).zip(names.iter().zip(crcs)) {
        let be = b.add_entry(n.clone(), d).map_err(|e| e.to_string())?;
        apply_meta(be, &e.meta);
        if e.crc {
            be.crc32(*crc);
        }
    }
    Ok(b.build())
}

/// Runs the history and returns (position, delivered bytes) of all reads, merged to maximal pieces
fn run<D: EntryData>(kind: &str, c: &Case, r: &mut Reader<D>, truth: &[u8], boundaries: &[u64]) -> Res
where
    Reader<D>: Unpin,
    D: Clone,
{
    let size = truth.len() as u64;
    ensure!(r.size() == size, "{kind}: size {} instead of {size}", r.size());
    let mut pos = 0u64;
    let mut ops = c.h.ops.clone();
    ops.push(Op::Seek { how: 2, pos: Pos::Frac(0) });
    ops.push(Op::Burst { len: sane_len(c.h.finish.unwrap_or(5000), size) as u32, n: u16::MAX });
    for op in &ops {
        let (len, n, pre, uninit) = match op {
            Op::Read { len, pre, uninit, .. } => (*len, 1, *pre, *uninit),
            Op::Burst { len, n } => (*len, *n, 0, false),
            Op::Seek { how, pos: p } => {
                let p = p.resolve(boundaries, size);
                if how % 2 == 0 {
                    r.seek_from_start_mut(p);
                } else {
                    Pin::new(&mut *r).seek_from_start_pinned(p);
                }
                pos = p;
                continue;
            }
            Op::Clone { adopt } => {
                let c = r.clone();
                if *adopt {
                    *r = c;
                }
                continue;
            }
            Op::Take => {
                let t = Pin::new(&mut *r).take_pinned();
                *r = t;
                continue;
            }
            _ => continue,
        };
        for _ in 0..n {
            let mut polls = 0u64;
            let v = loop {
                match poll_read(Pin::new(&mut *r), len as usize, pre.into(), uninit).result {
                    Poll::Ready(Ok(v)) => break v,
                    Poll::Ready(Err(e)) => fail!("{kind}: read at {pos} failed: {e}"),
                    Poll::Pending => {
                        polls += 1;
                        if polls > 3 {
                            // Blocking pool of tokio
                            std::thread::yield_now();
                        }
                        ensure!(polls < 200_000_000, "{kind}: read stays pending");
                    }
                }
            };
            if v.is_empty() {
                ensure!(pos >= size || len == 0, "{kind}: end of file at {pos} of {size}");
                break;
            }
            let end = pos + v.len() as u64;
            ensure!(end <= size, "{kind}: bytes past the end");
            ensure!(
                v[..] == truth[pos as usize..end as usize],
                "{kind}: bytes at {pos} differ: {} instead of {}",
                short(&v),
                short(&truth[pos as usize..end as usize])
            );
            pos = end;
        }
    }
    Ok(())
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().max_blocking_threads(2).build().expect("runtime");
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let names = names_of(&c.h.ents);
    let data = contents(c);
    let crcs: Vec<u32> = data.iter().map(|d| crc32fast::hash(d)).collect();
    // Truth: plain slices without CRCs
    let truth = {
        let mut b: Builder<&[u8]> = Builder::new();
        for (i, e) in c.h.ents.iter().enumerate() {
            let be = b.add_entry(names[i].clone(), data[i].as_slice()).map_err(|e| e.to_string())?;
            apply_meta(be, &e.meta);
        }
        crate::exec::read_all(&mut b.build(), 8192).map_err(|e| format!("plain read failed: {e}"))?
    };
    let boundaries = crate::zipparse::parse_mem_full(&truth)?.boundaries;
    let b = &boundaries;

    run("slice", c, &mut build(c, &names, &crcs, data.iter().map(Vec::as_slice).collect())?, &truth, b)?;
    run("Vec", c, &mut build(c, &names, &crcs, data.clone())?, &truth, b)?;
    run("Arc<[u8]>", c, &mut build(c, &names, &crcs, data.iter().map(|d| Arc::<[u8]>::from(d.as_slice())).collect())?, &truth, b)?;
    run("Box<[u8]>", c, &mut build(c, &names, &crcs, data.iter().map(|d| d.clone().into_boxed_slice()).collect())?, &truth, b)?;
    run("Bytes", c, &mut build(c, &names, &crcs, data.iter().map(|d| bytes::Bytes::from(d.clone())).collect())?, &truth, b)?;
    run("Rc<Vec>", c, &mut build(c, &names, &crcs, data.iter().map(|d| RcVec(std::rc::Rc::new(d.clone()))).collect())?, &truth, b)?;
    if c.text {
        let s: Vec<String> = data.iter().map(|d| String::from_utf8(d.clone()).expect("text")).collect();
        run("String", c, &mut build(c, &names, &crcs, s.clone())?, &truth, b)?;
        run("&str", c, &mut build(c, &names, &crcs, s.iter().map(String::as_str).collect())?, &truth, b)?;
        cov.label("text");
    }
    // Custom asynchronous sources
    let w = crate::source::world(
        c.h.ents
            .iter()
            .zip(&data)
            .map(|(e, d)| crate::source::SrcSpec {
                data: crate::source::Data::Mem(d.clone().into()),
                reported: d.len() as u64,
                sched: e.sched.clone(),
                faults: vec![],
            })
            .collect(),
        u64::MAX,
    );
    w.borrow_mut().keep_log = false;
    let srcs = (0..data.len()).map(|id| crate::source::Src { id, w: w.clone() }).collect();
    run("custom source", c, &mut build(c, &names, &crcs, srcs)?, &truth, b)?;
    // Files
    if c.h.ops.len() % 4 == 0 {
        cov.label("files");
        let dir = tempfile::Builder::new().prefix("zv-p27-").tempdir().expect("scratch directory");
        RT.with(|rt| {
            rt.block_on(tokio::task::unconstrained(async {
                let mut fs = Vec::new();
                for (i, d) in data.iter().enumerate() {
                    let p = dir.path().join(i.to_string());
                    std::fs::write(&p, d).expect("scratch");
                    let md = std::fs::symlink_metadata(&p).expect("scratch");
                    fs.push(
                        FilesystemEntry::with_metadata(p, &md)
                            .await
                            .map_err(|e| format!("constructing a filesystem entry failed: {e}"))?,
                    );
                }
                run("file", c, &mut build(c, &names, &crcs, fs)?, &truth, b)
            }))
        })?;
    }
    cov.nontrivial(data.iter().any(|d| !d.is_empty()) && c.h.ops.iter().any(|o| matches!(o, Op::Seek { .. })));
    cov.label_if(c.h.ents.iter().any(|e| e.crc), "known CRCs");
    Ok(())
}

#[derive(Clone)]
struct RcVec(std::rc::Rc<Vec<u8>>);
impl AsRef<[u8]> for RcVec {
    fn as_ref(&self) -> &[u8] {
        self.0.as_slice()
    }
}

/// Digest of archives generated from a seed, for comparing processes
pub fn digest(seed: u64) -> u64 {
    use proptest::strategy::ValueTree;
    use proptest::test_runner::*;
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    let mut runner = TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &s),
    );
    let ctx = Ctx { seed, tier: Tier::Quick, property: "P27", deadline: None };
    let st = strat(&ctx);
    let mut h = 0u64;
    for _ in 0..40 {
        let c = st.new_tree(&mut runner).expect("generator").current();
        let names = names_of(&c.h.ents);
        let mut b: Builder<Vec<u8>> = Builder::new();
        for (e, n) in c.h.ents.iter().zip(&names) {
            let _ = b.add_entry(n.clone(), e.content.bytes()).map(|be| apply_meta(be, &e.meta));
        }
        let bytes = crate::exec::plain_archive(b).unwrap_or_default();
        h = mix(h ^ fnv(&bytes));
    }
    h
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Proc {
    seed: u64,
    env: Vec<(String, String)>,
}

fn proc_strat(_: &Ctx) -> BoxedStrategy<Proc> {
    (
        any::<u64>(),
        proptest::collection::vec(
            proptest::sample::select(vec![
                ("TZ", "America/New_York"),
                ("TZ", "Asia/Kathmandu"),
                ("LC_ALL", "tr_TR.UTF-8"),
                ("HOME", "/nonexistent"),
                ("SOURCE_DATE_EPOCH", "1"),
                ("USER", "someone"),
            ]),
            0..4,
        ),
    )
        .prop_map(|(seed, env)| Proc {
            seed,
            env: env.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        })
        .boxed()
}

/// Same archives made by an other process, at an other time, in an other environment
fn process(c: &Proc, cov: &mut Cov) -> Res {
    let here = digest(c.seed);
    let exe = std::env::current_exe().expect("own path");
    // DOS timestamps have a resolution of 2 s, make the processes run at visibly different times
    std::thread::sleep(std::time::Duration::from_millis(2100));
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("digest").arg(c.seed.to_string()).current_dir("/");
    for (k, v) in &c.env {
        cmd.env(k, v);
    }
    let out = cmd.output().expect("running itself");
    assert!(out.status.success(), "child failed");
    let there = String::from_utf8_lossy(&out.stdout).trim().to_string();
    ensure!(format!("{here:016x}") == there, "archives made by another process differ");
    ensure!(digest(c.seed) == here, "archives made later differ");
    cov.nontrivial(true);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P27",
        rule: "Case 'kinds' = history executed on the same archive backed by slices, vectors, boxes, Arc, Bytes, strings, a custom asynchronous source and files; \
non-trivial: entry with data and a seek. Case 'process' = 40 generated archives made by this and by another process later, in another environment.",
        assumptions: &[],
        parts: vec![
            Box::new(Part { name: "kinds", quick: 12_000, thorough: 1_200_000, strat, check }),
            Box::new(Part { name: "large", quick: 1200, thorough: 120000, strat: large, check }),
            Box::new(Part { name: "process", quick: 32, thorough: 3_200, strat: proc_strat, check: process }),
        ],
    }
}
