//! P01 Complete reads are valid ZIP files with exactly the added entries

use crate::engine::*;
use crate::exec;
use crate::hist::*;
use crate::model::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Read;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ents: Vec<Ent>,
    bufs: Vec<u32>,
}

impl Case {
    pub fn has_meta(&self) -> bool {
        self.ents.iter().any(|e| !e.meta.is_empty())
    }
}

pub fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let p = Params { crc_weight: 20, meta: 3, ..Params::default() };
    let ents = prop_oneof![
        6 => ents_strategy(p),
        4 => proptest::collection::vec(ent_strategy(Params { long_names: 100, max_len: 3000, ..p }), 0..6),
        1 => proptest::collection::vec(ent_strategy(Params { max_len: 40, long_names: 0, ..p }), 20..120),
    ];
    (ents, proptest::collection::vec(buf_len(), 1..4))
        .prop_map(|(ents, bufs)| Case { ents, bufs })
        .boxed()
}

/// Complete read through scripted sources
pub fn produce(c: &Case) -> Result<(Vec<String>, Vec<Vec<u8>>, Vec<u8>), String> {
    let names = names_of(&c.ents);
    let contents: Vec<Vec<u8>> = c.ents.iter().map(|e| e.content.bytes()).collect();
    let w = crate::source::world(
        c.ents
            .iter()
            .enumerate()
            .map(|(i, e)| crate::source::SrcSpec {
                data: crate::source::Data::Mem(contents[i].clone().into()),
                reported: contents[i].len() as u64,
                sched: e.sched.clone(),
                faults: vec![],
            })
            .collect(),
        budget(&c.ents, 10),
    );
    w.borrow_mut().keep_log = false;
    let mut b = zippity::Builder::<crate::source::Src>::new();
    for (i, e) in c.ents.iter().enumerate() {
        let be = b
            .add_entry(names[i].clone(), crate::source::Src { id: i, w: w.clone() })
            .map_err(|x| format!("adding a valid entry failed: {x}"))?;
        apply_meta(be, &e.meta);
        if e.crc {
            be.crc32(crc32fast::hash(&contents[i]));
        }
    }
    let mut r = b.build();
    let mut out = Vec::new();
    let total: u64 = contents.iter().map(|c| c.len() as u64).sum::<u64>()
        + names.iter().map(|n| 2 * n.len() as u64 + 400).sum::<u64>()
        + 1000;
    let mut pend = 0u64;
    'all: loop {
        for l in &c.bufs {
            let len = sane_len(*l, total / c.bufs.len() as u64);
            match exec::poll_read(std::pin::Pin::new(&mut r), len, 0, false).result {
                std::task::Poll::Ready(Ok(v)) => {
                    if v.is_empty() {
                        break 'all;
                    }
                    out.extend(v);
                }
                std::task::Poll::Ready(Err(e)) => fail!("complete read failed: {e}"),
                std::task::Poll::Pending => {
                    pend += 1;
                    ensure!(pend < 3_000_000, "read stays pending forever");
                }
            }
            ensure!(out.len() as u64 <= 4 * total, "the archive doesn't end");
        }
    }
    Ok((names, contents, out))
}

fn zip_crate(c: &Case, cov: &mut Cov) -> Res {
    let (names, contents, out) = produce(c)?;
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(&out)).map_err(|e| format!("zip crate can't open the archive: {e}"))?;
    ensure!(z.len() == names.len(), "zip crate sees {} entries, {} were added", z.len(), names.len());
    for i in 0..names.len() {
        let mut f = z.by_index(i).map_err(|e| format!("zip crate can't open entry {i}: {e}"))?;
        ensure!(f.name_raw() == names[i].as_bytes(), "entry {i}: name {:?}, added as {:?}", f.name(), names[i]);
        ensure!(f.compression() == zip::CompressionMethod::Stored, "entry {i} isn't stored");
        ensure!(
            f.size() == contents[i].len() as u64 && f.compressed_size() == f.size(),
            "entry {i}: size {} / {}, added {} B",
            f.size(),
            f.compressed_size(),
            contents[i].len()
        );
        ensure!(f.crc32() == crc32fast::hash(&contents[i]), "entry {i}: recorded CRC {:08x}", f.crc32());
        let mut v = Vec::new();
        f.read_to_end(&mut v).map_err(|e| format!("zip crate can't read entry {i}: {e}"))?;
        ensure!(v == contents[i], "entry {i}: content differs");
    }
    // Own parser: the same, and nothing else in the file
    let p = crate::zipparse::parse_mem_full(&out)?;
    ensure!(p.entries.len() == names.len(), "parser sees {} entries", p.entries.len());
    for (i, e) in p.entries.iter().enumerate() {
        ensure!(e.name == names[i].as_bytes(), "entry {i}: name differs");
        ensure!(
            out[e.data_off as usize..e.desc_off as usize] == contents[i][..],
            "entry {i}: content differs"
        );
        ensure!(e.crc == crc32fast::hash(&contents[i]), "entry {i}: CRC differs");
    }
    cov.nontrivial(!names.is_empty());
    cov.label_if(names.is_empty(), "empty archive");
    cov.label_if(names.iter().any(String::is_empty), "empty name");
    cov.label_if(names.iter().any(|n| n.len() > 8192), "long name");
    cov.label_if(names.iter().any(|n| n.len() >= 65533), "name of at least 65533 B");
    cov.label_if(names.iter().any(|n| !n.is_ascii()), "non-ASCII name");
    cov.label_if(names.iter().any(|n| n.contains('\0')), "NUL in a name");
    cov.label_if(contents.iter().any(|c| c.len() > 16384), "content over 16 kB");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Batch {
    cases: Vec<Case>,
    java: bool,
}

fn batch_strat(ctx: &Ctx) -> BoxedStrategy<Batch> {
    let tame_name = proptest::string::string_regex("[a-z0-9]{1,8}(/[a-zé€]{1,8}){0,3}(\\.[a-z]{1,3})?").unwrap().prop_map(Name::Lit);
    let tame = (proptest::collection::vec((tame_name, content_strategy(45000), any::<bool>()), 0..12), proptest::collection::vec(buf_len(), 1..4))
        .prop_map(|(v, bufs)| Case {
            ents: v
                .into_iter()
                .map(|(name, content, crc)| Ent { name, content, crc, meta: vec![], sched: Default::default() })
                .collect(),
            bufs,
        });
    let java = ctx.tier == Tier::Thorough;
    proptest::collection::vec(prop_oneof![1 => strat(ctx), 1 => tame], 24..40)
        .prop_map(move |cases| Batch { cases, java })
        .boxed()
}

fn is_tame(names: &[String]) -> bool {
    names.iter().all(|n| {
        !n.is_empty()
            && n.len() < 200
            && n.chars().all(|c| c.is_ascii_alphanumeric() || "/._-".contains(c) || c == 'é' || c == '€')
            && !n.starts_with('/')
            && !n.contains("//")
            && !n.contains("..")
            && !n.ends_with('/')
    })
}

/// Batches of archives opened by readers outside of this process
fn external(b: &Batch, cov: &mut Cov) -> Res {
    let dir = tempfile::Builder::new().prefix("zv-p01-").tempdir().expect("scratch directory");
    for (n, c) in b.cases.iter().enumerate() {
        let (names, contents, out) = produce(c)?;
        std::fs::write(dir.path().join(format!("{n}.zip")), &out).expect("scratch");
        std::fs::write(dir.path().join(format!("{n}.bin")), contents.concat()).expect("scratch");
        let entries: Vec<(String, usize)> = names
            .iter()
            .zip(&contents)
            .map(|(a, b)| (a.bytes().map(|b| format!("{b:02x}")).collect(), b.len()))
            .collect();
        let plain = c.ents.iter().all(|e| !e.meta.iter().any(|m| matches!(m, MetaOp::Dir | MetaOp::Sym)));
        let js = serde_json::json!({"tame": plain && is_tame(&names), "entries": entries});
        std::fs::write(dir.path().join(format!("{n}.json")), js.to_string()).expect("scratch");
    }
    let script = dir.path().join("readers.py");
    std::fs::write(&script, include_str!("../../readers.py")).expect("scratch");
    let out = std::process::Command::new("python3")
        .arg(&script)
        .arg(dir.path())
        .arg(if b.java { "java" } else { "" })
        .env("LC_ALL", "C.UTF-8")
        .output()
        .expect("python3 is needed");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    if let Some(l) = text.lines().find(|l| l.starts_with("BAD ")) {
        fail!("independent reader complains: {l}");
    }
    let done = text.lines().find_map(|l| l.strip_prefix("DONE "));
    assert!(done.is_some(), "readers.py failed: {text} {}", String::from_utf8_lossy(&out.stderr));
    let done = done.unwrap_or_default();
    if let Some((_, js)) = done.split_once(' ') {
        if let Ok(v) = serde_json::from_str::<std::collections::BTreeMap<String, u64>>(js) {
            for (k, n) in v {
                cov.add(&format!("archives opened by {k}"), n);
            }
        }
    }
    cov.nontrivial(true);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P01",
        rule: "Case 'zipcrate' = entry table (all classes of names, contents, metadata, source schedules, buffer sizes), complete read, opened by \
the zip crate and by the harness parser; 'external' = batch of 24-39 such archives opened by Python zipfile, libarchive, unzip (and Java in the thorough tier). \
Non-trivial: at least one entry.",
        assumptions: &["unzip, libarchive and Java only get archives with short plain names (they have limits of their own)"],
        parts: vec![
            Box::new(Part { name: "zipcrate", quick: 40_000, thorough: 4_000_000, strat, check: zip_crate }),
            Box::new(Part { name: "external", quick: 200, thorough: 20_000, strat: batch_strat, check: external }),
        ],
    }
}
