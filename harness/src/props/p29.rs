//! P29 Open files are bounded

use crate::engine::*;
use crate::fsx::*;
use crate::model::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use std::pin::Pin;
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt as _, AsyncSeekExt as _};
use zippity::{Builder, FilesystemEntry, Reader};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FOp {
    Read { who: u8, buf: u32, n: u16 },
    /// One poll, whatever its result
    Poll { who: u8, buf: u32 },
    ToEnd { who: u8, buf: u32 },
    Seek { who: u8, how: u8, at: u16 },
    Clone { who: u8 },
    Take { who: u8 },
    Drop { who: u8 },
    Stream { who: u8, n: u8, back: bool },
    Respond { who: u8, n: u8, channel: bool },
    /// The file with this index is deleted / truncated
    Remove { which: u8 },
    Truncate { which: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    nodes: Vec<Node>,
    /// Added one by one, not as a directory
    single: bool,
    /// The first clone is made of the builder
    clone_builder: bool,
    crcs: bool,
    ops: Vec<FOp>,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let who = any::<u8>;
    let op = prop_oneof![
        5 => (who(), buf_len(), 1u16..30).prop_map(|(who, buf, n)| FOp::Read { who, buf, n }),
        3 => (who(), buf_len()).prop_map(|(who, buf)| FOp::Poll { who, buf }),
        2 => (who(), buf_len()).prop_map(|(who, buf)| FOp::ToEnd { who, buf }),
        3 => (who(), 0u8..3, any::<u16>()).prop_map(|(who, how, at)| FOp::Seek { who, how, at }),
        2 => who().prop_map(|who| FOp::Clone { who }),
        1 => who().prop_map(|who| FOp::Take { who }),
        1 => who().prop_map(|who| FOp::Drop { who }),
        1 => (who(), 0u8..20, any::<bool>()).prop_map(|(who, n, back)| FOp::Stream { who, n, back }),
        1 => (who(), 0u8..20, any::<bool>()).prop_map(|(who, n, channel)| FOp::Respond { who, n, channel }),
        1 => any::<u8>().prop_map(|which| FOp::Remove { which }),
        1 => any::<u8>().prop_map(|which| FOp::Truncate { which }),
    ];
    (
        prop_oneof![
            5 => proptest::collection::vec(node_strategy(20_000, 3, 12), 1..7),
            1 => proptest::collection::vec(node_strategy(40_000, 2, 10), 15..50),
        ],
        any::<bool>(),
        any::<bool>(),
        any::<bool>(),
        proptest::collection::vec(op, 1..14),
    )
        .prop_map(|(nodes, single, clone_builder, crcs, ops)| Case { nodes, single, clone_builder, crcs, ops })
        .boxed()
}

/// Descriptors of this process in a directory
fn open_files(dir: &Path) -> Result<usize, String> {
    let mut n = 0;
    for f in std::fs::read_dir("/proc/self/fd").map_err(|e| format!("ERROR listing descriptors: {e}"))? {
        let Ok(f) = f else { continue };
        // It might be closed by now
        if let Ok(p) = std::fs::read_link(f.path()) {
            if p.starts_with(dir) {
                n += 1;
            }
        }
    }
    Ok(n)
}

/// Closing may take a moment, it's done by other threads
fn at_most(dir: &Path, limit: usize, what: &str) -> Res {
    let start = Instant::now();
    loop {
        let n = open_files(dir)?;
        if n <= limit {
            return Ok(());
        }
        ensure!(start.elapsed() < Duration::from_secs(10), "{what}: {n} files are open, {limit} have to be enough");
        block_on(async { tokio::time::sleep(Duration::from_millis(1)).await });
    }
}

struct Live {
    r: Pin<Box<Reader<FilesystemEntry>>>,
    /// May hold an open file
    busy: bool,
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let s = Scratch::new()?;
    let dir = std::fs::canonicalize(s.dir.path()).map_err(|e| format!("ERROR scratch: {e}"))?;
    let mut objs = BTreeMap::new();
    create(&s, &s.tree.clone(), &c.nodes, "", &mut objs)?;
    let files: Vec<_> = objs.values().filter(|o| matches!(&o.kind, Kind::File(b) if !b.is_empty())).collect();
    let mut b: Builder<FilesystemEntry> = Builder::new();
    if c.single {
        for (i, o) in objs.values().enumerate() {
            let m = std::fs::symlink_metadata(&o.path).map_err(|e| format!("ERROR metadata: {e}"))?;
            block_on(b.add_filesystem_entry(format!("e{i}"), o.path.clone(), &m)).map_err(|e| format!("adding an object failed: {e}"))?;
        }
    } else {
        block_on(b.add_directory_recursive(s.tree.clone(), None)).map_err(|e| format!("adding a directory failed: {e}"))?;
    }
    if c.crcs {
        // Seeks inside of entries
        for e in b.get_entries_mut().values_mut() {
            e.crc32(0);
        }
    }
    at_most(&dir, 0, "after objects were added")?;
    let mut live: Vec<Live> = Vec::new();
    if c.clone_builder {
        live.push(Live { r: Box::pin(b.clone().build()), busy: false });
    }
    live.push(Live { r: Box::pin(b.build()), busy: false });
    at_most(&dir, 0, "after the archive was built")?;
    let mut held = 0;
    for (n, op) in c.ops.iter().enumerate() {
        if live.is_empty() {
            break;
        }
        let k = live.len();
        let index = |who: u8| usize::from(who) % k;
        match op {
            FOp::Read { who, buf, n } => {
                let l = &mut live[index(*who)];
                l.busy = true;
                let mut store = vec![0; (*buf as usize).clamp(1, 100_000)];
                for _ in 0..*n {
                    if !matches!(block_on(l.r.read(&mut store)), Ok(n) if n > 0) {
                        break;
                    }
                }
                if l.r.tell() >= l.r.size() {
                    l.busy = false;
                }
            }
            FOp::Poll { who, buf } => {
                let l = &mut live[index(*who)];
                l.busy = true;
                let mut store = vec![0; (*buf as usize).clamp(1, 100_000)];
                block_on(async {
                    std::future::poll_fn(|cx| {
                        let mut rb = tokio::io::ReadBuf::new(&mut store);
                        let _ = tokio::io::AsyncRead::poll_read(l.r.as_mut(), cx, &mut rb);
                        std::task::Poll::Ready(())
                    })
                    .await;
                });
            }
            FOp::ToEnd { who, buf } => {
                let l = &mut live[index(*who)];
                l.busy = true;
                let mut store = vec![0; (*buf as usize).clamp(l.r.size() as usize / 500 + 1, 200_000)];
                let limit = l.r.size() * 4 + (1 << 20);
                let mut got = 0;
                loop {
                    match block_on(l.r.read(&mut store)) {
                        Ok(0) => {
                            l.busy = false;
                            cov.label("read to the end");
                            break;
                        }
                        Ok(n) => got += n as u64,
                        Err(_) => {
                            cov.label("failed read");
                            break;
                        }
                    }
                    ensure!(got < limit, "reading of the archive does not end");
                }
            }
            FOp::Seek { who, how, at } => {
                let l = &mut live[index(*who)];
                let pos = (u128::from(l.r.size()) * u128::from(*at) / 65535) as u64;
                match how {
                    0 => l.r.seek_from_start_mut(pos),
                    1 => l.r.as_mut().seek_from_start_pinned(pos),
                    _ => {
                        if let Err(e) = block_on(l.r.seek(std::io::SeekFrom::Start(pos))) {
                            fail!("seek failed: {e}");
                        }
                    }
                }
                // A file that was open may stay so for later reads
            }
            FOp::Clone { who } => {
                let r = Reader::clone(&live[index(*who)].r);
                live.push(Live { r: Box::pin(r), busy: false });
                cov.label("cloned");
            }
            FOp::Take { who } => {
                // The rest of the original is dropped later
                let r = live[index(*who)].r.as_mut().take_pinned();
                live[index(*who)].busy = false;
                live.push(Live { r: Box::pin(r), busy: false });
                cov.label("taken");
            }
            FOp::Drop { who } => {
                live.swap_remove(index(*who));
            }
            FOp::Stream { who, n, back } => {
                let l = live.swap_remove(index(*who));
                // It's Unpin only in the box
                let r = Reader::clone(&l.r);
                drop(l);
                let mut st = Box::pin(r.into_bytes_stream());
                for _ in 0..*n {
                    match block_on(std::future::poll_fn(|cx| futures_core::Stream::poll_next(st.as_mut(), cx))) {
                        Some(Ok(_)) => {}
                        _ => break,
                    }
                }
                if *back {
                    let r = st.as_mut().reader_pin_mut().take_pinned();
                    live.push(Live { r: Box::pin(r), busy: false });
                }
                cov.label("stream");
            }
            FOp::Respond { who, n, channel } => {
                use actix_web::Responder as _;
                use actix_web::body::MessageBody as _;
                let l = live.swap_remove(index(*who));
                let r = Reader::clone(&l.r);
                drop(l);
                let req = actix_web::test::TestRequest::get().to_http_request();
                let mut received = None;
                let resp = if *channel {
                    let (a, rx) = r.into_responder_with_channel();
                    received = Some(rx);
                    a.respond_to(&req)
                } else {
                    r.into_responder().respond_to(&req)
                };
                let mut body = resp.into_body();
                for _ in 0..*n {
                    match block_on(std::future::poll_fn(|cx| Pin::new(&mut body).poll_next(cx))) {
                        Some(Ok(_)) => {}
                        _ => break,
                    }
                }
                drop(body);
                if let Some(rx) = received {
                    let Ok(r) = block_on(rx) else { fail!("the reader did not come back") };
                    live.push(Live { r: Box::pin(r), busy: false });
                }
                cov.label("response");
            }
            FOp::Remove { which } | FOp::Truncate { which } => {
                if files.is_empty() {
                    continue;
                }
                let f = &files[usize::from(*which) % files.len()].path;
                if matches!(op, FOp::Remove { .. }) {
                    let _ = std::fs::remove_file(f);
                } else if let Ok(f) = std::fs::OpenOptions::new().write(true).open(f) {
                    let _ = f.set_len(1);
                }
            }
        }
        let limit = live.iter().filter(|l| l.busy).count();
        at_most(&dir, limit, &format!("after operation {n} with {} readers", live.len()))?;
        held += open_files(&dir)?;
    }
    drop(live);
    at_most(&dir, 0, "after everything was dropped")?;
    cov.nontrivial(files.len() > 1 && held > 0);
    cov.label_if(files.len() > 10, "more than 10 files");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P29",
        rule: "Case = directory tree added at once or by objects, and operations on readers of the archive (reads, single polls, seeks, clones, takes, \
streams, HTTP responses, files deleted and truncated meanwhile). Non-trivial: at least two non-empty files, and a file was open at some check.",
        assumptions: &["Descriptors are given 10 s to be closed by the threads of tokio"],
        parts: vec![Box::new(Part { name: "descriptors", quick: 12_000, thorough: 1_200_000, strat, check })],
    }
}
