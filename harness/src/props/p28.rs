//! P28 Readers of filesystem entries are faithful seekable streams

use crate::engine::*;
use crate::fsx::*;
use crate::hist::short;
use crate::model::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::poll_fn;
use std::io::SeekFrom;
use std::os::unix::ffi::OsStrExt as _;
use std::pin::Pin;
use tokio::io::{AsyncRead as _, AsyncSeek as _, ReadBuf};
use zippity::{EntryData, FilesystemEntry};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    Read { len: u32, pre: u8, uninit: bool },
    ToEnd { len: u32 },
    /// Absolute / relative to the end / relative to the position, so that it arrives at the position
    To { how: u8, at: At },
    /// Offsets as they are
    Raw { how: u8, by: i64 },
    /// Go on with the other reader of the same data
    Other,
    Reopen,
    Size,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum At {
    Frac(u16),
    /// From the end
    End(i16),
    Start(u8),
    /// From the current position
    Here(i32),
    Far(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: u8,
    content: Content,
    ops: Vec<ROp>,
    /// A file with holes in place of one with the content
    #[serde(default)]
    holey: Option<Holey>,
}

enum Truth<'a> {
    Mem(&'a [u8]),
    Holey(&'a Holey),
}

impl Truth<'_> {
    fn len(&self) -> u64 {
        match self {
            Truth::Mem(b) => b.len() as u64,
            Truth::Holey(h) => h.len,
        }
    }
    /// Bytes from a position, fewer at the end
    fn window(&self, at: u64, n: usize) -> Vec<u8> {
        match self {
            Truth::Mem(b) => {
                let at = at.min(b.len() as u64) as usize;
                b[at..(at + n).min(b.len())].to_vec()
            }
            Truth::Holey(h) => h.window(at, n),
        }
    }
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let at = prop_oneof![
        4 => any::<u16>().prop_map(At::Frac),
        3 => (-8i16..8).prop_map(At::End),
        1 => any::<i16>().prop_map(At::End),
        2 => (0u8..5).prop_map(At::Start),
        2 => (-20i32..20).prop_map(At::Here),
        1 => (-9000i32..9000).prop_map(At::Here),
        1 => prop_oneof![
            (0u32..64, -2i64..3).prop_map(|(b, d)| (1u64 << b).wrapping_add_signed(d)),
            any::<u64>(),
        ].prop_map(At::Far),
    ];
    let raw = prop_oneof![
        3 => -40i64..40,
        1 => any::<i64>(),
        1 => prop_oneof![Just(i64::MIN), Just(i64::MAX), Just(i64::MIN + 1), Just(i64::MAX - 1), Just(-1i64 << 32), Just(1i64 << 32)],
    ];
    let op = prop_oneof![
        6 => (prop_oneof![3 => 0u32..20, 2 => buf_len()], 0u8..4, any::<bool>()).prop_map(|(len, pre, uninit)| ROp::Read { len, pre, uninit }),
        1 => buf_len().prop_map(|len| ROp::ToEnd { len }),
        5 => (0u8..3, at).prop_map(|(how, at)| ROp::To { how, at }),
        2 => (0u8..3, raw).prop_map(|(how, by)| ROp::Raw { how, by }),
        1 => Just(ROp::Other),
        1 => Just(ROp::Reopen),
        1 => Just(ROp::Size),
    ];
    let content = prop_oneof![3 => content_strategy(60), 2 => content_strategy(20_000), 1 => nonempty_content(200_000)];
    (0u8..6, content, proptest::collection::vec(op, 1..30)).prop_map(|(kind, content, ops)| Case { kind, content, ops, holey: None }).boxed()
}

fn sparse_strat(ctx: &Ctx) -> BoxedStrategy<Case> {
    (strat(ctx), holey_strategy(42), proptest::collection::vec((any::<u16>(), 0u8..3, -30i32..30, 1u32..500), 1..6))
        .prop_map(|(mut c, holey, probes)| {
            // Seeks to places where something is
            let places = holey.places();
            for (x, how, d, len) in probes {
                let at = places[usize::from(x) % places.len()].saturating_add_signed(d.into());
                c.ops.push(ROp::To { how, at: At::Far(at) });
                c.ops.push(ROp::Read { len, pre: 0, uninit: false });
            }
            c.ops.retain(|o| !matches!(o, ROp::ToEnd { .. }));
            c.kind = 3;
            Case { holey: Some(holey), ..c }
        })
        .boxed()
}

/// Where a seek has to get
fn target(s: SeekFrom, pos: u64, len: u64) -> Option<u64> {
    match s {
        SeekFrom::Start(p) => Some(p),
        SeekFrom::Current(o) => pos.checked_add_signed(o),
        SeekFrom::End(o) => len.checked_add_signed(o),
    }
}

fn sentinel(i: usize) -> u8 {
    (i as u8).wrapping_mul(41) ^ 0x5a
}

/// `far`: positions over this are not tried (limits of the file system)
async fn drive(data: &FilesystemEntry, truth: &Truth<'_>, c: &Case, far: u64, file: bool, cov: &mut Cov) -> Res {
    let len = truth.len();
    let mut readers: Vec<(Pin<Box<<FilesystemEntry as EntryData>::Reader>>, u64)> = Vec::new();
    let open = async || match data.get_reader().await {
        Ok(r) => Ok((Box::pin(r), 0u64)),
        Err(e) => Err(format!("opening failed: {e}")),
    };
    readers.push(open().await?);
    let mut active = 0;
    for (n, op) in c.ops.iter().enumerate() {
        let (r, pos) = &mut readers[active];
        match op {
            ROp::Size => ensure!(data.size() == len, "size {} is reported of data of {len} bytes", data.size()),
            ROp::Other => {
                if readers.len() == 1 {
                    readers.push(open().await?);
                }
                active = 1 - active;
                cov.label("two readers");
            }
            ROp::Reopen => readers[active] = open().await?,
            ROp::Read { .. } | ROp::ToEnd { .. } => {
                let (blen, pre, uninit, all) = match op {
                    ROp::Read { len, pre, uninit } => (*len as usize, usize::from(*pre), *uninit, false),
                    ROp::ToEnd { len: l } => ((*l as usize).max(1).max(len as usize / 300), 0, false, true),
                    _ => unreachable!(),
                };
                loop {
                    let mut store: Vec<u8> = Vec::with_capacity(blen + pre);
                    if !uninit {
                        store.resize(blen + pre, 0);
                    }
                    let mut buf = if uninit {
                        ReadBuf::uninit(&mut store.spare_capacity_mut()[..blen + pre])
                    } else {
                        ReadBuf::new(&mut store)
                    };
                    for i in 0..pre {
                        buf.put_slice(&[sentinel(i)]);
                    }
                    if let Err(e) = poll_fn(|cx| r.as_mut().poll_read(cx, &mut buf)).await {
                        fail!("op {n}: read at {pos} failed: {e}");
                    }
                    let f = buf.filled();
                    ensure!(
                        f.len() >= pre && (0..pre).all(|i| f[i] == sentinel(i)),
                        "op {n}: read at {pos} damaged what the buffer already held"
                    );
                    let got = &f[pre..];
                    let want = truth.window(*pos, got.len());
                    ensure!(got == want, "op {n}: read at {pos} of {len} returned {}, not {}", short(got), short(&want));
                    ensure!(
                        !got.is_empty() || blen == 0 || *pos >= len,
                        "op {n}: end of data is reported at {pos} of {len}"
                    );
                    *pos += got.len() as u64;
                    if !all || got.is_empty() {
                        break;
                    }
                }
            }
            ROp::To { .. } | ROp::Raw { .. } => {
                let s = match op {
                    ROp::To { how, at } => {
                        let t = match at {
                            At::Frac(f) => (u128::from(len) * u128::from(*f) / 65535) as u64,
                            At::End(d) => len.saturating_add_signed(i64::from(*d)),
                            At::Start(p) => u64::from(*p),
                            At::Here(d) => pos.saturating_add_signed(i64::from(*d)),
                            At::Far(p) => *p,
                        };
                        match how {
                            0 => SeekFrom::Start(t),
                            1 => match i64::try_from(i128::from(t) - i128::from(len)) {
                                Ok(o) => SeekFrom::End(o),
                                Err(_) => SeekFrom::Start(t),
                            },
                            _ => match i64::try_from(i128::from(t) - i128::from(*pos)) {
                                Ok(o) => SeekFrom::Current(o),
                                Err(_) => SeekFrom::Start(t),
                            },
                        }
                    }
                    ROp::Raw { how: 1, by } => SeekFrom::End(*by),
                    ROp::Raw { how: 2, by } => SeekFrom::Current(*by),
                    ROp::Raw { by, .. } => SeekFrom::Start(*by as u64),
                    _ => unreachable!(),
                };
                let expected = target(s, *pos, len);
                if expected.is_some_and(|t| t > far) {
                    continue;
                }
                let mut got = r.as_mut().start_seek(s);
                let mut arrived = None;
                if got.is_ok() {
                    match poll_fn(|cx| r.as_mut().poll_complete(cx)).await {
                        Ok(p) => arrived = Some(p),
                        Err(e) => got = Err(e),
                    }
                }
                match (expected, got) {
                    (Some(t), Ok(())) => {
                        ensure!(arrived == Some(t), "op {n}: seek {s:?} at {pos} of {len} arrived at {arrived:?}, not {t}");
                        *pos = t;
                    }
                    (Some(t), Err(e)) => fail!("op {n}: seek {s:?} at {pos} of {len} to {t} failed: {e}"),
                    (None, Ok(())) => fail!("op {n}: impossible seek {s:?} at {pos} of {len} arrived at {arrived:?}"),
                    (None, Err(_)) => {
                        cov.label("refused seek");
                        if file {
                            // What the file made of it is not known
                            readers[active] = open().await?;
                        }
                    }
                }
                cov.label(match s {
                    SeekFrom::Start(_) => "absolute seek",
                    SeekFrom::End(_) => "seek from the end",
                    SeekFrom::Current(_) => "relative seek",
                });
            }
        }
    }
    Ok(())
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let mut b = c.content.bytes();
    cov.nontrivial(
        c.ops.iter().any(|o| matches!(o, ROp::To { .. } | ROp::Raw { .. })) && c.ops.iter().any(|o| matches!(o, ROp::Read { .. } | ROp::ToEnd { .. })),
    );
    if let Some(mut h) = c.holey.clone() {
        let s = Scratch::new()?;
        let path = s.tree.join("f");
        h.write(&path)?;
        let m = std::fs::symlink_metadata(&path).map_err(|e| format!("ERROR metadata: {e}"))?;
        let d = block_on(FilesystemEntry::with_metadata(path, &m)).map_err(|e| format!("file: {e}"))?;
        cov.label_if(h.len >= 1 << 32, "file of 2^32 B or more");
        return block_on(drive(&d, &Truth::Holey(&h), c, 1 << 40, true, cov)).map_err(|e| format!("file with holes: {e}"));
    }
    match c.kind {
        0..3 => {
            let s = Scratch::new()?;
            let path = s.tree.join("l");
            b.truncate(4000);
            b.iter_mut().for_each(|x| *x = (*x).max(1));
            if b.is_empty() {
                b.push(b'x');
            }
            std::os::unix::fs::symlink(std::ffi::OsStr::from_bytes(&b), &path).map_err(|e| format!("ERROR link: {e}"))?;
            let m = std::fs::symlink_metadata(&path).map_err(|e| format!("ERROR metadata: {e}"))?;
            let d = block_on(FilesystemEntry::with_metadata(path.clone(), &m)).map_err(|e| format!("link: {e}"))?;
            if c.kind == 1 {
                // The target was read already
                std::fs::remove_file(&path).map_err(|e| format!("ERROR remove: {e}"))?;
            }
            cov.label("link");
            let d = if c.kind == 2 { d.clone() } else { d };
            block_on(drive(&d, &Truth::Mem(&b), c, u64::MAX, false, cov)).map_err(|e| format!("link: {e}"))
        }
        _ => {
            let s = Scratch::new()?;
            let path = s.tree.join("f");
            std::fs::write(&path, &b).map_err(|e| format!("ERROR file: {e}"))?;
            let m = std::fs::symlink_metadata(&path).map_err(|e| format!("ERROR metadata: {e}"))?;
            let d = block_on(FilesystemEntry::with_metadata(path, &m)).map_err(|e| format!("file: {e}"))?;
            cov.label("file");
            block_on(drive(&d, &Truth::Mem(&b), c, 1 << 40, true, cov)).map_err(|e| format!("file: {e}"))
        }
    }
}

pub fn property() -> Property {
    Property {
        id: "P28",
        rule: "Case = file or link (possibly deleted after the entry was made) and operations on one or two readers of the entry: reads with all \
kinds of buffers, absolute and relative seeks including impossible ones, reopening. Part 'sparse': the same on files with holes, up to 2^42 bytes long. Non-trivial: at least one seek and one read.",
        assumptions: &[
            "Seeks of files over 2^40 are not tried, limits of file systems differ",
            "Position of a file reader after a refused seek is not judged",
        ],
        parts: vec![
            Box::new(Part { name: "readers", quick: 25_000, thorough: 2_500_000, strat, check }),
            Box::new(Part { name: "sparse", quick: 4_000, thorough: 400_000, strat: sparse_strat, check }),
        ],
    }
}
