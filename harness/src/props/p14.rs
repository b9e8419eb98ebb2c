//! P14 Archives beyond the classic ZIP limits stay exact

use crate::engine::*;
use crate::fsx::{FsReader, Holey, Scratch, block_on, holey_strategy};
use crate::hist::short;
use crate::model::*;
use crate::source::*;
use crate::zipparse::{Fetch, parse, parse_mem};
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::SeekFrom;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, FilesystemEntry, Reader};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Size {
    Exact(u64),
    /// The local header of the following entry gets to this offset + delta (if possible)
    NextAt(u64, i8),
    /// The whole archive has u64::MAX - n bytes after this entry (if possible)
    Fill(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigEnt {
    name: Name,
    size: Size,
    seed: u32,
    crc: u32,
    meta: Vec<MetaOp>,
    sched: Sched,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ents: Vec<BigEnt>,
    /// Sampled positions of entry data: fraction, length
    probes: Vec<(u64, u16)>,
    hows: Vec<u8>,
}

fn size_strategy() -> BoxedStrategy<Size> {
    let around = |x: u64| (-70i64..70).prop_map(move |d| Size::Exact(x.saturating_add_signed(d)));
    prop_oneof![
        3 => (0u64..5000).prop_map(Size::Exact),
        1 => Just(Size::Exact(0)),
        4 => around(1 << 32),
        1 => around(1 << 31),
        1 => around(1 << 33),
        1 => around(1 << 16),
        2 => around(1 << 63),
        4 => (any::<u64>(), 0u32..64).prop_map(|(x, s)| Size::Exact(x >> s)),
        4 => (prop_oneof![2 => Just(1u64 << 32), 1 => Just(1u64 << 31), 1 => Just(1u64 << 33), 1 => Just(1 << 63), 1 => Just(1 << 48)], any::<i8>())
            .prop_map(|(x, d)| Size::NextAt(x, d)),
        2 => prop_oneof![Just(0u64), 0u64..300, any::<u32>().prop_map(u64::from)].prop_map(Size::Fill),
    ]
    .boxed()
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let sched = prop_oneof![2 => Just(Sched::default()), 1 => sched_strategy()];
    let ent = (name_mix(3), size_strategy(), 0u32..3000, any::<u32>(), meta_ops(1), sched)
        .prop_map(|(name, size, seed, crc, meta, sched)| BigEnt { name, size, seed, crc, meta, sched });
    (
        proptest::collection::vec(ent, 1..7),
        proptest::collection::vec((any::<u64>(), 1u16..3000), 1..8),
        proptest::collection::vec(0u8..5, 1..6),
    )
        .prop_map(|(ents, probes, hows)| Case { ents, probes, hows })
        .boxed()
}

struct Via<'a> {
    r: &'a mut Reader<Src>,
    hows: Vec<u8>,
    n: usize,
}

impl Via<'_> {
    fn seek(&mut self, off: u64) -> Res {
        let how = self.hows[self.n % self.hows.len()];
        self.n += 1;
        let from = match how {
            0 => {
                self.r.seek_from_start_mut(off);
                None
            }
            1 => {
                Pin::new(&mut *self.r).seek_from_start_pinned(off);
                None
            }
            2 => i64::try_from(i128::from(off) - i128::from(self.r.tell())).ok().map(SeekFrom::Current),
            3 => i64::try_from(i128::from(off) - i128::from(self.r.size())).ok().map(SeekFrom::End),
            _ => Some(SeekFrom::Start(off)),
        };
        if how > 1 {
            let from = from.unwrap_or(SeekFrom::Start(off));
            let (_f, wk) = crate::exec::flag();
            Pin::new(&mut *self.r).start_seek(from).map_err(|e| format!("seek {from:?} failed: {e}"))?;
            match Pin::new(&mut *self.r).poll_complete(&mut Context::from_waker(&wk)) {
                Poll::Ready(Ok(x)) => ensure!(x == off, "seek {from:?} returns {x}, not {off}"),
                x => fail!("seek {from:?}: {x:?}"),
            }
        }
        ensure!(self.r.tell() == off, "position is {} after a seek to {off}", self.r.tell());
        Ok(())
    }

    /// Reads up to len bytes
    fn read(&mut self, len: usize) -> Result<Vec<u8>, String> {
        let (_f, wk) = crate::exec::flag();
        let mut cx = Context::from_waker(&wk);
        let start = self.r.tell();
        let mut out = vec![0u8; len];
        let mut n = 0;
        let mut idle = 0;
        while n < len {
            let mut rb = ReadBuf::new(&mut out[n..]);
            match Pin::new(&mut *self.r).poll_read(&mut cx, &mut rb) {
                Poll::Ready(Ok(())) => {
                    let k = rb.filled().len();
                    if k == 0 {
                        break;
                    }
                    n += k;
                    idle = 0;
                }
                Poll::Ready(Err(e)) => fail!("read at {start}+{n} failed: {e}"),
                Poll::Pending => {
                    idle += 1;
                    ensure!(idle < 100_000, "read at {start}+{n} stays pending");
                }
            }
        }
        ensure!(self.r.tell() == start + n as u64, "position is {} after reading {n} bytes at {start}", self.r.tell());
        out.truncate(n);
        Ok(out)
    }
}

impl Fetch for Via<'_> {
    fn size(&self) -> u64 {
        self.r.size()
    }
    fn get(&mut self, off: u64, len: usize) -> Result<Vec<u8>, String> {
        self.seek(off)?;
        let v = self.read(len)?;
        ensure!(v.len() == len, "only {} of {len} bytes are available at {off} of {}", v.len(), self.r.size());
        Ok(v)
    }
}

fn huge(c: &Case, cov: &mut Cov) -> Res {
    let all_names = unique_names(c.ents.iter().map(|e| &e.name));
    let w = world(vec![], 3_000_000);
    w.borrow_mut().keep_log = false;
    let mut b: Builder<Src> = Builder::new();
    // (name, size, seed, crc)
    let mut model: Vec<(String, u64, u32, u32)> = Vec::new();
    for (e, name) in c.ents.iter().zip(all_names) {
        let add = |b: &mut Builder<Src>, size: u64| -> Option<u64> {
            let mut wb = w.borrow_mut();
            let id = wb.srcs.len();
            wb.srcs.push(SrcSpec {
                data: Data::Virt { len: size, seed: e.seed.into() },
                reported: size,
                sched: e.sched.clone(),
                faults: vec![],
            });
            wb.counters.push(Counters::default());
            wb.pulled.push(0);
            drop(wb);
            let be = b.add_entry(name.clone(), Src { id, w: w.clone() }).ok()?;
            apply_meta(be, &e.meta);
            Some(b.size())
        };
        let before = b.size();
        let mut t = b.clone();
        let Some(with_empty) = add(&mut t, 0) else { continue };
        let rest = u64::MAX - with_empty;
        // Local part of an entry is its total without the central directory record
        let local = with_empty - before - (46 + 28 + name.len() as u64);
        let start: u64 = model.iter().map(|m| m.1 + local_overhead(&m.0)).sum();
        let size = match e.size {
            Size::Exact(s) => s,
            Size::NextAt(x, d) => x.saturating_add_signed(d.into()).saturating_sub(start + local),
            Size::Fill(n) => rest.saturating_sub(n),
        };
        if size > rest {
            continue;
        }
        if add(&mut b, size).is_none() {
            fail!("entry of {size} B was refused, although {rest} B are left");
        }
        let small = size < 100_000;
        let crc = if small {
            let mut v = vec![0; size as usize];
            fill_pattern(e.seed.into(), 0, &mut v);
            crc32fast::hash(&v)
        } else {
            e.crc
        };
        if let Some(be) = b.get_entries_mut().get_mut(&name) {
            be.crc32(crc);
        }
        model.push((name, size, e.seed, crc));
    }
    let announced = b.size();
    let mut r = b.build();
    ensure!(r.size() == announced, "reader has size {}, builder announced {announced}", r.size());
    let mut via = Via { r: &mut r, hows: c.hows.clone(), n: 0 };
    let p = parse(&mut via)?;
    ensure!(p.entries.len() == model.len(), "archive has {} entries, not {}", p.entries.len(), model.len());
    for (e, (name, size, _, crc)) in p.entries.iter().zip(&model) {
        ensure!(e.name == name.as_bytes(), "wrong name {:?}, {name:?} expected", String::from_utf8_lossy(&e.name));
        ensure!(e.size == *size, "entry {name:?}: recorded size {}, real {size}", e.size);
        ensure!(e.crc == *crc, "entry {name:?}: recorded CRC {:08x}, supplied {crc:08x}", e.crc);
        ensure!(e.desc_off - e.data_off == *size, "entry {name:?}: has room for {} B, size {size}", e.desc_off - e.data_off);
    }
    // Contents at sampled positions, also crossing boundaries
    for (i, (name, size, seed, _)) in model.iter().enumerate() {
        let e = &p.entries[i];
        if *size == 0 {
            continue;
        }
        let around_end = via.get(e.desc_off, 24)?;
        let mut starts: Vec<(u64, usize)> = vec![(0, 50), (size - 1, 40), (size.saturating_sub(1000), 1024)];
        for (f, l) in &c.probes {
            starts.push((((u128::from(*f) * u128::from(*size)) >> 64) as u64, usize::from(*l)));
        }
        for x in [1u64 << 31, 1 << 32, 1 << 33, 1 << 63] {
            // Positions in the archive and in the entry
            if x > e.data_off && x - e.data_off < *size {
                starts.push(((x - e.data_off).saturating_sub(7), 20));
            }
            if x < *size {
                starts.push((x - 7, 20));
            }
        }
        for (at, len) in starts {
            let at = at.min(size - 1);
            let mut expected = vec![0; len.min(usize::try_from(size - at).unwrap_or(usize::MAX))];
            fill_pattern(u64::from(*seed), at, &mut expected);
            let missing = len - expected.len();
            expected.extend_from_slice(&around_end[..missing.min(24)]);
            let got = via.get(e.data_off + at, expected.len())?;
            ensure!(
                got == expected,
                "entry {name:?} ({size} B): bytes at {at} (archive offset {}) are {}, expected {}",
                e.data_off + at,
                short(&got),
                short(&expected)
            );
        }
    }
    // End of file
    for past in [announced, announced.saturating_add(1), u64::MAX] {
        via.seek(past)?;
        let v = via.read(10)?;
        ensure!(v.is_empty(), "{} bytes were read at {past}, archive has {announced}", v.len());
    }
    via.seek(announced - 3)?;
    ensure!(via.read(10)?.len() == 3, "the last 3 bytes are not there");
    let max = model.iter().map(|m| m.1).max().unwrap_or(0);
    cov.nontrivial(announced > 1 << 32);
    cov.label_if(max >= 1 << 32, "entry of 2^32 B or more");
    cov.label_if(p.cd_off >= 1 << 32, "central directory behind 2^32");
    cov.label_if(p.entries.iter().any(|e| e.header_off >= 1 << 32), "header behind 2^32");
    cov.label_if(p.entries.iter().any(|e| e.header_off.abs_diff(1 << 32) < 200), "header close to 2^32");
    cov.label_if(max >= 1 << 63, "entry of 2^63 B or more");
    cov.label_if(announced > u64::MAX - 1000, "archive close to 2^64");
    cov.label_if(announced == u64::MAX, "archive of 2^64-1 B");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SparseCase {
    files: Vec<(Name, Holey, u32)>,
    probes: Vec<(u64, u16)>,
    buf: u32,
    clone: bool,
}

fn sparse_strat(_: &Ctx) -> BoxedStrategy<SparseCase> {
    (
        proptest::collection::vec((name_mix(3), holey_strategy(42), any::<u32>()), 1..5),
        proptest::collection::vec((any::<u64>(), 1u16..3000), 0..4),
        1u32..20_000,
        any::<bool>(),
    )
        .prop_map(|(files, probes, buf, clone)| SparseCase { files, probes, buf, clone })
        .boxed()
}

struct FsVia {
    r: FsReader,
    buf: usize,
}

impl Fetch for FsVia {
    fn size(&self) -> u64 {
        self.r.0.size()
    }
    fn get(&mut self, off: u64, len: usize) -> Result<Vec<u8>, String> {
        let p = block_on(self.r.seek(off)).map_err(|e| format!("seek to {off} failed: {e}"))?;
        ensure!(p == off, "seek to {off} returned {p}");
        let v = block_on(self.r.some(self.buf.max(len / 100), len as u64)).map_err(|e| format!("read of {len} B at {off} failed: {e}"))?;
        ensure!(v.len() == len, "only {} of {len} bytes are available at {off} of {}", v.len(), self.r.0.size());
        Ok(v)
    }
}

/// Files with holes
fn sparse(c: &SparseCase, cov: &mut Cov) -> Res {
    let s = Scratch::new()?;
    let mut b: Builder<FilesystemEntry> = Builder::new();
    let mut model = Vec::new();
    let names = unique_names(c.files.iter().map(|e| &e.0));
    for (i, ((_, h, crc), name)) in c.files.iter().zip(names).enumerate() {
        let path = s.tree.join(i.to_string());
        let mut h = h.clone();
        h.write(&path)?;
        let m = std::fs::symlink_metadata(&path).map_err(|e| format!("ERROR metadata: {e}"))?;
        let fe = block_on(FilesystemEntry::with_metadata(path, &m)).map_err(|e| format!("with_metadata failed: {e}"))?;
        b.add_entry(name.clone(), fe).map_err(|e| format!("entry was refused: {e}"))?.crc32(*crc);
        model.push((name, h, *crc));
    }
    let announced = b.size();
    let r = b.build();
    ensure!(r.size() == announced, "reader has size {}, builder announced {announced}", r.size());
    let r = if c.clone { Reader::clone(&r) } else { r };
    let mut via = FsVia { r: FsReader(Box::pin(r)), buf: c.buf as usize };
    let p = parse(&mut via)?;
    ensure!(p.entries.len() == model.len(), "archive has {} entries, not {}", p.entries.len(), model.len());
    for (e, (name, h, crc)) in p.entries.iter().zip(&model) {
        ensure!(e.name == name.as_bytes(), "wrong name {:?}, {name:?} expected", String::from_utf8_lossy(&e.name));
        ensure!(e.size == h.len, "entry {name:?}: recorded size {}, real {}", e.size, h.len);
        ensure!(e.crc == *crc, "entry {name:?}: recorded CRC {:08x}, supplied {crc:08x}", e.crc);
        ensure!(e.desc_off - e.data_off == h.len, "entry {name:?}: has room for {} B, size {}", e.desc_off - e.data_off, h.len);
        let after = via.get(e.desc_off, 24)?;
        let mut at: Vec<(u64, usize)> = h.places().into_iter().map(|p| (p, 400)).collect();
        at.extend(c.probes.iter().map(|(f, l)| (((u128::from(*f) * u128::from(h.len)) >> 64) as u64, usize::from(*l))));
        for (at, n) in at {
            let mut want = h.window(at, n);
            let missing = (n - want.len()).min(24);
            want.extend_from_slice(&after[..missing]);
            let got = via.get(e.data_off + at, want.len())?;
            ensure!(got == want, "entry {name:?} ({} B): bytes at {at} are {}, expected {}", h.len, short(&got), short(&want));
        }
    }
    cov.nontrivial(announced > 1 << 32);
    cov.label_if(model.iter().any(|m| m.1.len >= 1 << 32), "file of 2^32 B or more");
    Ok(())
}

fn local_overhead(name: &str) -> u64 {
    30 + 28 + 24 + name.len() as u64
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    n: u32,
    lens: Vec<u8>,
    probes: Vec<u32>,
}

fn many_strat(_: &Ctx) -> BoxedStrategy<Many> {
    (
        prop_oneof![
            4 => 65533u32..65539,
            1 => 65536u32..66000,
            1 => 100_000u32..140_000,
            1 => 131_070u32..131_075,
        ],
        proptest::collection::vec(0u8..5, 1..6),
        proptest::collection::vec(any::<u32>(), 4..30),
    )
        .prop_map(|(n, lens, probes)| Many { n, lens, probes })
        .boxed()
}

fn many(c: &Many, cov: &mut Cov) -> Res {
    const DATA: &[u8] = b"wxyz";
    let mut b: Builder<&'static [u8]> = Builder::new();
    for i in 0..c.n {
        let len = usize::from(c.lens[i as usize % c.lens.len()]).min(4);
        b.add_entry(format!("{i:x}"), &DATA[..len]).map_err(|e| e.to_string())?;
    }
    let announced = b.size();
    let mut r = b.build();
    let all = crate::exec::read_all_limited(&mut r, 70_000, announced + 100_000).map_err(|e| e.to_string())?;
    ensure!(all.len() as u64 == announced, "{} bytes were read, {announced} announced", all.len());
    let p = parse_mem(&all)?;
    ensure!(p.entries.len() == c.n as usize, "archive has {} entries, not {}", p.entries.len(), c.n);
    for (i, e) in p.entries.iter().enumerate() {
        let len = usize::from(c.lens[i % c.lens.len()]).min(4);
        ensure!(e.name == format!("{i:x}").as_bytes() && e.size == len as u64, "entry {i} differs");
        ensure!(all[e.data_off as usize..e.desc_off as usize] == DATA[..len], "content of entry {i} differs");
        ensure!(e.crc == crc32fast::hash(&DATA[..len]), "CRC of entry {i} differs");
    }
    ensure!(r.crc32s().count() == c.n as usize, "{} CRCs are known after a complete read", r.crc32s().count());
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(&all)).map_err(|e| format!("zip crate can't open the archive: {e}"))?;
    ensure!(z.len() == c.n as usize, "zip crate sees {} entries", z.len());
    for x in &c.probes {
        let i = (x % c.n) as usize;
        {
            let f = z.by_index(i).map_err(|e| format!("zip crate can't open entry {i}: {e}"))?;
            ensure!(f.name() == format!("{i:x}"), "zip crate sees name {:?} of entry {i}", f.name());
        }
        // Random access to any part
        for off in [p.entries[i].header_off, p.entries[i].cd_off, u64::from(*x) % announced] {
            r.seek_from_start_mut(off);
            let end = (off as usize + 100).min(all.len());
            let mut got = Vec::new();
            while got.len() < end - off as usize {
                let x = crate::exec::poll_read(Pin::new(&mut r), end - off as usize - got.len(), 0, false);
                match x.result {
                    Poll::Ready(Ok(v)) if !v.is_empty() => got.extend(v),
                    x => fail!("read at {off}: {x:?}"),
                }
            }
            ensure!(got == all[off as usize..end], "bytes at {off} differ");
        }
    }
    cov.nontrivial(c.n > 65535);
    cov.label_if(c.n > 65535, "over 65535 entries");
    cov.label_if(c.n == 65535, "65535 entries");
    Ok(())
}

/// A central directory of over 2^32 bytes
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Directory {
    name_len: u16,
    /// Entries more than needed
    more: u8,
    probes: Vec<u64>,
}

fn directory_strat(_: &Ctx) -> BoxedStrategy<Directory> {
    (65_000u16.., 0u8..40, proptest::collection::vec(any::<u64>(), 4..30))
        .prop_map(|(name_len, more, probes)| Directory { name_len, more, probes })
        .boxed()
}

fn directory(c: &Directory, cov: &mut Cov) -> Res {
    const DATA: &[u8] = b"data";
    // The names alone are over 4 GiB
    let _allowed = crate::alloc::Allowance::new(8 << 30);
    let name_len = usize::from(c.name_len).max(65_000);
    let record = 46 + 28 + name_len as u64;
    let local = 30 + 28 + 24 + name_len as u64 + DATA.len() as u64;
    let n = (1u64 << 32).div_ceil(record) + u64::from(c.more);
    let rest = "x".repeat(name_len - 8);
    let name = |i: u64| format!("{i:08x}{rest}");
    let crc = crc32fast::hash(DATA);
    let mut b: Builder<&'static [u8]> = Builder::new();
    for i in 0..n {
        b.add_entry(name(i), DATA).map_err(|e| format!("entry {i}: {:.200}", e.to_string()))?.crc32(crc);
    }
    let (cd_off, cd_size) = (local * n, record * n);
    let eocd = cd_off + cd_size;
    ensure!(b.size() == eocd + 98, "builder has size {}, expected {}", b.size(), eocd + 98);
    let mut r = b.build();
    ensure!(r.size() == eocd + 98, "reader has size {}, expected {}", r.size(), eocd + 98);
    let mut get = |at: u64, len: usize| -> Result<Vec<u8>, String> {
        r.seek_from_start_mut(at);
        let mut got = Vec::new();
        while got.len() < len {
            let x = crate::exec::poll_read(Pin::new(&mut r), len - got.len(), 0, false);
            match x.result {
                Poll::Ready(Ok(v)) if !v.is_empty() => got.extend(v),
                x => return Err(format!("read at {at}: {:.200}", format!("{x:?}"))),
            }
        }
        Ok(got)
    };
    let u64_at = |v: &[u8], o: usize| u64::from_le_bytes(v[o..o + 8].try_into().unwrap());
    let u32_at = |v: &[u8], o: usize| u32::from_le_bytes(v[o..o + 4].try_into().unwrap());
    let end = get(eocd, 98)?;
    ensure!(u32_at(&end, 0) == 0x0606_4b50, "no ZIP64 end record at {eocd}");
    let recorded = [u64_at(&end, 24), u64_at(&end, 32), u64_at(&end, 40), u64_at(&end, 48), u64_at(&end, 64)];
    let expected = [n, n, cd_size, cd_off, eocd];
    ensure!(recorded == expected, "recorded counts, size and offset of the directory and offset of its end are {recorded:?}, expected {expected:?}");
    let mut at = vec![0, n - 1, (1u64 << 32) / record, (1u64 << 32).saturating_sub(1) / record, (1u64 << 31) / record];
    at.extend(c.probes.iter().map(|p| p % n));
    for i in at {
        let v = get(cd_off + i * record, record as usize)?;
        let name = name(i);
        let extra = 46 + name_len;
        ensure!(
            u32_at(&v, 0) == 0x0201_4b50 && v[28..30] == (name_len as u16).to_le_bytes() && &v[46..extra] == name.as_bytes(),
            "no directory record of entry {i} of {n} at {}",
            cd_off + i * record
        );
        ensure!(
            u32_at(&v, 16) == crc && u64_at(&v, extra + 4) == 4 && u64_at(&v, extra + 12) == 4 && u64_at(&v, extra + 20) == i * local,
            "wrong CRC, size or offset in the directory record of entry {i} of {n}"
        );
        let v = get(i * local, local as usize)?;
        ensure!(u32_at(&v, 0) == 0x0403_4b50 && &v[30..30 + name_len] == name.as_bytes(), "no local header of entry {i} of {n} at {}", i * local);
        ensure!(&v[58 + name_len..62 + name_len] == DATA, "wrong data of entry {i} of {n}");
    }
    cov.nontrivial(cd_size >= 1 << 32);
    cov.label("directory of 2^32 B or more");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P14",
        rule: "Case 'huge' = 1-6 virtual entries with sizes around 2^16, 2^31, 2^32, 2^33, 2^63, arbitrary 64 bit ones, ones placing the next header around 2^32, \
or filling the archive to 2^64-1; the archive is parsed by random access through the reader. Non-trivial: archive over 2^32 B. \
Case 'sparse' = files with holes up to 2^42 bytes with supplied CRCs, random access to records and data; non-trivial: over 2^32 bytes. \
Case 'long' = entry of about 2^32 bytes without a CRC, really read: sequentially, as a stream, or by seeks to its end or to the records behind it; non-trivial: at least 2^32 bytes. \
Case 'many' = 65533 to 140000 entries, read completely; non-trivial: over 65535 entries. \
Case 'directory' = names so long that the central directory takes over 2^32 bytes (about 65500 names of 64 KiB), records sampled; always non-trivial.",
        assumptions: &["data of huge entries are sampled, not read completely; their CRCs are supplied (arbitrary)"],
        parts: vec![
            Box::new(Part { name: "huge", quick: 60_000, thorough: 6_000_000, strat, check: huge }),
            Box::new(Part { name: "sparse", quick: 3_000, thorough: 300_000, strat: sparse_strat, check: sparse }),
            Box::new(Part { name: "many", quick: 60, thorough: 6_000, strat: many_strat, check: many }),
            Box::new(Part { name: "directory", quick: 1, thorough: 3, strat: directory_strat, check: directory }),
            super::long::part(),
        ],
    }
}
