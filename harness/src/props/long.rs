//! Entries of more than 2^32 bytes that are really read (parts 'long' of P11 and P14)

use crate::engine::*;
use crate::hist::short;
use crate::model::*;
use crate::zipparse::{Fetch, parse};
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, SeekFrom};
use std::pin::Pin;
use std::sync::{Arc, LazyLock};
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, EntryData, ReadError, Reader};

/// Data repeat with this period
const PERIOD: usize = 4099;
static BLOCK: LazyLock<Arc<Vec<u8>>> = LazyLock::new(|| {
    let mut one = vec![0; PERIOD];
    fill_pattern(4242, 0, &mut one);
    Arc::new(one.iter().copied().cycle().take((1 << 20) + PERIOD).collect())
});

fn window(at: u64, len: usize) -> Vec<u8> {
    BLOCK.iter().copied().cycle().skip((at % PERIOD as u64) as usize).take(len).collect()
}

fn crc(mut n: u64) -> u32 {
    let mut h = crc32fast::Hasher::new();
    let whole = &BLOCK[..BLOCK.len() / PERIOD * PERIOD];
    while n > 0 {
        let k = n.min(whole.len() as u64) as usize;
        h.update(&whole[..k]);
        n -= k as u64;
    }
    h.finalize()
}

#[derive(Clone, Debug)]
struct LongData {
    len: u64,
    reported: u64,
    /// At most this many bytes are delivered by one read
    chunk: usize,
    /// Each n-th read is pending first
    pend: u32,
}

struct LongReader {
    pos: u64,
    data: LongData,
    reads: u32,
}

impl EntryData for LongData {
    type Reader = LongReader;
    type Future = std::future::Ready<io::Result<LongReader>>;
    fn get_reader(&self) -> Self::Future {
        std::future::ready(Ok(LongReader { pos: 0, data: self.clone(), reads: 0 }))
    }
    fn size(&self) -> u64 {
        self.reported
    }
}

impl AsyncRead for LongReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.data.pend > 0 {
            self.reads = self.reads.wrapping_add(1);
            if self.reads % (self.data.pend + 1) == 0 {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        let n = self.data.len.saturating_sub(self.pos).min(buf.remaining() as u64).min(self.data.chunk as u64) as usize;
        let n = n.min(1 << 20);
        let at = (self.pos % PERIOD as u64) as usize;
        buf.put_slice(&BLOCK[at..at + n]);
        self.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for LongReader {
    fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> io::Result<()> {
        let t = match p {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => self.data.len.checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        self.pos = t.ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?;
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> {
        Poll::Ready(Ok(self.pos))
    }
}

/// Size a bit around 2^32
fn len_strategy() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => (-70i64..70).prop_map(|d| (1u64 << 32).saturating_add_signed(d)),
        3 => (0u64..20_000).prop_map(|d| (1 << 32) + d),
        1 => Just(1u64 << 32),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    len: u64,
    before: u16,
    after: u16,
    chunk: u32,
    pend: u32,
    how: How,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    /// Everything with this buffer
    All(u32),
    /// From this place behind the start / before the end of data of the long entry, this many bytes, then from the same place of the central directory
    From(u64, u32),
    /// The records only
    Records,
    /// As a stream from this place
    Stream(u32),
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let how = prop_oneof![
        2 => (60_000u32..1_200_000).prop_map(How::All),
        6 => (
            prop_oneof![
                1 => Just((1u64 << 32) - 3000),
                1 => Just((1u64 << 32) - 20),
                1 => Just(1u64 << 32),
                1 => (0u64..4000).prop_map(|d| (1 << 32) - 2000 + d),
                // Up to the end
                2 => (0u64..20_000).prop_map(|d| (1 << 32) + d),
                1 => Just(u64::MAX),
                1 => 0u64..(1 << 32),
            ],
            1u32..5000
        )
            .prop_map(|(a, b)| How::From(a, b)),
        1 => Just(How::Records),
        1 => any::<u32>().prop_map(How::Stream),
    ];
    let chunk = prop_oneof![3 => Just(u32::MAX), 1 => 7000u32..8200];
    (len_strategy(), 0u16..200, 0u16..200, chunk, prop_oneof![2 => Just(0u32), 1 => 1000u32..100_000], how)
        .prop_map(|(len, before, after, chunk, pend, how)| Case { len, before, after, chunk, pend, how })
        .boxed()
}

fn build(c: &Case, reported: u64) -> Result<Reader<LongData>, String> {
    let mut b: Builder<LongData> = Builder::new();
    for (name, len, reported) in [("before", c.before.into(), c.before.into()), ("long", c.len, reported), ("after", c.after.into(), c.after.into())] {
        b.add_entry(name.into(), LongData { len, reported, chunk: c.chunk as usize, pend: c.pend }).map_err(|e| format!("entry was refused: {e}"))?;
    }
    Ok(b.build())
}

struct Via {
    r: Reader<LongData>,
}

impl Via {
    /// One successful read
    fn some(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let (_f, wk) = crate::exec::flag();
        let mut cx = Context::from_waker(&wk);
        for _ in 0..10_000_000 {
            let mut rb = ReadBuf::new(buf);
            if let Poll::Ready(r) = Pin::new(&mut self.r).poll_read(&mut cx, &mut rb) {
                return r.map(|()| rb.filled().len());
            }
        }
        Err(io::Error::other("read stays pending"))
    }
}

impl Fetch for Via {
    fn size(&self) -> u64 {
        self.r.size()
    }
    fn get(&mut self, off: u64, len: usize) -> Result<Vec<u8>, String> {
        if self.r.tell() != off {
            self.r.seek_from_start_mut(off);
        }
        let mut out = vec![0; len];
        let mut n = 0;
        while n < len {
            let k = self.some(&mut out[n..]).map_err(|e| format!("read at {off}+{n} failed: {e}"))?;
            ensure!(k > 0, "end of file at {off}+{n} of {}", self.r.size());
            n += k;
            ensure!(self.r.tell() == off + n as u64, "position is {} after reading {n} bytes at {off}", self.r.tell());
        }
        Ok(out)
    }
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let names = ["before", "long", "after"];
    let lens: [u64; 3] = [c.before.into(), c.len, c.after.into()];
    let want: Vec<u32> = lens.iter().map(|l| crc(*l)).collect();
    cov.nontrivial(c.len >= 1 << 32);
    let mut via = Via { r: build(c, c.len)? };
    let size = via.size();
    // Where the data of the long entry is: from an archive with the CRCs supplied, it isn't necessary to read it there
    let data_off = {
        let mut b: Builder<LongData> = Builder::new();
        for (name, len) in names.iter().zip(lens) {
            let d = LongData { len, reported: len, chunk: usize::MAX, pend: 0 };
            b.add_entry((*name).into(), d).map_err(|e| format!("entry was refused: {e}"))?.crc32(1);
        }
        let mut known = Via { r: b.build() };
        ensure!(known.size() == size, "size of the archive depends on CRCs");
        parse(&mut known)?.entries[1].data_off
    };
    match c.how {
        How::All(buf) => {
            cov.label("sequential");
            let mut buf = vec![0; buf as usize];
            let mut pos = 0u64;
            loop {
                let n = via.some(&mut buf).map_err(|e| format!("read at {pos} failed: {e}"))?;
                if n == 0 {
                    break;
                }
                // Data of the long entry
                let s = pos.max(data_off);
                let e = (pos + n as u64).min(data_off + c.len);
                let mut at = s;
                while at < e {
                    let k = (e - at).min(1 << 20) as usize;
                    let m = ((at - data_off) % PERIOD as u64) as usize;
                    let got = &buf[(at - pos) as usize..][..k];
                    ensure!(*got == BLOCK[m..m + k], "wrong data at {at} of the archive, {} in the entry", at - data_off);
                    at += k as u64;
                }
                pos += n as u64;
                ensure!(via.r.tell() == pos, "position is {} after reading {pos} bytes", via.r.tell());
                ensure!(pos <= size, "more than {size} bytes are delivered");
            }
            ensure!(pos == size, "{pos} bytes are delivered of {size}");
        }
        How::From(at, n) => {
            cov.label("skip in data");
            let at = at.min(c.len - 1);
            let k = u64::from(n).min(c.len - at) as usize;
            let got = via.get(data_off + at, k)?;
            let w = window(at, k);
            ensure!(got == w, "wrong data at {at} of the entry: {}, not {}", short(&got), short(&w));
        }
        How::Records => {}
        How::Stream(x) => {
            use futures_core::Stream as _;
            cov.label("stream");
            let from = u64::from(x) % (data_off + 1000);
            via.r.seek_from_start_mut(from);
            let mut s = Box::pin(via.r.into_bytes_stream());
            let (_f, wk) = crate::exec::flag();
            let mut cx = Context::from_waker(&wk);
            let mut pos = from;
            loop {
                match s.as_mut().poll_next(&mut cx) {
                    Poll::Pending => continue,
                    Poll::Ready(None) => break,
                    Poll::Ready(Some(Err(e))) => fail!("stream failed at {pos}: {e}"),
                    Poll::Ready(Some(Ok(b))) => {
                        let e = pos + b.len() as u64;
                        if pos >= data_off && e <= data_off + c.len && b.len() <= 1 << 20 {
                            let m = ((pos - data_off) % PERIOD as u64) as usize;
                            ensure!(b[..] == BLOCK[m..m + b.len()], "wrong data at {pos} of the archive");
                        }
                        pos = e;
                    }
                }
            }
            ensure!(pos == size, "stream from {from} ends at {pos} of {size}");
            via.r = Reader::clone(s.reader_ref());
        }
    }
    let p = parse(&mut via)?;
    ensure!(p.entries.len() == 3, "archive has {} entries, not 3", p.entries.len());
    for (i, e) in p.entries.iter().enumerate() {
        ensure!(e.name == names[i].as_bytes(), "entry {i} has a wrong name");
        ensure!(e.size == lens[i], "entry {:?}: recorded size {}, real {}", names[i], e.size, lens[i]);
        ensure!(e.crc == want[i], "entry {:?}: recorded CRC {:08x}, real {:08x}", names[i], e.crc, want[i]);
    }
    let mut n = 0;
    for (name, crc) in via.r.crc32s() {
        ensure!(names.iter().position(|x| *x == name).is_some_and(|i| want[i] == crc), "CRC of {name:?} is reported as {crc:08x}");
        n += 1;
    }
    ensure!(n == 3, "{n} CRCs are reported after everything was computed");
    Ok(())
}

pub fn part() -> Box<Part<Case>> {
    Box::new(Part { name: "long", quick: 64, thorough: 3200, strat, check })
}

// ---------------------------------------------------------------- Sizes that differ by multiples of 2^32

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lie {
    case: Case,
    /// Size is this many times 2^32 wrong
    times: i8,
    /// Further difference
    more: i8,
    buf: u32,
}

fn lie_strat(_: &Ctx) -> BoxedStrategy<Lie> {
    let len = prop_oneof![2 => 1u64..100_000, 1 => (1u64 << 32)..(1 << 32) + 5000];
    let sched = prop_oneof![2 => Just(0u32), 1 => 1000u32..100_000];
    (len, 0u16..200, 0u16..200, sched, 1i8..4, prop_oneof![3 => Just(0i8), 1 => any::<i8>()], 1000u32..200_000, any::<bool>())
        .prop_map(|(len, before, after, pend, times, more, buf, less)| Lie {
            case: Case { len, before, after, chunk: u32::MAX, pend, how: How::Records },
            times: if less && len > 1 << 32 { -1 } else { times },
            more,
            buf: if len >= 1 << 32 { buf.max(60_000) } else { buf },
        })
        .boxed()
}

fn lie_check(c: &Lie, cov: &mut Cov) -> Res {
    let l = &c.case;
    let reported = l.len.saturating_add_signed((i64::from(c.times) << 32) + i64::from(c.more));
    if reported == l.len || reported == 0 {
        return Ok(());
    }
    let mut via = Via { r: build(l, reported)? };
    let mut buf = vec![0; c.buf as usize];
    let mut pos = 0u64;
    let e = loop {
        match via.some(&mut buf) {
            Ok(0) => fail!("end of file at {pos}, although entry of {} bytes was reported as one of {reported}", l.len),
            Ok(n) => pos += n as u64,
            Err(e) => break e,
        }
        ensure!(pos <= l.len + 100_000, "entry of {} bytes reported as {reported}: {pos} bytes are delivered", l.len);
    };
    match e.get_ref().and_then(|e| e.downcast_ref::<ReadError>()) {
        Some(ReadError::SizeMismatch { entry_name, expected_size, actual_size }) => {
            ensure!(entry_name == "long", "error names entry {entry_name:?}");
            ensure!(
                (*expected_size, *actual_size) == (reported, l.len),
                "error reports sizes {expected_size} and {actual_size}, they are {reported} and {}",
                l.len
            );
        }
        _ => fail!("wrong size is reported as {e}"),
    }
    cov.label_if(l.len >= 1 << 32, "data over 2^32 B");
    cov.label_if(reported >= 1 << 32, "reported over 2^32 B");
    cov.nontrivial(true);
    Ok(())
}

pub fn lie_part() -> Box<Part<Lie>> {
    Box::new(Part { name: "long", quick: 40, thorough: 4000, strat: lie_strat, check: lie_check })
}
