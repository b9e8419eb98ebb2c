//! Hand driven executor: every poll gets a fresh waker, the caller sees everything that happens.

use crate::engine::HarnessViolation;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, ReadBuf};
use zippity::{Builder, EntryData, Reader};

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub fn flag() -> (Arc<Flag>, Waker) {
    let f = Arc::new(Flag(AtomicBool::new(false)));
    (Arc::clone(&f), Waker::from(f))
}

/// Result of one poll
pub struct Polled {
    pub result: Poll<io::Result<Vec<u8>>>,
    /// Bytes left in the buffer by a poll that didn't succeed
    pub leaked: usize,
    /// Whether bytes that were in the buffer before the poll or the unfilled initialized tail were modified
    pub prefix_damaged: bool,
    pub woken: Arc<Flag>,
}

/// Polls the reader once into a buffer of `prefill` already filled bytes and `len` free ones.
pub fn poll_read<R: AsyncRead>(r: Pin<&mut R>, len: usize, prefill: usize, uninit: bool) -> Polled {
    let (f, waker) = flag();
    let mut cx = Context::from_waker(&waker);
    let total = len + prefill;
    let mut leaked = 0;
    let mut damaged = false;
    let result;
    let sentinel = |i: usize| (i as u8).wrapping_mul(37) ^ 0xa5;
    let mut finish = |buf: &ReadBuf<'_>, res: &Poll<io::Result<()>>| -> Vec<u8> {
        let filled = buf.filled();
        if filled.len() < prefill || filled[..prefill].iter().enumerate().any(|(i, b)| *b != sentinel(i)) {
            damaged = true;
            return Vec::new();
        }
        match res {
            Poll::Ready(Ok(())) => filled[prefill..].to_vec(),
            _ => {
                leaked = filled.len() - prefill;
                Vec::new()
            }
        }
    };
    if uninit {
        let mut store: Vec<u8> = Vec::with_capacity(total);
        let mut buf = ReadBuf::uninit(&mut store.spare_capacity_mut()[..total]);
        for i in 0..prefill {
            buf.put_slice(&[sentinel(i)]);
        }
        let res = r.poll_read(&mut cx, &mut buf);
        let v = finish(&buf, &res);
        result = res.map(|x| x.map(|()| v));
    } else {
        let mut store = vec![0u8; total];
        let mut buf = ReadBuf::new(&mut store);
        for i in 0..prefill {
            buf.put_slice(&[sentinel(i)]);
        }
        let res = r.poll_read(&mut cx, &mut buf);
        let v = finish(&buf, &res);
        result = res.map(|x| x.map(|()| v));
    }
    Polled {
        result,
        leaked,
        prefix_damaged: damaged,
        woken: f,
    }
}

/// Reads until end of file with a constant buffer, sources must not be pending forever
pub fn read_all<D: EntryData>(r: &mut Reader<D>, buf: usize) -> io::Result<Vec<u8>>
where
    Reader<D>: Unpin,
{
    read_all_limited(r, buf, u64::MAX)
}

/// As `read_all`, judges reading as a violation, if the output grows over `limit`
pub fn read_all_limited<D: EntryData>(r: &mut Reader<D>, buf: usize, limit: u64) -> io::Result<Vec<u8>>
where
    Reader<D>: Unpin,
{
    let mut out = Vec::new();
    let mut idle = 0u64;
    let mut store = vec![0u8; buf];
    let (_f, waker) = flag();
    let mut cx = Context::from_waker(&waker);
    loop {
        let mut rb = ReadBuf::new(&mut store);
        match Pin::new(&mut *r).poll_read(&mut cx, &mut rb) {
            Poll::Ready(Ok(())) => {
                if rb.filled().is_empty() {
                    return Ok(out);
                }
                out.extend_from_slice(rb.filled());
                idle = 0;
            }
            Poll::Ready(Err(e)) => return Err(e),
            Poll::Pending => {
                idle += 1;
                if idle > 1_000_000 {
                    std::panic::panic_any(HarnessViolation("read stays pending forever".into()));
                }
            }
        }
        if out.len() as u64 > limit {
            std::panic::panic_any(HarnessViolation(format!("more than {limit} bytes were read from the archive")));
        }
    }
}

/// Bytes of the archive built from plain vectors and read sequentially
pub fn plain_archive(builder: Builder<Vec<u8>>) -> Result<Vec<u8>, String> {
    let mut r = builder.build();
    let limit = r.size().saturating_add(1 << 20);
    read_all_limited(&mut r, 8192, limit).map_err(|e| format!("plain sequential read of plain vectors failed: {e}"))
}

/// Polls a future that has to complete without ever being pending for external reasons
pub fn block_on_simple<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let (_f, waker) = flag();
    let mut cx = Context::from_waker(&waker);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
}
