//! Cases in progress: turns cases that never end, or end the process, into reported violations.

use serde_json::Value;
use std::cell::Cell;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

struct Current {
    since: Instant,
    property: String,
    part: String,
    case: Box<dyn Fn() -> Value + Send>,
}

const SLOTS: usize = 64;
static CURRENT: [Mutex<Option<Current>>; SLOTS] = [const { Mutex::new(None) }; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT.fetch_add(1, Ordering::SeqCst) % SLOTS);
        }
        s.get()
    })
}

/// The case that's run by this thread from now on
pub struct Running(usize);

impl Running {
    pub fn start(property: &str, part: &str, case: Box<dyn Fn() -> Value + Send>) -> Self {
        let i = slot();
        if let Ok(mut c) = CURRENT[i].lock() {
            *c = Some(Current { since: Instant::now(), property: property.into(), part: part.into(), case });
        }
        Running(i)
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        if let Ok(mut c) = CURRENT[self.0].lock() {
            *c = None;
        }
    }
}

fn report(c: &Current, message: &str) -> ! {
    let path = crate::engine::write_replay(&c.property, &c.part, &(c.case)(), message);
    crate::engine::message(message);
    // No locks: stdout may be locked by anybody
    let line = format!("{}: {message}\nVIOLATION property={} replay={}\n", c.part, c.property, path.display());
    unsafe {
        libc::write(1, line.as_ptr().cast(), line.len());
        libc::_exit(1);
    }
}

/// Reports cases running for longer than the limit
pub fn watch_cases(limit: Duration) {
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_secs(1));
            for s in &CURRENT {
                if let Ok(c) = s.lock() {
                    if let Some(c) = c.as_ref().filter(|c| c.since.elapsed() > limit) {
                        report(c, &format!("the case did not end within {} s", limit.as_secs()));
                    }
                }
            }
        }
    });
}

extern "C" fn on_signal(sig: libc::c_int) {
    unsafe {
        // In the case that the report itself gets stuck
        libc::signal(libc::SIGALRM, libc::SIG_DFL);
        libc::alarm(30);
        libc::signal(sig, libc::SIG_DFL);
    }
    let i = SLOT.try_with(Cell::get).unwrap_or(usize::MAX);
    if i < SLOTS {
        if let Ok(c) = CURRENT[i].try_lock() {
            if let Some(c) = c.as_ref() {
                report(c, &format!("the process was ended by signal {sig}"));
            }
        }
    }
    unsafe {
        libc::raise(sig);
    }
}

/// Reports crashes of the process (abort, stack overflow, failed allocation)
pub fn watch_signals() {
    for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}
