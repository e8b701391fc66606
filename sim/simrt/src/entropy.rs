//! The simulated entropy source.
use crate::{
    rng::{mix2, Rng},
    sched::{count, entropy_key, with_run},
};
use std::{
    cell::Cell,
    sync::atomic::{AtomicU64, Ordering},
};

static OUTSIDE: AtomicU64 = AtomicU64::new(0);
static OUTSIDE_KEY: AtomicU64 = AtomicU64::new(0x5e7_0b5);
static OUTSIDE_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static OUTSIDE_BYTES: AtomicU64 = AtomicU64::new(0);
thread_local!(static MINE: Cell<Drawn> = const { Cell::new(Drawn { bytes: 0, refused: 0 }) });
thread_local!(static PIN: Cell<Option<(u64, u64)>> = const { Cell::new(None) });
thread_local!(static NEST: Cell<u64> = const { Cell::new(u64::MAX) });

/// What this thread asked of the entropy source so far.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Drawn {
    pub bytes: u64,
    pub refused: u64,
}

pub fn mine() -> Drawn {
    MINE.with(|m| m.get())
}

/// Requests refused in this run.
pub fn refused() -> u64 {
    with_run(|r| r.entropy_refused.load(Ordering::SeqCst)).unwrap_or(0)
}

/// A failing source may have written part of the buffer.
fn refuse(buf: &mut [u8], n: u64) -> Result<(), ()> {
    let part = n as usize % (buf.len() + 1);
    buf[..part].fill(0);
    Err(())
}

/// Fill `buf` from the run's entropy stream, or fail if a fault is planned.
pub fn fill(buf: &mut [u8]) -> Result<(), ()> {
    let len = buf.len() as u64;
    let r = draw(buf);
    let _ = MINE.try_with(|m| {
        let mut d = m.get();
        match r {
            Ok(()) => d.bytes += len,
            Err(()) => d.refused += 1,
        }
        m.set(d);
    });
    r
}

fn draw(buf: &mut [u8]) -> Result<(), ()> {
    let planned = with_run(|r| {
        let n = r.entropy_draws.fetch_add(1, Ordering::SeqCst);
        r.entropy_fail.load(Ordering::SeqCst) && n >= r.entropy_fail_at.load(Ordering::SeqCst)
    });
    match planned {
        Some(true) => {
            count("fault.entropy_failure", 1);
            with_run(|r| r.entropy_refused.fetch_add(1, Ordering::SeqCst));
            refuse(buf, draws())
        }
        Some(false) => {
            count("entropy.draws", 1);
            let (k, c) = match PIN.with(|p| p.get()) {
                Some((k, c)) => {
                    PIN.with(|p| p.set(Some((k, c + 1))));
                    (k, c)
                }
                None => entropy_key().unwrap(),
            };
            Rng::new(mix2(k, c)).fill(buf);
            Ok(())
        }
        None => {
            // Outside a run (process set-up, on one thread): a fixed stream.
            let k = OUTSIDE.fetch_add(1, Ordering::SeqCst);
            if k >= OUTSIDE_LIMIT.load(Ordering::SeqCst) {
                return refuse(buf, k);
            }
            OUTSIDE_BYTES.fetch_add(buf.len() as u64, Ordering::SeqCst);
            Rng::new(mix2(OUTSIDE_KEY.load(Ordering::SeqCst), k)).fill(buf);
            Ok(())
        }
    }
}

/// Make the entropy source fail from its `n`th draw from now on.
pub fn fail_after(n: u64) {
    with_run(|r| {
        let now = r.entropy_draws.load(Ordering::SeqCst);
        r.entropy_fail_at.store(now + n, Ordering::SeqCst);
        r.entropy_fail.store(true, Ordering::SeqCst);
    });
}

/// Heal the entropy source.
pub fn heal() {
    with_run(|r| r.entropy_fail.store(false, Ordering::SeqCst));
}

/// From now on this thread draws the stream `key` names, from its start.
pub fn pin(key: u64) {
    PIN.with(|p| p.set(Some((key, 0))));
}

/// Outside a run: the stream this process draws, and after how many draws it fails.
pub fn outside(key: u64, limit: u64) {
    OUTSIDE_KEY.store(key, Ordering::SeqCst);
    OUTSIDE_LIMIT.store(limit, Ordering::SeqCst);
}

/// Outside a run: bytes of entropy this process got.
pub fn outside_bytes() -> u64 {
    OUTSIDE_BYTES.load(Ordering::SeqCst)
}

pub fn draws() -> u64 {
    with_run(|r| r.entropy_draws.load(Ordering::SeqCst)).unwrap_or(0)
}

/// Interposes libc's getrandom, which the standard library uses to seed hash maps, so that their
/// iteration order is reproducible.
///
/// # Safety
/// `buf` must be valid for writes of `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = std::slice::from_raw_parts_mut(buf, len);
    let n = NEST
        .try_with(|c| {
            c.set(c.get().wrapping_add(1));
            c.get()
        })
        .unwrap_or(7);
    Rng::new(mix2(0x4a54, n)).fill(s);
    len as isize
}
