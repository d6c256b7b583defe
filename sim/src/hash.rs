//! The randomness seam: the seeds of hash maps come from the scenario.
//!
//! The standard library asks `getrandom` once per thread; this definition
//! answers from a per-thread seed.

use crate::rng::mix;
use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
}

pub fn seed(value: u64) {
    SEED.with(|s| s.set(value));
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buffer: *mut u8, length: usize, _flags: u32) -> isize {
    let mut state = SEED.try_with(|s| s.get()).unwrap_or(0);
    for i in 0..length {
        state = mix(state);
        *buffer.add(i) = state as u8;
    }
    let _ = SEED.try_with(|s| s.set(state));
    length as isize
}

/// A value that depends on nothing but this thread's hash seed.
pub fn fingerprint() -> u64 {
    use std::hash::{BuildHasher, Hasher};
    let state = std::collections::hash_map::RandomState::new();
    let mut hasher = state.build_hasher();
    hasher.write_u64(1);
    hasher.finish()
}

/// Whether the seam is effective.
pub fn effective() -> bool {
    let run = |s: u64| {
        std::thread::spawn(move || {
            seed(s);
            fingerprint()
        })
        .join()
        .unwrap()
    };
    let (a, b, c) = (run(7), run(7), run(8));
    a == b && a != c
}
