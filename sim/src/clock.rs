//! The clock seam: what the code under test sees of the time is simulated.
//!
//! While a thread is within the code under test, the clocks of the system answer with
//! the time of the simulation, which passes as stream operations are waited for, as
//! calls are made, and in between them, and whose wall clock is set forth and back by
//! jumps; sleeping lets it pass and returns at once. Everything else (the scheduler's
//! patience, the deadlines of the driver) keeps the clock of the system.

use crate::alloc;
use crate::rng::mix;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

/// Monotonic nanoseconds; never set back within a process.
static NOW: AtomicU64 = AtomicU64::new(0);
/// How far the wall clock is from the monotonic one, in seconds.
static SKEW: AtomicI64 = AtomicI64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static UNIT: AtomicU64 = AtomicU64::new(1000);
static READS: AtomicU64 = AtomicU64::new(0);
static PAUSES: AtomicU64 = AtomicU64::new(0);
static JUMPS: AtomicU64 = AtomicU64::new(0);

const SECOND: u64 = 1_000_000_000;
/// So many seconds are few enough to never overflow.
const MOST: u64 = 1 << 32;

/// The clock of one scenario: where its wall clock is set, and how long a tick lasts.
pub fn begin(seed: u64) {
    let seed = mix(seed ^ 0x636c_6f63_6b00);
    if NOW.load(Relaxed) == 0 {
        let other = std::env::var_os("SIM_CLOCK").is_some() as u64;
        NOW.store((1000 + mix(seed ^ other) % 1_000_000) * SECOND + mix(seed ^ 2 ^ other) % SECOND, Relaxed);
    }
    SEED.store(seed, Relaxed);
    COUNT.store(0, Relaxed);
    let units = [1000, 1_000, 50_000, 1_000_000, 20_000_000, SECOND];
    UNIT.store(units[(mix(seed ^ 3) % units.len() as u64) as usize], Relaxed);
    // Now, at the start of the epoch, before it, and past what 32 bits hold.
    let walls = [1_700_000_000, 1_700_000_000, 0, -100_000_000, 5_000_000_000];
    SKEW.store(walls[(mix(seed ^ 4) % walls.len() as u64) as usize], Relaxed);
    READS.store(0, Relaxed);
    PAUSES.store(0, Relaxed);
    JUMPS.store(0, Relaxed);
}

fn pass(nanos: u64) {
    if NOW.load(Relaxed) < MOST * SECOND / 2 {
        NOW.fetch_add(nanos.min(1_000_000 * SECOND), Relaxed);
    }
}

/// Ticks went by within the code under test.
pub fn advance(ticks: u64) {
    pass(UNIT.load(Relaxed).saturating_mul(ticks));
}

/// In between two calls of the code under test, where a thread may be held up and the
/// wall clock may be set.
pub fn between() {
    let count = COUNT.fetch_add(1, Relaxed);
    let roll = mix(SEED.load(Relaxed) ^ count.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    let mut nanos = UNIT.load(Relaxed).min(1_000_000) * (1 + roll % 7);
    if (roll >> 8) % 32 == 0 {
        PAUSES.fetch_add(1, Relaxed);
        nanos += [SECOND / 10, 3 * SECOND, 70 * SECOND, 4000 * SECOND, 100_000 * SECOND][((roll >> 16) % 5) as usize];
    }
    pass(nanos);
    if (roll >> 24) % 64 == 0 {
        JUMPS.fetch_add(1, Relaxed);
        let by = [1, -1, 3600, -3600, 86_400 * 400, -86_400 * 400][((roll >> 32) % 6) as usize];
        SKEW.fetch_add(by, Relaxed);
    }
}

/// How often the clock was read, how often a call was held up, and how often the wall
/// clock was set.
pub fn counts() -> (u64, u64, u64) {
    (READS.load(Relaxed), PAUSES.load(Relaxed), JUMPS.load(Relaxed))
}

#[repr(C)]
pub struct Spec {
    seconds: i64,
    nanos: i64,
}

extern "C" {
    fn syscall(number: i64, ...) -> i64;
}

#[cfg(target_arch = "x86_64")]
mod number {
    pub const CLOCK_GETTIME: i64 = 228;
    pub const NANOSLEEP: i64 = 35;
    pub const SCHED_YIELD: i64 = 24;
    pub const CLOCK_NANOSLEEP: i64 = 230;
}
#[cfg(not(target_arch = "x86_64"))]
mod number {
    pub const CLOCK_GETTIME: i64 = 113;
    pub const NANOSLEEP: i64 = 101;
    pub const SCHED_YIELD: i64 = 124;
    pub const CLOCK_NANOSLEEP: i64 = 115;
}

fn wall(clock: i32) -> bool {
    // The real-time clock, its coarse variant, and international atomic time.
    matches!(clock, 0 | 5 | 11)
}

fn reading(clock: i32) -> Spec {
    let now = NOW.load(Relaxed);
    let seconds = (now / SECOND) as i64 + if wall(clock) { SKEW.load(Relaxed) } else { 0 };
    Spec { seconds, nanos: (now % SECOND) as i64 }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, spec: *mut Spec) -> i32 {
    if !alloc::armed() {
        return syscall(number::CLOCK_GETTIME, clock as i64, spec) as i32;
    }
    READS.fetch_add(1, Relaxed);
    *spec = reading(clock);
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(spec: *const Spec, left: *mut Spec) -> i32 {
    if !alloc::armed() {
        return syscall(number::NANOSLEEP, spec, left) as i32;
    }
    sleep(&*spec);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, spec: *const Spec, left: *mut Spec) -> i32 {
    if !alloc::armed() {
        // The answer is the number of the error.
        let result = syscall(number::CLOCK_NANOSLEEP, clock as i64, flags as i64, spec, left);
        return if result == 0 { 0 } else { std::io::Error::last_os_error().raw_os_error().unwrap_or(4) };
    }
    let spec = &*spec;
    if flags & 1 == 0 {
        sleep(spec);
    } else {
        let now = reading(clock);
        let seconds = spec.seconds.saturating_sub(now.seconds);
        sleep(&Spec { seconds: seconds.max(0), nanos: (spec.nanos - now.nanos).max(0) });
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !alloc::armed() {
        return syscall(number::SCHED_YIELD) as i32;
    }
    advance(1);
    alloc::give_way();
    0
}

fn sleep(spec: &Spec) {
    alloc::give_way();
    pass((spec.seconds.max(0) as u64).saturating_mul(SECOND).saturating_add(spec.nanos.max(0) as u64));
}

/// Whether the seam is effective.
pub fn effective() -> bool {
    use std::time::{Duration, Instant, SystemTime};
    begin(1);
    let before = alloc::arm(true);
    let (a, wall) = (Instant::now(), SystemTime::now());
    pass(5 * SECOND);
    let b = Instant::now();
    std::thread::sleep(Duration::from_secs(7));
    let c = SystemTime::now();
    alloc::arm(before);
    NOW.store(0, Relaxed);
    b - a == Duration::from_secs(5) && c.duration_since(wall).ok() == Some(Duration::from_secs(12))
}
