//! The allocator seam: live and peak bytes, a limit past which allocations fail, and
//! a place where a task can be made to give up its turn in between stream operations.

use crate::trap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Seam;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

/// Where the allocator of a thread takes part in the scheduling.
#[derive(Clone, Copy)]
pub struct Spot {
    /// The scheduler, the task, and whether it is in between two instructions.
    pub call: fn(*const (), usize, bool),
    pub sched: *const (),
    pub task: usize,
    /// Every how many allocations.
    pub every: u32,
}

thread_local! {
    static SPOT: Cell<Option<Spot>> = const { Cell::new(None) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static PASSED: Cell<u32> = const { Cell::new(0) };
}

/// Let this thread take part, once armed.
pub fn enlist(spot: Option<Spot>) {
    SPOT.with(|s| s.set(spot));
}

pub fn spot() -> Option<Spot> {
    SPOT.with(|s| s.get())
}

/// Switch the scheduling on or off; what it was before.
pub fn arm(on: bool) -> bool {
    ARMED.with(|a| a.replace(on))
}

/// Whether this thread is within the code under test.
pub fn armed() -> bool {
    ARMED.try_with(|a| a.get()).unwrap_or(false)
}

/// Not within the harness.
pub struct Quiet(bool);

pub fn quiet() -> Quiet {
    trap::hush();
    Quiet(arm(false))
}

impl Drop for Quiet {
    fn drop(&mut self) {
        arm(self.0);
        if self.0 {
            trap::resume();
            trap::tease();
        }
    }
}

/// The same while the instructions of the task are not counted anyway.
pub struct Silent(bool);

pub fn silent() -> Silent {
    Silent(arm(false))
}

impl Drop for Silent {
    fn drop(&mut self) {
        arm(self.0);
    }
}

/// Within the allocator.
struct Busy;

#[inline]
fn busy() -> Busy {
    trap::hush();
    Busy
}

impl Drop for Busy {
    #[inline]
    fn drop(&mut self) {
        if ARMED.try_with(|a| a.get()).unwrap_or(false) {
            trap::resume();
        }
    }
}

#[inline]
fn pass() {
    if ARMED.try_with(|a| a.get()).unwrap_or(false) {
        visit();
    }
}

#[cold]
fn visit() {
    let Some(spot) = SPOT.with(|s| s.get()) else { return };
    let passed = PASSED.with(|p| p.replace(p.get().wrapping_add(1)));
    if passed % spot.every != 0 {
        return;
    }
    let _quiet = quiet();
    (spot.call)(spot.sched, spot.task, false);
}

/// The code under test sleeps or yields: a place to switch like any other.
pub fn give_way() {
    if let Some(spot) = SPOT.try_with(|s| s.get()).ok().flatten() {
        let _quiet = quiet();
        (spot.call)(spot.sched, spot.task, false);
    }
}

#[inline]
fn grow(size: usize) -> bool {
    let live = LIVE.fetch_add(size, Relaxed).wrapping_add(size);
    if live > LIMIT.load(Relaxed) {
        LIVE.fetch_sub(size, Relaxed);
        return false;
    }
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    true
}

unsafe impl GlobalAlloc for Seam {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        pass();
        let _busy = busy();
        if !grow(layout.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        pass();
        let _busy = busy();
        if !grow(layout.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        pass();
        let _busy = busy();
        LIVE.fetch_sub(layout.size(), Relaxed);
        System.dealloc(pointer, layout)
    }
    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        pass();
        let _busy = busy();
        if size > layout.size() {
            if !grow(size - layout.size()) {
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub(layout.size() - size, Relaxed);
        }
        System.realloc(pointer, layout, size)
    }
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}

/// Start a measurement: the peak falls back to the live bytes.
pub fn mark() -> usize {
    let live = live();
    PEAK.store(live, Relaxed);
    live
}

pub fn peak() -> usize {
    PEAK.load(Relaxed)
}

pub fn limit(bytes: usize) {
    LIMIT.store(bytes, Relaxed);
}
