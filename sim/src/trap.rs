//! Turns given up between any two instructions of a task: the processor's trap flag
//! stops it after every instruction, and the signal handler counts those of this
//! program until the one drawn beforehand.

use crate::alloc::{self, Spot};
use crate::rng::mix;
use std::cell::Cell;

thread_local! {
    /// The largest number of instructions to draw; none are counted if it is zero.
    static MOST: Cell<u32> = const { Cell::new(0) };
    static DRAW: Cell<u64> = const { Cell::new(0) };
    /// Instructions left until the turn is given up.
    static LEFT: Cell<u32> = const { Cell::new(0) };
    /// Traps left until this is given up.
    static CAP: Cell<u32> = const { Cell::new(0) };
    /// Traps left altogether: each of them takes a while.
    static PURSE: Cell<u32> = const { Cell::new(0) };
    /// Within the harness, where nothing is to stop.
    static HUSHED: Cell<bool> = const { Cell::new(true) };
}

/// Let this thread take part.
pub fn enlist(seed: u64, most: u32) {
    MOST.set(if most > 0 && machine::ready() { most } else { 0 });
    DRAW.set(mix(seed));
    LEFT.set(0);
    PURSE.set(8_000);
}

fn draw() -> u64 {
    DRAW.set(DRAW.get().wrapping_add(0x9e37_79b9_7f4a_7c15));
    mix(DRAW.get())
}

/// Perhaps start counting.
#[inline]
pub fn tease() {
    if MOST.try_with(|m| m.get()).unwrap_or(0) > 0 && LEFT.get() == 0 {
        propose();
    }
}

#[cold]
fn propose() {
    if count(3) {
        go();
    }
}

fn go() {
    HUSHED.set(false);
    machine::flag(true);
}

fn halt() {
    HUSHED.set(true);
    machine::flag(false);
}

fn count(odds: u64) -> bool {
    let value = draw();
    if value % odds != 0 || PURSE.get() == 0 || !crate::sched::fine() {
        return false;
    }
    // As many short distances as long ones, or all alike.
    let most = MOST.get();
    let scale = match value >> 60 {
        0..8 => (value >> 8) % (33 - most.leading_zeros() as u64),
        _ => 31,
    };
    let n = ((value >> 16) as u32 & ((1u32 << scale) - 1)) % most + 1;
    LEFT.set(n);
    CAP.set(2000 + 20 * n);
    true
}

/// Stop counting.
#[inline]
pub fn calm() {
    if MOST.try_with(|m| m.get()).unwrap_or(0) > 0 {
        halt();
        LEFT.set(0);
    }
}

/// Within the harness from here on.
#[inline]
pub fn hush() {
    if LEFT.try_with(|l| l.get()).unwrap_or(0) > 0 {
        halt();
    }
}

/// Within the code under test from here on.
#[inline]
pub fn resume() {
    if LEFT.try_with(|l| l.get()).unwrap_or(0) > 0 {
        go();
    }
}

/// After an instruction; whether to stop after the next one as well.
fn stopped(own: bool) -> bool {
    let left = LEFT.get();
    let cap = CAP.get();
    if HUSHED.get() {
        return false;
    }
    if left == 0 || cap == 0 {
        LEFT.set(0);
        return false;
    }
    CAP.set(cap - 1);
    PURSE.set(PURSE.get().saturating_sub(1));
    if !own {
        return true;
    }
    LEFT.set(left - 1);
    if left > 1 {
        return true;
    }
    let Some(Spot { call, sched, task, .. }) = alloc::spot() else { return false };
    {
        let _silent = alloc::silent();
        HUSHED.set(true);
        call(sched, task, true);
        HUSHED.set(false);
    }
    count(2)
}

#[cfg(all(target_arch = "x86_64", target_os = "linux", target_env = "gnu"))]
mod machine {
    use std::sync::OnceLock;

    const TRAP_FLAG: u64 = 0x100;
    const SIGTRAP: i32 = 5;
    const SA_SIGINFO: i32 = 4;
    /// Where the registers are in what a handler is given.
    const REGISTERS: usize = 40;
    const PLACE: usize = 16;
    const FLAGS: usize = 17;

    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }

    extern "C" {
        fn sigaction(signal: i32, action: *const Action, old: *mut Action) -> i32;
        fn __errno_location() -> *mut i32;
        static __executable_start: u8;
        static etext: u8;
    }

    unsafe extern "C" fn handler(_: i32, _: *mut u8, context: *mut u8) {
        let registers = context.add(REGISTERS) as *mut u64;
        let place = *registers.add(PLACE);
        let own = place >= &raw const __executable_start as u64 && place < &raw const etext as u64;
        let errno = *__errno_location();
        if super::stopped(own) {
            *registers.add(FLAGS) |= TRAP_FLAG;
        } else {
            *registers.add(FLAGS) &= !TRAP_FLAG;
        }
        *__errno_location() = errno;
    }

    pub fn ready() -> bool {
        static READY: OnceLock<bool> = OnceLock::new();
        *READY.get_or_init(|| {
            let action = Action { handler: handler as *const () as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
            unsafe { sigaction(SIGTRAP, &action, std::ptr::null_mut()) == 0 }
        })
    }

    #[inline]
    pub fn flag(on: bool) {
        unsafe {
            if on {
                std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            } else {
                std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq");
            }
        }
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux", target_env = "gnu")))]
mod machine {
    pub fn ready() -> bool {
        false
    }
    pub fn flag(_: bool) {}
}
