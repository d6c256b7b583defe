//! The scheduler seam: real threads, of which exactly one runs at a time. At
//! every pause the next one is chosen by an explicit list of picks.

use crate::alloc;
use crate::rng::mix;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub struct Sched {
    state: Mutex<State>,
    turn: Condvar,
    done: Condvar,
}

struct State {
    tasks: Vec<Task>,
    current: Option<usize>,
    picks: Vec<u32>,
    used: usize,
    now: u64,
    steps: u64,
    switches: u64,
    digest: u64,
    started: bool,
    finished_order: Vec<usize>,
    /// Turns given up within an allocation.
    fine: u64,
    /// The same in between two instructions.
    finest: u64,
    /// How often a task that waited for what another one held was passed over.
    rescues: u64,
}

#[derive(Clone)]
struct Task {
    finished: bool,
    wake: u64,
    /// Gave up its turn within an allocation.
    soft: bool,
    /// Waits for something that another task holds.
    stuck: bool,
    /// The system's name of the thread.
    thread: u64,
}

/// How often a thread has been put to sleep, if it is asleep.
fn asleep(thread: u64) -> Option<u64> {
    let text = std::fs::read_to_string(format!("/proc/self/task/{thread}/status")).ok()?;
    let field = |name: &str| text.lines().find_map(|l| l.strip_prefix(name)).map(str::trim);
    if !field("State:")?.starts_with('S') {
        return None;
    }
    field("voluntary_ctxt_switches:")?.parse().ok()
}

fn thread() -> u64 {
    let link = std::fs::read_link("/proc/thread-self").ok();
    link.and_then(|l| l.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}

pub struct Summary {
    pub now: u64,
    pub steps: u64,
    pub switches: u64,
    pub digest: u64,
    pub finished_order: Vec<usize>,
    pub fine: u64,
    pub finest: u64,
    pub rescues: u64,
}

/// Whether tasks may still give up their turns within allocations. Not any more once
/// one of them has been found waiting for what another one held: code that locks
/// something for a moment does nothing wrong.
static FINE: AtomicBool = AtomicBool::new(true);

pub fn fine() -> bool {
    FINE.load(Relaxed)
}

impl Sched {
    pub fn new(tasks: usize, picks: &[u32]) -> Sched {
        Sched {
            state: Mutex::new(State {
                tasks: vec![Task { finished: false, wake: 0, soft: false, stuck: false, thread: 0 }; tasks],
                current: None,
                picks: picks.to_vec(),
                used: 0,
                now: 0,
                steps: 0,
                switches: 0,
                digest: 0,
                started: false,
                finished_order: vec![],
                fine: 0,
                finest: 0,
                rescues: 0,
            }),
            turn: Condvar::new(),
            done: Condvar::new(),
        }
    }

    /// Wait for the first turn.
    pub fn enter(&self, me: usize) {
        let thread = thread();
        let mut state = self.state.lock().unwrap();
        state.tasks[me].thread = thread;
        while !state.started || state.current != Some(me) {
            state = self.turn.wait(state).unwrap();
        }
    }

    pub fn start(&self) {
        let mut state = self.state.lock().unwrap();
        state.started = true;
        state.choose(usize::MAX);
        self.turn.notify_all();
    }

    /// Give up the turn; `block` is how long the task cannot run, u64::MAX
    /// until every other one has finished.
    pub fn pause(&self, me: usize, block: u64) {
        let _quiet = alloc::quiet();
        let mut state = self.regain(me);
        state.now += 1;
        let now = state.now;
        state.tasks[me].wake = now.saturating_add(block);
        state.choose(me);
        self.yielded(state, me);
    }

    /// Give up the turn within an allocation or in between two instructions.
    pub fn soft(&self, me: usize, between: bool) {
        if !FINE.load(Relaxed) {
            return;
        }
        let mut state = self.regain(me);
        if !FINE.load(Relaxed) || state.used >= state.picks.len() {
            return;
        }
        if between {
            state.finest += 1;
        } else {
            state.fine += 1;
        }
        state.tasks[me].soft = true;
        state.choose(me);
        self.yielded(state, me);
        self.state.lock().unwrap().tasks[me].soft = false;
    }

    fn yielded(&self, mut state: MutexGuard<State>, me: usize) {
        if state.current != Some(me) {
            self.turn.notify_all();
            while state.current != Some(me) {
                state = self.turn.wait(state).unwrap();
            }
        }
    }

    /// The state, once it is the turn of the one that asks, which it is unless the
    /// task has been passed over.
    fn regain(&self, me: usize) -> MutexGuard<'_, State> {
        let mut state = self.state.lock().unwrap();
        state.tasks[me].stuck = false;
        while state.current != Some(me) {
            state = self.turn.wait(state).unwrap();
        }
        state
    }

    pub fn finish(&self, me: usize) {
        let _quiet = alloc::quiet();
        let mut state = self.regain(me);
        state.tasks[me].finished = true;
        state.finished_order.push(me);
        state.choose(me);
        self.turn.notify_all();
        if state.current.is_none() {
            self.done.notify_all();
        }
    }

    /// Wait until all tasks have finished; tells which task held the turn if
    /// nothing moves for `patience`, or it sleeps for a tenth of that. (It never
    /// has to: it waits for something that another task holds.)
    pub fn watch(&self, patience: Duration) -> Result<Summary, usize> {
        const LOOKS: u32 = 100;
        let mut state = self.state.lock().unwrap();
        let (mut still, mut sleeps, mut times) = (0, 0, None);
        loop {
            if state.started && state.current.is_none() {
                return Ok(Summary {
                    now: state.now,
                    steps: state.steps,
                    switches: state.switches,
                    digest: state.digest,
                    finished_order: state.finished_order.clone(),
                    fine: state.fine,
                    finest: state.finest,
                    rescues: state.rescues,
                });
            }
            let before = state.steps;
            let (next, timeout) = self.done.wait_timeout(state, patience / LOOKS).unwrap();
            state = next;
            if !timeout.timed_out() || state.steps != before {
                (still, sleeps, times) = (0, 0, None);
                continue;
            }
            let current = state.current.unwrap_or(0);
            let now = asleep(state.tasks[current].thread);
            sleeps = if now.is_some() && now == times { sleeps + 1 } else { 0 };
            times = now;
            still += 1;
            if still >= LOOKS || sleeps >= LOOKS / 10 {
                if (0..state.tasks.len()).any(|i| i != current && state.tasks[i].soft) {
                    // One that stopped within an allocation may hold it. Let it go on to
                    // where it would have stopped anyway.
                    FINE.store(false, Relaxed);
                    state.rescues += 1;
                    state.tasks[current].stuck = true;
                    state.choose(usize::MAX);
                    self.turn.notify_all();
                    (still, sleeps, times) = (0, 0, None);
                    continue;
                }
                return Err(current);
            }
        }
    }
}

impl State {
    fn choose(&mut self, from: usize) {
        self.steps += 1;
        let open: Vec<usize> = (0..self.tasks.len()).filter(|&i| !self.tasks[i].finished).collect();
        if open.is_empty() {
            self.current = None;
            return;
        }
        if let Some(&stuck) = open.iter().find(|&&i| self.tasks[i].stuck) {
            // Others move until it is clear what it waits for.
            let next = open.iter().copied().find(|&i| self.tasks[i].soft && !self.tasks[i].stuck).unwrap_or(stuck);
            self.tasks[next].stuck = false;
            self.current = Some(next);
            return;
        }
        let mut ready: Vec<usize> = open.iter().copied().filter(|&i| self.tasks[i].wake <= self.now).collect();
        if ready.is_empty() {
            let soonest = open.iter().map(|&i| self.tasks[i].wake).min().unwrap();
            if soonest != u64::MAX {
                self.now = soonest;
            }
            ready = open.iter().copied().filter(|&i| self.tasks[i].wake == soonest).collect();
        }
        let pick = match self.picks.get(self.used) {
            Some(&p) => p as usize % ready.len(),
            // Past the list: carry on with the same task if possible.
            None => ready.iter().position(|&i| i == from).unwrap_or(0),
        };
        if ready.len() > 1 {
            self.used += 1;
        }
        let next = ready[pick];
        if next != from {
            self.switches += 1;
        }
        self.digest = mix(self.digest ^ mix(next as u64 + 1));
        self.current = Some(next);
    }
}
