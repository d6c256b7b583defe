//! Makes a failing history smaller while it keeps failing in the same way.

use crate::driver::{judge, Scratch, Verdict};
use crate::scenario::*;
use crate::tape::{Chunk, Plan, Wrap};
use std::time::{Duration, Instant};

struct Search<'a> {
    scratch: &'a Scratch,
    class: &'a str,
    deadline: Instant,
    best: Vec<Scenario>,
    verdict: Verdict,
}

impl Search<'_> {
    fn over(&self) -> bool {
        Instant::now() > self.deadline
    }

    /// Keep the candidate if it fails in the same way.
    fn attempt(&mut self, candidate: Vec<Scenario>) -> bool {
        if self.over() || candidate == self.best {
            return false;
        }
        let patience = Duration::from_secs(match self.class {
            "hang" => 15,
            "blocked" => 30,
            _ => 20,
        });
        let verdict = judge(self.scratch, &candidate, patience, false);
        if verdict.broken.is_none() && verdict.has(self.class).is_some() {
            self.best = candidate;
            self.verdict = verdict;
            return true;
        }
        false
    }

    fn last(&self) -> &Scenario {
        self.best.last().unwrap()
    }

    fn change(&mut self, f: impl FnOnce(&mut Scenario)) -> bool {
        let mut candidate = self.best.clone();
        f(candidate.last_mut().unwrap());
        self.attempt(candidate)
    }

    /// Remove pieces of a list, large ones first.
    fn thin(&mut self, length: impl Fn(&Scenario) -> usize, cut: impl Fn(&mut Scenario, usize, usize)) {
        let mut size = length(self.last()).max(1);
        loop {
            let mut at = 0;
            while at < length(self.last()) && !self.over() {
                let n = size.min(length(self.last()) - at);
                if !self.change(|s| cut(s, at, n)) {
                    at += n;
                }
            }
            if size == 1 || self.over() {
                break;
            }
            size = size.div_ceil(2);
        }
    }
}

fn attempts(s: &mut Scenario, task: usize) -> Option<&mut Vec<Attempt>> {
    match s.tasks.get_mut(task) {
        Some(Task::Stream(a)) => Some(a),
        _ => None,
    }
}

fn count(s: &Scenario, task: usize) -> usize {
    match s.tasks.get(task) {
        Some(Task::Stream(a)) => a.len(),
        _ => 0,
    }
}

fn plan(s: &Scenario, task: usize, attempt: usize) -> Option<&Plan> {
    match s.tasks.get(task) {
        Some(Task::Stream(a)) => a.get(attempt).map(|a| &a.plan),
        _ => None,
    }
}

fn glyphs(s: &mut Scenario, task: usize) -> Option<&mut Glyphs> {
    match s.tasks.get_mut(task) {
        Some(Task::Glyphs(g)) => Some(g),
        _ => None,
    }
}

fn peek(s: &Scenario, task: usize) -> Option<&Glyphs> {
    match s.tasks.get(task) {
        Some(Task::Glyphs(g)) => Some(g),
        _ => None,
    }
}

fn asks(s: &Scenario, task: usize) -> Option<&Asks> {
    match s.tasks.get(task) {
        Some(Task::Ask(a)) => Some(a),
        _ => None,
    }
}

fn table(g: &mut Glyphs, which: usize) -> &mut Vec<Vec<u8>> {
    match which {
        0 => &mut g.tables.codes,
        1 => &mut g.tables.global,
        _ => &mut g.tables.local,
    }
}

pub fn minimise(scratch: &Scratch, class: &str, scenarios: Vec<Scenario>, verdict: Verdict) -> (Vec<Scenario>, Verdict) {
    let budget = match class {
        "hang" | "blocked" => 120,
        _ => 60,
    };
    let deadline = Instant::now() + Duration::from_secs(budget);
    let mut search = Search { scratch, class, deadline, best: scenarios, verdict };
    history(&mut search);
    for _ in 0..2 {
        let before = search.best.clone();
        streams(&mut search);
        programs(&mut search);
        questions(&mut search);
        images(&mut search);
        schedule(&mut search);
        if before == search.best || search.over() {
            break;
        }
    }
    (search.best, search.verdict)
}

/// The runs before the failing one.
fn history(search: &mut Search) {
    let mut size = search.best.len() - 1;
    while size > 0 && !search.over() {
        let mut at = 0;
        while at + 1 < search.best.len() && !search.over() {
            let n = size.min(search.best.len() - 1 - at);
            let mut candidate = search.best.clone();
            candidate.drain(at..at + n);
            if !search.attempt(candidate) {
                at += n;
            }
        }
        size = if size == 1 { 0 } else { size.div_ceil(2) };
    }
}

fn streams(search: &mut Search) {
    // Whole tasks; an empty one keeps its number.
    for task in (0..search.last().tasks.len()).rev() {
        if !search.change(|s| {
            s.tasks.remove(task);
        }) {
            search.change(|s| s.tasks[task] = Task::Stream(vec![]));
        }
    }
    for task in 0..search.last().tasks.len() {
        search.thin(
            |s| count(s, task),
            |s, at, n| {
                if let Some(a) = attempts(s, task) {
                    a.drain(at..at + n);
                }
            },
        );
        for k in 0..count(search.last(), task) {
            search.thin(
                |s| plan(s, task, k).map_or(0, |p| p.faults.len()),
                |s, at, n| {
                    if let Some(a) = attempts(s, task) {
                        a[k].plan.faults.drain(at..at + n);
                    }
                },
            );
            search.thin(
                |s| plan(s, task, k).map_or(0, |p| p.bad.len()),
                |s, at, n| {
                    if let Some(a) = attempts(s, task) {
                        a[k].plan.bad.drain(at..at + n);
                    }
                },
            );
            // Structures at the end, whose bytes nothing follows.
            loop {
                let more = match search.last().tasks.get(task) {
                    Some(Task::Stream(a)) => matches!(&a[k].what, What::Items(i) if i.len() > 1),
                    _ => false,
                };
                if !more
                    || !search.change(|s| {
                        if let Some(a) = attempts(s, task) {
                            if let What::Items(items) = &mut a[k].what {
                                items.pop();
                            }
                        }
                    })
                {
                    break;
                }
            }
            let simpler: &[fn(&mut Plan)] = &[
                |p| *p = Plan { faults: p.faults.clone(), bad: p.bad.clone(), ..Plan::plain() },
                |p| p.chunk = Chunk::All,
                |p| p.chunk = Chunk::Fixed(1),
                |p| p.wrap = Wrap::Raw,
                |p| p.origin = 0,
                |p| p.origin = p.origin.min(100),
                |p| p.junk = 0,
                |p| p.latency = 1,
                |p| p.faults.iter_mut().for_each(|f| f.times = f.times.min(1)),
            ];
            for change in simpler {
                search.change(|s| {
                    if let Some(a) = attempts(s, task) {
                        change(&mut a[k].plan);
                    }
                });
            }
            search.change(|s| {
                if let Some(a) = attempts(s, task) {
                    a[k].fresh = true;
                }
            });
        }
    }
}

fn programs(search: &mut Search) {
    for task in 0..search.last().tasks.len() {
        if peek(search.last(), task).is_none() {
            continue;
        }
        search.thin(
            |s| peek(s, task).map_or(0, |g| g.order.len()),
            |s, at, n| {
                if let Some(g) = glyphs(s, task) {
                    g.order.drain(at..at + n);
                }
            },
        );
        search.change(|s| {
            if let Some(g) = glyphs(s, task) {
                g.order.iter_mut().for_each(|(act, _)| {
                    if *act == Act::Migrate {
                        *act = Act::Step;
                    }
                });
            }
        });
        search.change(|s| {
            if let Some(g) = glyphs(s, task) {
                g.extra = g.extra.min(1);
            }
        });
        if search.class == "hang" {
            continue;
        }
        for which in 0..3 {
            // Entries that do not matter, all at once if possible.
            search.change(|s| {
                if let Some(g) = glyphs(s, task) {
                    table(g, which).iter_mut().for_each(|code| code.clear());
                }
            });
            let entries = peek(search.last(), task).map_or(0, |g| match which {
                0 => g.tables.codes.len(),
                1 => g.tables.global.len(),
                _ => g.tables.local.len(),
            });
            for entry in 0..entries.min(300) {
                let length = |s: &Scenario| {
                    peek(s, task).map_or(0, |g| {
                        let table = [&g.tables.codes, &g.tables.global, &g.tables.local][which];
                        table.get(entry).map_or(0, |c| c.len())
                    })
                };
                if length(search.last()) == 0 {
                    continue;
                }
                search.thin(length, |s, at, n| {
                    if let Some(g) = glyphs(s, task) {
                        table(g, which)[entry].drain(at..at + n);
                    }
                });
            }
        }
    }
}

fn questions(search: &mut Search) {
    for task in 0..search.last().tasks.len() {
        search.thin(
            |s| asks(s, task).map_or(0, |a| a.order.len()),
            |s, at, n| {
                if let Some(Task::Ask(a)) = s.tasks.get_mut(task) {
                    a.order.drain(at..at + n);
                }
            },
        );
        search.change(|s| {
            if let Some(Task::Ask(a)) = s.tasks.get_mut(task) {
                a.order.iter_mut().for_each(|a| a.elsewhere = false);
            }
        });
    }
}

fn images(search: &mut Search) {
    for image in 0..search.last().images.len() {
        search.thin(
            |s| s.images[image].edits.len(),
            |s, at, n| {
                s.images[image].edits.drain(at..at + n);
            },
        );
        // What was overwritten, byte by byte.
        for edit in 0..search.last().images[image].edits.len() {
            let Some(Edit::Set { at, bytes, name }) = search.last().images[image].edits.get(edit).cloned() else {
                continue;
            };
            if bytes.len() < 2 || bytes.len() > 600 {
                continue;
            }
            let (mut from, mut to) = (0, bytes.len());
            loop {
                let half = (to - from) / 2;
                if half == 0 {
                    break;
                }
                let mut shrunk = false;
                for (a, b) in [(from + half, to), (from, to - half)] {
                    let piece = Edit::Set { at: at + a, bytes: bytes[a..b].to_vec(), name: name.clone() };
                    if search.change(|s| s.images[image].edits[edit] = piece) {
                        (from, to) = (a, b);
                        shrunk = true;
                        break;
                    }
                }
                if !shrunk {
                    break;
                }
            }
        }
        // Images that nothing reads any more.
        search.change(|s| s.images[image] = Image::default());
    }
}

fn schedule(search: &mut Search) {
    search.change(|s| s.interleave = false);
    search.change(|s| s.trap = 0);
    search.change(|s| s.fine = 0);
    search.change(|s| s.one_thread = false);
    if search.last().interleave {
        search.change(|s| s.picks.clear());
        search.thin(
            |s| s.picks.len(),
            |s, at, n| {
                s.picks.drain(at..at + n);
            },
        );
    } else if !search.last().picks.is_empty() {
        search.change(|s| s.picks.clear());
    }
}
