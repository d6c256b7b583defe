//! The check of a property: many simulated runs in several processes, the judgement
//! of what they found, and the evidence.

use crate::child::PLAIN;
use crate::json::{obj, J};
use crate::known;
use crate::minimise;
use crate::props;
use crate::run;
use crate::scenario::Scenario;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const WORKERS: usize = 8;
const STILL: Duration = Duration::from_secs(40);
const ROOM: u64 = 4 << 30;

static SERIAL: AtomicU64 = AtomicU64::new(0);

pub struct Scratch(pub PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let path = std::env::temp_dir().join(format!("postscript-sim-{}", std::process::id()));
        std::fs::create_dir_all(&path).expect("no scratch directory");
        Scratch(path)
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.0.join(format!("{}-{name}", SERIAL.fetch_add(1, Ordering::Relaxed)))
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub enum End {
    Done(J),
    Crash(String),
    Hang,
    Broken(String),
    Stopped,
}

/// This program, or its build in which overflows wrap.
fn program(shipped: bool) -> PathBuf {
    let me = std::env::current_exe().unwrap();
    let name = if shipped { "shipped" } else { "release" };
    match me.parent().and_then(|p| p.parent()).map(|p| p.join(name).join("sim")) {
        Some(path) if path.exists() => path,
        _ => me,
    }
}

/// Whether a batch runs in the build in which overflows wrap.
fn turn(start: u64, batch: u64) -> bool {
    (start / batch) % 3 == 2
}

/// Run this program in a process of its own.
pub fn process(
    scratch: &Scratch,
    arguments: &[&str],
    progress: Option<&Path>,
    patience: Duration,
    stop: Option<&AtomicBool>,
    other: bool,
    shipped: bool,
) -> End {
    let (stdout, stderr) = (scratch.file("out"), scratch.file("err"));
    let mut command = Command::new(program(shipped));
    command
        .args(arguments)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&stdout).unwrap())
        .stderr(std::fs::File::create(&stderr).unwrap());
    if other {
        // A process in different circumstances.
        command.env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu").env("PADDING", "x".repeat(5000));
        command.env("SIM_CLOCK", "1");
        command.current_dir("/");
    }
    let mut child = match command.spawn() {
        Ok(child) => child,
        Err(error) => return End::Broken(format!("{error}")),
    };
    let mut moved = Instant::now();
    let mut last = vec![];
    let mut pause = Duration::from_millis(1);
    let mut looked = Instant::now();
    let end = loop {
        match child.try_wait() {
            Ok(Some(status)) => {
                let errors = std::fs::read(&stderr).unwrap_or_default();
                let errors = String::from_utf8_lossy(&errors[..errors.len().min(2000)]).trim().to_string();
                break if let Some(signal) = status.signal() {
                    End::Crash(format!("the process died of signal {signal}: {errors}"))
                } else if status.code() == Some(0) {
                    match J::parse(&std::fs::read_to_string(&stdout).unwrap_or_default()) {
                        Some(json) => End::Done(json),
                        None => End::Broken(format!("no result: {errors}")),
                    }
                } else {
                    End::Broken(format!("{status}: {errors}"))
                };
            }
            Ok(None) => {}
            Err(error) => break End::Broken(format!("{error}")),
        }
        std::thread::sleep(pause);
        pause = (pause * 3 / 2).min(Duration::from_millis(20));
        if looked.elapsed() > Duration::from_millis(200) {
            looked = Instant::now();
            if let Some(path) = progress {
                let now = std::fs::read(path).unwrap_or_default();
                if now != last {
                    last = now;
                    moved = Instant::now();
                }
            }
            let size = std::fs::read_to_string(format!("/proc/{}/statm", child.id())).unwrap_or_default();
            let pages: u64 = size.split(' ').nth(1).and_then(|n| n.parse().ok()).unwrap_or(0);
            if pages * 4096 > ROOM {
                let _ = child.kill();
                let _ = child.wait();
                break End::Crash("the process used up the memory".into());
            }
        }
        if moved.elapsed() > patience {
            let _ = child.kill();
            let _ = child.wait();
            break End::Hang;
        }
        if stop.is_some_and(|s| s.load(Ordering::Relaxed)) {
            let _ = child.kill();
            let _ = child.wait();
            break End::Stopped;
        }
    };
    let _ = std::fs::remove_file(stdout);
    let _ = std::fs::remove_file(stderr);
    end
}

/// What running scenarios one after another in a fresh process gave.
#[derive(Clone, Debug, Default)]
pub struct Verdict {
    pub findings: Vec<(String, String)>,
    pub digest: String,
    pub outcome: String,
    pub broken: Option<String>,
}

impl Verdict {
    pub fn has(&self, class: &str) -> Option<&str> {
        self.findings.iter().find(|f| f.0 == class).map(|f| f.1.as_str())
    }
}

pub fn file_json(property: &str, class: &str, detail: &str, verdict: &Verdict, scenarios: &[Scenario]) -> J {
    obj(vec![
        ("property", J::Str(property.into())),
        ("class", J::Str(class.into())),
        ("detail", J::Str(detail.into())),
        ("digest", J::Str(verdict.digest.clone())),
        ("scenarios", J::Arr(scenarios.iter().map(|s| s.json()).collect())),
    ])
}

pub fn judge(scratch: &Scratch, scenarios: &[Scenario], patience: Duration, other: bool) -> Verdict {
    let path = scratch.file("scenario");
    let json = file_json("", "", "", &Verdict::default(), scenarios);
    std::fs::write(&path, json.emit()).unwrap();
    let shipped = scenarios.first().is_some_and(|s| s.shipped);
    let verdict = judge_file(scratch, &path, patience, other, shipped);
    let _ = std::fs::remove_file(path);
    verdict
}

fn judge_file(scratch: &Scratch, path: &Path, patience: Duration, other: bool, shipped: bool) -> Verdict {
    let path = std::fs::canonicalize(path).unwrap_or(path.into());
    let end = process(scratch, &["one", path.to_str().unwrap()], None, patience, None, other, shipped);
    let mut verdict = Verdict::default();
    match end {
        End::Done(json) => {
            verdict.digest = json.get("digest").str().into();
            verdict.outcome = json.get("outcome").str().into();
            for f in json.get("findings").arr() {
                verdict.findings.push((f.get("class").str().into(), f.get("detail").str().into()));
            }
            if let J::Str(text) = json.get("broken") {
                verdict.broken = Some(text.clone());
            }
        }
        End::Crash(text) => verdict.findings.push(("crash".into(), text)),
        End::Hang => verdict.findings.push((
            "hang".into(),
            format!("no answer within {} seconds", patience.as_secs()),
        )),
        End::Broken(text) => verdict.broken = Some(text),
        End::Stopped => verdict.broken = Some("stopped".into()),
    }
    verdict
}

#[derive(Default)]
struct Sum {
    batches: u64,
    runs: u64,
    trivial: u64,
    clock: u128,
    counts: BTreeMap<String, u64>,
    perturbed: BTreeMap<String, u64>,
    digests: HashSet<u64>,
    results: HashSet<u64>,
    outcomes: BTreeMap<u64, Vec<u64>>,
    samples: BTreeMap<u64, Vec<J>>,
    found: Vec<Found>,
    broken: Vec<String>,
    hash: bool,
    shipped: u64,
}

#[derive(Clone, Debug)]
struct Found {
    run: u64,
    batch: u64,
    class: String,
    detail: String,
}

struct Extent {
    runs: u64,
    batch: u64,
    limit: Duration,
}

fn extent(property: &str, tier: &str) -> Extent {
    // Runs of the quick check: at most a minute on eight cores.
    let (runs, batch) = match property {
        "C01" => (300_000, 500),
        "C02" => (600_000, 1000),
        "C03" => (900_000, 1000),
        "C04" => (900_000, 1000),
        "C05" => (900_000, 1000),
        "C06" => (450_000, 1000),
        "C07" => (900_000, 1000),
        "C08" => (240_000, 400),
        "C09" => (180_000, 400),
        "C10" => (240_000, 500),
        "C11" => (180_000, 500),
        "C12" => (360_000, 1000),
        "C18" => (120_000, 250),
        "C13" => (300_000, 500),
        "C19" => (120_000, props::ASKED),
        _ => (450_000, 1000),
    };
    if tier == "thorough" {
        Extent { runs: u64::MAX >> 8, batch, limit: Duration::from_secs(780) }
    } else {
        Extent { runs, batch, limit: Duration::from_secs(60) }
    }
}

pub fn check(property: &str, tier: &str) -> i32 {
    if !props::ALL.contains(&property) {
        eprintln!("no check for {property}");
        return 3;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let begin = Instant::now();
    let scratch = Scratch::new();
    let mut extent = extent(property, tier);
    if let Some(runs) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        extent.runs = runs;
    }
    if let Some(limit) = std::env::var("SIM_SECONDS").ok().and_then(|s| s.parse().ok()) {
        extent.limit = Duration::from_secs(limit);
    }
    let mut violation = None;
    // What is decided without running anything.
    if props::relevant(property, "not-shareable") {
        let missing = run::shareable();
        if !missing.is_empty() {
            violation = Some(("not-shareable".to_string(), missing.join(", "), vec![], Verdict::default()));
        }
    }
    let mut sum = Sum { hash: true, ..Sum::default() };
    if violation.is_none() {
        explore(&scratch, property, seed, &extent, begin, &mut sum);
    }
    if sum.found.is_empty() && !sum.broken.is_empty() {
        eprintln!("the harness failed: {}", sum.broken.join("; "));
        return 2;
    }
    let mut unconfirmed = vec![];
    if violation.is_none() {
        sum.found.sort_by_key(|f| f.run);
        let mut tried = 0;
        while let Some(found) = sum.found.get(tried).cloned() {
            tried += 1;
            match confirm(&scratch, property, seed, &found, extent.batch) {
                Some((scenarios, verdict)) => {
                    let detail = verdict.has(&found.class).unwrap_or(&found.detail).to_string();
                    violation = Some((found.class.clone(), detail, scenarios, verdict));
                    break;
                }
                None => {
                    eprintln!("not confirmed: run {} {}: {}", found.run, found.class, found.detail);
                    unconfirmed.push(found);
                }
            }
            if tried >= 6 {
                break;
            }
        }
    }
    // The same seeds once more in other processes.
    let mut compared = 0;
    let mut differing = vec![];
    if violation.is_none() {
        let wanted = if property == "C13" { 16 } else { 1 };
        let starts: Vec<u64> = sum.outcomes.keys().copied().take(wanted).collect();
        let results = Mutex::new(vec![]);
        std::thread::scope(|scope| {
            for &start in &starts {
                let (scratch, results, extent) = (&scratch, &results, &extent);
                let first = &sum.outcomes[&start];
                scope.spawn(move || {
                    let progress = scratch.file("progress");
                    let end = process(
                        scratch,
                        &[
                            "batch",
                            property,
                            &seed.to_string(),
                            &start.to_string(),
                            &extent.batch.min(first.len() as u64).to_string(),
                            progress.to_str().unwrap(),
                        ],
                        Some(&progress),
                        STILL,
                        None,
                        true,
                        turn(start, extent.batch),
                    );
                    if let End::Done(json) = end {
                        let second: Vec<u64> = json.get("outcomes").arr().iter().map(|d| d.u64()).collect();
                        let differ: Vec<u64> = (0..first.len().min(second.len()))
                            .filter(|&i| first[i] != second[i])
                            .map(|i| start + i as u64)
                            .collect();
                        results.lock().unwrap().push((first.len() as u64, differ));
                    }
                });
            }
        });
        for (n, differ) in results.into_inner().unwrap() {
            compared += n;
            differing.extend(differ);
        }
        differing.sort();
        if property == "C13" {
            for &run in differing.iter().take(3) {
                let mut scenario = props::generate(property, seed, run);
                scenario.shipped = turn(run, extent.batch);
                if let Some((a, b)) = two_processes(&scratch, std::slice::from_ref(&scenario)) {
                    let detail = format!("two processes gave {a} and {b}");
                    violation = Some(("processes".into(), detail, vec![scenario], Verdict::default()));
                    break;
                }
            }
        }
        if !differing.is_empty() && violation.is_none() {
            eprintln!("{} runs went differently in another process, the first one {}", differing.len(), differing[0]);
        }
    }
    // Findings on record.
    for known in known::list(property) {
        let present = match process(&scratch, &["known", &known.id], None, Duration::from_secs(4), None, false, false) {
            End::Hang | End::Crash(_) => true,
            End::Broken(text) => !text.contains("exit status: 1"),
            _ => true,
        };
        if present {
            println!("KNOWN-FINDING: property={property} {}", known.text);
        } else {
            println!("no longer found: {} {}", known.id, known.text);
        }
    }
    let mut line = None;
    if let Some((class, detail, mut scenarios, mut verdict)) = violation.clone() {
        if !scenarios.is_empty() && class != "processes" {
            let (small, judged) = minimise::minimise(&scratch, &class, scenarios, verdict);
            scenarios = small;
            verdict = judged;
        }
        let detail = verdict.has(&class).unwrap_or(&detail).to_string();
        let _ = std::fs::create_dir_all("replays");
        let name = scenarios.last().map(|s| s.run.to_string()).unwrap_or("static".into());
        let path = std::env::current_dir().unwrap().join(format!("replays/{property}-{seed}-{name}.json"));
        std::fs::write(&path, file_json(property, &class, &detail, &verdict, &scenarios).emit()).unwrap();
        println!("{class}: {detail}");
        line = Some(format!("VIOLATION property={property} replay={}", path.display()));
    }
    let wall = begin.elapsed().as_secs_f64();
    evidence(property, tier, seed, &extent, &sum, wall, compared, differing.len() as u64, &unconfirmed, &violation);
    drop(scratch);
    match line {
        Some(line) => {
            println!("{line}");
            1
        }
        None => {
            println!(
                "{property}: {} runs, {} distinct and perturbed, {:.0} s of simulated time, {wall:.1} s, no violation",
                sum.runs,
                sum.digests.len(),
                sum.clock as f64 / 1e6
            );
            0
        }
    }
}

fn explore(scratch: &Scratch, property: &str, seed: u64, extent: &Extent, begin: Instant, sum: &mut Sum) {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let shared = Mutex::new(std::mem::take(sum));
    std::thread::scope(|scope| {
        for _ in 0..WORKERS {
            scope.spawn(|| loop {
                let start = next.fetch_add(extent.batch, Ordering::Relaxed);
                if start >= extent.runs || begin.elapsed() > extent.limit || stop.load(Ordering::Relaxed) {
                    break;
                }
                let count = extent.batch.min(extent.runs - start);
                let progress = scratch.file("progress");
                let arguments = [
                    "batch",
                    property,
                    &seed.to_string(),
                    &start.to_string(),
                    &count.to_string(),
                    progress.to_str().unwrap(),
                ];
                let end = process(scratch, &arguments, Some(&progress), STILL, Some(&stop), false, turn(start, extent.batch));
                let mut sum = shared.lock().unwrap();
                let reached = || {
                    let bytes = std::fs::read(&progress).unwrap_or_default();
                    bytes.try_into().map(u64::from_le_bytes).unwrap_or(start)
                };
                match end {
                    End::Done(json) => {
                        absorb(&mut sum, start, &json);
                        if turn(start, extent.batch) {
                            sum.shipped += json.get("outcomes").arr().len() as u64;
                        }
                    }
                    End::Crash(detail) => {
                        let run = reached();
                        sum.found.push(Found { run, batch: start, class: "crash".into(), detail });
                    }
                    End::Hang => {
                        let run = reached();
                        let detail = format!("no progress for {} seconds", STILL.as_secs());
                        sum.found.push(Found { run, batch: start, class: "hang".into(), detail });
                    }
                    End::Broken(text) => sum.broken.push(text),
                    End::Stopped => {}
                }
                if !sum.found.is_empty() || !sum.broken.is_empty() {
                    stop.store(true, Ordering::Relaxed);
                }
                drop(sum);
                let _ = std::fs::remove_file(progress);
            });
        }
    });
    *sum = shared.into_inner().unwrap();
}

fn absorb(sum: &mut Sum, start: u64, json: &J) {
    sum.batches += 1;
    sum.trivial += json.get("trivial").u64();
    sum.clock += json.get("clock").int() as u128;
    sum.hash &= json.get("hash").bool();
    for (field, map) in [("counts", &mut sum.counts), ("runs", &mut sum.perturbed)] {
        if let J::Obj(items) = json.get(field) {
            for (name, n) in items {
                *map.entry(name.clone()).or_default() += n.u64();
            }
        }
    }
    sum.digests.extend(json.get("digests").arr().iter().map(|d| d.u64()));
    let outcomes: Vec<u64> = json.get("outcomes").arr().iter().map(|d| d.u64()).collect();
    sum.runs += outcomes.len() as u64;
    sum.results.extend(&outcomes);
    sum.outcomes.insert(start, outcomes);
    while sum.outcomes.len() > 16 {
        sum.outcomes.pop_last();
    }
    sum.samples.insert(start, json.get("samples").arr().to_vec());
    while sum.samples.len() > 2 {
        sum.samples.pop_last();
    }
    for found in json.get("found").arr() {
        for f in found.get("findings").arr().iter().take(1) {
            sum.found.push(Found {
                run: found.get("run").u64(),
                batch: start,
                class: f.get("class").str().into(),
                detail: f.get("detail").str().into(),
            });
        }
    }
    if let J::Str(text) = json.get("broken") {
        sum.broken.push(text.clone());
    }
}

pub fn patience(class: &str) -> Duration {
    // A task that does not move shows after twenty seconds.
    Duration::from_secs(match class {
        "hang" => 40,
        "blocked" => 60,
        _ => 90,
    })
}

/// Reproduce a finding in a fresh process: alone, or after the runs before it.
fn confirm(scratch: &Scratch, property: &str, seed: u64, found: &Found, batch: u64) -> Option<(Vec<Scenario>, Verdict)> {
    let make = |run| Scenario { shipped: turn(found.batch, batch), ..props::generate(property, seed, run) };
    let alone = vec![make(found.run)];
    let patience = patience(&found.class);
    for _ in 0..2 {
        let verdict = judge(scratch, &alone, patience, false);
        if verdict.has(&found.class).is_some() {
            return Some((alone, verdict));
        }
    }
    let history: Vec<Scenario> = (found.batch..=found.run).map(make).collect();
    for _ in 0..2 {
        let verdict = judge(scratch, &history, patience, false);
        if verdict.has(&found.class).is_some() {
            return Some((history, verdict));
        }
    }
    None
}

/// The outcomes of two processes, if they differ.
fn two_processes(scratch: &Scratch, scenarios: &[Scenario]) -> Option<(String, String)> {
    let first = judge(scratch, scenarios, STILL, false).outcome;
    for _ in 0..4 {
        for other in [true, false] {
            let second = judge(scratch, scenarios, STILL, other).outcome;
            if first != second {
                return Some((first, second));
            }
        }
    }
    None
}

pub fn replay(file: &str) -> i32 {
    let Some(json) = std::fs::read_to_string(file).ok().and_then(|t| J::parse(&t)) else {
        eprintln!("{file}: not a replay file");
        return 3;
    };
    let scratch = Scratch::new();
    let (property, class) = (json.get("property").str(), json.get("class").str());
    let path = std::fs::canonicalize(file).unwrap();
    let line = format!("VIOLATION property={property} replay={}", path.display());
    match class {
        "not-shareable" => {
            let missing = run::shareable();
            if !missing.is_empty() {
                println!("{class}: {}\n{line}", missing.join(", "));
                return 1;
            }
        }
        "processes" => {
            let scenarios: Vec<Scenario> = json.get("scenarios").arr().iter().map(Scenario::parse).collect();
            if let Some((a, b)) = two_processes(&scratch, &scenarios) {
                println!("{class}: two processes gave {a} and {b}\n{line}");
                return 1;
            }
        }
        _ => {
            let shipped = json.get("scenarios").arr().first().is_some_and(|s| s.get("shipped").bool());
            let verdict = judge_file(&scratch, &path, patience(class), false, shipped);
            if let Some(text) = verdict.broken {
                eprintln!("the harness failed: {text}");
                return 2;
            }
            if let Some(detail) = verdict.has(class) {
                println!("{class}: {detail}");
                if !verdict.digest.is_empty() {
                    let same = verdict.digest == json.get("digest").str();
                    println!(
                        "execution {} ({})",
                        verdict.digest,
                        if same { "the recorded one" } else { "differs from the recorded one" }
                    );
                }
                println!("{line}");
                return 1;
            }
        }
    }
    println!("{property}: the replay shows no violation");
    0
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    property: &str,
    tier: &str,
    seed: u64,
    extent: &Extent,
    sum: &Sum,
    wall: f64,
    compared: u64,
    differing: u64,
    unconfirmed: &[Found],
    violation: &Option<(String, String, Vec<Scenario>, Verdict)>,
) {
    let map = |plain: bool| {
        J::Obj(
            sum.counts
                .iter()
                .filter(|(k, _)| PLAIN.contains(&k.as_str()) == plain)
                .map(|(k, &v)| {
                    let runs = sum.perturbed.get(k).copied().unwrap_or(0);
                    (k.clone(), J::Str(format!("{v} in {runs} runs")))
                })
                .collect(),
        )
    };
    let glyphs = matches!(property, "C10" | "C11" | "C12" | "C18");
    let real: Vec<J> = if glyphs {
        vec!["type2 (Program, operand and operator decoding)", "compact1 (the font sets some programs are taken from)"]
    } else if matches!(property, "C09" | "C19") {
        vec!["compact1 (all of it, with the look-ups)", "type2 (programs that run beside)", "typeface (tape, value, walue)"]
    } else {
        vec!["compact1 (font sets, dictionaries, indices, character sets, encodings, numbers)", "typeface (tape, value, walue)"]
    }
    .into_iter()
    .map(|s| J::Str(s.into()))
    .collect();
    let simulated: Vec<J> = [
        "the stream (reads, seeks, errors, latency, what surrounds the font)",
        "the clock of the stream and of the scheduler",
        "the choice of the thread that runs next",
        "the hash seeds of the standard library (getrandom)",
        "the allocator (counts what the code under test asks for; memory itself is real)",
    ]
    .iter()
    .map(|s| J::Str(s.to_string()))
    .collect();
    let mut samples: Vec<J> = sum.samples.values().flatten().take(4).cloned().collect();
    let mut length = 0;
    samples.retain(|s| {
        length += s.emit().len();
        length < 30_000
    });
    let coverage = obj(vec![
        ("evaluations", J::Int(sum.runs as i128)),
        ("distinct_nontrivial", J::Int(sum.digests.len() as i128)),
        (
            "rule",
            J::Str(
                "A run is one execution generated from (property, seed, run number). It is non-trivial if a fault, \
                 damage, uneven delivery or a schedule of several tasks perturbed it; two are distinct if the \
                 sequence of stream operations with their outcomes, scheduling decisions and interpreter steps \
                 differs (by a 64-bit digest)."
                    .into(),
            ),
        ),
        ("samples", J::Arr(samples)),
        ("distinct_outcomes", J::Int(sum.results.len() as i128)),
        ("unperturbed_runs", J::Int(sum.trivial as i128)),
        ("runs_per_hour", J::Int((sum.runs as f64 / wall * 3600.0) as i128)),
        (
            "seeds",
            J::Str(format!(
                "runs 0 to {} under seed {seed}: {} run seeds, as many per hour as runs",
                sum.runs.saturating_sub(1),
                sum.runs
            )),
        ),
        ("simulated_time_s", J::Float(sum.clock as f64 / 1e6)),
        ("injected", map(false)),
        ("observed", map(true)),
        ("replayed_in_another_process", J::Int(compared as i128)),
        ("of_these_different", J::Int(differing as i128)),
        ("runs_with_wrapping_overflow", J::Int(sum.shipped as i128)),
        ("hash_seeds_and_clock_under_control", J::Bool(sum.hash)),
        ("real_components", J::Arr(real)),
        ("simulated_components", J::Arr(simulated)),
        ("batches", J::Int(sum.batches as i128)),
        ("batch_size", J::Int(extent.batch as i128)),
        (
            "not_confirmed",
            J::Arr(unconfirmed.iter().take(5).map(|f| J::Str(format!("{} in run {}", f.class, f.run))).collect()),
        ),
    ]);
    let out = obj(vec![
        ("property", J::Str(property.into())),
        ("tier", J::Str(if tier == "thorough" { "thorough" } else { "quick" }.into())),
        ("seed", J::Int(seed as i128)),
        ("level", J::Str("exploration".into())),
        ("coverage", coverage),
        (
            "assumptions",
            J::Arr(
                [
                    "The reference readers of this harness state the format's rules correctly (see DESIGN.md).",
                    "The code under test reaches the outside world only through the stream, the allocator, the hash \
                     seeds and the threads it is called on.",
                    "Threads switch at stream operations and between interpreter steps, not inside of them.",
                ]
                .iter()
                .map(|s| J::Str(s.to_string()))
                .collect(),
            ),
        ),
        ("wall_s", J::Float(wall)),
        ("violations", J::Int(violation.is_some() as i128)),
    ]);
    let _ = std::fs::create_dir_all("evidence");
    std::fs::write(format!("evidence/{property}.json"), out.emit()).expect("no evidence");
}

/// A look at what runs do, in this process.
pub fn survey(property: &str, count: &str) -> i32 {
    let count: u64 = count.parse().unwrap_or(300);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let begin = Instant::now();
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    let mut found: BTreeMap<&str, (u64, String)> = BTreeMap::new();
    let (mut longest, mut which) = (Duration::ZERO, 0);
    for index in 0..count {
        let start = Instant::now();
        let report = run::run(&props::generate(property, seed, index), false);
        if start.elapsed() > Duration::from_secs(1) {
            println!("run {index} took {:?}: {}", start.elapsed(), props::generate(property, seed, index).note);
        }
        if start.elapsed() > longest {
            longest = start.elapsed();
            which = index;
        }
        if let Some(text) = report.broken {
            println!("broken {index}: {text}");
        }
        for (k, v) in report.counts {
            *counts.entry(k).or_default() += v;
        }
        for f in report.findings {
            found.entry(f.class).or_insert((0, format!("{index}: {}", f.detail))).0 += 1;
        }
    }
    println!("{property}: {count} runs in {:?}, the longest {longest:?} ({which})\n{counts:?}", begin.elapsed());
    for (class, (n, first)) in found {
        println!("  {class} {n}{} {first}", if props::relevant(property, class) { " *" } else { "" });
    }
    0
}
