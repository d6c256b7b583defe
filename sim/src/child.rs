//! What runs in a process of its own, so that a crash or a hang of the code under
//! test is an observation and not the end of the check.

use crate::alloc;
use crate::clock;
use crate::hash;
use crate::json::{obj, J};
use crate::props;
use crate::run::{self, Report};
use crate::scenario::*;
use std::collections::BTreeMap;
use std::os::unix::fs::FileExt;

/// Counts that are not perturbations.
pub const PLAIN: &[&str] = &[
    "bytes delivered",
    "stream operations",
    "succeeded",
    "failed on bytes",
    "failed by stream",
    "structures read",
    "structures retried",
    "leak checks",
    "peak KiB",
    "steps",
    "programs ended",
    "programs malformed",
    "agreements",
    "scheduling points",
    "abandoned load",
    "clock readings",
    "calls held up",
    "wall clock set",
];

fn prepare() -> bool {
    // More than this never is in use together, unless something runs away.
    alloc::limit(3 << 30);
    hash::effective() & clock::effective()
}

/// What a property of histories or of concurrent loads is about is the difference to
/// a load on its own. These are the classes of deviation that the attempts of a
/// scenario show on their own, each in a fresh process.
fn alone(scenario: &Scenario) -> Vec<String> {
    let mut classes = vec![];
    let path = std::env::temp_dir().join(format!("postscript-sim-solo-{}.json", std::process::id()));
    for task in &scenario.tasks {
        let Task::Stream(attempts) = task else { continue };
        let mut stream: Option<(usize, crate::tape::Plan)> = None;
        for attempt in attempts {
            // On a stream like the one it was on.
            let mut plan = attempt.plan.clone();
            match &stream {
                Some((image, first)) if !attempt.fresh && *image == attempt.image => {
                    plan = crate::tape::Plan {
                        faults: plan.faults,
                        bad: plan.bad,
                        chunk: plan.chunk,
                        ..first.clone()
                    };
                }
                _ => stream = Some((attempt.image, plan.clone())),
            }
            let solo = Scenario {
                tasks: vec![Task::Stream(vec![Attempt { fresh: true, plan, ..attempt.clone() }])],
                interleave: false,
                picks: vec![],
                ..scenario.clone()
            };
            let json = obj(vec![("scenarios", J::Arr(vec![solo.json()]))]);
            if std::fs::write(&path, json.emit()).is_err() {
                continue;
            }
            let Ok(exe) = std::env::current_exe() else { continue };
            match std::process::Command::new(exe).arg("solo").arg(&path).output() {
                Ok(output) if output.status.success() => {
                    if let Some(json) = J::parse(&String::from_utf8_lossy(&output.stdout)) {
                        classes.extend(json.get("findings").arr().iter().map(|f| f.get("class").str().to_string()));
                    }
                }
                _ => classes.push("crash".into()),
            }
        }
    }
    let _ = std::fs::remove_file(path);
    classes
}

fn judged(scenario: &Scenario, report: &mut Report) {
    let property = scenario.property.as_str();
    if !matches!(property, "C08" | "C09") || !report.findings.iter().any(|f| props::relevant(property, f.class)) {
        return;
    }
    let known = alone(scenario);
    report.findings.retain(|f| !known.iter().any(|k| k == f.class));
}

fn findings_json(property: &str, report: &Report) -> J {
    J::Arr(
        report
            .findings
            .iter()
            .filter(|f| props::relevant(property, f.class))
            .take(5)
            .map(|f| obj(vec![("class", J::Str(f.class.into())), ("detail", J::Str(f.detail.clone()))]))
            .collect(),
    )
}

pub fn batch(property: &str, seed: &str, start: &str, count: &str, progress: &str) -> i32 {
    let (seed, start, count): (u64, u64, u64) =
        (seed.parse().unwrap(), start.parse().unwrap(), count.parse().unwrap());
    let effective = prepare();
    let progress = std::fs::OpenOptions::new().write(true).create(true).open(progress).unwrap();
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    let mut runs: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut digests, mut outcomes) = (vec![], vec![]);
    let mut found = vec![];
    let mut samples = vec![];
    let (mut clock, mut trivial) = (0u128, 0u64);
    let mut broken = J::Null;
    for index in start..start + count {
        let _ = progress.write_all_at(&index.to_le_bytes(), 0);
        let scenario = props::generate(property, seed, index);
        let mut report = run::run(&scenario, false);
        judged(&scenario, &mut report);
        if let Some(text) = &report.broken {
            broken = J::Str(format!("run {index}: {text}"));
            break;
        }
        clock += report.clock as u128;
        let mut plain = true;
        for (name, n) in &report.counts {
            *counts.entry(name).or_default() += n;
            *runs.entry(name).or_default() += 1;
            plain &= PLAIN.contains(name);
        }
        // A charstring is itself what is hostile about a run of its program.
        plain &= report.counts.get("steps").is_none_or(|&n| n < 3);
        if plain && scenario.tasks.len() < 2 {
            trivial += 1;
        } else {
            digests.push(J::Int(report.digest as i128));
        }
        outcomes.push(J::Int(report.outcome as i128));
        if samples.len() < 3 && !plain {
            samples.push(summary(&scenario, &report));
        }
        let findings = findings_json(property, &report);
        if !findings.arr().is_empty() {
            let last = report.findings.iter().any(|f| f.class == "blocked");
            found.push(obj(vec![("run", J::Int(index as i128)), ("findings", findings)]));
            if found.len() >= 3 || last {
                break;
            }
        }
    }
    let out = obj(vec![
        ("counts", J::Obj(counts.into_iter().map(|(k, v)| (k.to_string(), J::Int(v as i128))).collect())),
        ("runs", J::Obj(runs.into_iter().map(|(k, v)| (k.to_string(), J::Int(v as i128))).collect())),
        ("digests", J::Arr(digests)),
        ("outcomes", J::Arr(outcomes)),
        ("found", J::Arr(found)),
        ("samples", J::Arr(samples)),
        ("clock", J::Int(clock as i128)),
        ("trivial", J::Int(trivial as i128)),
        ("hash", J::Bool(effective)),
        ("broken", broken),
    ]);
    print!("{}", out.emit());
    0
}

fn short(what: &What) -> String {
    match what {
        What::Load => "load".into(),
        What::Count => "count".into(),
        What::Items(items) => format!("{} structures", items.len()),
    }
}

/// A run in a few words, for the evidence.
fn summary(scenario: &Scenario, report: &Report) -> J {
    let images = scenario
        .images
        .iter()
        .map(|i| {
            let edits: Vec<&str> = i
                .edits
                .iter()
                .map(|e| match e {
                    Edit::Set { name, .. } | Edit::Cut { name, .. } | Edit::Add { name, .. } => name.as_str(),
                })
                .collect();
            J::Str(format!("{} bytes{}{}", i.bytes.len(), if edits.is_empty() { "" } else { ", " }, edits.join(", ")))
        })
        .collect();
    let tasks = scenario
        .tasks
        .iter()
        .map(|t| {
            J::Str(match t {
                Task::Stream(attempts) => attempts
                    .iter()
                    .take(6)
                    .map(|a| {
                        let faults: Vec<String> = a
                            .plan
                            .faults
                            .iter()
                            .take(4)
                            .map(|f| format!("{:?} at {:?} {} x{}", f.kind, f.target, f.at, f.times))
                            .collect();
                        format!(
                            "{} of image {} from {} by {:?} through {:?} [{}{}]",
                            short(&a.what),
                            a.image,
                            a.plan.origin,
                            a.plan.chunk,
                            a.plan.wrap,
                            faults.join("; "),
                            if a.plan.bad.is_empty() { "" } else { "; bad sector" },
                        )
                    })
                    .collect::<Vec<_>>()
                    .join(" then "),
                Task::Ask(a) => format!("{} questions about images {:?}", a.order.len(), a.images),
                Task::Glyphs(g) => format!(
                    "{} programs over {} codes, {} acts{}",
                    g.programs.len(),
                    g.tables.codes.len(),
                    g.order.len(),
                    if g.image.is_some() { ", out of a loaded font set" } else { "" }
                ),
            })
        })
        .collect();
    obj(vec![
        ("run", J::Int(scenario.run as i128)),
        ("note", J::Str(scenario.note.clone())),
        ("images", J::Arr(images)),
        ("tasks", J::Arr(tasks)),
        ("interleaved", J::Bool(scenario.interleave)),
        (
            "happened",
            J::Str(report.counts.iter().map(|(k, v)| format!("{k} {v}")).collect::<Vec<_>>().join(", ")),
        ),
        ("digest", J::Str(format!("{:016x}", report.digest))),
    ])
}

/// Run the scenarios of a file one after another and print what the last one gave.
pub fn one(file: &str, trace: bool, solo: bool) -> i32 {
    prepare();
    let text = match std::fs::read_to_string(file) {
        Ok(text) => text,
        Err(error) => {
            eprintln!("{file}: {error}");
            return 3;
        }
    };
    let Some(json) = J::parse(&text) else {
        eprintln!("{file}: not JSON");
        return 3;
    };
    let scenarios: Vec<Scenario> = json.get("scenarios").arr().iter().map(Scenario::parse).collect();
    let mut last = J::Null;
    for (i, scenario) in scenarios.iter().enumerate() {
        let mut report = run::run(scenario, trace && i + 1 == scenarios.len());
        if !solo {
            judged(scenario, &mut report);
        }
        if trace && i + 1 == scenarios.len() {
            for line in &report.trace {
                println!("{line}");
            }
            for f in &report.findings {
                println!("{}: {}", f.class, f.detail);
            }
            return 0;
        }
        last = obj(vec![
            ("findings", findings_json(&scenario.property, &report)),
            ("digest", J::Str(format!("{:016x}", report.digest))),
            ("outcome", J::Str(format!("{:016x}", report.outcome))),
            ("broken", report.broken.clone().map(J::Str).unwrap_or(J::Null)),
        ]);
    }
    print!("{}", last.emit());
    0
}
