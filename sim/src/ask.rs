//! Tasks that ask loaded font sets: in any order, from any thread, while others load,
//! ask, copy, and let go.

use crate::canon;
use crate::cff::{Charset, Dict, Enc, Num, Rec, Set};
use crate::rng::mix;
use crate::run::{bomb, brief, describe, fold, guard, step, Got, Instance, Out, Phase, Portable, Shared, STACK};
use crate::scenario::*;
use crate::sched::Sched;
use crate::t2;
use crate::tape::{self, Log, Tape};
use postscript::compact1::font_set::Record;
use postscript::compact1::index::{Dictionaries, Names, Strings};
use postscript::compact1::{CharacterSet, Encoding, FontSet, Header, Index, Number, Operations, Operator};
use postscript::tape::Read;
use postscript::type2::Program;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::sync::{Arc, Mutex, OnceLock};

/// The first answers to questions that the bytes of a font set do not settle (look-ups
/// through stored tables), by image, question, and key.
pub type Quiet = Mutex<BTreeMap<(usize, bool, u32), String>>;

/// The answers that do not depend on what is stored in a font set, as a process gives
/// them that does nothing else.
struct Fixed {
    strings: Vec<String>,
    glyphs: [Vec<String>; 3],
    codes: [Vec<String>; 2],
    defaults: BTreeMap<u16, Option<Vec<Num>>>,
}

const REACH: u32 = 600;

/// From here on keys are about the predefined tables.
pub const PREDEFINED: u32 = 8;

fn operators() -> &'static [(u16, Operator)] {
    static ALL: OnceLock<Vec<(u16, Operator)>> = OnceLock::new();
    ALL.get_or_init(|| {
        let codes = (0..=0x15).chain(0x0c00..=0x0c30);
        codes.filter_map(|code: u16| Some((code, Operator::from(code).ok()?))).collect()
    })
}

fn nums(operands: &[Number]) -> Vec<Num> {
    operands.iter().map(|&n| canon::num(n)).collect()
}

/// Print the answers that do not depend on what is stored.
pub fn recite() {
    let none = Strings(Index { count: 0, offset_size: 0, offsets: vec![], data: vec![] });
    (0..391).for_each(|id| println!("{:?}", none.get(id)));
    for set in [CharacterSet::ISOAdobe, CharacterSet::Expert, CharacterSet::ExpertSubset] {
        (0..REACH).for_each(|g| println!("{:?}", set.get(g as u16)));
    }
    for encoding in [Encoding::Standard, Encoding::Expert] {
        (0..REACH).for_each(|g| println!("{:?}", encoding.get(g as u16)));
    }
    for &(_, operator) in operators() {
        let operands = nums(operator.default().unwrap_or_default());
        let words = operands.iter().map(|n| match n {
            Num::I(v) => format!("i {v} "),
            Num::R(v) => format!("r {v} "),
        });
        println!("{}{}", words.collect::<String>(), if operator.default().is_some() { "." } else { "none" });
    }
}

fn operands(line: &str) -> Option<Vec<Num>> {
    let words: Vec<&str> = line.split(' ').collect();
    (words.last() == Some(&".")).then(|| {
        let pairs = words.chunks_exact(2);
        pairs
            .filter_map(|w| match w[0] {
                "i" => Some(Num::I(w[1].parse().ok()?)),
                _ => Some(Num::R(w[1].parse().ok()?)),
            })
            .collect()
    })
}

/// What another process recites: this one has not been asked for anything yet.
fn fixed() -> &'static Fixed {
    static FIXED: OnceLock<Fixed> = OnceLock::new();
    FIXED.get_or_init(|| {
        let exe = std::env::current_exe().expect("this program");
        let output = std::process::Command::new(exe).arg("recite").output().expect("another process");
        let text = String::from_utf8_lossy(&output.stdout).into_owned();
        let mut lines = text.lines().map(String::from);
        let mut next = |n: usize| -> Vec<String> {
            let mut some: Vec<String> = lines.by_ref().take(n).collect();
            // Faulty: what it did not live to say is not judged.
            some.resize(n, String::new());
            some
        };
        let strings = next(391);
        let glyphs = [(); 3].map(|_| next(REACH as usize));
        let codes = [(); 2].map(|_| next(REACH as usize));
        let lines = next(operators().len());
        let defaults = operators().iter().zip(lines).map(|(o, line)| (o.0, operands(&line))).collect();
        Fixed { strings, glyphs, codes, defaults }
    })
}

/// Load what is asked about and shared.
pub fn prepare(shared: &mut Shared) {
    let scenario = shared.scenario.clone();
    fixed();
    // (What cannot be shared is not shared; that it cannot is judged elsewhere.)
    let shareable = crate::run::shareable().is_empty();
    for (image, font) in shared.fonts.iter().enumerate() {
        let asked =
            scenario.tasks.iter().any(|t| matches!(t, Task::Ask(a) if a.shared && a.images.contains(&image)));
        let set = match asked && shareable {
            true => guard(|| Cursor::new(&font[..]).take::<FontSet>()).ok(),
            false => None,
        };
        shared.sets.push(set.map(|set| Arc::new(Portable(set))));
    }
}

/// Which font and which glyph or code a key is about.
fn split(key: u32, fonts: usize) -> Option<(usize, u16)> {
    (fonts > 0).then(|| ((key >> 16) as usize % fonts, key as u16))
}

/// The table that a key is about on its own, if it is not about one of a font set.
fn predefined(key: u32, tables: usize) -> Option<usize> {
    (key >> 16 >= PREDEFINED).then(|| (key >> 16) as usize % tables)
}

fn look_up(set: &FontSet, glyph: bool, key: u32) -> Option<String> {
    if glyph {
        if let Some(table) = predefined(key, 3) {
            let sets = [CharacterSet::ISOAdobe, CharacterSet::Expert, CharacterSet::ExpertSubset];
            return Some(format!("{:?}", sets[table].get(key as u16)));
        }
        let (font, id) = split(key, set.character_sets.len())?;
        Some(format!("{:?}", set.character_sets[font].get(id)))
    } else {
        if let Some(table) = predefined(key, 2) {
            return Some(format!("{:?}", [Encoding::Standard, Encoding::Expert][table].get(key as u16)));
        }
        let (font, id) = split(key, set.encodings.len())?;
        Some(format!("{:?}", set.encodings[font].get(id)))
    }
}

/// The dictionaries of a font set, as loaded and as stored.
fn dictionary<'l>(set: &'l FontSet, key: u32) -> Option<&'l Operations> {
    let mut all: Vec<&Operations> = set.operations.iter().take(8).collect();
    for record in set.records.iter().take(8) {
        match record {
            Record::CharacterNameKeyed(r) => all.push(&r.operations),
            Record::CharacterIDKeyed(r) => {
                all.extend(r.operations.iter().take(8));
                all.extend(r.records.iter().take(8).map(|r| &r.operations));
            }
        }
    }
    (!all.is_empty()).then(|| all[(key >> 8) as usize % all.len()])
}

fn stored(set: &Set, key: u32) -> Option<&Dict> {
    let mut all: Vec<&Dict> = set.top.iter().take(8).collect();
    for record in set.records.iter().take(8) {
        match record {
            Rec::Name(r) => all.push(&r.ops),
            Rec::Cid { dicts, recs, .. } => {
                all.extend(dicts.iter().take(8));
                all.extend(recs.iter().take(8).map(|r| &r.ops));
            }
        }
    }
    (!all.is_empty()).then(|| all[(key >> 8) as usize % all.len()])
}

fn operator(key: u32, dict: Option<&Dict>) -> (u16, Operator) {
    let all = operators();
    let present: Vec<u16> = dict.map_or(vec![], |d| d.keys().copied().collect());
    // Those that are there as often as the rest.
    let k = (key & 0x7f) as usize;
    if key & 0x80 > 0 && !present.is_empty() {
        let code = present[k % present.len()];
        if let Some(found) = all.iter().find(|o| o.0 == code) {
            return *found;
        }
    }
    all[k % all.len()]
}

enum Holder {
    Nothing,
    Shared(Arc<Portable<FontSet>>),
    Own(Box<FontSet>),
}

impl Holder {
    fn get(&self) -> Option<&FontSet> {
        match self {
            Holder::Nothing => None,
            Holder::Shared(set) => Some(&set.0),
            Holder::Own(set) => Some(set),
        }
    }
}

/// What the library says and what it has to say.
fn ask(set: &FontSet, reference: &Set, font: &[u8], ask: Ask) -> Option<(Answer, String)> {
    let key = ask.key;
    let dict = stored(reference, key);
    let expected = match ask.query {
        Query::String => {
            let id = key as u16 as usize;
            match id.checked_sub(391) {
                None => fixed().strings[id].clone(),
                Some(i) => {
                    format!("{:?}", reference.strings.data.get(i).map(|b| String::from_utf8_lossy(b).into_owned()))
                }
            }
        }
        Query::Operands | Query::Single | Query::Double => {
            let (code, _) = operator(key, dict);
            let operands = match dict?.get(&code) {
                Some(operands) => Some(operands.clone()),
                None => fixed().defaults.get(&code).cloned().flatten(),
            };
            match ask.query {
                Query::Operands => format!("{operands:?}"),
                Query::Single => format!("{:?}", operands.and_then(|o| o.first().copied())),
                _ => format!("{:?}", operands.and_then(|o| Some((*o.first()?, *o.get(1)?)))),
            }
        }
        Query::Default => {
            let (code, _) = operator(key & 0x7f, None);
            format!("{:?}", fixed().defaults.get(&code).cloned().flatten())
        }
        Query::Dictionary => {
            if reference.top.is_empty() {
                return None;
            }
            format!("{:?}", reference.top[key as usize % reference.top.len()])
        }
        Query::Dictionaries => format!("{:?}", reference.top),
        Query::Names => {
            let names: Vec<_> = reference.names.data.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect();
            format!("{names:?}")
        }
        Query::Glyph => {
            let table = predefined(key, 3).or_else(|| {
                let (font, _) = split(key, reference.charsets.len())?;
                match reference.charsets[font] {
                    Charset::Iso => Some(0),
                    Charset::Expert => Some(1),
                    Charset::Subset => Some(2),
                    _ => None,
                }
            });
            match table.and_then(|t| fixed().glyphs[t].get(key as u16 as usize)) {
                Some(answer) => answer.clone(),
                // The first answer stands.
                None => String::new(),
            }
        }
        Query::Code => {
            let table = predefined(key, 2).or_else(|| {
                let (font, _) = split(key, reference.encodings.len())?;
                match reference.encodings[font] {
                    Enc::Standard => Some(0),
                    Enc::Expert => Some(1),
                    _ => None,
                }
            });
            match table.and_then(|t| fixed().codes[t].get(key as u16 as usize)) {
                Some(answer) => answer.clone(),
                // The first answer stands.
                None => String::new(),
            }
        }
        Query::Whole => String::new(),
        _ => return None,
    };
    let answer = move || -> std::io::Result<String> {
        Ok(match ask.query {
            Query::String => format!("{:?}", set.strings.get(key as u16)),
            Query::Operands => {
                let (_, operator) = operator(key, dict);
                format!("{:?}", dictionary(set, key).and_then(|d| d.get(operator)).map(nums))
            }
            Query::Single => {
                let (_, operator) = operator(key, dict);
                format!("{:?}", dictionary(set, key).and_then(|d| d.get_single(operator)).map(canon::num))
            }
            Query::Double => {
                let (_, operator) = operator(key, dict);
                let pair = dictionary(set, key).and_then(|d| d.get_double(operator));
                format!("{:?}", pair.map(|(a, b)| (canon::num(a), canon::num(b))))
            }
            Query::Default => {
                let (_, operator) = operator(key & 0x7f, None);
                format!("{:?}", operator.default().map(nums))
            }
            Query::Dictionary | Query::Dictionaries => {
                let mut tape = Cursor::new(font);
                let header = tape.take::<Header>()?;
                tape.set_position(header.header_size as u64);
                tape.take::<Names>()?;
                let dictionaries = tape.take::<Dictionaries>()?;
                if ask.query == Query::Dictionary {
                    format!("{:?}", canon::dict(&dictionaries.get(key as usize % dictionaries.0.data.len().max(1))?))
                } else {
                    let all = Vec::<Operations>::try_from(&dictionaries)?;
                    format!("{:?}", all.iter().map(canon::dict).collect::<Vec<_>>())
                }
            }
            Query::Names => format!("{:?}", Vec::<String>::try_from(set.names.clone())?),
            Query::Glyph => look_up(set, true, key).unwrap_or_default(),
            Query::Code => look_up(set, false, key).unwrap_or_default(),
            _ => canon::difference(&canon::set(set), reference).unwrap_or_default(),
        })
    };
    let result = if ask.elsewhere {
        let answer = Portable(answer);
        std::thread::scope(|scope| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(scope, move || {
                    let answer = answer;
                    Portable(guard(answer.0))
                })
                .unwrap()
                .join()
                .map(|r| r.0)
                .unwrap_or_else(|_| Err(Got::Panic("thread".into())))
        })
    } else {
        guard(answer)
    };
    let actual = match result {
        Ok(text) => Answer::Text(text),
        Err(Got::Fail(error)) => Answer::Text(format!("failure {}", describe(&error))),
        Err(Got::Panic(text)) => Answer::Panic(text),
        Err(_) => return None,
    };
    Some((actual, expected))
}

enum Answer {
    Text(String),
    Panic(String),
}

/// Run the program of a glyph in step with the reference interpreter.
fn program(out: &mut Out, set: &FontSet, reference: &Set, me: usize, key: u32, elsewhere: bool, trace: bool) {
    let empty = vec![];
    let (Some(strings), Some(rstrings)) = (set.character_strings.first(), reference.charstrings.first()) else {
        return;
    };
    let local: &[Vec<u8>] = match set.records.first() {
        Some(Record::CharacterNameKeyed(r)) => &r.subroutines,
        Some(Record::CharacterIDKeyed(r)) => match r.records.first() {
            Some(r) => &r.subroutines,
            None => &empty,
        },
        None => &empty,
    };
    let rlocal = match reference.records.first() {
        Some(Rec::Name(p)) => &p.subrs.data,
        Some(Rec::Cid { recs, .. }) => recs.first().map_or(&empty, |p| &p.subrs.data),
        None => &empty,
    };
    let count = rstrings.data.len().min(strings.len());
    if count == 0 {
        return;
    }
    let glyph = key as usize % count;
    let (code, rcode) = (&strings[glyph], &rstrings.data[glyph]);
    if bomb(std::slice::from_ref(rcode), &reference.gsubrs.data, rlocal) {
        return;
    }
    let mut instance = Instance {
        program: Portable(Program::new(code, &set.subroutines, local)),
        machine: t2::Machine::new(rcode, &reference.gsubrs.data, rlocal),
        phase: Phase::Running,
        width: None,
        bomb: false,
        patience: 4,
    };
    let mut digest = 0;
    let mut n = 0;
    while matches!(instance.phase, Phase::Running) && n < 2000 {
        step(&mut out.report, &mut instance, elsewhere && n % 5 == 0, me, glyph, &mut digest, trace);
        n += 1;
    }
    out.report.outcome = mix(out.report.outcome ^ digest);
}

pub fn task(shared: &Shared, me: usize, asks: &Asks, sched: Option<Arc<Sched>>) -> Out {
    let mut out = Out::default();
    let begin = |image: usize| match shared.sets.get(image) {
        Some(Some(set)) if asks.shared => Holder::Shared(set.clone()),
        _ => Holder::Nothing,
    };
    let mut holders: Vec<Holder> = asks.images.iter().map(|&image| begin(image)).collect();
    let mut digest = 0;
    // In the end everything still is as it was.
    let last = (0..asks.images.len()).map(|slot| Ask { query: Query::Whole, slot, key: 0, elsewhere: false });
    let first = (0..asks.images.len()).map(|slot| Ask { query: Query::Load, slot, key: 0, elsewhere: false });
    let first = first.filter(|a| matches!(holders[a.slot], Holder::Nothing)).collect::<Vec<_>>();
    for a in first.into_iter().chain(asks.order.iter().copied()).chain(last) {
        if let Some(sched) = &sched {
            sched.pause(me, 0);
        }
        let Some(&image) = asks.images.get(a.slot) else { continue };
        let reference = shared.set(image);
        let Ok(reference) = &*reference else { continue };
        let name = QUERIES.iter().find(|q| q.0 == a.query).map_or("", |q| q.1);
        let place = format!("task {me} set {} {name} {}", a.slot, a.key);
        match a.query {
            Query::Load => {
                let log = Arc::new(Mutex::new(Log { lowest: u64::MAX, ..Log::default() }));
                let pair = sched.clone().map(|s| (s, me));
                let mut tape = Tape::new(shared.fonts[image].clone(), &tape::Plan::plain(), 0, log, pair);
                match guard(|| tape.take::<FontSet>()) {
                    Ok(set) => holders[a.slot] = Holder::Own(Box::new(set)),
                    Err(Got::Panic(text)) => out.report.find("panic", format!("{place}: {text}")),
                    Err(Got::Fail(error)) => {
                        out.report.find("rejected", format!("{place}: failed with {}", describe(&error)))
                    }
                    Err(_) => {}
                }
                out.report.add("font sets loaded meanwhile", 1);
            }
            Query::Copy => {
                let copy = holders[a.slot].get().map(|set| guard(|| Ok(Box::new(set.clone()))));
                match copy {
                    Some(Ok(set)) => {
                        holders[a.slot] = Holder::Own(set);
                        out.report.add("font sets copied", 1);
                    }
                    Some(Err(Got::Panic(text))) => out.report.find("panic", format!("{place}: {text}")),
                    _ => {}
                }
            }
            Query::Drop => {
                let old = std::mem::replace(&mut holders[a.slot], begin(image));
                if let Err(Got::Panic(text)) = guard(|| Ok(drop(old))) {
                    out.report.find("panic", format!("{place}: {text}"));
                }
                out.report.add("font sets let go", 1);
            }
            Query::Program => {
                if let Some(set) = holders[a.slot].get() {
                    program(&mut out, set, reference, me, a.key, a.elsewhere, shared.trace);
                }
            }
            _ => {
                let Some(set) = holders[a.slot].get() else { continue };
                out.report.add("questions", 1);
                if a.elsewhere {
                    out.report.add("questions from another thread", 1);
                }
                match ask(set, reference, &shared.fonts[image], a) {
                    Some((Answer::Text(actual), mut expected)) => {
                        if expected.is_empty() && matches!(a.query, Query::Glyph | Query::Code) {
                            let key = (image, a.query == Query::Glyph, a.key);
                            expected = shared.quiet.lock().unwrap().entry(key).or_insert(actual.clone()).clone();
                        }
                        digest = mix(digest ^ fold(&actual));
                        if shared.trace {
                            out.report.trace.push(format!("{place}: {}", brief(actual.clone())));
                        }
                        if actual != expected {
                            let (actual, expected) = (brief(actual), brief(expected));
                            let detail = format!("{place}: the answer is {actual} and has to be {expected}");
                            out.report.find("answer", detail);
                        }
                    }
                    Some((Answer::Panic(text), _)) => out.report.find("panic", format!("{place}: {text}")),
                    None => {}
                }
            }
        }
        let property = shared.scenario.property.as_str();
        if out.report.findings.iter().any(|f| crate::props::relevant(property, f.class)) {
            break;
        }
    }
    out.report.outcome = mix(out.report.outcome ^ digest);
    out.report.digest = mix(out.report.digest ^ digest);
    out
}
