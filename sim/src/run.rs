//! Executes a scenario against the real library and judges what it did.

use crate::alloc;
use crate::clock;
use crate::canon;
use crate::cff::{self, Charset, Dict, Enc, FdSel, MIndex, Num, Res, Set, E, R};
use crate::hash;
use crate::rng::mix;
use crate::scenario::*;
use crate::sched::Sched;
use crate::t2;
use crate::trap;
use crate::tape::{self, Cancelled, Id, Log, Stuck, Tape};
use postscript::compact1::font_set::character_id_keyed as cid;
use postscript::compact1::index::{CharacterStrings, Dictionaries, Names, Strings, Subroutines};
use postscript::compact1::{character_set, encoding};
use postscript::compact1::{CharacterSet, Encoding, FontSet, Header, Index, Number, Offset, Operations};
use postscript::tape::Read as _;
use postscript::type2::{Operator, Program};
use std::collections::BTreeMap;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub struct Finding {
    pub class: &'static str,
    pub detail: String,
}

#[derive(Default, Debug)]
pub struct Report {
    pub findings: Vec<Finding>,
    pub counts: BTreeMap<&'static str, u64>,
    pub digest: u64,
    pub outcome: u64,
    pub clock: u64,
    pub trace: Vec<String>,
    pub broken: Option<String>,
}

impl Report {
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.counts.entry(name).or_default() += n;
    }
    pub(crate) fn find(&mut self, class: &'static str, detail: String) {
        self.findings.push(Finding { class, detail });
    }
}

#[derive(Clone, Debug, PartialEq)]
pub(crate) enum Val {
    Set(Box<Set>),
    Count(u64),
    Header((u8, u8, u8, u8)),
    Num(Num),
    Off(u32),
    Index(MIndex),
    Charset(Charset),
    Enc(Enc),
    FdSel(FdSel),
    Dict(Dict),
}

pub(crate) enum Got {
    Val(Val),
    Fail(std::io::Error),
    Panic(String),
    Cancelled(u64),
    Stuck,
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet() {
    std::panic::set_hook(Box::new(|info| {
        let _quiet = alloc::quiet();
        let payload = info.payload();
        let text = if let Some(s) = payload.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = payload.downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let place = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("SIM_LOUD").is_ok() { eprintln!("{text}{place}"); }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{text}{place}"));
    }));
}

/// What is left of a task that was ended by a panic: in the library or in the harness.
fn stopped(task: usize) -> Out {
    let text = PANIC.with(|p| p.take());
    let mut out = Out::default();
    // The harness is compiled by relative paths.
    match text.rsplit_once(" at /") {
        Some((_, place)) if !place.starts_with("rustc/") => {
            out.report.find("panic", format!("task {task}: {text}"));
        }
        _ => out.report.broken = Some(text),
    }
    out
}

pub(crate) fn guard<T>(f: impl FnOnce() -> std::io::Result<T>) -> Result<T, Got> {
    clock::between();
    let before = alloc::arm(true);
    trap::tease();
    let result = catch_unwind(AssertUnwindSafe(f));
    trap::calm();
    alloc::arm(before);
    match result {
        Ok(Ok(value)) => Ok(value),
        Ok(Err(error)) => Err(Got::Fail(error)),
        Err(payload) => Err(if let Some(c) = payload.downcast_ref::<Cancelled>() {
            Got::Cancelled(c.0)
        } else if payload.is::<Stuck>() {
            Got::Stuck
        } else {
            Got::Panic(PANIC.with(|p| p.take()))
        }),
    }
}

/// The type-level part of C09: decided when the harness is compiled, without
/// failing to compile where it does not hold.
mod traits {
    pub struct Probe<T: ?Sized>(pub std::marker::PhantomData<T>);
    pub trait No {
        fn send(&self) -> bool {
            false
        }
        fn sync(&self) -> bool {
            false
        }
    }
    impl<T: ?Sized> No for &Probe<T> {}
    impl<T: ?Sized + Send> Probe<T> {
        pub fn send(&self) -> bool {
            true
        }
    }
    impl<T: ?Sized + Sync> Probe<T> {
        pub fn sync(&self) -> bool {
            true
        }
    }
}

pub fn shareable() -> Vec<String> {
    #[allow(unused_imports)]
    use traits::{No, Probe};
    let mut missing = vec![];
    macro_rules! check(($($type:ty),*) => ($(
        let probe = Probe::<$type>(std::marker::PhantomData);
        if !(&probe).send() {
            missing.push(format!("{} is not Send", stringify!($type)));
        }
        if !(&probe).sync() {
            missing.push(format!("{} is not Sync", stringify!($type)));
        }
    )*));
    check!(FontSet, Operations, Index, CharacterSet, Encoding, cid::Record, Program<'static>);
    missing
}

pub(crate) struct Portable<T>(pub T);
unsafe impl<T> Send for Portable<T> {}
unsafe impl<T> Sync for Portable<T> {}

fn strings(glyphs: usize) -> CharacterStrings {
    let empty = |glyphs: usize| {
        let mut bytes = vec![];
        if glyphs == 0 {
            bytes.extend([0, 0]);
        } else {
            bytes.extend((glyphs as u16).to_be_bytes());
            bytes.push(1);
            bytes.extend(vec![1; glyphs + 1]);
        }
        bytes
    };
    let full = |glyphs: usize| {
        let mut bytes = (glyphs as u16).to_be_bytes().to_vec();
        bytes.push(4);
        for i in 0..=glyphs as u32 {
            bytes.extend((i + 1).to_be_bytes());
        }
        bytes.extend(vec![14; glyphs]);
        bytes
    };
    for bytes in [empty(glyphs), full(glyphs)] {
        if let Ok(strings) = std::io::Cursor::new(bytes).take_given::<CharacterStrings>(2) {
            return strings;
        }
    }
    // Faulty: what reads them is judged elsewhere.
    std::io::Cursor::new(full(1)).take_given::<CharacterStrings>(2).unwrap()
}

fn read_item(tape: &mut Tape, item: Item, helper: Option<&CharacterStrings>) -> std::io::Result<Val> {
    Ok(match item {
        Item::Header => {
            let h = tape.take::<Header>()?;
            Val::Header((h.major, h.minor, h.header_size, h.offset_size))
        }
        Item::Number => Val::Num(canon::num(tape.take::<Number>()?)),
        Item::Offset(size) => Val::Off(tape.take_given::<Offset>(size)?.0),
        Item::Index(kind) => Val::Index(canon::index(&match kind {
            0 => tape.take::<Index>()?,
            1 => tape.take::<Names>()?.0,
            2 => tape.take::<Strings>()?.0,
            3 => tape.take::<Subroutines>()?.0,
            4 => tape.take::<Dictionaries>()?.0,
            _ => tape.take_given::<CharacterStrings>(2)?.0,
        })),
        Item::Charset(glyphs, false) => Val::Charset(canon::charset(&tape.take_given::<CharacterSet>(glyphs)?)),
        Item::Charset(glyphs, true) => {
            let format = tape.peek::<u8>()?;
            Val::Charset(canon::charset(&match format {
                0 => CharacterSet::Format0(tape.take_given::<character_set::CharacterSet0>(glyphs)?),
                1 => CharacterSet::Format1(tape.take_given::<character_set::CharacterSet1>(glyphs)?),
                _ => CharacterSet::Format2(tape.take_given::<character_set::CharacterSet2>(glyphs)?),
            }))
        }
        Item::Encoding(false) => Val::Enc(canon::encoding(&tape.take::<Encoding>()?)),
        Item::Encoding(true) => {
            let format = tape.peek::<u8>()?;
            Val::Enc(canon::encoding(&match format {
                0 => Encoding::Format0(tape.take::<encoding::Encoding0>()?),
                1 => Encoding::Format1(tape.take::<encoding::Encoding1>()?),
                128.. => Encoding::FormatSupplemental(tape.take::<encoding::EncodingSupplemental>()?),
                _ => tape.take::<Encoding>()?,
            }))
        }
        Item::FdSelect(_, false) => {
            Val::FdSel(canon::fdselect(&tape.take_given::<cid::Encoding>(helper.unwrap())?))
        }
        Item::FdSelect(_, true) => {
            let format = tape.peek::<u8>()?;
            Val::FdSel(canon::fdselect(&match format {
                0 => cid::Encoding::Format0(tape.take_given::<cid::Encoding0>(helper.unwrap())?),
                _ => cid::Encoding::Format3(tape.take::<cid::Encoding3>()?),
            }))
        }
        Item::Exact(kind @ 0..=2, glyphs) => Val::Charset(canon::charset(&match kind {
            0 => CharacterSet::Format0(tape.take_given::<character_set::CharacterSet0>(glyphs)?),
            1 => CharacterSet::Format1(tape.take_given::<character_set::CharacterSet1>(glyphs)?),
            _ => CharacterSet::Format2(tape.take_given::<character_set::CharacterSet2>(glyphs)?),
        })),
        Item::Exact(kind @ 3..=4, _) => Val::Enc(canon::encoding(&match kind {
            3 => Encoding::Format0(tape.take::<encoding::Encoding0>()?),
            _ => Encoding::Format1(tape.take::<encoding::Encoding1>()?),
        })),
        Item::Exact(kind, _) => Val::FdSel(canon::fdselect(&match kind {
            5 => cid::Encoding::Format0(tape.take_given::<cid::Encoding0>(helper.unwrap())?),
            _ => cid::Encoding::Format3(tape.take::<cid::Encoding3>()?),
        })),
        Item::Operations => Val::Dict(canon::dict(&tape.take::<Operations>()?)),
    })
}

/// What the reference reader says about an item at a position, and where it ends.
fn expect_item(font: &[u8], at: usize, item: Item) -> Res<(Val, usize)> {
    let mut r = R::at(font, at);
    Ok((refer_item(&mut r, item)?, r.pos()))
}

fn refer_item(r: &mut R, item: Item) -> Res<Val> {
    Ok(match item {
        Item::Header => Val::Header(r.header()?),
        Item::Number => Val::Num(r.number()?),
        Item::Offset(size) => Val::Off(r.offset(size)?),
        Item::Index(_) => Val::Index(r.index()?),
        Item::Charset(glyphs, direct) => {
            if direct && r.peek().is_some_and(|f| f > 2) {
                return Err(E::Bad("charset format"));
            }
            Val::Charset(r.charset(glyphs)?)
        }
        Item::Encoding(_) => Val::Enc(r.encoding()?),
        Item::FdSelect(glyphs, _) => Val::FdSel(r.fdselect(glyphs)?),
        Item::Exact(kind, glyphs) => {
            if r.peek().is_some_and(|f| f != [0, 1, 2, 0, 1, 0, 3][kind as usize]) {
                return Err(E::Bad("another format"));
            }
            match kind {
                0..=2 => Val::Charset(r.charset(glyphs)?),
                3..=4 => Val::Enc(r.encoding()?),
                _ => Val::FdSel(r.fdselect(glyphs)?),
            }
        }
        Item::Operations => Val::Dict(r.dict()?),
    })
}

/// Where consecutive items end.
pub fn end_of_items(bytes: &[u8], items: &[Item]) -> usize {
    let mut r = R::new(bytes);
    for &item in items {
        if refer_item(&mut r, item).is_err() {
            break;
        }
    }
    r.pos()
}

/// The fields of consecutive items.
pub fn survey_items(bytes: &[u8], items: &[Item]) -> cff::Survey {
    let mut r = R::new(bytes);
    r.fields = Some(vec![]);
    for &item in items {
        if refer_item(&mut r, item).is_err() {
            break;
        }
    }
    cff::Survey { result: Err(E::Eof), hi: r.hi, fields: r.fields.unwrap_or_default(), spans: r.spans }
}

fn lookups(set: &FontSet) -> Option<String> {
    let data = &set.strings.0.data;
    let stride = data.len() / 40 + 1;
    for i in (0..data.len()).step_by(stride).chain(data.len().checked_sub(1)).chain([data.len()]) {
        let id = 391 + i;
        if id > 65535 {
            break;
        }
        let expected = data.get(i).map(|b| String::from_utf8_lossy(b).into_owned());
        let actual = set.strings.get(id as u16);
        if actual != expected {
            return Some(format!("string {id} is looked up as {actual:?} and stored as {expected:?}"));
        }
    }
    if set.names.0.data.len() < 3000 {
        let expected: Vec<String> =
            set.names.0.data.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect();
        match Vec::<String>::try_from(set.names.clone()) {
            Ok(actual) if actual == expected => {}
            other => return Some(format!("names are {other:?} and stored as {expected:?}")),
        }
    }
    for operations in set.operations.iter().take(4) {
        for (&operator, operands) in operations.0.iter() {
            let whole = operations.get(operator).map(|o| o.to_vec());
            if whole.as_ref() != Some(operands) {
                return Some(format!("{operator:?} is looked up as {whole:?} and stored as {operands:?}"));
            }
        }
    }
    None
}

/// What one task hands back.
#[derive(Default)]
pub(crate) struct Out {
    pub report: Report,
    /// Per attempt without faults: what it was and what came out of it.
    pub signatures: Vec<(usize, String, String)>,
}

pub(crate) struct Shared {
    pub scenario: Arc<Scenario>,
    pub fonts: Vec<Arc<Vec<u8>>>,
    pub expected: Vec<std::sync::OnceLock<Arc<Res<Set>>>>,
    pub tables: Option<Arc<crate::genchar::Tables>>,
    pub trace: bool,
    /// What the tasks that ask begin with.
    pub sets: Vec<Option<Arc<Portable<FontSet>>>>,
    pub quiet: crate::ask::Quiet,
}

impl Shared {
    pub(crate) fn set(&self, image: usize) -> Arc<Res<Set>> {
        self.expected[image].get_or_init(|| Arc::new(cff::read(&self.fonts[image]))).clone()
    }
}

pub(crate) fn describe(error: &std::io::Error) -> String {
    format!("{:?} ({error})", error.kind())
}

pub(crate) fn brief(text: String) -> String {
    if text.len() > 300 {
        format!("{}…", text.chars().take(300).collect::<String>())
    } else {
        text
    }
}

/// Judge an error against the faults injected and what was expected.
fn judge_failure(
    report: &mut Report,
    place: &str,
    error: &std::io::Error,
    fired: &[Id],
    expected: Option<E>,
    strict: bool,
) {
    if fired.is_empty() {
        match expected {
            None => report.find("rejected", format!("{place}: well-formed, but failed with {}", describe(error))),
            Some(E::Eof) if strict && error.kind() != ErrorKind::UnexpectedEof => report
                .find("end-kind", format!("{place}: the stream was cut short, but it failed with {}", describe(error))),
            _ => {}
        }
        return;
    }
    let id = tape::identify(error);
    let same = fired.iter().any(|f| match f {
        Id::End => error.kind() == ErrorKind::UnexpectedEof && !matches!(id, Some(Id::Tag(_))),
        Id::Cancel(_) => false,
        f => id.as_ref() == Some(f),
    });
    if !same {
        report.find("fault-changed", format!("{place}: the stream failed with {fired:?}, the caller got {}", describe(error)));
    }
}

fn stream_task(shared: &Shared, me: usize, attempts: &[Attempt], sched: Option<Arc<Sched>>) -> Out {
    let scenario = &*shared.scenario;
    let mut out = Out::default();
    let mut current: Option<(Tape, Arc<Mutex<Log>>, usize, u64)> = None;
    for (k, attempt) in attempts.iter().enumerate() {
        let tag = (me * 100 + k + 1) as u64;
        let font = shared.fonts[attempt.image].clone();
        let reuse = !attempt.fresh && current.as_ref().is_some_and(|c| c.2 == attempt.image);
        if reuse {
            let (tape, log, _, origin) = current.as_mut().unwrap();
            tape.renew(&attempt.plan, tag);
            tape.rewind_to(*origin);
            let mut log = log.lock().unwrap();
            log.fired.clear();
            log.garbled = 0;
            log.lowest = u64::MAX;
            log.delivered = 0;
            log.reads = 0;
            log.seeks = 0;
            log.slack = 0;
            drop(log);
            out.report.add("same stream again", 1);
        } else {
            if let Some((_, log, _, _)) = current.take() {
                settle(&mut out.report, &log);
            }
            let log = Arc::new(Mutex::new(Log {
                lowest: u64::MAX,
                fired: Vec::with_capacity(16),
                injected: Vec::with_capacity(16),
                trace: if shared.trace { Some(vec![]) } else { None },
                ..Log::default()
            }));
            let sched = sched.clone().map(|s| (s, me));
            let tape = Tape::new(font.clone(), &attempt.plan, tag, log.clone(), sched);
            current = Some((tape, log, attempt.image, attempt.plan.origin));
        }
        let (tape, log, _, origin) = current.as_mut().unwrap();
        let origin = *origin;
        let place = format!("task {me} attempt {k}");
        let fired = || log.lock().unwrap().fired.clone();
        match &attempt.what {
            What::Load | What::Count => {
                let load = attempt.what == What::Load;
                let before = alloc::mark();
                let got = if load {
                    guard(|| tape.take::<FontSet>()).map(Ok)
                } else {
                    guard(|| FontSet::count(tape)).map(Err)
                };
                let peak = alloc::peak().saturating_sub(before);
                if scenario.memory {
                    let delivered = log.lock().unwrap().delivered as usize;
                    let bound = (2 << 20) + 256 * delivered;
                    if peak > bound {
                        out.report.find(
                            "memory",
                            format!("{place}: {peak} bytes in use at the peak, {delivered} bytes delivered"),
                        );
                    }
                    out.report.add("peak KiB", peak as u64 >> 10);
                }
                let got = match got {
                    Ok(Ok(set)) => {
                        let value = canon::set(&set);
                        if set.records.len() < 8 && set.strings.0.data.len() < 1000 {
                            let detail = match guard(|| Ok(lookups(&set))) {
                                Ok(detail) => detail,
                                Err(Got::Panic(text)) => Some(format!("a look-up panicked: {text}")),
                                Err(_) => None,
                            };
                            if let Some(detail) = detail {
                                out.report.find("lookup", format!("{place}: {detail}"));
                            }
                        }
                        drop(set);
                        Got::Val(Val::Set(Box::new(value)))
                    }
                    Ok(Err(count)) => Got::Val(Val::Count(count as u64)),
                    Err(got) => got,
                };
                let fired = fired();
                let garbled = log.lock().unwrap().garbled > 0;
                let expected: Res<Val> = if load {
                    match &*shared.set(attempt.image) {
                        Ok(set) => Ok(Val::Set(Box::new(set.clone()))),
                        Err(e) => Err(*e),
                    }
                } else {
                    cff::count(&font).map(|n| Val::Count(n as u64))
                };
                let mut signature = None;
                match got {
                    Got::Val(actual) => {
                        out.report.add("succeeded", 1);
                        signature = Some(format!("ok {:016x}", fold(&format!("{actual:?}"))));
                        if !fired.is_empty() {
                            out.report.find("fault-lost", format!("{place}: succeeded although the stream failed with {fired:?}"));
                        } else if !garbled {
                            match expected {
                                Ok(expected) if expected == actual => {}
                                Ok(expected) => {
                                    let detail = match (&actual, &expected) {
                                        (Val::Set(a), Val::Set(e)) => canon::difference(a, e).unwrap_or_default(),
                                        _ => format!("{actual:?} but stored {expected:?}"),
                                    };
                                    out.report.find("value", format!("{place}: {detail}"));
                                }
                                Err(e) => out.report.find("accepted", format!("{place}: succeeded on bytes with {e:?}")),
                            }
                        }
                    }
                    Got::Fail(error) => {
                        out.report.add(if fired.is_empty() { "failed on bytes" } else { "failed by stream" }, 1);
                        signature = Some(format!("error {}", describe(&error)));
                        if !garbled || !fired.is_empty() {
                            judge_failure(&mut out.report, &place, &error, &fired, expected.err(), scenario.strict_end);
                        }
                    }
                    Got::Panic(text) => out.report.find("panic", format!("{place}: {text}")),
                    Got::Stuck => {
                        let log = log.lock().unwrap();
                        out.report.find(
                            "budget",
                            format!("{place}: {} stream operations for {} bytes delivered", log.ops(), log.delivered),
                        );
                    }
                    Got::Cancelled(t) => {
                        out.report.add("abandoned", 1);
                        if !fired.contains(&Id::Cancel(t)) {
                            out.report.broken = Some("unknown cancellation".into());
                        }
                    }
                }
                if let (Some(signature), true) = (&signature, fired.is_empty() && !garbled) {
                    out.signatures.push((attempt.image, format!("{:?}", attempt.what), signature.clone()));
                }
                out.report.outcome = mix(out.report.outcome ^ fold(&signature.unwrap_or_default()));
                let lowest = log.lock().unwrap().lowest;
                if lowest < origin {
                    out.report.find("before-start", format!("{place}: read at {} bytes before the font", origin - lowest));
                }
                if scenario.memory && load {
                    // Again, for what stays behind: as the stream behaves, and without failures.
                    let calm = tape::Plan { faults: vec![], bad: vec![], ..attempt.plan.clone() };
                    for plan in [&attempt.plan, &calm] {
                        if let Some(kept) = leak(tape, plan, tag, origin, |tape| tape.take::<FontSet>().map(drop)) {
                            out.report.find("leak", format!("{place}: {kept} bytes are still in use after the result was dropped"));
                        }
                        out.report.add("leak checks", 1);
                    }
                }
            }
            What::Items(items) => {
                let mut at = 0usize;
                let mut places = vec![];
                let mut dead = false;
                for (i, &item) in items.iter().enumerate() {
                    if dead {
                        break;
                    }
                    let helper = match item {
                        Item::FdSelect(glyphs, _) | Item::Exact(5, glyphs) => Some(strings(glyphs)),
                        _ => None,
                    };
                    let expected = expect_item(&font, at, item);
                    places.push((item, at));
                    let place = format!("{place} item {i} {item:?}");
                    let mut tries = 0;
                    loop {
                        tape.forget();
                        let before = alloc::mark();
                        let got = guard(|| read_item(tape, item, helper.as_ref()));
                        let peak = alloc::peak().saturating_sub(before);
                        if scenario.memory {
                            let delivered = log.lock().unwrap().delivered as usize;
                            if peak > (2 << 20) + 256 * delivered {
                                out.report.find(
                                    "memory",
                                    format!("{place}: {peak} bytes in use at the peak, {delivered} bytes delivered"),
                                );
                            }
                        }
                        let fired = log.lock().unwrap().fired.clone();
                        let garbled = log.lock().unwrap().garbled > 0;
                        let mut retry = false;
                        let mut signature = String::new();
                        match got {
                            Ok(actual) => {
                                out.report.add("structures read", 1);
                                signature = format!("ok {:016x}", fold(&format!("{actual:?}")));
                                if !fired.is_empty() {
                                    out.report.find("fault-lost", format!("{place}: succeeded although the stream failed with {fired:?}"));
                                    dead = true;
                                }
                                match &expected {
                                    _ if garbled => dead = true,
                                    Ok((value, end)) => {
                                        if *value != actual {
                                            out.report.find("value", brief(format!("{place}: read {actual:?} but stored {value:?}")));
                                            dead = true;
                                        }
                                        let here = tape.place();
                                        if here != origin + *end as u64 {
                                            out.report.find(
                                                "position",
                                                format!(
                                                    "{place}: the stream is left at {} but the structure ends at {end}",
                                                    here.wrapping_sub(origin) as i64
                                                ),
                                            );
                                            dead = true;
                                        }
                                        at = *end;
                                    }
                                    Err(e) => {
                                        out.report.find("accepted", format!("{place}: succeeded on bytes with {e:?}"));
                                        dead = true;
                                    }
                                }
                            }
                            Err(Got::Fail(error)) => {
                                out.report.add(if fired.is_empty() { "failed on bytes" } else { "failed by stream" }, 1);
                                signature = format!("error {}", describe(&error));
                                if !garbled || !fired.is_empty() {
                                    judge_failure(
                                        &mut out.report,
                                        &place,
                                        &error,
                                        &fired,
                                        expected.as_ref().err().copied(),
                                        scenario.strict_end,
                                    );
                                }
                                retry = !fired.is_empty();
                                dead = !retry;
                                let unknown = match expected {
                                    Err(E::Bad("charset format")) => !matches!(item, Item::Charset(_, true)),
                                    Err(E::Bad("encoding format")) => true,
                                    Err(E::Bad("fdselect format")) => !matches!(item, Item::FdSelect(_, true)),
                                    _ => false,
                                };
                                if dead && unknown && !garbled {
                                    // Only looked at: something else can be read from there.
                                    let here = tape.place();
                                    if here != origin + at as u64 {
                                        out.report.find(
                                            "position",
                                            format!(
                                                "{place}: looking at an unknown format moved the stream from {at} to {}",
                                                here.wrapping_sub(origin) as i64
                                            ),
                                        );
                                    } else {
                                        out.report.add("unknown formats passed by", 1);
                                        dead = false;
                                    }
                                }
                            }
                            Err(Got::Panic(text)) => {
                                out.report.find("panic", format!("{place}: {text}"));
                                dead = true;
                            }
                            Err(Got::Stuck) => {
                                out.report.find("budget", format!("{place}: too many stream operations"));
                                dead = true;
                            }
                            Err(Got::Cancelled(_)) => {
                                out.report.add("abandoned", 1);
                                retry = true;
                            }
                            Err(Got::Val(_)) => {}
                        }
                        let lowest = log.lock().unwrap().lowest;
                        if lowest < origin {
                            out.report.find("before-start", format!("{place}: read at {} bytes before the start", origin - lowest));
                        }
                        out.report.outcome = mix(out.report.outcome ^ fold(&signature));
                        if fired.is_empty() && !garbled && !signature.is_empty() {
                            out.signatures.push((attempt.image, format!("{i} {item:?}"), signature));
                        }
                        if !retry {
                            break;
                        }
                        tries += 1;
                        if tries > 8 {
                            dead = true;
                            break;
                        }
                        // Go back to where the structure starts and try again.
                        tape.rewind_to(origin + at as u64);
                        out.report.add("structures retried", 1);
                    }
                }
                if scenario.memory {
                    let calm = tape::Plan { faults: vec![], bad: vec![], ..attempt.plan.clone() };
                    for (item, at) in places {
                        let helper = match item {
                            Item::FdSelect(glyphs, _) | Item::Exact(5, glyphs) => Some(strings(glyphs)),
                            _ => None,
                        };
                        let read = |tape: &mut Tape| read_item(tape, item, helper.as_ref()).map(drop);
                        if let Some(kept) = leak(tape, &calm, tag, origin + at as u64, read) {
                            out.report.find("leak", format!("{place}: {kept} bytes are still in use after {item:?} was dropped"));
                        }
                        out.report.add("leak checks", 1);
                    }
                }
            }
        }
    }
    if let Some((_, log, _, _)) = current.take() {
        settle(&mut out.report, &log);
    }
    out
}

/// Read twice more; reading leaves nothing behind once its result is dropped.
fn leak(
    tape: &mut Tape,
    plan: &tape::Plan,
    tag: u64,
    origin: u64,
    read: impl Fn(&mut Tape) -> std::io::Result<()>,
) -> Option<usize> {
    let mut kept = usize::MAX;
    for _ in 0..2 {
        tape.renew(plan, tag);
        tape.rewind_to(origin);
        tape.forget();
        PANIC.with(|p| *p.borrow_mut() = String::new());
        let before = alloc::live();
        let result = guard(|| read(tape));
        match result {
            Ok(()) => {}
            Err(Got::Fail(error)) => drop(error),
            // Neither does abandoning it.
            Err(Got::Cancelled(_)) => {}
            Err(_) => return None,
        }
        let after = alloc::live();
        kept = kept.min(after.saturating_sub(before));
    }
    if kept > 0 {
        Some(kept)
    } else {
        None
    }
}

fn settle(report: &mut Report, log: &Arc<Mutex<Log>>) {
    let mut log = log.lock().unwrap();
    report.add("stream operations", log.ops());
    report.add("bytes delivered", log.delivered);
    report.clock += log.clock;
    report.digest = mix(report.digest ^ log.digest);
    for (name, n) in std::mem::take(&mut log.injected) {
        report.add(name, n);
    }
    if let Some(trace) = log.trace.take() {
        report.trace.extend(trace);
    }
}

pub fn fold(text: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in text.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

fn opcode(operator: Operator) -> u16 {
    use Operator::*;
    match operator {
        HStem => 0x01,
        VStem => 0x03,
        VMoveTo => 0x04,
        RLineTo => 0x05,
        HLineTo => 0x06,
        VLineTo => 0x07,
        RRCurveTo => 0x08,
        CallSubr => 0x0a,
        Return => 0x0b,
        EndChar => 0x0e,
        HStemHM => 0x12,
        HintMask => 0x13,
        CntrMask => 0x14,
        RMoveTo => 0x15,
        HMoveTo => 0x16,
        VStemHM => 0x17,
        RCurveLine => 0x18,
        RLineCurve => 0x19,
        VVCurveTo => 0x1a,
        HHCurveTo => 0x1b,
        CallGSubr => 0x1d,
        VHCurveTo => 0x1e,
        HVCurveTo => 0x1f,
        And => 0x0c03,
        Or => 0x0c04,
        Not => 0x0c05,
        Abs => 0x0c09,
        Add => 0x0c0a,
        Sub => 0x0c0b,
        Div => 0x0c0c,
        Neg => 0x0c0e,
        Eq => 0x0c0f,
        Drop => 0x0c12,
        Put => 0x0c14,
        Get => 0x0c15,
        IfElse => 0x0c16,
        Random => 0x0c17,
        Mul => 0x0c18,
        Sqrt => 0x0c1a,
        Dup => 0x0c1b,
        Exch => 0x0c1c,
        Index => 0x0c1d,
        Roll => 0x0c1e,
        HFlex => 0x0c22,
        Flex => 0x0c23,
        HFlex1 => 0x0c24,
        Flex1 => 0x0c25,
    }
}

pub(crate) enum Phase {
    Running,
    Ended,
    Failed,
    FailedEnded,
    Dead,
}

pub(crate) struct Instance<'a> {
    pub program: Portable<Program<'a>>,
    pub machine: t2::Machine<'a>,
    pub phase: Phase,
    pub width: Option<u32>,
    /// Whether stepping on after an error may take long.
    pub bomb: bool,
    pub patience: usize,
}

/// Whether calls fan out so much that a single step might execute very many
/// operators, whatever an interpreter does about errors.
pub(crate) fn bomb(codes: &[Vec<u8>], global: &[Vec<u8>], local: &[Vec<u8>]) -> bool {
    let (mut calls, mut length) = (0f64, 0f64);
    for code in codes.iter().chain(global.iter().take(2000)).chain(local.iter().take(2000)) {
        let n = code.iter().filter(|&&b| b == 0x0a || b == 0x1d).count();
        calls = calls.max(n as f64);
        length = length.max(code.len() as f64);
    }
    (0..=t2::NESTING as i32).map(|d| calls.powi(d)).sum::<f64>() * length > 3e6
}

fn glyph_task(shared: &Shared, me: usize, glyphs: &Glyphs, sched: Option<Arc<Sched>>) -> Out {
    let mut out = Out::default();
    let set: Option<FontSet> = match glyphs.image {
        None => None,
        Some(image) => {
            let log = Arc::new(Mutex::new(Log { lowest: u64::MAX, ..Log::default() }));
            let pair = sched.clone().map(|s| (s, me));
            let mut tape = Tape::new(shared.fonts[image].clone(), &tape::Plan::plain(), 0, log, pair);
            match guard(|| tape.take::<FontSet>()) {
                Ok(set) if !set.records.is_empty() => Some(set),
                Ok(_) => None,
                Err(Got::Fail(error)) => {
                    out.report.find("rejected", format!("task {me}: the font set failed with {}", describe(&error)));
                    return out;
                }
                Err(Got::Panic(text)) => {
                    out.report.find("panic", format!("task {me}: {text}"));
                    return out;
                }
                Err(_) => return out,
            }
        }
    };
    let empty = vec![];
    let own;
    // What the interpreter under test works on.
    let (codes, global, local): (&[Vec<u8>], &[Vec<u8>], &[Vec<u8>]) = match &set {
        Some(set) => {
            let local: &[Vec<u8>] = match &set.records[0] {
                postscript::compact1::font_set::Record::CharacterNameKeyed(r) => &r.subroutines,
                postscript::compact1::font_set::Record::CharacterIDKeyed(r) => match r.records.first() {
                    Some(r) => &r.subroutines,
                    None => &empty,
                },
            };
            (&set.character_strings[0], &set.subroutines, local)
        }
        None => {
            let tables = if glyphs.tables.codes.is_empty() {
                shared.tables.clone().unwrap_or_default()
            } else {
                Arc::new(glyphs.tables.clone())
            };
            own = tables;
            (&own.codes, &own.global, &own.local)
        }
    };
    // What the reference interpreter works on.
    let reference: Arc<Res<Set>>;
    let (rcodes, rglobal, rlocal): (&[Vec<u8>], &[Vec<u8>], &[Vec<u8>]) = match glyphs.image {
        Some(image) => {
            reference = shared.set(image);
            match &*reference {
                Ok(set) => {
                    let local = match set.records.first() {
                        Some(cff::Rec::Name(p)) => &p.subrs.data,
                        Some(cff::Rec::Cid { recs, .. }) => recs.first().map(|p| &p.subrs.data).unwrap_or(&empty),
                        None => &empty,
                    };
                    match set.charstrings.first() {
                        Some(c) => (&c.data, &set.gsubrs.data, local),
                        None => return out,
                    }
                }
                Err(_) => return out,
            }
        }
        None => (codes, global, local),
    };
    if shared.scenario.memory {
        frugal(&mut out.report, glyphs, codes, global, local);
        return out;
    }
    let bomb = bomb(codes, global, local);
    let make = |code: usize| -> Option<Instance<'_>> {
        let (code, rcode) = (codes.get(code)?, rcodes.get(code)?);
        Some(Instance {
            program: Portable(Program::new(code, global, local)),
            machine: t2::Machine::new(rcode, rglobal, rlocal),
            phase: Phase::Running,
            width: None,
            bomb,
            patience: 4,
        })
    };
    let mut instances: Vec<Option<Instance>> = glyphs.programs.iter().map(|&c| make(c)).collect();
    let pause = || {
        if let Some(sched) = &sched {
            sched.pause(me, 0);
        }
    };
    let mut digest = 0u64;
    for &(act, which) in &glyphs.order {
        pause();
        let Some(slot) = instances.get_mut(which) else { continue };
        match act {
            Act::Restart => {
                out.report.add("programs abandoned", 1);
                *slot = make(glyphs.programs[which]);
            }
            Act::Step | Act::Migrate => {
                if let Some(instance) = slot {
                    step(&mut out.report, instance, act == Act::Migrate, me, which, &mut digest, shared.trace);
                }
            }
            Act::Finish => {
                if let Some(instance) = slot {
                    let mut n = 0;
                    while matches!(instance.phase, Phase::Running) && n < 200_000 {
                        step(&mut out.report, instance, false, me, which, &mut digest, shared.trace);
                        n += 1;
                    }
                    for k in 0..glyphs.extra {
                        step(&mut out.report, instance, k % 7 == 3, me, which, &mut digest, shared.trace);
                    }
                }
            }
        }
        let property = shared.scenario.property.as_str();
        if out.report.findings.iter().any(|f| crate::props::relevant(property, f.class)) {
            break;
        }
    }
    out.report.outcome = mix(out.report.outcome ^ digest);
    out.report.digest = mix(out.report.digest ^ digest);
    out
}

/// The programs on their own, twice, for the memory that they take.
fn frugal(report: &mut Report, glyphs: &Glyphs, codes: &[Vec<u8>], global: &[Vec<u8>], local: &[Vec<u8>]) {
    let n = glyphs.programs.len();
    let size: usize = codes.iter().chain(global).chain(local).map(|c| c.len() + 24).sum();
    let each = (2 << 20) + 32 * size;
    let make = |which: usize| codes.get(glyphs.programs[which]).map(|code| Program::new(code, global, local));
    let mut kept = usize::MAX;
    for round in 0..2 {
        if round == 1 && size > 10_000 {
            // What stays behind shows as well with less of it.
            return;
        }
        let mut programs: Vec<Option<Program>> = Vec::with_capacity(n);
        // Which are over or have started.
        let (mut over, mut alive) = (vec![false; n], vec![false; n]);
        PANIC.with(|p| *p.borrow_mut() = String::new());
        let start = alloc::mark();
        let mut peak = 0;
        let mut unwound = false;
        programs.extend((0..n).map(make));
        for &(act, which) in &glyphs.order {
            let Some(slot) = programs.get_mut(which) else { continue };
            let steps = match act {
                Act::Restart => {
                    *slot = make(which);
                    over[which] = false;
                    0
                }
                Act::Step | Act::Migrate => 1,
                Act::Finish => 2000 + glyphs.extra,
            };
            let Some(program) = slot else { continue };
            let mut extra = glyphs.extra;
            alive[which] = true;
            for _ in 0..steps {
                let result = guard(|| program.next());
                report.add("steps", 1);
                let kind = match &result {
                    Ok(Some((operator, operands))) => 3 + opcode(*operator) as u64 + ((operands.len() as u64) << 16),
                    Ok(None) => 1,
                    Err(_) => 2,
                };
                report.digest = mix(report.digest ^ mix(kind ^ (which as u64) << 48));
                match result {
                    Ok(Some(_)) => {}
                    Ok(None) => over[which] = true,
                    Err(Got::Fail(_)) => over[which] = true,
                    Err(_) => unwound = true,
                }
                if over[which] {
                    extra = extra.saturating_sub(1);
                }
                if extra == 0 && over[which] || unwound {
                    break;
                }
            }
            if unwound {
                break;
            }
            peak = peak.max(alloc::peak().saturating_sub(start));
            let bound = each * alive.iter().filter(|&&a| a).count();
            if peak > bound {
                report.find(
                    "program-memory",
                    format!("{peak} bytes in use at the peak by programs over {size} bytes of charstrings and subroutines"),
                );
                return;
            }
        }
        report.add("peak KiB", peak as u64 >> 10);
        report.outcome = mix(report.outcome ^ peak as u64);
        if unwound {
            return;
        }
        programs.clear();
        kept = kept.min(alloc::live().saturating_sub(start));
    }
    report.add("leak checks", 1);
    if kept > 0 {
        report.find("program-leak", format!("{kept} bytes are still in use after the programs were dropped"));
    }
}

pub(crate) fn step(
    report: &mut Report,
    instance: &mut Instance,
    elsewhere: bool,
    me: usize,
    which: usize,
    digest: &mut u64,
    trace: bool,
) {
    if matches!(instance.phase, Phase::Failed) && instance.bomb {
        // Each step may take a while.
        instance.patience = instance.patience.saturating_sub(1);
        if instance.patience == 0 {
            instance.phase = Phase::Dead;
        }
    }
    if matches!(instance.phase, Phase::Dead) {
        return;
    }
    report.add("steps", 1);
    let program = Portable(&mut instance.program.0);
    let result = if elsewhere {
        report.add("steps on another thread", 1);
        std::thread::scope(|scope| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(scope, move || {
                    let program = program;
                    let result = guard(|| program.0.next());
                    Portable(result)
                })
                .unwrap()
                .join()
                .map(|r| r.0)
                .unwrap_or_else(|_| Err(Got::Panic("thread".into())))
        })
    } else {
        guard(|| program.0.next())
    };
    let width = instance.program.0.width().map(t2::bits);
    let place = format!("task {me} program {which}");
    let actual = match result {
        Ok(Some((operator, operands))) => {
            t2::Step::Op(opcode(operator), operands.iter().map(|&v| t2::bits(v)).collect())
        }
        Ok(None) => t2::Step::End,
        Err(Got::Fail(_)) => t2::Step::Error,
        Err(Got::Panic(text)) => {
            report.find("panic", format!("{place}: {text}"));
            instance.phase = Phase::Dead;
            return;
        }
        Err(_) => {
            instance.phase = Phase::Dead;
            return;
        }
    };
    if trace {
        report.trace.push(format!("{place}: {} width {:?}", show(&actual), width.map(f32::from_bits)));
    }
    *digest = mix(*digest ^ fold(&format!("{which}{actual:?}{width:?}")));
    match instance.phase {
        Phase::Running => {
            let deepest = instance.machine.deepest;
            let expected = instance.machine.step();
            if instance.machine.deepest > deepest {
                let name = match instance.machine.deepest {
                    1..=3 => "programs nested 1 to 3 deep",
                    4..=9 => "programs nested 4 to 9 deep",
                    _ => "programs nested 10 deep",
                };
                report.add(name, 1);
            }
            match (&actual, &expected) {
                (_, t2::Step::Budget) => {
                    report.add("programs past the budget", 1);
                    instance.phase = Phase::Failed;
                    return;
                }
                (t2::Step::Error, t2::Step::Error) => {
                    report.add("programs malformed", 1);
                    instance.phase = Phase::Failed;
                    return;
                }
                (a, e) if a == e => {
                    if width != instance.machine.width.map(t2::bits) {
                        report.find(
                            "width",
                            format!(
                                "{place}: the width is {:?} and has to be {:?} after {}",
                                width.map(f32::from_bits),
                                instance.machine.width,
                                show(e)
                            ),
                        );
                    }
                }
                (a, e) => {
                    let class = match (a, e) {
                        (_, t2::Step::Error) => "malformed-accepted",
                        (t2::Step::Error, _) => "program-rejected",
                        _ => "operations",
                    };
                    report.find(class, format!("{place}: the step gave {} and has to give {}", show(a), show(e)));
                    instance.phase = match a {
                        t2::Step::End => Phase::FailedEnded,
                        _ => Phase::Failed,
                    };
                    instance.width = width;
                    return;
                }
            }
            if actual == t2::Step::End {
                report.add("programs ended", 1);
                instance.phase = Phase::Ended;
                instance.width = width;
            }
        }
        Phase::Ended | Phase::FailedEnded => {
            report.add("steps past the end", 1);
            if actual != t2::Step::End {
                report.find("end", format!("{place}: a step past the end gave {}", show(&actual)));
                instance.phase = Phase::Dead;
            } else if width != instance.width {
                report.find("end", format!("{place}: the width changed past the end"));
                instance.phase = Phase::Dead;
            }
        }
        Phase::Failed => {
            report.add("steps past an error", 1);
            if actual == t2::Step::End {
                instance.phase = Phase::FailedEnded;
                instance.width = width;
            }
        }
        Phase::Dead => {}
    }
}

fn show(step: &t2::Step) -> String {
    match step {
        t2::Step::Op(op, operands) => {
            let values: Vec<f32> = operands.iter().take(20).map(|&b| f32::from_bits(b)).collect();
            format!("operator {op:#x} with {} operands {values:?}", operands.len())
        }
        t2::Step::End => "the end".into(),
        t2::Step::Error => "an error".into(),
        t2::Step::Budget => "(not judged)".into(),
    }
}

pub(crate) const STACK: usize = 512 << 10;
const PATIENCE: Duration = Duration::from_secs(20);

/// Run a scenario. `Err` means the harness itself failed.
pub fn run(scenario: &Scenario, trace: bool) -> Report {
    clock::begin(scenario.hash_seed);
    let scenario = Arc::new(scenario.clone());
    let fonts: Vec<Arc<Vec<u8>>> = scenario.images.iter().map(|i| Arc::new(i.render())).collect();
    let tables = scenario.tasks.iter().find_map(|t| match t {
        Task::Glyphs(g) if !g.tables.codes.is_empty() => Some(Arc::new(g.tables.clone())),
        _ => None,
    });
    let mut shared = Shared {
        scenario: scenario.clone(),
        expected: fonts.iter().map(|_| Default::default()).collect(),
        fonts,
        tables,
        trace,
        sets: vec![],
        quiet: Default::default(),
    };
    if scenario.tasks.iter().any(|t| matches!(t, Task::Ask(_))) {
        crate::ask::prepare(&mut shared);
    }
    let shared = Arc::new(shared);
    let mut report = Report::default();
    for image in &scenario.images {
        for edit in &image.edits {
            let name = match edit {
                Edit::Set { name, .. } | Edit::Cut { name, .. } | Edit::Add { name, .. } => name.as_str(),
            };
            let name = STORAGE.iter().find(|&&n| n == name).copied().unwrap_or("other storage fault");
            report.add(name, 1);
        }
    }
    // Compute what is expected before any measuring.
    for (i, _) in scenario.images.iter().enumerate() {
        let needed = scenario.tasks.iter().any(|t| match t {
            Task::Stream(a) => a.iter().any(|a| a.image == i && a.what == What::Load),
            Task::Glyphs(g) => g.image == Some(i),
            Task::Ask(a) => a.images.contains(&i),
        });
        if needed {
            shared.set(i);
        }
    }
    let n = scenario.tasks.len();
    let sched = if scenario.interleave { Some(Arc::new(Sched::new(n, &scenario.picks))) } else { None };
    let spawn = |i: usize, sched: Option<Arc<Sched>>| {
        let shared = shared.clone();
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                hash::seed(mix(shared.scenario.hash_seed ^ (i as u64) << 32));
                let print = hash::fingerprint();
                if let Some(sched) = &sched {
                    sched.enter(i);
                    if shared.scenario.fine > 0 {
                        alloc::enlist(Some(alloc::Spot {
                            call: |sched, task, between| unsafe { (*(sched as *const Sched)).soft(task, between) },
                            sched: Arc::as_ptr(sched) as *const (),
                            task: i,
                            every: shared.scenario.fine,
                        }));
                        trap::enlist(shared.scenario.seed ^ mix(shared.scenario.run ^ (i as u64) << 40), shared.scenario.trap);
                    }
                }
                let body = || match &shared.scenario.tasks[i] {
                    Task::Stream(attempts) => stream_task(&shared, i, attempts, sched.clone()),
                    Task::Glyphs(glyphs) => glyph_task(&shared, i, glyphs, sched.clone()),
                    Task::Ask(asks) => crate::ask::task(&shared, i, asks, sched.clone()),
                };
                let result = catch_unwind(AssertUnwindSafe(body));
                trap::enlist(0, 0);
                alloc::enlist(None);
                if let Some(sched) = &sched {
                    sched.finish(i);
                }
                let _ = print;
                match result {
                    Ok(out) => out,
                    Err(_) => stopped(i),
                }
            })
            .unwrap()
    };
    let mut outs = vec![];
    match &sched {
        None if scenario.one_thread && n > 1 => {
            report.add("tasks on one thread", n as u64);
            let shared = shared.clone();
            let all = std::thread::Builder::new().stack_size(STACK).spawn(move || {
                hash::seed(mix(shared.scenario.hash_seed));
                let _ = hash::fingerprint();
                let mut outs = vec![];
                for i in 0..n {
                    let body = || match &shared.scenario.tasks[i] {
                        Task::Stream(attempts) => stream_task(&shared, i, attempts, None),
                        Task::Glyphs(glyphs) => glyph_task(&shared, i, glyphs, None),
                        Task::Ask(asks) => crate::ask::task(&shared, i, asks, None),
                    };
                    match catch_unwind(AssertUnwindSafe(body)) {
                        Ok(out) => outs.push(out),
                        Err(_) => outs.push(stopped(i)),
                    }
                }
                outs
            });
            match all.unwrap().join() {
                Ok(all) => outs = all,
                Err(_) => report.broken = Some("a task died".into()),
            }
        }
        None => {
            for i in 0..n {
                match spawn(i, None).join() {
                    Ok(out) => outs.push(out),
                    Err(_) => report.broken = Some("a task died".into()),
                }
            }
        }
        Some(sched) => {
            let handles: Vec<_> = (0..n).map(|i| spawn(i, Some(sched.clone()))).collect();
            sched.start();
            match sched.watch(PATIENCE) {
                Ok(summary) => {
                    report.add("scheduling points", summary.steps);
                    report.add("context switches", summary.switches);
                    if summary.fine > 0 {
                        report.add("turns given up within allocations", summary.fine);
                    }
                    if summary.finest > 0 {
                        report.add("turns given up between instructions", summary.finest);
                    }
                    if summary.rescues > 0 {
                        report.add("tasks passed over while they waited", summary.rescues);
                    }
                    report.clock = report.clock.max(summary.now);
                    report.digest = mix(report.digest ^ summary.digest);
                    for handle in handles {
                        match handle.join() {
                            Ok(out) => outs.push(out),
                            Err(_) => report.broken = Some("a task died".into()),
                        }
                    }
                }
                Err(who) => {
                    report.find("blocked", format!("task {who} does not move while the others wait for their turn"));
                    return report;
                }
            }
        }
    }
    let (reads, pauses, jumps) = clock::counts();
    for (name, n) in [("clock readings", reads), ("calls held up", pauses), ("wall clock set", jumps)] {
        if n > 0 {
            report.add(name, n);
        }
    }
    let mut groups: BTreeMap<(usize, String), String> = BTreeMap::new();
    for mut out in outs {
        for finding in out.report.findings.iter_mut() {
            // What C11 says about nesting is judged where nesting is what is tried.
            let nesting = scenario.property == "C11"
                && matches!(scenario.note.as_str(), "nested calls around the limit" | "recursive calls");
            if nesting && matches!(finding.class, "operations" | "program-rejected" | "malformed-accepted") {
                finding.class = "nesting";
            }
        }
        report.findings.append(&mut out.report.findings);
        for (name, n) in out.report.counts {
            report.add(name, n);
        }
        report.digest = mix(report.digest ^ out.report.digest);
        report.outcome = mix(report.outcome ^ out.report.outcome);
        report.clock += out.report.clock;
        report.trace.append(&mut out.report.trace);
        if out.report.broken.is_some() {
            report.broken = out.report.broken;
        }
        if scenario.agree {
            for (image, what, signature) in out.signatures {
                let key = (image, what);
                match groups.get(&key) {
                    None => {
                        groups.insert(key, signature);
                    }
                    Some(first) if *first != signature => {
                        let detail = format!("the same bytes gave \"{first}\" and then \"{signature}\"");
                        report.find("disagree", detail);
                    }
                    _ => {
                        *report.counts.entry("agreements").or_default() += 1;
                    }
                }
            }
        }
    }
    report
}

/// Names of the storage faults.
pub const STORAGE: &[&str] = &[
    "bit rot",
    "lost sector",
    "stale sector",
    "misdirected write",
    "torn write",
    "damaged field",
    "damaged operand",
    "shifted bytes",
    "cut short",
    "foreign tail",
    "dangling dictionary",
    "random bytes",
];

/// A call of the code under test outside of any scenario.
pub fn guarded<T>(f: impl FnOnce() -> std::io::Result<T>) -> Option<std::io::Result<T>> {
    match guard(f) {
        Ok(value) => Some(Ok(value)),
        Err(Got::Fail(error)) => Some(Err(error)),
        Err(_) => None,
    }
}
