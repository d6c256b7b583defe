//! What each property's simulated runs are made of, and which deviations break it.

use crate::ask;
use crate::cff::{self, Survey};
use crate::damage::{self, damage};
use crate::genchar;
use crate::genfont::{self, generate as font, Code, Font, Options, Scale};
use crate::rng::{mix, Rng};
use crate::run;
use crate::run::{fold, survey_items};
use crate::scenario::*;
use crate::t2;
use crate::tape::{Chunk, Fault, Kind, Plan, Target, Wrap, KINDS, OS};

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C18", "C19",
];

/// The deviations that break a property.
pub fn relevant(property: &str, class: &str) -> bool {
    let classes: &[&str] = match property {
        "C01" => &["value", "rejected", "panic", "budget", "lookup", "blocked", "accepted"],
        "C02" => &["fault-lost", "fault-changed", "panic", "budget"],
        "C03" => &["accepted", "end-kind", "value", "rejected", "panic", "fault-lost", "fault-changed"],
        "C04" => &["panic", "budget"],
        "C05" => &["value", "accepted", "rejected", "panic"],
        "C06" => &["memory", "leak"],
        "C07" => &["position", "value", "rejected", "accepted", "panic", "budget"],
        "C08" => &["value", "rejected", "panic", "accepted", "fault-lost", "fault-changed", "budget", "blocked"],
        "C09" => &[
            "value", "rejected", "panic", "accepted", "fault-lost", "fault-changed", "budget", "blocked", "not-shareable",
        ],
        "C10" => {
            &["operations", "width", "program-rejected", "malformed-accepted", "panic", "rejected", "not-shareable"]
        }
        "C11" => &["panic", "nesting"],
        "C12" => &["end", "panic"],
        "C13" => &["disagree"],
        "C14" => &["before-start", "disagree"],
        "C18" => &["program-memory", "program-leak"],
        "C19" => &["answer", "panic", "blocked", "operations", "width", "program-rejected", "malformed-accepted"],
        _ => &[],
    };
    class == "crash" || class == "hang" || classes.contains(&class)
}

fn scale(rng: &mut Rng) -> Scale {
    match rng.below(20) {
        0..=9 => Scale::Tiny,
        10..=17 => Scale::Small,
        _ => Scale::Medium,
    }
}

fn some_font(rng: &mut Rng, scale: Scale) -> Font {
    font(rng, &Options { scale, supplemental: false, code: None, dangling: false })
}

fn origin(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 | 1 => 0,
        2 => 1 + rng.below(16) as u64,
        3 => rng.below(5000) as u64,
        4 => (1 << 31) - rng.below(40) as u64,
        5 => (1 << 32) - 20 + rng.below(40) as u64,
        6 => 1 << rng.size(33, 61),
        _ => 12 + rng.below(500) as u64,
    }
}

fn chunk(rng: &mut Rng, size: usize) -> Chunk {
    let least = if size > 200_000 { 4096 } else if size > 20_000 { 64 } else { 1 };
    match rng.below(6) {
        0 | 1 => Chunk::All,
        2 => Chunk::Fixed(least),
        3 => Chunk::Fixed(least * rng.size(1, 9)),
        4 => Chunk::Random(rng.next() >> 12, least * *rng.pick(&[2, 3, 8, 100])),
        _ => Chunk::Sector(least * *rng.pick(&[1, 2, 3, 16, 64, 512])),
    }
}

fn wrap(rng: &mut Rng) -> Wrap {
    match rng.below(5) {
        0 | 1 => Wrap::Raw,
        2 => Wrap::Position,
        3 => Wrap::Buffered(*rng.pick(&[1, 2, 3, 7, 16, 64])),
        _ => Wrap::Buffered(8192),
    }
}

fn index(rng: &mut Rng, size: usize) -> u64 {
    let span = *rng.pick(&[4, 16, 64, 256, size.max(1)]);
    rng.below(span.min(size.max(4))) as u64
}

/// Faults that a load has to cope with.
fn benign(rng: &mut Rng, size: usize) -> Vec<Fault> {
    let mut faults = vec![];
    for _ in 0..*rng.pick(&[0, 0, 1, 2, 5]) {
        let at = index(rng, size);
        let (target, kind, times) = match rng.below(5) {
            0 | 1 => (Target::Read, Kind::Interrupt, *rng.pick(&[1, 1, 2, 3, 40])),
            2 => (Target::Read, Kind::Short, rng.size(1, 50) as u64),
            3 => (Target::Any, Kind::Stall(rng.size(2, 100_000) as u64), 1),
            _ => (Target::Read, Kind::Interrupt, 1),
        };
        faults.push(Fault { at, target, kind, times });
    }
    if rng.chance(1, 12) && size < 3000 {
        // Every other read is interrupted.
        for k in 0..200 {
            faults.push(Fault { at: 2 * k, target: Target::Read, kind: Kind::Interrupt, times: 1 });
        }
    }
    faults
}

fn delivery(rng: &mut Rng, size: usize) -> Plan {
    Plan {
        origin: origin(rng),
        junk: rng.next() >> 12,
        chunk: chunk(rng, size),
        wrap: wrap(rng),
        faults: benign(rng, size),
        bad: vec![],
        latency: *rng.pick(&[1, 1, 10, 1000]),
    }
}

/// Bits that flip on the way from the storage.
fn garble(rng: &mut Rng, plan: &mut Plan, size: usize) {
    for _ in 0..rng.size(1, 3) {
        let at = index(rng, size);
        let bits = if rng.chance(1, 2) { 1 << rng.below(8) } else { 1 + rng.below(255) as u8 };
        plan.faults.push(Fault { at, target: Target::Read, kind: Kind::Garble(bits), times: *rng.pick(&[1, 1, 1, 2, 30]) });
    }
}

fn failure(rng: &mut Rng, end: bool) -> Kind {
    loop {
        let kind = match rng.below(4) {
            0 => Kind::Os(*rng.pick(OS)),
            1 => Kind::Simple(rng.below(KINDS.len()) as u8),
            _ => Kind::Tagged(rng.below(KINDS.len()) as u8),
        };
        // Kind 1 is an unexpected end.
        if end || !matches!(kind, Kind::Simple(1) | Kind::Tagged(1)) {
            return kind;
        }
    }
}

/// Add a failure that the caller has to see.
fn fail(rng: &mut Rng, plan: &mut Plan, size: usize, end: bool) {
    if rng.chance(1, 5) && size > 0 {
        let at = rng.below(size) as u64;
        plan.bad.push((at, at + *rng.pick(&[1, 4, 16, 512])));
        return;
    }
    let target = *rng.pick(&[Target::Read, Target::Read, Target::Seek, Target::Any]);
    let at = index(rng, size);
    let kind = failure(rng, end);
    let times = *rng.pick(&[1, 1, 1, 2, u64::MAX >> 1]);
    plan.faults.push(Fault { at, target, kind, times });
}

fn attempt(image: usize, plan: Plan) -> Attempt {
    Attempt { image, plan, fresh: true, what: What::Load }
}

fn tail(rng: &mut Rng, image: &mut Image) {
    if rng.chance(1, 2) {
        let n = rng.size(1, 40);
        image.edits.push(Edit::Add { bytes: rng.bytes(n), name: "foreign tail".into() });
    }
}

/// A packed sequence of structures: the bytes and what to read.
fn structures(rng: &mut Rng, count: usize, operations: bool) -> (Vec<u8>, Vec<Item>) {
    let mut bytes = vec![];
    let mut items = vec![];
    let last = operations && rng.chance(1, 4);
    for _ in 0..count {
        match rng.below(9) {
            0 => {
                let b = rng.bytes(4);
                bytes.extend(b);
                items.push(Item::Header);
            }
            1 | 2 => {
                bytes.extend(genfont::any_number(rng).1);
                items.push(Item::Number);
            }
            3 => {
                let n = rng.size(1, 4);
                let b = rng.bytes(n);
                bytes.extend(b);
                items.push(Item::Offset(n as u8));
            }
            4 | 5 => {
                let n = match rng.below(6) {
                    0 => 0,
                    1 => rng.size(20, 300),
                    _ => rng.size(1, 5),
                };
                let data: Vec<Vec<u8>> = (0..n)
                    .map(|_| {
                        let k = if rng.chance(1, 15) { rng.size(200, 400) } else { rng.size(0, 6) };
                        rng.bytes(k)
                    })
                    .collect();
                let size = rng.size(1, 4) as u8;
                bytes.extend(genfont::index_bytes(&data, size).0);
                items.push(Item::Index(rng.below(6) as u8));
            }
            6 => {
                let glyphs = match rng.below(5) {
                    0 => 1,
                    1 => rng.size(200, 800),
                    _ => rng.size(2, 20),
                };
                bytes.extend(genfont::charset_bytes(&genfont::gen_charset(rng, glyphs)));
                items.push(Item::Charset(glyphs, rng.chance(1, 4)));
            }
            7 => {
                let full = rng.chance(1, 6);
                bytes.extend(genfont::encoding_bytes(&genfont::gen_encoding(rng, full)));
                items.push(Item::Encoding(rng.chance(1, 4)));
            }
            _ => {
                let glyphs = *rng.pick(&[0, 1, 2, 5, 30]);
                bytes.extend(genfont::fdselect_bytes(&genfont::gen_fdselect(rng, glyphs, 4)));
                items.push(Item::FdSelect(glyphs, rng.chance(1, 4)));
            }
        }
    }
    if last {
        for _ in 0..rng.size(0, 5) {
            for _ in 0..rng.size(0, 4) {
                bytes.extend(genfont::any_number(rng).1);
            }
            let op = rng.pick(cff::OPERATORS).0;
            if op > 255 {
                bytes.push(12);
            }
            bytes.push(op as u8);
        }
        items.push(Item::Operations);
    }
    (bytes, items)
}

fn session(image: usize, plan: Plan, items: Vec<Item>) -> Attempt {
    Attempt { image, plan, fresh: true, what: What::Items(items) }
}

fn order(rng: &mut Rng, programs: usize, length: usize) -> Vec<(Act, usize)> {
    let mut order = vec![];
    let mut current = 0;
    let stick = rng.size(1, 6);
    for _ in 0..length {
        if rng.chance(1, stick) {
            current = rng.below(programs);
        }
        let act = match rng.below(40) {
            0 => Act::Restart,
            1 => Act::Migrate,
            _ => Act::Step,
        };
        order.push((act, current));
    }
    for i in 0..programs {
        order.push((Act::Finish, i));
    }
    order
}

fn picks(rng: &mut Rng, n: usize) -> Vec<u32> {
    // Mostly fine-grained switching, sometimes long stretches on one task.
    let stick = *rng.pick(&[1, 1, 2, 8]);
    let mut current = 0;
    (0..n)
        .map(|_| {
            if rng.chance(1, stick) {
                current = rng.below(60) as u32;
            }
            current
        })
        .collect()
}

/// Switch between the tasks also in between stream operations or steps.
fn refine(rng: &mut Rng, s: &mut Scenario) {
    s.fine = *rng.pick(&[1, 1, 2, 3, 7, 20]);
    if rng.chance(1, if s.property == "C09" { 15 } else { 8 }) {
        s.trap = *rng.pick(&[30, 300, 3000]);
    }
    let n = *rng.pick(&[30, 200, 600]);
    s.picks.extend(picks(rng, n));
}

/// Whether every program in the tables stays within the budget of steps.
fn affordable(tables: &genchar::Tables) -> bool {
    within(tables, 400_000)
}

fn within(tables: &genchar::Tables, budget: usize) -> bool {
    tables.codes.iter().all(|code| {
        let trace = t2::trace(code, &tables.global, &tables.local, budget);
        !matches!(trace.steps.last(), Some((t2::Step::Budget, _)))
    })
}

fn glyphs(tables: genchar::Tables, programs: Vec<usize>, order: Vec<(Act, usize)>, extra: usize) -> Glyphs {
    Glyphs { tables, image: None, programs, order, extra }
}

/// The scenario of a run; a function of its arguments only.
pub fn generate(property: &str, seed: u64, run: u64) -> Scenario {
    let mut rng = Rng::new(mix(seed) ^ mix(fold(property)).rotate_left(17) ^ mix(run).rotate_left(31));
    let rng = &mut rng;
    let mut s = Scenario {
        property: property.into(),
        seed,
        run,
        hash_seed: rng.next() >> 12,
        ..Scenario::default()
    };
    match property {
        "C01" => whole(rng, &mut s),
        "C02" => failing(rng, &mut s),
        "C03" => cut(rng, &mut s),
        "C04" | "C05" => damaged(rng, &mut s, property == "C04"),
        "C06" => memory(rng, &mut s),
        "C07" => packed(rng, &mut s),
        "C08" => history(rng, &mut s),
        "C09" => concurrent(rng, &mut s),
        "C10" => stepping(rng, &mut s),
        "C11" => hostile(rng, &mut s),
        "C12" => ending(rng, &mut s),
        "C13" => agreeing(rng, &mut s),
        "C14" => embedded(rng, &mut s),
        "C18" => economical(rng, &mut s),
        "C19" => asking(rng, &mut s),
        _ => {}
    }
    s
}

/// A font set from the real world, and what is left of it after a fault.
fn real_font(rng: &mut Rng, faulty: bool) -> Option<Image> {
    let mut image = Image::new(genfont::real(rng.below(8))?);
    if faulty {
        let survey = cff::survey(&image.bytes);
        damage(rng, &mut image, &survey, &[]);
    }
    Some(image)
}

/// Real charstrings with their subroutines.
fn real_tables(rng: &mut Rng, count: usize) -> Option<genchar::Tables> {
    let set = cff::read(&genfont::real(rng.below(8))?).ok()?;
    let local = match set.records.first()? {
        cff::Rec::Name(p) => p.subrs.data.clone(),
        cff::Rec::Cid { recs, .. } => recs.first()?.subrs.data.clone(),
    };
    let glyphs = &set.charstrings.first()?.data;
    let codes = (0..count).map(|_| rng.pick(glyphs).clone()).collect();
    Some(genchar::Tables { codes, global: set.gsubrs.data, local })
}

fn whole(rng: &mut Rng, s: &mut Scenario) {
    if rng.chance(1, 2000) {
        if let Some(mut image) = real_font(rng, false) {
            s.note = "real".into();
            tail(rng, &mut image);
            let size = image.bytes.len();
            s.images.push(image);
            s.tasks.push(Task::Stream(vec![attempt(0, delivery(rng, size))]));
            return;
        }
    }
    // Rarely something large: counts past 255 and 32767, objects past 64 KiB or 16 MiB.
    let scale = match rng.below(400) {
        0..=3 => Scale::Wide(0),
        4..=5 => Scale::Wide(1),
        6..=7 => Scale::Wide(2),
        8 => Scale::Wide(4),
        10 => Scale::Wide(5),
        11 => Scale::Wide(6),
        9 if rng.chance(1, 8) => Scale::Wide(3),
        _ => scale(rng),
    };
    let font = some_font(rng, scale);
    s.note = format!("{scale:?}");
    assert!(font.truth == cff::read(&font.bytes).expect("the reference reader rejects a generated font"));
    let mut image = Image::new(font.bytes);
    tail(rng, &mut image);
    let size = image.bytes.len();
    s.images.push(image);
    let mut attempts = vec![];
    for k in 0..if size > 100_000 { 1 } else { rng.size(1, 2) } {
        let mut a = attempt(0, delivery(rng, size));
        if k == 0 && rng.chance(1, 6) {
            a.what = What::Count;
        }
        attempts.push(a);
    }
    s.tasks.push(Task::Stream(attempts));
}

fn failing(rng: &mut Rng, s: &mut Scenario) {
    if rng.chance(1, 4) {
        let count = rng.size(1, 6);
        let (bytes, items) = structures(rng, count, true);
        let size = bytes.len();
        let mut plan = delivery(rng, size);
        let end = !items.contains(&Item::Operations);
        for _ in 0..rng.size(1, 3) {
            fail(rng, &mut plan, 3 * size, end);
        }
        s.note = "structures".into();
        s.images.push(Image::new(bytes));
        s.tasks.push(Task::Stream(vec![session(0, plan, items)]));
        return;
    }
    let scale = scale(rng);
    let font = some_font(rng, scale);
    let hi = cff::survey(&font.bytes).hi as usize;
    let mut image = Image::new(font.bytes);
    tail(rng, &mut image);
    s.images.push(image);
    let mut attempts = vec![];
    for _ in 0..rng.size(1, 4) {
        let mut plan = delivery(rng, hi);
        for _ in 0..*rng.pick(&[1, 1, 1, 2]) {
            fail(rng, &mut plan, hi, true);
        }
        let mut a = attempt(0, plan);
        if rng.chance(1, 10) {
            a.what = What::Count;
            for f in a.plan.faults.iter_mut() {
                f.at %= 8;
            }
        }
        attempts.push(a);
    }
    s.tasks.push(Task::Stream(attempts));
}

fn cut(rng: &mut Rng, s: &mut Scenario) {
    match rng.below(10) {
        0 | 1 => {
            let count = rng.size(1, 4);
            let (bytes, items) = structures(rng, count, true);
            let mut image = Image::new(bytes);
            let len = rng.below(image.bytes.len() + 1);
            image.edits.push(Edit::Cut { len, name: "cut short".into() });
            let plan = delivery(rng, len);
            s.note = "structures".into();
            s.strict_end = true;
            s.images.push(image);
            s.tasks.push(Task::Stream(vec![session(0, plan, items)]));
        }
        2 => {
            let font = font(rng, &Options { scale: Scale::Small, supplemental: false, code: None, dangling: true });
            let size = font.bytes.len();
            let mut image = Image::new(font.bytes);
            image.edits.push(Edit::Add { bytes: vec![], name: "dangling dictionary".into() });
            s.images.push(image);
            s.note = "a dictionary that ends in the middle of an operation".into();
            s.tasks.push(Task::Stream(vec![attempt(0, delivery(rng, size))]));
        }
        3 => {
            // The stream claims to end earlier than it does.
            let scale = scale(rng);
            let font = some_font(rng, scale);
            let hi = cff::survey(&font.bytes).hi as usize;
            s.images.push(Image::new(font.bytes));
            let mut plan = delivery(rng, hi);
            plan.faults.push(Fault { at: index(rng, hi), target: Target::Read, kind: Kind::End, times: 1 });
            s.tasks.push(Task::Stream(vec![attempt(0, plan)]));
        }
        _ => {
            let scale = scale(rng);
            let font = some_font(rng, scale);
            let survey = cff::survey(&font.bytes);
            let hi = survey.hi as usize;
            let size = font.bytes.len();
            let mut image = Image::new(font.bytes);
            let len = match rng.below(5) {
                // Right at, before or after the boundary of a structure.
                0 | 1 if !survey.spans.is_empty() => {
                    let span = *rng.pick(&survey.spans);
                    let edge = if rng.chance(1, 2) { span.lo } else { span.hi } as i64;
                    (edge + rng.range(-2, 2)).clamp(0, size as i64) as usize
                }
                2 => (hi as i64 + rng.range(-3, 3)).clamp(0, size as i64) as usize,
                _ => rng.below(size + 1),
            };
            image.edits.push(Edit::Cut { len, name: "cut short".into() });
            s.strict_end = true;
            s.images.push(image);
            let mut a = attempt(0, delivery(rng, len));
            if rng.chance(1, 10) {
                a.what = What::Count;
            }
            s.tasks.push(Task::Stream(vec![a]));
        }
    }
}

fn damaged_font(rng: &mut Rng) -> (Image, usize) {
    if rng.chance(1, 4000) {
        if let Some(image) = real_font(rng, true) {
            let size = image.bytes.len();
            return (image, size);
        }
    }
    let scale = scale(rng);
    let font = some_font(rng, scale);
    let other = some_font(rng, Scale::Tiny).bytes;
    let survey: Survey = cff::survey(&font.bytes);
    let mut image = Image::new(font.bytes);
    damage(rng, &mut image, &survey, &other);
    tail(rng, &mut image);
    let size = image.bytes.len();
    (image, size)
}

/// A font set that has much in common with another one.
fn relative(rng: &mut Rng, image: &Image) -> Image {
    let bytes = &image.bytes;
    if bytes.is_empty() || bytes.len() > 20_000 {
        return Image::new(bytes.clone());
    }
    for _ in 0..6 {
        let mut other = Image::new(bytes.clone());
        for _ in 0..rng.size(1, 3) {
            let at = rng.below(bytes.len());
            let value = bytes[at] ^ (1 + rng.below(255) as u8);
            other.edits.push(Edit::Set { at, bytes: vec![value], name: "bit rot".into() });
        }
        if cff::read(&other.render()).is_ok() {
            return other;
        }
    }
    let mut other = Image::new(bytes.clone());
    let survey = cff::survey(&other.bytes);
    damage(rng, &mut other, &survey, &[]);
    other
}

/// Tables that have much in common with others.
fn kindred(rng: &mut Rng, tables: &genchar::Tables) -> genchar::Tables {
    let mut other = tables.clone();
    for _ in 0..rng.size(1, 4) {
        let table = match rng.below(3) {
            0 if !other.local.is_empty() => &mut other.local,
            1 if !other.global.is_empty() => &mut other.global,
            _ => &mut other.codes,
        };
        let (i, j) = (rng.below(table.len()), rng.below(table.len()));
        match rng.below(4) {
            0 => table.swap(i, j),
            1 => table.truncate(i.max(1)),
            _ if table[i].is_empty() => {}
            _ => {
                // One operand more or less by a bit.
                let at = rng.below(table[i].len());
                if (40..240).contains(&table[i][at]) {
                    table[i][at] ^= 1;
                }
            }
        }
    }
    other
}

fn garbage(rng: &mut Rng) -> Image {
    let n = rng.size(0, 200);
    let mut bytes = rng.bytes(n);
    // Often something that starts like a font set.
    if rng.chance(1, 2) && n > 8 {
        bytes[..4].copy_from_slice(&[1, 0, 4, 1]);
        if rng.chance(1, 2) {
            bytes[4..8].copy_from_slice(&[0, 0, 0, 1]);
        }
    }
    let mut image = Image::new(bytes);
    image.edits.push(Edit::Add { bytes: vec![], name: "random bytes".into() });
    image
}

fn damaged(rng: &mut Rng, s: &mut Scenario, crash: bool) {
    if rng.chance(1, 300) {
        // Much of one thing, as it is or damaged.
        let (bytes, items) = plenty(rng);
        let mut image = Image::new(bytes);
        if rng.chance(1, 2) {
            let survey = survey_items(&image.bytes, &items);
            damage(rng, &mut image, &survey, &[]);
        }
        s.note = "plenty".into();
        s.images.push(image);
        let mut plan = Plan::plain();
        plan.wrap = *rng.pick(&[Wrap::Raw, Wrap::Position, Wrap::Buffered(8192)]);
        s.tasks.push(Task::Stream(vec![session(0, plan, items)]));
        return;
    }
    match rng.below(12) {
        0 => {
            let image = garbage(rng);
            let size = image.bytes.len();
            s.images.push(image);
            s.tasks.push(Task::Stream(vec![attempt(0, delivery(rng, size))]));
        }
        1 | 2 => {
            // Structures on their own.
            let count = rng.size(1, 3);
            let (bytes, mut items) = structures(rng, count, true);
            let mut image = Image::new(bytes);
            if rng.chance(1, 3) {
                let n = rng.size(1, 60);
                image.bytes = rng.bytes(n);
                image.edits.push(Edit::Add { bytes: vec![], name: "random bytes".into() });
            } else {
                let survey = survey_items(&image.bytes, &items);
                damage(rng, &mut image, &survey, &[]);
            }
            for item in items.iter_mut() {
                if !rng.chance(1, 12) {
                    continue;
                }
                match *item {
                    Item::Charset(n, _) => *item = Item::Exact(rng.below(3) as u8, n),
                    Item::Encoding(_) => *item = Item::Exact(3 + rng.below(2) as u8, 0),
                    Item::FdSelect(n, _) => *item = Item::Exact(5 + rng.below(2) as u8, n),
                    _ => {}
                }
            }
            if crash {
                for item in items.iter_mut() {
                    match item {
                        Item::Charset(n, _) if rng.chance(1, 6) => *n = *rng.pick(&[0, 1, 65535, 65536]),
                        Item::Offset(n) if rng.chance(1, 6) => *n = rng.next() as u8,
                        _ => {}
                    }
                }
            }
            let size = image.bytes.len();
            s.note = "structures".into();
            s.images.push(image);
            let mut plan = delivery(rng, size);
            if crash && rng.chance(1, 4) {
                garble(rng, &mut plan, size);
            }
            s.tasks.push(Task::Stream(vec![session(0, plan, items)]));
        }
        _ => {
            let (image, size) = damaged_font(rng);
            s.images.push(image);
            let mut a = attempt(0, delivery(rng, size));
            if crash && rng.chance(1, 5) {
                garble(rng, &mut a.plan, size);
                if rng.chance(1, 3) {
                    s.images[0].edits.clear();
                }
            }
            if rng.chance(1, 20) {
                a.what = What::Count;
            }
            s.tasks.push(Task::Stream(vec![a]));
        }
    }
}

/// Many of everything: what costs too much per piece shows at the peak.
fn plenty(rng: &mut Rng) -> (Vec<u8>, Vec<Item>) {
    let n = *rng.pick(&[3000, 10000, 30000, 65534, 65535]);
    let k = rng.size(0, 3);
    let pieces = |rng: &mut Rng, n: usize| -> Vec<Vec<u8>> { (0..n).map(|_| rng.bytes(k)).collect() };
    let size = rng.size(1, 4) as u8;
    match rng.below(9) {
        0 | 1 => (genfont::index_bytes(&pieces(rng, n), size).0, vec![Item::Index(rng.below(6) as u8)]),
        2 => {
            let objects: Vec<Vec<u8>> = pieces(rng, 400);
            let one = genfont::index_bytes(&objects, size).0;
            let times = rng.size(10, 60);
            (one.repeat(times), vec![Item::Index(rng.below(6) as u8); times])
        }
        3 | 4 => {
            let bytes = genfont::charset_bytes(&genfont::gen_charset(rng, n));
            (bytes, vec![Item::Charset(n, rng.chance(1, 4))])
        }
        5 => {
            let mut bytes = vec![0];
            bytes.extend(rng.bytes(n));
            (bytes, vec![Item::FdSelect(n, rng.chance(1, 4))])
        }
        6 => {
            let mut bytes = vec![3];
            bytes.extend((n as u16).to_be_bytes());
            bytes.extend(rng.bytes(3 * n + 2));
            (bytes, vec![Item::FdSelect(n, rng.chance(1, 4))])
        }
        7 => {
            // One operator with very many operands, or very many operators.
            let mut bytes = vec![];
            let lone = rng.chance(1, 2);
            for _ in 0..n / 2 {
                bytes.push(32 + rng.below(200) as u8);
                if !lone {
                    bytes.push(rng.below(12) as u8);
                }
            }
            bytes.push(5);
            (bytes, vec![Item::Operations])
        }
        _ => {
            // A real number with very many digits.
            let mut bytes = vec![30];
            bytes.extend(vec![0x12; n]);
            bytes.push(0xff);
            (bytes, vec![Item::Number])
        }
    }
}

fn memory(rng: &mut Rng, s: &mut Scenario) {
    s.memory = true;
    if rng.chance(1, 150) {
        let (bytes, items) = plenty(rng);
        let mut image = Image::new(bytes);
        if rng.chance(1, 4) {
            let len = rng.below(image.bytes.len() + 1);
            image.edits.push(Edit::Cut { len, name: "cut short".into() });
        }
        s.note = "plenty".into();
        s.images.push(image);
        let mut plan = Plan::plain();
        plan.wrap = *rng.pick(&[Wrap::Raw, Wrap::Position, Wrap::Buffered(8192)]);
        s.tasks.push(Task::Stream(vec![session(0, plan, items)]));
        return;
    }
    let image = match rng.below(8) {
        0 => garbage(rng),
        1 | 2 => Image::new({
            let scale = if rng.chance(1, 40) { Scale::Wide(*rng.pick(&[0, 1, 2, 4, 5, 5, 6, 6])) } else { scale(rng) };
            some_font(rng, scale).bytes
        }),
        3 => {
            // Sizes that promise far more than there is.
            let n = rng.size(0, 40);
            let mut bytes = vec![1, 0, 4, 4];
            let count = *rng.pick(&[1u16, 2, 255, 65535]);
            bytes.extend(count.to_be_bytes());
            bytes.push(4);
            bytes.extend([0, 0, 0, 1]);
            for _ in 0..rng.size(1, 6) {
                bytes.extend(*rng.pick(&[[0xffu8, 0xff, 0xff, 0xff], [0x7f, 0xff, 0xff, 0xff], [0x40, 0, 0, 1]]));
            }
            bytes.extend(rng.bytes(n));
            let mut image = Image::new(bytes);
            image.edits.push(Edit::Add { bytes: vec![], name: "damaged field".into() });
            image
        }
        _ => damaged_font(rng).0,
    };
    let size = image.bytes.len();
    s.images.push(image);
    let mut plan = delivery(rng, size);
    if rng.chance(1, 5) {
        fail(rng, &mut plan, size, true);
    } else if rng.chance(1, 8) {
        plan.faults.push(Fault { at: index(rng, size), target: Target::Any, kind: Kind::Cancel, times: 1 });
    } else if rng.chance(1, 8) {
        garble(rng, &mut plan, size);
    }
    s.tasks.push(Task::Stream(vec![attempt(0, plan)]));
    if rng.chance(1, 6) {
        // One structure whose announced size is absurd.
        let mut bytes = vec![];
        let item = match rng.below(2) {
            0 => {
                bytes.extend([0, 1, 4, 0, 0, 0, 1]);
                bytes.extend(*rng.pick(&[[0xffu8, 0xff, 0xff, 0xff], [0x7f, 0, 0, 0], [0x20, 0, 0, 0]]));
                Item::Index(rng.below(6) as u8)
            }
            _ => {
                bytes.push(2);
                Item::Charset(65535, false)
            }
        };
        let n = rng.below(8);
        bytes.extend(rng.bytes(n));
        s.images.push(Image::new(bytes));
        s.tasks.push(Task::Stream(vec![session(1, Plan::plain(), vec![item])]));
    }
}

fn packed(rng: &mut Rng, s: &mut Scenario) {
    let count = rng.size(2, 12);
    let (mut bytes, mut items) = structures(rng, count, true);
    if rng.chance(1, 4) {
        // Something else is tried first where an item starts.
        let k = rng.below(items.len());
        let at = run::end_of_items(&bytes, &items[..k]);
        if let Some(&format) = bytes.get(at) {
            let mut probes = vec![];
            if format > 2 {
                probes.push(Item::Charset(rng.size(1, 9), false));
            }
            if (2..128).contains(&format) {
                probes.push(Item::Encoding(rng.chance(1, 2)));
            }
            if format != 0 && format != 3 {
                probes.push(Item::FdSelect(rng.size(0, 9), false));
            }
            for _ in 0..if probes.is_empty() { 0 } else { rng.size(1, 2) } {
                let probe = *rng.pick(&probes);
                items.insert(k, probe);
            }
        }
    }
    if !items.contains(&Item::Operations) {
        let n = rng.size(0, 10);
        bytes.extend(rng.bytes(n));
    }
    let size = bytes.len();
    let mut plan = delivery(rng, size);
    if rng.chance(1, 3) {
        let end = !items.contains(&Item::Operations);
        fail(rng, &mut plan, 3 * size, end);
        for f in plan.faults.iter_mut() {
            f.times = f.times.min(3);
        }
        plan.bad.clear();
    }
    s.images.push(Image::new(bytes));
    s.tasks.push(Task::Stream(vec![session(0, plan, items)]));
}

fn spoil(rng: &mut Rng, plan: &mut Plan, hi: usize) {
    match rng.below(5) {
        4 => garble(rng, plan, hi),
        0 => {
            let at = index(rng, hi);
            plan.faults.push(Fault { at, target: Target::Any, kind: Kind::Cancel, times: 1 });
        }
        1 => {
            let at = index(rng, hi);
            plan.faults.push(Fault { at, target: Target::Read, kind: Kind::End, times: 1 });
        }
        _ => fail(rng, plan, hi, true),
    }
}

fn history(rng: &mut Rng, s: &mut Scenario) {
    let long = rng.chance(1, 60);
    let scale = if long { Scale::Tiny } else { scale(rng) };
    let font = some_font(rng, scale);
    let hi = cff::survey(&font.bytes).hi as usize;
    let mut image = Image::new(font.bytes);
    tail(rng, &mut image);
    s.images.push(image);
    let mut attempts = vec![];
    let base = delivery(rng, hi);
    let rounds = rng.size(1, 3);
    for _ in 0..rounds {
        let failures = if long { rng.size(30, 300) } else { rng.size(1, 4) };
        for _ in 0..failures {
            let mut plan = Plan { faults: benign(rng, hi), ..base.clone() };
            let fresh = rng.chance(1, 2);
            if rng.chance(1, if long { 50 } else { 5 }) {
                let image = if rng.chance(1, 2) { relative(rng, &s.images[0]) } else { damaged_font(rng).0 };
                let size = image.bytes.len();
                s.images.push(image);
                attempts.push(attempt(s.images.len() - 1, delivery(rng, size)));
                continue;
            }
            spoil(rng, &mut plan, hi);
            let what = if rng.chance(1, 10) { What::Count } else { What::Load };
            attempts.push(Attempt { image: 0, plan, fresh, what });
        }
        // Once the stream stops failing.
        let plan = Plan { faults: benign(rng, hi), ..base.clone() };
        attempts.push(Attempt { image: 0, plan, fresh: rng.chance(1, 3), what: What::Load });
    }
    s.tasks.push(Task::Stream(attempts));
    if rng.chance(1, 4) {
        // And for someone else, on another thread.
        s.tasks.push(Task::Stream(vec![attempt(0, delivery(rng, hi))]));
    }
}

fn disturb(rng: &mut Rng, plan: &mut Plan, size: usize) {
    match rng.below(6) {
        0 | 1 => spoil(rng, plan, size),
        2 => {
            let at = index(rng, size);
            plan.faults.push(Fault { at, target: Target::Any, kind: Kind::Stall(u64::MAX), times: 1 });
        }
        _ => {}
    }
}

fn concurrent(rng: &mut Rng, s: &mut Scenario) {
    s.interleave = true;
    let tasks = rng.size(2, 5);
    let mut ops = 0;
    for _ in 0..tasks {
        // Sometimes the tasks read structures directly.
        if rng.chance(1, 4) {
            let count = rng.size(1, 6);
            let (bytes, items) = structures(rng, count, true);
            let mut image = Image::new(bytes);
            if rng.chance(1, 8) {
                let survey = survey_items(&image.bytes, &items);
                damage(rng, &mut image, &survey, &[]);
            }
            let size = image.bytes.len();
            s.images.push(image);
            ops += size;
            let mut attempts = vec![];
            for _ in 0..rng.size(1, 2) {
                let mut plan = delivery(rng, size);
                disturb(rng, &mut plan, size);
                attempts.push(session(s.images.len() - 1, plan, items.clone()));
            }
            s.tasks.push(Task::Stream(attempts));
            continue;
        }
        // Sometimes several tasks load the same font through streams of their own.
        let fonts: Vec<usize> = s
            .tasks
            .iter()
            .filter_map(|t| match t {
                Task::Stream(attempts) => {
                    attempts.iter().find(|a| !matches!(a.what, What::Items(_))).map(|a| a.image)
                }
                _ => None,
            })
            .collect();
        let image = if !fonts.is_empty() && rng.chance(1, 3) {
            let k = *rng.pick(&fonts);
            if rng.chance(1, 2) {
                let other = relative(rng, &s.images[k]);
                s.images.push(other);
                s.images.len() - 1
            } else {
                k
            }
        } else {
            let scale = if rng.chance(2, 3) { Scale::Tiny } else { Scale::Small };
            let image =
                if rng.chance(1, 6) { damaged_font(rng).0 } else { Image::new(some_font(rng, scale).bytes) };
            s.images.push(image);
            s.images.len() - 1
        };
        let size = s.images[image].bytes.len();
        ops += size;
        let mut attempts = vec![];
        for _ in 0..rng.size(1, 2) {
            let mut plan = delivery(rng, size);
            if rng.chance(1, 2) {
                plan.chunk = Chunk::All;
            }
            disturb(rng, &mut plan, size);
            let what = if rng.chance(1, 10) { What::Count } else { What::Load };
            attempts.push(Attempt { image, plan, fresh: rng.chance(2, 3), what });
        }
        s.tasks.push(Task::Stream(attempts));
    }
    if rng.chance(1, 8) {
        // Programs that run while the fonts are loading.
        let deep = rng.chance(1, 4);
        let tables = genchar::well_formed(rng, 1, deep, false);
        if affordable(&tables) {
            let n = rng.size(1, 3);
            let programs: Vec<usize> = (0..n).map(|_| rng.below(tables.codes.len())).collect();
            let order = order(rng, n, rng.clone().below(60));
            s.tasks.push(Task::Glyphs(glyphs(tables, programs, order, 0)));
        }
    }
    s.picks = picks(rng, ops.min(400));
    if rng.chance(1, 3) {
        refine(rng, s);
    }
}

/// Very many operations out of a program.
fn prolific(rng: &mut Rng, s: &mut Scenario) {
    s.note = "very many operations".into();
    let tables = genchar::prolific(rng);
    let n = if rng.chance(1, 3) { 2 } else { 1 };
    let mut order = order(rng, n, rng.clone().below(60));
    if s.memory {
        order.extend((0..n * rng.size(1, 60)).map(|i| (Act::Finish, i % n)));
    }
    let extra = if rng.chance(1, 6) { 70_000 } else { rng.size(0, 20) };
    s.tasks.push(Task::Glyphs(glyphs(tables, vec![0; n], order, extra)));
}

/// Programs over tables of their own that make way for each other at any instruction.
fn contending(rng: &mut Rng, s: &mut Scenario) {
    s.note = "contending programs".into();
    for _ in 0..rng.size(2, 3) {
        let tables = if rng.chance(3, 4) {
            genchar::calling(rng)
        } else {
            genchar::well_formed(rng, 1, false, false)
        };
        let tables = if affordable(&tables) { tables } else { genchar::calling(rng) };
        let n = rng.size(1, 2);
        let mut order = order(rng, n, rng.clone().below(20));
        order.extend((0..rng.below(4)).flat_map(|_| (0..n).flat_map(|i| [(Act::Restart, i), (Act::Finish, i)])));
        s.tasks.push(Task::Glyphs(glyphs(tables, vec![0; n], order, 0)));
    }
    s.interleave = true;
    s.fine = *rng.pick(&[3, 20, 1000]);
    s.trap = *rng.pick(&[300, 1000, 3000]);
    s.picks = picks(rng, 400);
}

fn stepping(rng: &mut Rng, s: &mut Scenario) {
    if rng.chance(1, 1500) {
        return prolific(rng, s);
    }
    if rng.chance(1, 50) {
        return contending(rng, s);
    }
    if rng.chance(1, 60) {
        let vast = rng.chance(1, 6);
        s.note = if vast { "vast" } else { "heaped" }.into();
        let tables = if vast { genchar::vast(rng) } else { genchar::heaped(rng) };
        if within(&tables, if vast { 1_400_000 } else { 400_000 }) {
            let n = rng.size(1, if vast { 2 } else { 3 });
            let length = rng.size(0, 40);
            let order = order(rng, n, length);
            s.tasks.push(Task::Glyphs(glyphs(tables, vec![0; n], order, rng.size(0, 4))));
            return;
        }
    }
    let mut large = rng.chance(1, 60);
    let count = rng.size(1, 4);
    let real = if rng.chance(1, 30) { real_tables(rng, count) } else { None };
    let mut tables = match real {
        Some(tables) => {
            s.note = "real".into();
            large = true;
            tables
        }
        None => genchar::well_formed(rng, count, rng.clone().chance(1, 3), large),
    };
    if rng.chance(1, 4) {
        // Malformed ones among them.
        let code = rng.pick(&tables.codes).clone();
        let mut code = code;
        if !code.is_empty() {
            match rng.below(3) {
                0 => code.truncate(rng.below(code.len())),
                1 => {
                    let at = rng.below(code.len());
                    code[at] = rng.next() as u8;
                }
                _ => {
                    let at = rng.below(code.len());
                    code.remove(at);
                }
            }
        }
        tables.codes.push(code);
    }
    if !affordable(&tables) {
        tables = genchar::Tables { codes: vec![vec![14]], ..Default::default() };
    }
    // Sometimes very many programs in one thread.
    let long = !large && rng.chance(1, 60);
    let n = if long { rng.size(50, 300) } else { rng.size(1, 5) };
    let programs: Vec<usize> = (0..n).map(|_| rng.below(tables.codes.len())).collect();
    let length = if long { rng.size(0, 1000) } else { rng.size(0, 60) };
    let extra = rng.size(0, 4);
    if rng.chance(1, 4) && !large {
        // Out of a loaded font set.
        let code = Code { glyphs: tables.codes.clone(), global: tables.global.clone(), local: tables.local.clone() };
        let font = font(rng, &Options { scale: Scale::Tiny, supplemental: false, code: Some(code), dangling: false });
        s.images.push(Image::new(font.bytes));
        let order = order(rng, n, length);
        s.tasks.push(Task::Glyphs(Glyphs {
            tables: Default::default(),
            image: Some(0),
            programs,
            order,
            extra,
        }));
        return;
    }
    let order_first = order(rng, n, length);
    s.tasks.push(Task::Glyphs(glyphs(tables.clone(), programs, order_first, extra)));
    if !large && rng.chance(1, 5) {
        // Something similar afterwards, on the same thread.
        s.one_thread = true;
        let mut last = tables;
        for _ in 0..rng.size(1, 3) {
            last = kindred(rng, &last);
            if !affordable(&last) {
                return;
            }
            let programs: Vec<usize> = (0..rng.size(1, 4)).map(|_| rng.below(last.codes.len())).collect();
            let order = order(rng, programs.len(), length.min(60));
            s.tasks.push(Task::Glyphs(glyphs(last.clone(), programs, order, 0)));
        }
        return;
    }
    if rng.chance(1, 3) {
        s.interleave = true;
        for _ in 0..rng.size(1, 2) {
            // Over the same tables, similar ones or others.
            let own = match rng.below(4) {
                0 => Some(kindred(rng, &tables)),
                1 => {
                    let deep = rng.chance(1, 4);
                    let least = *rng.pick(&[0, 0, 1240]);
                    Some(genchar::sized(rng, 1, deep, false, least))
                }
                _ => None,
            };
            let own = own.filter(|own| !large && affordable(own));
            let codes = own.as_ref().unwrap_or(&tables).codes.len();
            let programs: Vec<usize> = (0..rng.size(1, 3)).map(|_| rng.below(codes)).collect();
            let order = order(rng, programs.len(), length);
            s.tasks.push(Task::Glyphs(glyphs(own.unwrap_or_default(), programs, order, 0)));
        }
        if rng.chance(1, 8) {
            // A font loading while the programs run.
            let image = if rng.chance(1, 6) {
                damaged_font(rng).0
            } else {
                let scale = if rng.chance(2, 3) { Scale::Tiny } else { Scale::Small };
                Image::new(some_font(rng, scale).bytes)
            };
            let plan = delivery(rng, image.bytes.len());
            s.images.push(image);
            let image = s.images.len() - 1;
            s.tasks.push(Task::Stream(vec![Attempt { image, plan, fresh: true, what: What::Load }]));
        }
        s.picks = picks(rng, 200);
        if rng.chance(1, 2) {
            refine(rng, s);
        }
    }
}

fn hostile(rng: &mut Rng, s: &mut Scenario) {
    if rng.chance(1, 1500) {
        return prolific(rng, s);
    }
    if rng.chance(1, 500) {
        s.note = "calls that fan out".into();
        let tables = genchar::fan_out(rng);
        let order: Vec<(Act, usize)> =
            (0..rng.size(1, 4)).map(|i| (if i == 2 { Act::Migrate } else { Act::Step }, 0)).collect();
        s.tasks.push(Task::Glyphs(glyphs(tables, vec![0], order, 0)));
        return;
    }
    for _ in 0..4 {
        let (tables, kind) = match if rng.chance(1, 60) { real_tables(rng, 3) } else { None } {
            Some(mut tables) => {
                for _ in 0..rng.size(1, 4) {
                    let table = match rng.below(4) {
                        0 if !tables.local.is_empty() => &mut tables.local,
                        1 if !tables.global.is_empty() => &mut tables.global,
                        _ => &mut tables.codes,
                    };
                    let i = rng.below(table.len());
                    let code = &mut table[i];
                    match rng.below(4) {
                        _ if code.is_empty() => {}
                        0 => code.truncate(rng.below(code.len())),
                        1 => {
                            let at = rng.below(code.len());
                            code.remove(at);
                        }
                        _ => {
                            let at = rng.below(code.len());
                            code[at] = rng.next() as u8;
                        }
                    }
                }
                (tables, "damaged real program")
            }
            None => genchar::hostile(rng),
        };
        if !affordable(&tables) {
            continue;
        }
        s.note = kind.into();
        let mut n = tables.codes.len();
        let mut programs: Vec<usize> = (0..n).collect();
        let executed: usize = tables
            .codes
            .iter()
            .map(|code| t2::trace(code, &tables.global, &tables.local, 400_000).executed)
            .sum();
        if executed < 2000 && rng.chance(1, 60) {
            // Over and over again in one thread.
            n *= rng.size(20, 200);
            programs = (0..n).map(|i| programs[i % programs.len()]).collect();
        }
        let mut order: Vec<(Act, usize)> = vec![];
        for i in 0..n {
            for _ in 0..rng.below(4) {
                order.push((if rng.chance(1, 10) { Act::Migrate } else { Act::Step }, i));
            }
            order.push((Act::Finish, i));
        }
        s.tasks.push(Task::Glyphs(glyphs(tables, programs, order, 30)));
        return;
    }
    s.tasks.push(Task::Glyphs(glyphs(
        genchar::Tables { codes: vec![vec![14]], ..Default::default() },
        vec![0],
        vec![(Act::Finish, 0)],
        3,
    )));
}

fn economical(rng: &mut Rng, s: &mut Scenario) {
    s.memory = true;
    if rng.chance(1, 400) {
        return prolific(rng, s);
    }
    let tables = match rng.below(40) {
        0 if rng.chance(1, 10) => {
            s.note = "calls that fan out".into();
            genchar::fan_out(rng)
        }
        11 if rng.chance(1, 100) => {
            // Hints that never end, and a mask for all of them.
            s.note = "very many hints".into();
            let mut code = vec![139; rng.size(20_000, 60_000)];
            let hint = *rng.pick(&[1, 3, 18, 23]);
            code.extend([hint, 0x0b]);
            let inner = [32, 10].repeat(rng.size(20, 60));
            let outer = [33, 10].repeat(rng.size(20, 60));
            let local = vec![code, [&inner[..], &[0x0b]].concat(), [&outer[..], &[0x0b]].concat()];
            genchar::Tables { codes: vec![[34, 10, 20, 0, 0, 14].to_vec()], local, ..Default::default() }
        }
        1..=9 => {
            let count = rng.size(1, 3);
            let deep = rng.chance(1, 2);
            genchar::well_formed(rng, count, deep, false)
        }
        10 => {
            s.note = "very many operands".into();
            let n = rng.size(1000, 70_000);
            let mut code = vec![];
            for _ in 0..n {
                code.push(32 + rng.below(215) as u8);
            }
            let times = rng.size(0, 100);
            code.extend([31, 10].repeat(times));
            code.extend(*rng.pick(&[&[5, 14][..], &[22, 14], &[14], &[19, 0, 0]]));
            let local = vec![code.clone(), [&code[..n], &[0x0b]].concat()];
            genchar::Tables { codes: vec![code], local, ..Default::default() }
        }
        _ => {
            let (tables, kind) = genchar::hostile(rng);
            s.note = kind.into();
            tables
        }
    };
    if s.note == "calls that fan out" {
        // Each step may take a while.
        let order = (0..rng.size(1, 3)).map(|_| (Act::Step, 0)).collect();
        s.tasks.push(Task::Glyphs(glyphs(tables, vec![0], order, 0)));
        return;
    }
    let size: usize = tables.codes.iter().chain(&tables.global).chain(&tables.local).map(Vec::len).sum();
    let many = size < 2000 && rng.chance(1, 60);
    let n = if many {
        rng.size(20, 200)
    } else if s.note == "very many hints" {
        1
    } else {
        rng.size(1, 3)
    };
    let programs: Vec<usize> = (0..n).map(|_| rng.below(tables.codes.len())).collect();
    let length = if s.note == "very many hints" { 0 } else { rng.below(40) };
    let order = order(rng, n, length);
    let extra = if size < 2000 && rng.chance(1, 100) { 20_000 } else { rng.size(1, 10) };
    s.tasks.push(Task::Glyphs(glyphs(tables, programs, order, extra)));
}

fn ending(rng: &mut Rng, s: &mut Scenario) {
    if rng.chance(1, 1500) {
        return prolific(rng, s);
    }
    let real = if rng.chance(1, 60) { real_tables(rng, 3) } else { None };
    let vast = rng.chance(1, 300);
    let tables = if let Some(tables) = real {
        tables
    } else if vast {
        let mut t = genchar::vast(rng);
        if rng.chance(1, 2) {
            let extra = rng.bytes(3);
            t.codes[0].extend(extra);
        }
        t
    } else if rng.chance(3, 4) {
        genchar::ending(rng)
    } else {
        let deep = rng.chance(1, 2);
        let mut t = genchar::well_formed(rng, 1, deep, false);
        let n = rng.size(0, 8);
        let extra = rng.bytes(n);
        t.codes[0].extend(extra);
        t
    };
    let tables = if affordable(&tables) {
        tables
    } else {
        genchar::Tables { codes: vec![vec![14, 139, 22]], ..Default::default() }
    };
    let mut tables = tables;
    // Others that end early, late, within a subroutine or not at all.
    for _ in 0..rng.below(3) {
        let mut code = rng.pick(&tables.codes).clone();
        let n = rng.size(0, 8);
        match rng.below(4) {
            0 => code.truncate(rng.below(code.len() + 1)),
            1 => code.extend(rng.bytes(n)),
            2 => code = [&[14][..], &code].concat(),
            _ => code = vec![139 + rng.below(100) as u8, 14, 139, 139, 21],
        }
        tables.codes.push(code);
    }
    if !affordable(&tables) {
        tables.codes.truncate(1);
    }
    // Ends again and again, in one thread.
    let long = rng.chance(1, 60);
    let n = if long { rng.size(50, 300) } else { rng.size(1, 4) };
    let codes = tables.codes.len();
    let sequence = |rng: &mut Rng, n: usize, length: usize| {
        let mut order: Vec<(Act, usize)> = vec![];
        let unfinished = rng.chance(1, 3);
        for i in 0..n {
            if !unfinished || rng.chance(1, 2) {
                order.push((Act::Finish, i));
            }
        }
        for _ in 0..length {
            let act = match rng.below(30) {
                0 => Act::Restart,
                1 | 2 => Act::Finish,
                3..=5 => Act::Migrate,
                _ => Act::Step,
            };
            order.push((act, rng.below(n)));
        }
        for i in 0..n {
            order.push((Act::Finish, i));
        }
        order
    };
    let programs: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { rng.below(codes) }).collect();
    let length = if long { rng.size(100, 1000) } else { rng.size(3, 25) };
    let first = sequence(rng, n, length);
    let extra = if n < 5 && rng.chance(1, 500) { 5000 } else { rng.size(1, 20) };
    s.tasks.push(Task::Glyphs(glyphs(tables, programs, first, extra)));
    if rng.chance(1, 4) {
        s.interleave = true;
        for _ in 0..rng.size(1, 2) {
            let n = rng.size(1, 3);
            let programs: Vec<usize> = (0..n).map(|_| rng.below(codes)).collect();
            let length = rng.size(3, 25);
            let order = sequence(rng, n, length);
            s.tasks.push(Task::Glyphs(glyphs(Default::default(), programs, order, extra)));
        }
        s.picks = picks(rng, 200);
        if rng.chance(1, 3) {
            refine(rng, s);
        }
    }
}

fn agreeing(rng: &mut Rng, s: &mut Scenario) {
    s.agree = true;
    if rng.chance(1, 6) {
        let count = rng.size(1, 4);
        let (bytes, items) = structures(rng, count, true);
        let mut image = Image::new(bytes);
        if rng.chance(2, 3) {
            let survey = survey_items(&image.bytes, &items);
            damage(rng, &mut image, &survey, &[]);
        }
        let size = image.bytes.len();
        s.images.push(image);
        for _ in 0..rng.size(2, 4) {
            s.tasks.push(Task::Stream(vec![session(0, delivery(rng, size), items.clone())]));
        }
        return;
    }
    let (image, size) = if rng.chance(1, 3) {
        let scale = scale(rng);
        let bytes = some_font(rng, scale).bytes;
        let n = bytes.len();
        (Image::new(bytes), n)
    } else if rng.chance(1, 4) {
        let scale = scale(rng);
        let font = some_font(rng, scale);
        let survey = cff::survey(&font.bytes);
        let mut image = Image::new(font.bytes);
        damage::several(rng, &mut image, &survey);
        let n = image.bytes.len();
        (image, n)
    } else {
        damaged_font(rng)
    };
    s.images.push(image);
    let what = if rng.chance(1, 12) { What::Count } else { What::Load };
    for _ in 0..rng.size(2, 4) {
        let mut attempts = vec![];
        // After something else, or after a failure.
        for _ in 0..*rng.pick(&[0, 0, 1, 3]) {
            if rng.chance(1, 2) {
                let image = if rng.chance(1, 2) { relative(rng, &s.images[0]) } else { damaged_font(rng).0 };
                let size = image.bytes.len();
                s.images.push(image);
                attempts.push(attempt(s.images.len() - 1, delivery(rng, size)));
            } else {
                let mut plan = delivery(rng, size);
                spoil(rng, &mut plan, size);
                attempts.push(attempt(0, plan));
            }
        }
        for k in 0..rng.size(1, 2) {
            let plan = delivery(rng, size);
            attempts.push(Attempt { image: 0, plan, fresh: k == 0 || rng.chance(1, 2), what: what.clone() });
        }
        s.tasks.push(Task::Stream(attempts));
    }
}

fn embedded(rng: &mut Rng, s: &mut Scenario) {
    s.agree = true;
    let (image, size) = if rng.chance(1, 8) {
        let scale = scale(rng);
        let bytes = some_font(rng, scale).bytes;
        let n = bytes.len();
        (Image::new(bytes), n)
    } else {
        let scale = scale(rng);
        let font = some_font(rng, scale);
        let survey = cff::survey(&font.bytes);
        let mut image = Image::new(font.bytes);
        let mut rounds = 0;
        while rounds < 3 {
            damage(rng, &mut image, &survey, &[]);
            rounds += if image.edits.is_empty() { 0 } else { 3 };
        }
        let n = image.bytes.len();
        (image, n)
    };
    s.images.push(image);
    let what = if rng.chance(1, 20) { What::Count } else { What::Load };
    for _ in 0..2 {
        let mut plan = delivery(rng, size);
        plan.origin = match rng.below(4) {
            0 => rng.size(1, 64) as u64,
            1 => rng.size(64, 100_000) as u64,
            2 => (1 << 31) + rng.below(1000) as u64,
            _ => 1 << rng.size(20, 40),
        };
        // Whatever else happens. (What differs then need not agree.)
        match rng.below(10) {
            0 => spoil(rng, &mut plan, size),
            1 => garble(rng, &mut plan, size),
            _ => {}
        }
        s.tasks.push(Task::Stream(vec![Attempt { image: 0, plan, fresh: true, what: what.clone() }]));
    }
}

/// A question whose answer depends on its key only, or something that happens to the set.
fn question(rng: &mut Rng, slots: usize, bytes: &[cff::Set], programs: bool) -> Ask {
    let slot = rng.below(slots);
    let query = match rng.below(40) {
        0..=7 => Query::String,
        8..=12 => Query::Operands,
        13..=14 => Query::Single,
        15..=16 => Query::Double,
        17 => Query::Default,
        18..=19 => Query::Dictionary,
        20 => Query::Dictionaries,
        21..=22 => Query::Names,
        23..=26 => Query::Glyph,
        27..=30 => Query::Code,
        31 => Query::Whole,
        32..=33 if programs => Query::Program,
        34..=35 => Query::Load,
        36..=37 => Query::Copy,
        38..=39 => Query::Drop,
        _ => Query::String,
    };
    let set = &bytes[slot];
    let font = match rng.below(4) {
        0 => ask::PREDEFINED + rng.below(6) as u32,
        _ => rng.below(4) as u32,
    } << 16;
    let key = match query {
        Query::String => match rng.below(7) {
            0 => rng.below(391) as u32,
            6 => 1 + rng.below(4) as u32,
            1 => 391 + rng.below(40) as u32,
            2 => 391 + set.strings.data.len().min(65_000) as u32 - rng.below(2) as u32,
            3 => *rng.pick(&[0, 1, 390, 391, 392, 255, 256, 65_535]),
            _ => 391 + rng.below(set.strings.data.len().clamp(1, 65_000)) as u32,
        },
        Query::Glyph | Query::Code => {
            font | match rng.below(5) {
                0 => rng.below(400) as u32,
                1 => rng.below(4) as u32,
                2 => *rng.pick(&[228, 229, 255, 256, 346, 347, 378, 379, 511, 65_535]),
                _ => rng.below(256) as u32,
            }
        }
        _ => rng.next() as u16 as u32,
    };
    Ask { query, slot, key, elsewhere: rng.chance(1, 40) }
}

/// Runs of C19 per process.
pub const ASKED: u64 = 50;

/// The very first questions of a process, all at once.
fn rush(rng: &mut Rng, s: &mut Scenario) {
    s.note = "the first questions".into();
    s.interleave = true;
    s.images.push(Image::new(some_font(rng, Scale::Tiny).bytes));
    let query = *rng.pick(&[Query::Code, Query::Code, Query::Glyph, Query::Glyph, Query::Glyph, Query::String, Query::Default]);
    let table = (ask::PREDEFINED + rng.below(6) as u32) << 16;
    let near = rng.below(256);
    let keys: Vec<u32> = (0..rng.size(1, 6))
        .map(|_| match query {
            Query::Code | Query::Glyph if rng.chance(1, 2) => table | rng.below(400) as u32,
            Query::Code | Query::Glyph => table | (near + rng.below(8)) as u32,
            _ => rng.below(391) as u32,
        })
        .collect();
    for _ in 0..rng.size(2, 4) {
        let order = (0..rng.size(2, 12)).map(|_| Ask { query, slot: 0, key: *rng.pick(&keys), elsewhere: false });
        s.tasks.push(Task::Ask(Asks { images: vec![0], shared: true, order: order.collect() }));
    }
    s.fine = *rng.pick(&[3, 20, 1000]);
    s.trap = *rng.pick(&[30, 300, 1000, 3000]);
    s.picks = picks(rng, 400);
}

/// Font sets that are asked in any order, while others load, copy, and let go.
fn asking(rng: &mut Rng, s: &mut Scenario) {
    if s.run % ASKED == 0 {
        return rush(rng, s);
    }
    s.interleave = rng.chance(3, 4);
    s.one_thread = !s.interleave && rng.chance(1, 2);
    let count = rng.size(1, 4);
    let mut sets: Vec<cff::Set> = vec![];
    for k in 0..count {
        let image = if k > 0 && rng.chance(1, 3) {
            let of = rng.below(s.images.len());
            relative(rng, &s.images[of])
        } else if rng.chance(1, 6) {
            damaged_font(rng).0
        } else if rng.chance(1, 3) {
            let deep = rng.chance(1, 4);
            let count = rng.size(1, 4);
            let tables = genchar::well_formed(rng, count, deep, false);
            let code = Code { glyphs: tables.codes.clone(), global: tables.global.clone(), local: tables.local.clone() };
            let code = Some(code).filter(|_| affordable(&tables));
            Image::new(font(rng, &Options { scale: Scale::Tiny, supplemental: false, code, dangling: false }).bytes)
        } else {
            let scale = if rng.chance(2, 3) { Scale::Tiny } else { Scale::Small };
            Image::new(some_font(rng, scale).bytes)
        };
        sets.push(cff::read(&image.render()).unwrap_or_default());
        s.images.push(image);
    }
    let tasks = if rng.chance(1, 6) { 1 } else { rng.size(2, 4) };
    let programs: Vec<bool> = sets
        .iter()
        .map(|set| {
            let local = match set.records.first() {
                Some(cff::Rec::Name(p)) => p.subrs.data.clone(),
                Some(cff::Rec::Cid { recs, .. }) => recs.first().map(|p| p.subrs.data.clone()).unwrap_or_default(),
                None => vec![],
            };
            let codes = set.charstrings.first().map(|c| c.data.clone()).unwrap_or_default();
            let tables = genchar::Tables { codes, global: set.gsubrs.data.clone(), local };
            affordable(&tables)
        })
        .collect();
    let shared = rng.chance(2, 3);
    let mut common: Vec<Ask> = vec![];
    for _ in 0..tasks {
        // Mostly about the same font sets, so that answers can get mixed up.
        let slots = rng.size(1, 3);
        let images: Vec<usize> = (0..slots).map(|_| rng.below(count)).collect();
        let about: Vec<cff::Set> = images.iter().map(|&i| sets[i].clone()).collect();
        let able = images.iter().all(|&i| programs[i]);
        let length = if rng.chance(1, 30) { rng.size(100, 600) } else { rng.size(1, 40) };
        let mut order = vec![];
        while order.len() < length {
            // Sometimes what has been asked before: of another font set, or by another task.
            let ask = if !common.is_empty() && rng.chance(1, 2) {
                let mut ask = *rng.pick(&common);
                ask.slot = rng.below(slots);
                ask
            } else {
                question(rng, slots, &about, able)
            };
            if matches!(ask.query, Query::Program) && !able {
                continue;
            }
            common.push(ask);
            order.push(ask);
        }
        s.tasks.push(Task::Ask(Asks { images, shared, order }));
    }
    // Others that load meanwhile, fail, and are abandoned.
    for _ in 0..rng.below(3) {
        let image = rng.below(count);
        let size = s.images[image].bytes.len();
        let mut plan = delivery(rng, size);
        disturb(rng, &mut plan, size);
        s.tasks.push(Task::Stream(vec![Attempt { image, plan, fresh: true, what: What::Load }]));
    }
    rng.shuffle(&mut s.tasks);
    s.picks = picks(rng, 400);
    if s.interleave && rng.chance(1, 2) {
        refine(rng, s);
    }
}
