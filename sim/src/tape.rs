//! The stream seam: a simulated stream that holds a font somewhere inside it and
//! meets the faults its plan lists.

use crate::alloc;
use crate::clock;
use crate::json::{ints, obj, J};
use crate::rng::mix;
use crate::sched::Sched;
use std::io::{self, BufReader, Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

/// How much one read delivers at most.
#[derive(Clone, Debug, PartialEq)]
pub enum Chunk {
    All,
    Fixed(usize),
    /// Pseudo-random lengths up to the maximum.
    Random(u64, usize),
    /// Reads stop at multiples of the size.
    Sector(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Target {
    Read,
    Seek,
    Any,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// The read is interrupted by a signal and has to be retried.
    Interrupt,
    /// A read delivers a single byte.
    Short,
    /// The operation takes that many ticks; u64::MAX stalls until all others are done.
    Stall(u64),
    /// The operation fails with an error of the system.
    Os(i32),
    /// The operation fails with an error of a kind, with a payload of its own.
    Tagged(u8),
    /// The operation fails with a bare error kind.
    Simple(u8),
    /// The read reports the end of the stream.
    End,
    /// The reader unwinds: the caller abandons the load.
    Cancel,
    /// Bits of the first byte that a read delivers are flipped on the way.
    Garble(u8),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub at: u64,
    pub target: Target,
    pub kind: Kind,
    /// How many operations in a row it lasts.
    pub times: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wrap {
    Raw,
    /// Overrides the position query instead of seeking.
    Position,
    /// Behind std's buffered reader of some capacity.
    Buffered(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    /// Where in the stream the font starts.
    pub origin: u64,
    /// Decides the bytes in front of the font.
    pub junk: u64,
    pub chunk: Chunk,
    pub wrap: Wrap,
    pub faults: Vec<Fault>,
    /// Ranges of the font whose sectors cannot be read.
    pub bad: Vec<(u64, u64)>,
    /// Decides the ticks each operation takes.
    pub latency: u64,
}

impl Plan {
    pub fn plain() -> Plan {
        Plan { origin: 0, junk: 0, chunk: Chunk::All, wrap: Wrap::Raw, faults: vec![], bad: vec![], latency: 1 }
    }

    pub fn json(&self) -> J {
        let chunk = match &self.chunk {
            Chunk::All => vec![J::Str("all".into())],
            Chunk::Fixed(n) => vec![J::Str("fixed".into()), J::Int(*n as i128)],
            Chunk::Random(s, n) => vec![J::Str("random".into()), J::Int(*s as i128), J::Int(*n as i128)],
            Chunk::Sector(n) => vec![J::Str("sector".into()), J::Int(*n as i128)],
        };
        let wrap = match self.wrap {
            Wrap::Raw => -1,
            Wrap::Position => -2,
            Wrap::Buffered(n) => n as i128,
        };
        let faults = self
            .faults
            .iter()
            .map(|f| {
                let (kind, value) = match f.kind {
                    Kind::Interrupt => ("interrupt", 0),
                    Kind::Short => ("short", 0),
                    Kind::Stall(n) => ("stall", n as i128),
                    Kind::Os(n) => ("os", n as i128),
                    Kind::Tagged(n) => ("tagged", n as i128),
                    Kind::Simple(n) => ("simple", n as i128),
                    Kind::End => ("end", 0),
                    Kind::Cancel => ("cancel", 0),
                    Kind::Garble(n) => ("garble", n as i128),
                };
                obj(vec![
                    ("at", J::Int(f.at as i128)),
                    (
                        "target",
                        J::Str(
                            match f.target {
                                Target::Read => "read",
                                Target::Seek => "seek",
                                Target::Any => "any",
                            }
                            .into(),
                        ),
                    ),
                    ("kind", J::Str(kind.into())),
                    ("value", J::Int(value)),
                    ("times", J::Int(f.times as i128)),
                ])
            })
            .collect();
        obj(vec![
            ("origin", J::Int(self.origin as i128)),
            ("junk", J::Int(self.junk as i128)),
            ("chunk", J::Arr(chunk)),
            ("wrap", J::Int(wrap)),
            ("latency", J::Int(self.latency as i128)),
            ("faults", J::Arr(faults)),
            ("bad", J::Arr(self.bad.iter().map(|&(a, b)| ints(&[a as i128, b as i128])).collect())),
        ])
    }

    pub fn parse(j: &J) -> Plan {
        let c = j.get("chunk").arr();
        let chunk = match c.first().map(|x| x.str()).unwrap_or("all") {
            "fixed" => Chunk::Fixed(c[1].usize()),
            "random" => Chunk::Random(c[1].u64(), c[2].usize()),
            "sector" => Chunk::Sector(c[1].usize()),
            _ => Chunk::All,
        };
        let faults = j
            .get("faults")
            .arr()
            .iter()
            .map(|f| {
                let value = f.get("value");
                Fault {
                    at: f.get("at").u64(),
                    target: match f.get("target").str() {
                        "read" => Target::Read,
                        "seek" => Target::Seek,
                        _ => Target::Any,
                    },
                    kind: match f.get("kind").str() {
                        "interrupt" => Kind::Interrupt,
                        "short" => Kind::Short,
                        "stall" => Kind::Stall(value.u64()),
                        "os" => Kind::Os(value.int() as i32),
                        "tagged" => Kind::Tagged(value.int() as u8),
                        "simple" => Kind::Simple(value.int() as u8),
                        "end" => Kind::End,
                        "garble" => Kind::Garble(value.int() as u8),
                        _ => Kind::Cancel,
                    },
                    times: f.get("times").u64(),
                }
            })
            .collect();
        Plan {
            origin: j.get("origin").u64(),
            junk: j.get("junk").u64(),
            chunk,
            wrap: match j.get("wrap").int() {
                -1 => Wrap::Raw,
                -2 => Wrap::Position,
                n => Wrap::Buffered(n as usize),
            },
            faults,
            bad: j.get("bad").arr().iter().map(|b| (b.arr()[0].u64(), b.arr()[1].u64())).collect(),
            latency: j.get("latency").u64(),
        }
    }
}

/// Error kinds a stream can fail with; an interrupted read is a separate fault.
pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::NotFound,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
    io::ErrorKind::WriteZero,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::NotConnected,
];

pub const OS: &[i32] = &[5, 9, 11, 13, 22, 28, 70, 110, 116, 121];

/// The identity of an injected error.
#[derive(Clone, Debug, PartialEq)]
pub enum Id {
    Os(i32),
    Tag(u64),
    Simple(u8),
    End,
    Cancel(u64),
}

#[derive(Debug)]
pub struct Tag(pub u64);

impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected failure {}", self.0)
    }
}

impl std::error::Error for Tag {}

/// What the reader unwinds with when a load is abandoned.
pub struct Cancelled(pub u64);

/// What the tape unwinds with when a load performs too many operations.
pub struct Stuck;

pub fn simple(kind: u8) -> io::Error {
    KINDS[kind as usize % KINDS.len()].into()
}

pub fn identify(error: &io::Error) -> Option<Id> {
    if let Some(code) = error.raw_os_error() {
        return Some(Id::Os(code));
    }
    if let Some(inner) = error.get_ref() {
        return inner.downcast_ref::<Tag>().map(|t| Id::Tag(t.0));
    }
    let debug = format!("{error:?}");
    if debug.starts_with("Kind(") {
        let kind = error.kind();
        return KINDS.iter().position(|&k| k == kind).map(|i| Id::Simple(i as u8));
    }
    None
}

/// What a stream saw; survives the stream.
#[derive(Default)]
pub struct Log {
    pub reads: u64,
    pub seeks: u64,
    pub delivered: u64,
    pub lowest: u64,
    /// Identifies the sequence of operations and their outcomes.
    pub digest: u64,
    pub clock: u64,
    /// Injected failures, in order.
    pub fired: Vec<Id>,
    /// Counts of injected faults by kind.
    pub injected: Vec<(&'static str, u64)>,
    pub trace: Option<Vec<String>>,
    /// Interrupted reads, which deliver nothing.
    pub slack: u64,
    /// Reads that delivered something else than what is stored.
    pub garbled: u64,
}

impl Log {
    pub fn ops(&self) -> u64 {
        self.reads + self.seeks
    }
    fn inject(&mut self, name: &'static str) {
        match self.injected.iter_mut().find(|(n, _)| *n == name) {
            Some((_, c)) => *c += 1,
            None => self.injected.push((name, 1)),
        }
    }
    fn note(&mut self, what: u64, a: u64, b: u64) {
        self.digest = mix(self.digest ^ mix(what ^ mix(a ^ mix(b))));
    }
    fn say(&mut self, text: impl FnOnce() -> String) {
        if let Some(trace) = &mut self.trace {
            if trace.len() < 4000 {
                trace.push(text());
            }
        }
    }
}

pub struct Core {
    font: Arc<Vec<u8>>,
    pos: u64,
    plan: Plan,
    /// Operations since the attempt started.
    reads: u64,
    seeks: u64,
    tag: u64,
    /// Bits to flip in what is read next.
    flip: u8,
    log: Arc<Mutex<Log>>,
    sched: Option<(Arc<Sched>, usize)>,
}

enum Verdict {
    Go,
    One,
    Fail(io::Error),
    End,
}

impl Core {
    pub fn new(
        font: Arc<Vec<u8>>,
        plan: &Plan,
        tag: u64,
        log: Arc<Mutex<Log>>,
        sched: Option<(Arc<Sched>, usize)>,
    ) -> Core {
        Core { font, pos: plan.origin, plan: plan.clone(), reads: 0, seeks: 0, tag, flip: 0, log, sched }
    }

    fn end(&self) -> u64 {
        self.plan.origin + self.font.len() as u64
    }

    fn enter(&mut self, seek: bool) -> Verdict {
        let (mine, any) = if seek {
            self.seeks += 1;
            (self.seeks - 1, self.reads + self.seeks - 1)
        } else {
            self.reads += 1;
            (self.reads - 1, self.reads + self.seeks - 1)
        };
        let mut ticks = 1 + if self.plan.latency > 1 { mix(self.plan.latency ^ any) % self.plan.latency } else { 0 };
        let log = self.log.clone();
        {
            let mut log = log.lock().unwrap();
            if seek {
                log.seeks += 1;
            } else {
                log.reads += 1;
            }
            if log.ops() > 4096 + 64 * (log.delivered + log.slack) {
                drop(log);
                std::panic::panic_any(Stuck);
            }
        }
        let mut verdict = Verdict::Go;
        let mut block = 0;
        self.flip = 0;
        let faults: Vec<Fault> = self
            .plan
            .faults
            .iter()
            .filter(|f| {
                let i = match f.target {
                    Target::Any => any,
                    Target::Read if !seek => mine,
                    Target::Seek if seek => mine,
                    _ => return false,
                };
                i >= f.at && i - f.at < f.times
            })
            .cloned()
            .collect();
        for fault in faults {
            let mut log = log.lock().unwrap();
            match fault.kind {
                Kind::Stall(n) => {
                    log.inject("stalled operation");
                    block = n;
                    if n != u64::MAX {
                        ticks = ticks.saturating_add(n);
                    }
                }
                Kind::Garble(bits) if !seek => self.flip ^= bits,
                Kind::Short if !seek => {
                    log.inject("short read");
                    verdict = Verdict::One;
                }
                Kind::Interrupt if !seek => {
                    log.inject("interrupted read");
                    log.slack += 1;
                    log.note(1, any, 0);
                    log.say(|| "read: interrupted".into());
                    verdict = Verdict::Fail(io::ErrorKind::Interrupted.into());
                    break;
                }
                Kind::Os(code) => {
                    log.inject(if seek { "failed seek" } else { "failed read" });
                    log.fired.push(Id::Os(code));
                    log.note(2, any, code as u64);
                    log.say(|| format!("{}: os error {code}", if seek { "seek" } else { "read" }));
                    verdict = Verdict::Fail(io::Error::from_raw_os_error(code));
                    break;
                }
                Kind::Tagged(kind) => {
                    log.inject(if seek { "failed seek" } else { "failed read" });
                    let tag = self.tag * 1000 + log.fired.len() as u64;
                    log.fired.push(Id::Tag(tag));
                    log.note(3, any, kind as u64);
                    log.say(|| format!("{}: injected failure {tag}", if seek { "seek" } else { "read" }));
                    verdict = Verdict::Fail(io::Error::new(KINDS[kind as usize % KINDS.len()], Tag(tag)));
                    break;
                }
                Kind::Simple(kind) => {
                    log.inject(if seek { "failed seek" } else { "failed read" });
                    log.fired.push(Id::Simple(kind % KINDS.len() as u8));
                    log.note(4, any, kind as u64);
                    log.say(|| format!("{}: {}", if seek { "seek" } else { "read" }, simple(kind)));
                    verdict = Verdict::Fail(simple(kind));
                    break;
                }
                Kind::End if !seek => {
                    log.inject("early end of stream");
                    log.fired.push(Id::End);
                    log.note(5, any, 0);
                    log.say(|| "read: end of stream".into());
                    verdict = Verdict::End;
                    break;
                }
                Kind::Cancel => {
                    log.inject("abandoned load");
                    let tag = self.tag;
                    log.fired.push(Id::Cancel(tag));
                    log.note(6, any, 0);
                    log.say(|| "reader unwinds".into());
                    drop(log);
                    self.wait(ticks, 0);
                    std::panic::panic_any(Cancelled(tag));
                }
                _ => {}
            }
        }
        self.wait(ticks, block);
        verdict
    }

    fn wait(&mut self, ticks: u64, block: u64) {
        {
            let mut log = self.log.lock().unwrap();
            log.clock = log.clock.saturating_add(ticks);
        }
        clock::advance(ticks);
        if let Some((sched, me)) = &self.sched {
            sched.pause(*me, block);
        }
    }

    fn locate(&self) -> u64 {
        self.pos
    }
}

impl Read for Core {
    fn read(&mut self, buffer: &mut [u8]) -> io::Result<usize> {
        let _quiet = alloc::quiet();
        let verdict = self.enter(false);
        let pos = self.pos;
        let mut limit = match verdict {
            Verdict::Fail(error) => return Err(error),
            Verdict::End => return Ok(0),
            Verdict::One => 1,
            Verdict::Go => usize::MAX,
        };
        let relative = pos.wrapping_sub(self.plan.origin);
        if pos >= self.plan.origin {
            for &(lo, hi) in &self.plan.bad {
                if relative >= lo && relative < hi {
                    let mut log = self.log.lock().unwrap();
                    log.inject("bad sector");
                    log.fired.push(Id::Os(5));
                    log.note(7, relative, 0);
                    log.say(|| format!("read at {relative}: bad sector"));
                    return Err(io::Error::from_raw_os_error(5));
                }
                if relative < lo {
                    limit = limit.min((lo - relative) as usize);
                }
            }
        }
        let chunk = match self.plan.chunk {
            Chunk::All => usize::MAX,
            Chunk::Fixed(n) => n.max(1),
            Chunk::Random(seed, max) => 1 + (mix(seed ^ self.reads) % max.max(1) as u64) as usize,
            Chunk::Sector(n) => {
                let n = n.max(1) as u64;
                (n - pos % n) as usize
            }
        };
        let left = self.end().saturating_sub(pos);
        let wanted = buffer.len();
        let n = wanted.min(limit).min(chunk).min(left.min(usize::MAX as u64) as usize);
        let mut i = 0;
        while i < n && pos + (i as u64) < self.plan.origin {
            buffer[i] = mix(self.plan.junk ^ (pos + i as u64)) as u8;
            i += 1;
        }
        if i < n {
            let at = (pos + i as u64 - self.plan.origin) as usize;
            buffer[i..n].copy_from_slice(&self.font[at..at + n - i]);
        }
        self.pos += n as u64;
        let mut log = self.log.lock().unwrap();
        if n > 0 && self.flip != 0 {
            buffer[0] ^= self.flip;
            log.inject("bits flipped on the way");
            log.garbled += 1;
            log.note(10, relative, self.flip as u64);
            log.say(|| format!("read at {relative}: bits {:#04x} flipped", self.flip));
        }
        if n > 0 {
            log.lowest = log.lowest.min(pos);
        }
        if n < wanted && n > 0 {
            log.inject("partial read");
        }
        log.delivered += n as u64;
        log.note(8, relative, n as u64);
        log.say(|| format!("read {n} of {wanted} at {}", relative as i64));
        Ok(n)
    }
}

impl Seek for Core {
    fn seek(&mut self, from: SeekFrom) -> io::Result<u64> {
        let _quiet = alloc::quiet();
        match self.enter(true) {
            Verdict::Fail(error) => return Err(error),
            _ => {}
        }
        let target = match from {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => self.end().checked_add_signed(d),
        };
        let mut log = self.log.lock().unwrap();
        let target = match target {
            Some(p) if p <= i64::MAX as u64 => p,
            // As lseek does.
            _ => {
                log.say(|| format!("seek {from:?}: invalid"));
                return Err(io::Error::from_raw_os_error(22));
            }
        };
        self.pos = target;
        let origin = self.plan.origin;
        log.note(9, target.wrapping_sub(origin), 0);
        log.say(|| format!("seek to {}", target.wrapping_sub(origin) as i64));
        Ok(target)
    }
}

/// The one stream type that the library is instantiated with.
pub enum Tape {
    Raw(Core),
    Position(Core),
    Buffered(BufReader<Core>),
}

impl Tape {
    pub fn new(
        font: Arc<Vec<u8>>,
        plan: &Plan,
        tag: u64,
        log: Arc<Mutex<Log>>,
        sched: Option<(Arc<Sched>, usize)>,
    ) -> Tape {
        let core = Core::new(font, plan, tag, log, sched);
        match plan.wrap {
            Wrap::Raw => Tape::Raw(core),
            Wrap::Position => Tape::Position(core),
            Wrap::Buffered(n) => Tape::Buffered(BufReader::with_capacity(n.max(1), core)),
        }
    }

    fn core(&mut self) -> &mut Core {
        match self {
            Tape::Raw(core) | Tape::Position(core) => core,
            Tape::Buffered(reader) => reader.get_mut(),
        }
    }

    /// Start another attempt with its own faults on the same stream.
    pub fn renew(&mut self, plan: &Plan, tag: u64) {
        let core = self.core();
        core.plan.faults = plan.faults.clone();
        core.plan.bad = plan.bad.clone();
        core.plan.chunk = plan.chunk.clone();
        core.reads = 0;
        core.seeks = 0;
        core.tag = tag;
    }

    /// The position as a user sees it, without going through the faults.
    pub fn place(&mut self) -> u64 {
        match self {
            Tape::Raw(core) | Tape::Position(core) => core.locate(),
            Tape::Buffered(reader) => {
                let pending = reader.buffer().len() as u64;
                reader.get_ref().locate() - pending
            }
        }
    }

    /// Forget the failures so far.
    pub fn forget(&mut self) {
        let mut log = self.core().log.lock().unwrap();
        log.fired.clear();
        log.garbled = 0;
    }

    /// Move without going through the faults.
    pub fn rewind_to(&mut self, position: u64) {
        match self {
            Tape::Raw(core) | Tape::Position(core) => core.pos = position,
            Tape::Buffered(reader) => {
                let pending = reader.buffer().len();
                std::io::BufRead::consume(reader, pending);
                reader.get_mut().pos = position;
            }
        }
    }
}

impl Read for Tape {
    fn read(&mut self, buffer: &mut [u8]) -> io::Result<usize> {
        match self {
            Tape::Raw(core) | Tape::Position(core) => core.read(buffer),
            Tape::Buffered(reader) => reader.read(buffer),
        }
    }
}

impl Seek for Tape {
    fn seek(&mut self, from: SeekFrom) -> io::Result<u64> {
        match self {
            Tape::Raw(core) | Tape::Position(core) => core.seek(from),
            Tape::Buffered(reader) => reader.seek(from),
        }
    }
    fn stream_position(&mut self) -> io::Result<u64> {
        match self {
            Tape::Raw(core) => core.seek(SeekFrom::Current(0)),
            Tape::Position(core) => {
                let _quiet = alloc::quiet();
                match core.enter(true) {
                    Verdict::Fail(error) => Err(error),
                    _ => Ok(core.pos),
                }
            }
            Tape::Buffered(reader) => reader.stream_position(),
        }
    }
}
