//! One simulated execution, written out in full: everything that is not the code
//! under test is in here, so that a scenario alone reproduces a run.

use crate::genchar::Tables;
use crate::json::{hex, ints, obj, unhex, J};
use crate::tape::Plan;

#[derive(Clone, Debug, PartialEq)]
pub enum Edit {
    /// Bytes overwritten.
    Set { at: usize, bytes: Vec<u8>, name: String },
    /// Everything from the position on is lost.
    Cut { len: usize, name: String },
    /// Bytes that follow.
    Add { bytes: Vec<u8>, name: String },
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Image {
    pub bytes: Vec<u8>,
    pub edits: Vec<Edit>,
}

impl Image {
    pub fn new(bytes: Vec<u8>) -> Image {
        Image { bytes, edits: vec![] }
    }
    pub fn render(&self) -> Vec<u8> {
        let mut out = self.bytes.clone();
        for edit in &self.edits {
            match edit {
                Edit::Set { at, bytes, .. } => {
                    for (i, b) in bytes.iter().enumerate() {
                        if at + i < out.len() {
                            out[at + i] = *b;
                        }
                    }
                }
                Edit::Cut { len, .. } => out.truncate(*len),
                Edit::Add { bytes, .. } => out.extend(bytes),
            }
        }
        out
    }
}

/// A structure read on its own.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Item {
    Header,
    Number,
    Offset(u8),
    /// An index, under one of its names.
    Index(u8),
    /// A character set for so many glyphs, directly or through the type of a format.
    Charset(usize, bool),
    Encoding(bool),
    FdSelect(usize, bool),
    /// Through the type of one format, whichever the bytes are in: character sets (0, 1,
    /// and 2), encodings (3 and 4), and mappings (5 and 6), for so many glyphs.
    Exact(u8, usize),
    /// Operations up to the end of the stream.
    Operations,
}

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Load,
    Count,
    Items(Vec<Item>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Attempt {
    pub image: usize,
    pub plan: Plan,
    /// A stream of its own; otherwise the previous one, rewound.
    pub fresh: bool,
    pub what: What,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Step,
    /// One step on another thread.
    Migrate,
    /// Steps until the end or an error.
    Finish,
    /// Drop the program and start it anew.
    Restart,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Glyphs {
    /// The tables, or empty to take them out of the font in the image.
    pub tables: Tables,
    pub image: Option<usize>,
    /// Which code each program runs.
    pub programs: Vec<usize>,
    pub order: Vec<(Act, usize)>,
    /// Steps taken after each end or error.
    pub extra: usize,
}

/// What a loaded font set is asked, or what happens to it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Query {
    /// A string by its identifier.
    String,
    /// The operands of an operator in one of the dictionaries.
    Operands,
    /// The same, the first or the first two of them.
    Single,
    Double,
    /// What an operator stands for on its own.
    Default,
    /// A dictionary read out of the index of dictionaries, or all of them.
    Dictionary,
    Dictionaries,
    Names,
    /// The name of a glyph.
    Glyph,
    /// What a code encodes.
    Code,
    /// All there is.
    Whole,
    /// The program of a glyph from start to end.
    Program,
    /// Load it once more, from a stream of its own.
    Load,
    /// Take a copy and go on with that.
    Copy,
    /// Let go of what was loaded or copied.
    Drop,
}

pub const QUERIES: &[(Query, &str)] = &[
    (Query::String, "string"),
    (Query::Operands, "operands"),
    (Query::Single, "single"),
    (Query::Double, "double"),
    (Query::Default, "default"),
    (Query::Dictionary, "dictionary"),
    (Query::Dictionaries, "dictionaries"),
    (Query::Names, "names"),
    (Query::Glyph, "glyph"),
    (Query::Code, "code"),
    (Query::Whole, "whole"),
    (Query::Program, "program"),
    (Query::Load, "load"),
    (Query::Copy, "copy"),
    (Query::Drop, "drop"),
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ask {
    pub query: Query,
    /// Which of the font sets of the task.
    pub slot: usize,
    /// What exactly is asked for.
    pub key: u32,
    /// From another thread.
    pub elsewhere: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Asks {
    pub images: Vec<usize>,
    /// Begin with font sets that other tasks have as well; otherwise load them.
    pub shared: bool,
    pub order: Vec<Ask>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Task {
    Stream(Vec<Attempt>),
    Glyphs(Glyphs),
    Ask(Asks),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Scenario {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub note: String,
    pub hash_seed: u64,
    pub images: Vec<Image>,
    pub tasks: Vec<Task>,
    pub picks: Vec<u32>,
    /// Interleave the tasks (otherwise they run one after another).
    pub interleave: bool,
    /// One task after another on the same thread.
    pub one_thread: bool,
    /// When interleaved, tasks also give up their turns at every so many allocations (0: never).
    pub fine: u32,
    /// When they do, they also do between any two instructions, up to so many on (0: never).
    pub trap: u32,
    /// All successful loads and all failures of the same image must agree.
    pub agree: bool,
    /// Measure memory.
    pub memory: bool,
    /// The images hold nothing but a cut: failures must say unexpected end.
    pub strict_end: bool,
    /// Run in the build in which overflows wrap.
    pub shipped: bool,
}

fn edit_json(e: &Edit) -> J {
    match e {
        Edit::Set { at, bytes, name } => {
            obj(vec![("at", J::Int(*at as i128)), ("set", hex(bytes)), ("fault", J::Str(name.clone()))])
        }
        Edit::Cut { len, name } => obj(vec![("cut", J::Int(*len as i128)), ("fault", J::Str(name.clone()))]),
        Edit::Add { bytes, name } => obj(vec![("add", hex(bytes)), ("fault", J::Str(name.clone()))]),
    }
}

fn edit_parse(j: &J) -> Edit {
    let name = j.get("fault").str().to_string();
    if j.get("cut") != &J::Null {
        Edit::Cut { len: j.get("cut").usize(), name }
    } else if j.get("add") != &J::Null {
        Edit::Add { bytes: unhex(j.get("add")), name }
    } else {
        Edit::Set { at: j.get("at").usize(), bytes: unhex(j.get("set")), name }
    }
}

const EXACT: [&str; 7] = ["charset0", "charset1", "charset2", "encoding0", "encoding1", "fdselect0", "fdselect3"];

fn item_json(i: &Item) -> J {
    let (name, a, b) = match *i {
        Item::Header => ("header", 0, false),
        Item::Number => ("number", 0, false),
        Item::Offset(n) => ("offset", n as usize, false),
        Item::Index(n) => ("index", n as usize, false),
        Item::Charset(n, d) => ("charset", n, d),
        Item::Encoding(d) => ("encoding", 0, d),
        Item::FdSelect(n, d) => ("fdselect", n, d),
        Item::Exact(kind, n) => (EXACT[kind as usize], n, false),
        Item::Operations => ("operations", 0, false),
    };
    J::Arr(vec![J::Str(name.into()), J::Int(a as i128), J::Bool(b)])
}

fn item_parse(j: &J) -> Item {
    let a = j.arr();
    let n = a[1].usize();
    let d = a[2].bool();
    match a[0].str() {
        "header" => Item::Header,
        "number" => Item::Number,
        "offset" => Item::Offset(n as u8),
        "index" => Item::Index(n as u8),
        "charset" => Item::Charset(n, d),
        "encoding" => Item::Encoding(d),
        "fdselect" => Item::FdSelect(n, d),
        name => match EXACT.iter().position(|&other| other == name) {
            Some(kind) => Item::Exact(kind as u8, n),
            _ => Item::Operations,
        },
    }
}

/// Tables write runs of equal entries once.
fn table_json(t: &[Vec<u8>]) -> J {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let mut n = 1;
        while i + n < t.len() && t[i + n] == t[i] {
            n += 1;
        }
        if n > 1 {
            out.push(J::Int(n as i128));
        }
        out.push(hex(&t[i]));
        i += n;
    }
    J::Arr(out)
}

fn table_parse(j: &J) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut n = 1;
    for x in j.arr() {
        match x {
            J::Int(k) => n = *k as usize,
            x => {
                for _ in 0..n {
                    out.push(unhex(x));
                }
                n = 1;
            }
        }
    }
    out
}

impl Scenario {
    pub fn json(&self) -> J {
        let images = self
            .images
            .iter()
            .map(|i| {
                obj(vec![("bytes", hex(&i.bytes)), ("edits", J::Arr(i.edits.iter().map(edit_json).collect()))])
            })
            .collect();
        let tasks = self
            .tasks
            .iter()
            .map(|t| match t {
                Task::Stream(attempts) => obj(vec![(
                    "stream",
                    J::Arr(
                        attempts
                            .iter()
                            .map(|a| {
                                obj(vec![
                                    ("image", J::Int(a.image as i128)),
                                    ("fresh", J::Bool(a.fresh)),
                                    (
                                        "what",
                                        match &a.what {
                                            What::Load => J::Str("load".into()),
                                            What::Count => J::Str("count".into()),
                                            What::Items(items) => J::Arr(items.iter().map(item_json).collect()),
                                        },
                                    ),
                                    ("plan", a.plan.json()),
                                ])
                            })
                            .collect(),
                    ),
                )]),
                Task::Ask(a) => {
                    let order = a
                        .order
                        .iter()
                        .map(|a| {
                            let name = QUERIES.iter().find(|q| q.0 == a.query).map_or("", |q| q.1);
                            let place = if a.elsewhere { " elsewhere" } else { "" };
                            J::Str(format!("{name} {} {}{place}", a.slot, a.key))
                        })
                        .collect();
                    obj(vec![
                        ("asks", J::Arr(order)),
                        ("shared", J::Bool(a.shared)),
                        ("images", ints(&a.images.iter().map(|&i| i as i128).collect::<Vec<_>>())),
                    ])
                }
                Task::Glyphs(g) => {
                    let order = g
                        .order
                        .iter()
                        .map(|(a, i)| {
                            J::Str(format!(
                                "{}{i}",
                                match a {
                                    Act::Step => "s",
                                    Act::Migrate => "m",
                                    Act::Finish => "f",
                                    Act::Restart => "r",
                                }
                            ))
                        })
                        .collect();
                    obj(vec![
                        ("codes", table_json(&g.tables.codes)),
                        ("global", table_json(&g.tables.global)),
                        ("local", table_json(&g.tables.local)),
                        ("image", g.image.map(|i| J::Int(i as i128)).unwrap_or(J::Null)),
                        ("programs", ints(&g.programs.iter().map(|&p| p as i128).collect::<Vec<_>>())),
                        ("order", J::Arr(order)),
                        ("extra", J::Int(g.extra as i128)),
                    ])
                }
            })
            .collect();
        obj(vec![
            ("property", J::Str(self.property.clone())),
            ("seed", J::Int(self.seed as i128)),
            ("run", J::Int(self.run as i128)),
            ("note", J::Str(self.note.clone())),
            ("hash_seed", J::Int(self.hash_seed as i128)),
            ("interleave", J::Bool(self.interleave)),
            ("agree", J::Bool(self.agree)),
            ("memory", J::Bool(self.memory)),
            ("strict_end", J::Bool(self.strict_end)),
            ("shipped", J::Bool(self.shipped)),
            ("one_thread", J::Bool(self.one_thread)),
            ("fine", J::Int(self.fine as i128)),
            ("trap", J::Int(self.trap as i128)),
            ("picks", ints(&self.picks.iter().map(|&p| p as i128).collect::<Vec<_>>())),
            ("images", J::Arr(images)),
            ("tasks", J::Arr(tasks)),
        ])
    }

    pub fn parse(j: &J) -> Scenario {
        let images = j
            .get("images")
            .arr()
            .iter()
            .map(|i| Image {
                bytes: unhex(i.get("bytes")),
                edits: i.get("edits").arr().iter().map(edit_parse).collect(),
            })
            .collect();
        let tasks = j
            .get("tasks")
            .arr()
            .iter()
            .map(|t| {
                if t.get("stream") != &J::Null {
                    Task::Stream(
                        t.get("stream")
                            .arr()
                            .iter()
                            .map(|a| Attempt {
                                image: a.get("image").usize(),
                                fresh: a.get("fresh").bool(),
                                what: match a.get("what") {
                                    J::Str(s) if s == "count" => What::Count,
                                    J::Arr(items) => What::Items(items.iter().map(item_parse).collect()),
                                    _ => What::Load,
                                },
                                plan: Plan::parse(a.get("plan")),
                            })
                            .collect(),
                    )
                } else if t.get("asks") != &J::Null {
                    let order = t.get("asks").arr().iter().map(|x| {
                        let words: Vec<&str> = x.str().split(' ').collect();
                        Ask {
                            query: QUERIES.iter().find(|q| q.1 == words[0]).map_or(Query::Whole, |q| q.0),
                            slot: words[1].parse().unwrap_or(0),
                            key: words[2].parse().unwrap_or(0),
                            elsewhere: words.len() > 3,
                        }
                    });
                    Task::Ask(Asks { order: order.collect(), shared: t.get("shared").bool(), images: t.get("images").ints() })
                } else {
                    Task::Glyphs(Glyphs {
                        tables: Tables {
                            codes: table_parse(t.get("codes")),
                            global: table_parse(t.get("global")),
                            local: table_parse(t.get("local")),
                        },
                        image: match t.get("image") {
                            J::Null => None,
                            j => Some(j.usize()),
                        },
                        programs: t.get("programs").ints(),
                        order: t
                            .get("order")
                            .arr()
                            .iter()
                            .map(|x| {
                                let s = x.str();
                                let act = match s.as_bytes()[0] {
                                    b's' => Act::Step,
                                    b'm' => Act::Migrate,
                                    b'f' => Act::Finish,
                                    _ => Act::Restart,
                                };
                                (act, s[1..].parse().unwrap_or(0))
                            })
                            .collect(),
                        extra: t.get("extra").usize(),
                    })
                }
            })
            .collect();
        Scenario {
            property: j.get("property").str().into(),
            seed: j.get("seed").u64(),
            run: j.get("run").u64(),
            note: j.get("note").str().into(),
            hash_seed: j.get("hash_seed").u64(),
            images,
            tasks,
            picks: j.get("picks").ints(),
            interleave: j.get("interleave").bool(),
            agree: j.get("agree").bool(),
            memory: j.get("memory").bool(),
            strict_end: j.get("strict_end").bool(),
            shipped: j.get("shipped").bool(),
            one_thread: j.get("one_thread").bool(),
            fine: j.get("fine").int() as u32,
            trap: j.get("trap").int() as u32,
        }
    }
}
