//! Generates well-formed font sets: their bytes, and what they contain.

use crate::cff::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Scale {
    Tiny,
    Small,
    Medium,
    /// Counts above 255 or 32767, objects above 64 KiB, or data above 16 MiB.
    Wide(u8),
}

#[derive(Clone)]
enum Expr {
    Abs(usize),
    Rel(usize, usize),
    Size(usize),
    Const(i64),
}

#[derive(Clone)]
enum Opnd {
    Enc(Num, Vec<u8>),
    Slot(Expr, usize),
}

#[derive(Clone)]
struct Entry {
    op: u16,
    opnds: Vec<Opnd>,
}

#[derive(Clone)]
enum Obj {
    Raw(Vec<u8>),
    Dict(Vec<Entry>),
}

#[derive(Clone)]
struct Blob {
    index: Option<u8>,
    objs: Vec<Obj>,
}

/// A generated font set.
pub struct Font {
    pub bytes: Vec<u8>,
    pub truth: Set,
    pub supplemental: bool,
}

pub fn encode_int(v: i64, len: usize) -> Option<Vec<u8>> {
    Some(match len {
        1 if (-107..=107).contains(&v) => vec![(v + 139) as u8],
        2 if (108..=1131).contains(&v) => vec![(247 + (v - 108) / 256) as u8, ((v - 108) % 256) as u8],
        2 if (-1131..=-108).contains(&v) => vec![(251 + (-v - 108) / 256) as u8, ((-v - 108) % 256) as u8],
        3 if (-32768..=32767).contains(&v) => vec![28, (v >> 8) as u8, v as u8],
        5 if (i32::MIN as i64..=i32::MAX as i64).contains(&v) => {
            vec![29, (v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]
        }
        _ => return None,
    })
}

/// Values at and around every boundary of the integer encodings.
pub fn any_int(rng: &mut Rng) -> i64 {
    const EDGES: &[i64] = &[
        0, 1, -1, 106, 107, 108, 109, -106, -107, -108, -109, 363, 364, 619, 620, 875, 876, 1130, 1131, 1132, -363,
        -364, -619, -620, -875, -876, -1130, -1131, -1132, 32767, 32768, -32768, -32769, 65535, 65536, 390, 391, 255,
        256, 2147483647, -2147483648, 16777215, 16777216,
    ];
    match rng.below(6) {
        0 => *rng.pick(EDGES),
        1 => rng.range(-107, 107),
        2 => rng.range(-1131, 1131),
        3 => rng.range(-32768, 32767),
        4 => rng.range(i32::MIN as i64, i32::MAX as i64),
        _ => rng.range(0, 500),
    }
}

fn enc_int(rng: &mut Rng, v: i64) -> Vec<u8> {
    let forms: Vec<Vec<u8>> = [1, 2, 3, 5].iter().filter_map(|&len| encode_int(v, len)).collect();
    if rng.chance(3, 4) {
        forms[0].clone()
    } else {
        rng.pick(&forms).clone()
    }
}

fn any_real(rng: &mut Rng) -> (Num, Vec<u8>) {
    loop {
        let mut nibbles: Vec<u8> = vec![];
        if rng.chance(1, 3) {
            nibbles.push(14);
        }
        let whole = match rng.below(12) {
            0 => 0,
            1 => rng.size(8, 40),
            _ => rng.size(1, 5),
        };
        for _ in 0..whole {
            nibbles.push(rng.below(10) as u8);
        }
        let mut fraction = 0;
        if rng.chance(2, 3) {
            nibbles.push(10);
            fraction = rng.size(0, 7);
            for _ in 0..fraction {
                nibbles.push(rng.below(10) as u8);
            }
        }
        if whole + fraction == 0 {
            continue;
        }
        if rng.chance(1, 3) {
            nibbles.push(if rng.chance(1, 2) { 11 } else { 12 });
            for _ in 0..rng.size(1, 2) {
                nibbles.push(rng.below(10) as u8);
            }
        }
        nibbles.push(15);
        let text: String = nibbles
            .iter()
            .map(|n| match n {
                0..=9 => (b'0' + n) as char,
                10 => '.',
                11 => 'e',
                12 => 'x',
                14 => '-',
                _ => ' ',
            })
            .collect();
        let text = text.trim().replace('x', "e-");
        let value: f32 = match text.parse() {
            Ok(v) => v,
            Err(_) => continue,
        };
        if nibbles.len() % 2 == 1 {
            nibbles.push(if rng.chance(3, 4) { 15 } else { rng.below(16) as u8 });
        }
        let mut bytes = vec![30];
        bytes.extend(nibbles.chunks(2).map(|c| c[0] << 4 | c[1]));
        return (Num::R(value.to_bits()), bytes);
    }
}

pub fn any_number(rng: &mut Rng) -> (Num, Vec<u8>) {
    if rng.chance(1, 4) {
        any_real(rng)
    } else {
        let v = any_int(rng);
        (Num::I(v as i32), enc_int(rng, v))
    }
}

fn operand(rng: &mut Rng) -> Opnd {
    let (n, b) = any_number(rng);
    Opnd::Enc(n, b)
}

fn int_operand(rng: &mut Rng, v: i64) -> Opnd {
    let b = enc_int(rng, v);
    Opnd::Enc(Num::I(v as i32), b)
}

fn slot(rng: &mut Rng, expr: Expr, style: u8) -> Opnd {
    let len = match style {
        0 => 5,
        1 => 3,
        2 => 1,
        _ => *rng.pick(&[1, 2, 3, 5]),
    };
    Opnd::Slot(expr, len)
}

/// Random operations whose operators are not in `avoid`.
fn filler(rng: &mut Rng, scale: Scale, avoid: &[u16]) -> Vec<Entry> {
    let count = match scale {
        Scale::Tiny => rng.size(0, 2),
        Scale::Small => rng.size(0, 6),
        _ => rng.size(0, 30),
    };
    let mut entries = vec![];
    for _ in 0..count {
        let op = rng.pick(OPERATORS).0;
        if avoid.contains(&op) {
            continue;
        }
        let n = match rng.below(40) {
            0 => 0,
            1 => rng.size(12, 60),
            2 if scale == Scale::Medium => rng.size(60, 300),
            3..=20 => 1,
            _ => rng.size(1, 6),
        };
        entries.push(Entry { op, opnds: (0..n).map(|_| operand(rng)).collect() });
    }
    entries
}

fn op_bytes(op: u16) -> Vec<u8> {
    if op == MISSING {
        vec![]
    } else if op > 255 {
        vec![(op >> 8) as u8, op as u8]
    } else {
        vec![op as u8]
    }
}

struct Gen<'r> {
    rng: &'r mut Rng,
    scale: Scale,
    blobs: Vec<Blob>,
    style: u8,
}

impl Gen<'_> {
    fn blob(&mut self, index: bool, objs: Vec<Obj>) -> usize {
        let index = if index { Some(self.rng.size(1, 4) as u8) } else { None };
        // Mostly minimal sizes.
        let index = if self.rng.chance(2, 3) { index.map(|_| 1) } else { index };
        self.blobs.push(Blob { index, objs });
        self.blobs.len() - 1
    }

    fn object(&mut self) -> Vec<u8> {
        let rng = &mut *self.rng;
        let n = match self.scale {
            Scale::Tiny => rng.size(0, 3),
            _ => match rng.below(20) {
                0 => 0,
                1 => rng.size(10, 300),
                _ => rng.size(1, 12),
            },
        };
        rng.bytes(n)
    }

    fn objects(&mut self, n: usize) -> Vec<Obj> {
        (0..n).map(|_| Obj::Raw(self.object())).collect()
    }

    fn some(&mut self) -> usize {
        let rng = &mut *self.rng;
        match self.scale {
            Scale::Tiny => rng.size(0, 2),
            Scale::Small => rng.size(0, 5),
            _ => match rng.below(10) {
                0 => 0,
                1 => rng.size(100, 400),
                _ => rng.size(1, 40),
            },
        }
    }

    /// A private dictionary with or without local subroutines; returns its blob.
    fn private(&mut self) -> usize {
        let mut entries = filler(self.rng, self.scale, &[0x13]);
        let me = self.blob(false, vec![]);
        if self.rng.chance(2, 3) {
            let n = self.some();
            let objs = self.objects(n);
            let subrs = self.blob(true, objs);
            let operand = slot(self.rng, Expr::Rel(subrs, me), self.style);
            let entry = Entry { op: 0x13, opnds: vec![operand] };
            let at = self.rng.below(entries.len() + 1);
            entries.insert(at, entry);
            if self.rng.chance(1, 12) {
                let operand = int_operand(self.rng, 3);
                entries.insert(0, Entry { op: 0x13, opnds: vec![operand] });
            }
        }
        self.blobs[me].objs = vec![Obj::Dict(entries)];
        me
    }

    fn private_entry(&mut self, private: usize) -> Entry {
        let style = if self.rng.chance(1, 2) { 2 } else { self.style };
        let size = slot(self.rng, Expr::Size(private), style);
        let at = slot(self.rng, Expr::Abs(private), self.style);
        Entry { op: 0x12, opnds: vec![size, at] }
    }
}

pub fn charset_bytes(c: &Charset) -> Vec<u8> {
    let mut b = vec![];
    match c {
        Charset::F0(f, sids) => {
            b.push(*f);
            for s in sids {
                b.extend(s.to_be_bytes());
            }
        }
        Charset::F1(f, ranges) => {
            b.push(*f);
            for (s, l) in ranges {
                b.extend(s.to_be_bytes());
                b.push(*l);
            }
        }
        Charset::F2(f, ranges) => {
            b.push(*f);
            for (s, l) in ranges {
                b.extend(s.to_be_bytes());
                b.extend(l.to_be_bytes());
            }
        }
        _ => {}
    }
    b
}

pub fn gen_charset(rng: &mut Rng, glyphs: usize) -> Charset {
    let rest = glyphs - 1;
    let sid = |rng: &mut Rng| if rng.chance(1, 8) { 65535 - rng.below(3) as u16 } else { rng.next() as u16 };
    match rng.below(3) {
        0 => Charset::F0(0, (0..rest).map(|_| sid(rng)).collect()),
        format => {
            let max = if format == 1 { 256 } else { 65536 };
            let mut left = rest;
            let (mut f1, mut f2) = (vec![], vec![]);
            let whole = rng.chance(1, 3);
            while left > 0 {
                let cap = left.min(max);
                let most = if rng.chance(1, 4) { cap } else { cap.min(9) };
                let take = if whole { cap } else { rng.size(1, most) };
                f1.push((sid(rng), (take - 1) as u8));
                f2.push((f1.last().unwrap().0, (take - 1) as u16));
                left -= take;
            }
            if format == 1 {
                Charset::F1(1, f1)
            } else {
                Charset::F2(2, f2)
            }
        }
    }
}

pub fn encoding_bytes(e: &Enc) -> Vec<u8> {
    let mut b = vec![];
    match e {
        Enc::F0(f, n, codes) => {
            b.extend([*f, *n]);
            b.extend(codes);
        }
        Enc::F1(f, n, ranges) => {
            b.extend([*f, *n]);
            for (c, l) in ranges {
                b.extend([*c, *l]);
            }
        }
        Enc::Supp(f, n, sups) => {
            b.extend([*f, *n]);
            for (c, s) in sups {
                b.push(*c);
                b.extend(s.to_be_bytes());
            }
        }
        _ => {}
    }
    b
}

pub fn gen_encoding(rng: &mut Rng, full: bool) -> Enc {
    let n = if full {
        *rng.pick(&[255, 254, 128, 127])
    } else {
        rng.size(0, 8)
    };
    match rng.below(2) {
        0 => Enc::F0(0, n as u8, rng.bytes(n)),
        _ => Enc::F1(1, n as u8, (0..n).map(|_| (rng.next() as u8, rng.next() as u8)).collect()),
    }
}

pub fn gen_fdselect(rng: &mut Rng, glyphs: usize, dicts: usize) -> FdSel {
    let fd = |rng: &mut Rng| if rng.chance(1, 10) { rng.next() as u8 } else { rng.below(dicts.max(1)) as u8 };
    if rng.chance(1, 2) {
        FdSel::F0(0, (0..glyphs).map(|_| fd(rng)).collect())
    } else {
        let n = match rng.below(12) {
            0 => 0,
            1 => rng.size(100, 300),
            _ => rng.size(1, 6),
        };
        let mut first = 0u16;
        let mut ranges = vec![];
        for _ in 0..n {
            ranges.push((first, fd(rng)));
            first = first.wrapping_add(rng.size(1, 300) as u16);
        }
        FdSel::F3(3, n as u16, ranges, glyphs as u16)
    }
}

pub fn fdselect_bytes(f: &FdSel) -> Vec<u8> {
    let mut b = vec![];
    match f {
        FdSel::F0(f, ids) => {
            b.push(*f);
            b.extend(ids);
        }
        FdSel::F3(f, n, ranges, sentinel) => {
            b.push(*f);
            b.extend(n.to_be_bytes());
            for (g, d) in ranges {
                b.extend(g.to_be_bytes());
                b.push(*d);
            }
            b.extend(sentinel.to_be_bytes());
        }
    }
    b
}

/// Render an index, widening the offset size as far as the data requires.
pub fn index_bytes(data: &[Vec<u8>], offsize: u8) -> (Vec<u8>, MIndex) {
    if data.is_empty() {
        return (vec![0, 0], MIndex::default());
    }
    let total: usize = 1 + data.iter().map(|d| d.len()).sum::<usize>();
    let needed = if total < 1 << 8 {
        1
    } else if total < 1 << 16 {
        2
    } else if total < 1 << 24 {
        3
    } else {
        4
    };
    let offsize = offsize.max(needed);
    let mut bytes = (data.len() as u16).to_be_bytes().to_vec();
    bytes.push(offsize);
    let mut offsets = vec![1u32];
    for d in data {
        offsets.push(offsets.last().unwrap() + d.len() as u32);
    }
    for o in &offsets {
        bytes.extend(&o.to_be_bytes()[4 - offsize as usize..]);
    }
    for d in data {
        bytes.extend(d);
    }
    (bytes, MIndex { count: data.len() as u16, offsize, offsets, data: data.to_vec() })
}

pub struct Options {
    pub scale: Scale,
    /// Allow encodings with the supplement bit (known finding F1).
    pub supplemental: bool,
    /// Replaces the random bytes in the charstrings and subroutines.
    pub code: Option<Code>,
    /// End one of the dictionaries in the middle of an operation.
    pub dangling: bool,
}

/// Marks an entry whose operator is missing.
const MISSING: u16 = 0xffff;

#[derive(Clone)]
pub struct Code {
    pub glyphs: Vec<Vec<u8>>,
    pub global: Vec<Vec<u8>>,
    pub local: Vec<Vec<u8>>,
}

pub fn generate(rng: &mut Rng, options: &Options) -> Font {
    let scale = options.scale;
    let style = *rng.pick(&[0, 0, 1, 2, 3]);
    let mut g = Gen { rng, scale, blobs: vec![], style };
    let mut supplemental = false;

    let fonts = match scale {
        Scale::Tiny => *g.rng.pick(&[1, 1, 1, 1, 1, 0, 2]),
        Scale::Wide(6) => g.rng.size(100, 700),
        Scale::Wide(_) => 1,
        _ => *g.rng.pick(&[1, 1, 1, 1, 2, 2, 3, 0, 5]),
    };
    let fonts = if options.code.is_some() { 1 } else { fonts };
    let wide = match scale {
        Scale::Wide(w) => w,
        _ => 255,
    };

    // The four fixed blobs come first: names, top dictionaries, strings, global subroutines.
    let mut names = vec![];
    for _ in 0..fonts {
        let n = match g.rng.below(10) {
            0 => 0,
            1 => g.rng.size(50, 127),
            _ => g.rng.size(1, 20),
        };
        let mut name = g.rng.bytes(n);
        if g.rng.chance(3, 4) {
            for b in name.iter_mut() {
                *b = b'a' + *b % 26;
            }
        }
        names.push(Obj::Raw(name));
    }
    g.blob(true, names);
    g.blob(true, vec![]);
    let n = if wide == 0 { 260 } else { g.some() };
    let strings = g.objects(n);
    g.blob(true, strings);
    let n = if wide == 1 { g.rng.size(32766, 33902) } else { g.some() };
    let gsubrs = match &options.code {
        Some(code) => code.global.iter().map(|c| Obj::Raw(c.clone())).collect(),
        None if n > 30000 => (0..n).map(|i| Obj::Raw(if i % 97 == 0 { vec![i as u8] } else { vec![] })).collect(),
        None => g.objects(n),
    };
    g.blob(true, gsubrs);

    let mut tops: Vec<Vec<Entry>> = vec![];
    let mut parts: Vec<(usize, Charset, Enc, Option<(FdSel, usize)>, Vec<usize>)> = vec![];
    for font in 0..fonts {
        let structural = [0x0f, 0x10, 0x11, 0x12, 0x0c06, 0x0c1e, 0x0c24, 0x0c25];
        let scale = if wide == 6 { Scale::Tiny } else { scale };
        let mut entries = filler(g.rng, scale, &structural);
        let insert = |rng: &mut Rng, entries: &mut Vec<Entry>, entry: Entry| {
            let at = rng.below(entries.len() + 1);
            entries.insert(at, entry);
        };

        // Charstrings, possibly shared with the previous font.
        let shared = font > 0 && if wide == 6 { g.rng.chance(15, 16) } else { g.rng.chance(1, 6) };
        let (charstrings, glyphs) = if shared {
            let blob = parts[font - 1].0;
            (blob, g.blobs[blob].objs.len())
        } else {
            let objs = match &options.code {
                Some(code) => code.glyphs.iter().map(|c| Obj::Raw(c.clone())).collect(),
                None => match wide {
                    0 => {
                        let n = g.rng.size(256, 700);
                        g.objects(n)
                    }
                    1 => (0..g.rng.size(255, 700)).map(|i| Obj::Raw(vec![i as u8])).collect(),
                    2 => {
                        let n = g.rng.size(65000, 140000);
                        let big = g.rng.bytes(n);
                        let small = g.object();
                        vec![Obj::Raw(small), Obj::Raw(big), Obj::Raw(vec![14])]
                    }
                    3 => {
                        // Offsets that need the top bit of three bytes, or a fourth one.
                        let n = *g.rng.pick(&[1 << 23, 1 << 23, 3 << 22, 1 << 24]) + g.rng.below(9);
                        let byte = g.rng.next() as u8;
                        vec![Obj::Raw(vec![byte; n]), Obj::Raw(vec![14])]
                    }
                    4 => (0..g.rng.size(32760, 65535)).map(|_| Obj::Raw(vec![])).collect(),
                    _ => {
                        let n = if g.rng.chance(1, 12) { 0 } else { 1 + g.some() };
                        g.objects(n)
                    }
                },
            };
            let n = objs.len();
            (g.blob(true, objs), n)
        };
        let o = slot(g.rng, Expr::Abs(charstrings), g.style);
        insert(g.rng, &mut entries, Entry { op: 0x11, opnds: vec![o] });
        if g.rng.chance(1, 4) {
            let o = int_operand(g.rng, 2);
            insert(g.rng, &mut entries, Entry { op: 0x0c06, opnds: vec![o] });
        }

        // Character set.
        let charset = match g.rng.below(if glyphs == 0 { 4 } else { 12 }) {
            0 => Charset::Iso,
            k @ 1..=3 => {
                let o = int_operand(g.rng, k as i64 - 1);
                insert(g.rng, &mut entries, Entry { op: 0x0f, opnds: vec![o] });
                [Charset::Iso, Charset::Expert, Charset::Subset][k - 1].clone()
            }
            _ => {
                let charset = gen_charset(g.rng, glyphs);
                let blob = g.blob(false, vec![Obj::Raw(charset_bytes(&charset))]);
                let o = slot(g.rng, Expr::Abs(blob), g.style);
                insert(g.rng, &mut entries, Entry { op: 0x0f, opnds: vec![o] });
                charset
            }
        };

        // Encoding.
        let encoding = match g.rng.below(8) {
            0 | 1 => Enc::Standard,
            k @ 2..=3 => {
                let o = int_operand(g.rng, k as i64 - 2);
                insert(g.rng, &mut entries, Entry { op: 0x10, opnds: vec![o] });
                [Enc::Standard, Enc::Expert][k - 2].clone()
            }
            k => {
                let full = g.rng.chance(1, 6);
                let mut encoding = gen_encoding(g.rng, full);
                let mut bytes = encoding_bytes(&encoding);
                if k == 7 && options.supplemental {
                    supplemental = true;
                    bytes[0] |= 0x80;
                    let n = g.rng.size(0, 4);
                    bytes.push(n as u8);
                    for _ in 0..n {
                        let b = g.rng.bytes(3);
                        bytes.extend(b);
                    }
                    // Enough room for the library's reading of it.
                    bytes.extend(vec![0; 800]);
                    encoding = R::new(&bytes).encoding().unwrap();
                }
                let blob = g.blob(false, vec![Obj::Raw(bytes)]);
                let o = slot(g.rng, Expr::Abs(blob), g.style);
                insert(g.rng, &mut entries, Entry { op: 0x10, opnds: vec![o] });
                encoding
            }
        };

        if (wide == 5 || g.rng.chance(1, 3)) && options.code.is_none() {
            // Keyed by character identifiers.
            let dicts = match scale {
                Scale::Tiny => g.rng.size(0, 2),
                _ => g.rng.size(0, 5),
            };
            let dicts = match wide {
                0 => 30,
                5 => g.rng.size(250, 1500),
                6 => 1,
                _ => dicts,
            };
            let (r, o) = (g.rng.range(0, 65535), g.rng.range(0, 65535));
            let r = if g.rng.chance(1, 2) { r % 500 } else { r };
            let ros = vec![int_operand(g.rng, r), int_operand(g.rng, o), operand(g.rng)];
            let entry = Entry { op: 0x0c1e, opnds: ros };
            if g.rng.chance(3, 4) {
                entries.insert(0, entry);
            } else {
                insert(g.rng, &mut entries, entry);
            }
            let fdsel = gen_fdselect(g.rng, glyphs, dicts);
            let blob = g.blob(false, vec![Obj::Raw(fdselect_bytes(&fdsel))]);
            let o = slot(g.rng, Expr::Abs(blob), g.style);
            insert(g.rng, &mut entries, Entry { op: 0x0c25, opnds: vec![o] });
            let mut privates = vec![];
            let mut objs = vec![];
            let share = if wide == 5 { 15 } else { 1 };
            for _ in 0..dicts {
                let scale = if wide == 5 { Scale::Tiny } else { scale };
                let mut entries = filler(g.rng, scale, &[0x12]);
                let private = if !privates.is_empty() && g.rng.chance(share, if wide == 5 { 16 } else { 8 }) { privates[0] } else { g.private() };
                let entry = g.private_entry(private);
                insert(g.rng, &mut entries, entry);
                privates.push(private);
                objs.push(Obj::Dict(entries));
            }
            let fdarray = g.blob(true, objs);
            let o = slot(g.rng, Expr::Abs(fdarray), g.style);
            insert(g.rng, &mut entries, Entry { op: 0x0c24, opnds: vec![o] });
            parts.push((charstrings, charset, encoding, Some((fdsel, fdarray)), privates));
        } else {
            let private = match &options.code {
                Some(code) => {
                    let me = g.blob(false, vec![]);
                    let subrs = g.blob(true, code.local.iter().map(|c| Obj::Raw(c.clone())).collect());
                    let operand = slot(g.rng, Expr::Rel(subrs, me), g.style);
                    g.blobs[me].objs = vec![Obj::Dict(vec![Entry { op: 0x13, opnds: vec![operand] }])];
                    me
                }
                None => g.private(),
            };
            let entry = g.private_entry(private);
            insert(g.rng, &mut entries, entry);
            parts.push((charstrings, charset, encoding, None, vec![private]));
        }
        if g.rng.chance(1, 15) {
            // An operator given twice: the last one counts.
            let op = *g.rng.pick(&[0x11, 0x0f, 0x10, 0x12]);
            let opnds = vec![operand(g.rng), operand(g.rng)];
            if entries.iter().any(|e| e.op == op) {
                entries.insert(0, Entry { op, opnds });
            }
        }
        tops.push(entries);
    }
    g.blobs[1].objs = tops.into_iter().map(Obj::Dict).collect();

    if options.dangling {
        // A number cut short, an escape alone, or operands without an operator.
        let tail = match g.rng.below(6) {
            0 => vec![28, 1],
            1 => vec![29, 0, 0, 1],
            2 => vec![30, 0x12],
            3 => vec![12],
            4 => vec![247],
            _ => any_number(g.rng).1,
        };
        let mut dicts: Vec<(usize, usize)> = vec![];
        for (i, blob) in g.blobs.iter().enumerate() {
            for (j, obj) in blob.objs.iter().enumerate() {
                if matches!(obj, Obj::Dict(_)) {
                    dicts.push((i, j));
                }
            }
        }
        if !dicts.is_empty() {
            let (i, j) = *g.rng.pick(&dicts);
            if let Obj::Dict(entries) = &mut g.blobs[i].objs[j] {
                entries.push(Entry { op: MISSING, opnds: vec![Opnd::Enc(Num::I(0), tail)] });
            }
        }
    }

    // Layout.
    let mut rest: Vec<usize> = (4..g.blobs.len()).collect();
    g.rng.shuffle(&mut rest);
    let order: Vec<usize> = (0..4).chain(rest).collect();
    let header_size = match g.rng.below(8) {
        0 => g.rng.size(5, 40),
        1 => *g.rng.pick(&[5, 8, 127, 128, 255]),
        _ => 4,
    };
    let gaps: Vec<usize> = order
        .iter()
        .enumerate()
        .map(|(i, _)| if i >= 4 && g.rng.chance(1, 4) { g.rng.size(1, 9) } else { 0 })
        .collect();
    let far = if order.len() > 4 && g.rng.chance(1, 25) { g.rng.size(1000, 40000) } else { 0 };
    let (at, sizes) = loop {
        let sizes: Vec<usize> = g.blobs.iter().map(measure).collect();
        let mut at = vec![0usize; g.blobs.len()];
        let mut p = header_size;
        for (i, &b) in order.iter().enumerate() {
            p += gaps[i] + if i == 4 { far } else { 0 };
            at[b] = p;
            p += sizes[b];
        }
        let mut stable = true;
        for blob in g.blobs.iter_mut() {
            for obj in blob.objs.iter_mut() {
                if let Obj::Dict(entries) = obj {
                    for entry in entries {
                        for opnd in entry.opnds.iter_mut() {
                            if let Opnd::Slot(expr, len) = opnd {
                                let v = value(expr, &at, &sizes);
                                while encode_int(v, *len).is_none() {
                                    stable = false;
                                    *len = match *len {
                                        1 => 2,
                                        2 => 3,
                                        _ => 5,
                                    };
                                }
                            }
                        }
                    }
                }
            }
        }
        if stable {
            break (at, sizes);
        }
    };

    // Render.
    let header = (1u8, g.rng.below(3) as u8, header_size as u8, g.rng.size(1, 4) as u8);
    let mut bytes = vec![header.0, header.1, header.2, header.3];
    let mut truths: Vec<MIndex> = vec![MIndex::default(); g.blobs.len()];
    for (i, &b) in order.iter().enumerate() {
        let gap = at[b] - bytes.len();
        let junk = if i < 4 { g.rng.bytes(gap) } else { g.rng.bytes(gap) };
        bytes.extend(junk);
        let blob = &g.blobs[b];
        let objs: Vec<Vec<u8>> = blob.objs.iter().map(|o| render(o, &at, &sizes)).collect();
        match blob.index {
            Some(offsize) => {
                let (data, truth) = index_bytes(&objs, offsize);
                bytes.extend(data);
                truths[b] = truth;
            }
            None => bytes.extend(objs.concat()),
        }
    }

    let dict = |obj: &Obj| -> Dict {
        let mut dict = Dict::new();
        if let Obj::Dict(entries) = obj {
            for entry in entries {
                let operands = entry
                    .opnds
                    .iter()
                    .map(|o| match o {
                        Opnd::Enc(n, _) => *n,
                        Opnd::Slot(expr, _) => Num::I(value(expr, &at, &sizes) as i32),
                    })
                    .collect();
                dict.insert(entry.op, operands);
            }
        }
        dict
    };
    let private = |b: usize| -> Private {
        let ops = dict(&g.blobs[b].objs[0]);
        let mut subrs = MIndex::default();
        if let Obj::Dict(entries) = &g.blobs[b].objs[0] {
            for entry in entries {
                if let (0x13, Some(Opnd::Slot(Expr::Rel(s, _), _))) = (entry.op, entry.opnds.first()) {
                    subrs = truths[*s].clone();
                }
            }
        }
        Private { ops, subrs }
    };
    let mut set = Set {
        header,
        names: truths[0].clone(),
        top: g.blobs[1].objs.iter().map(&dict).collect(),
        strings: truths[2].clone(),
        gsubrs: truths[3].clone(),
        encodings: vec![],
        charstrings: vec![],
        charsets: vec![],
        records: vec![],
    };
    for (i, (charstrings, charset, encoding, cid, privates)) in parts.iter().enumerate() {
        set.charstrings.push(truths[*charstrings].clone());
        set.charsets.push(charset.clone());
        set.encodings.push(encoding.clone());
        let recs: Vec<Private> = privates.iter().map(|&b| private(b)).collect();
        set.records.push(match cid {
            None => Rec::Name(recs[0].clone()),
            Some((fdsel, fdarray)) => {
                let ros = &set.top[i][&0x0c1e];
                let sid = |n: Num| match n {
                    Num::I(v) => v as u16,
                    _ => 0,
                };
                Rec::Cid {
                    registry: sid(ros[0]),
                    ordering: sid(ros[1]),
                    supplement: ros[2],
                    fdsel: fdsel.clone(),
                    dicts: g.blobs[*fdarray].objs.iter().map(&dict).collect(),
                    recs,
                }
            }
        });
    }
    Font { bytes, truth: set, supplemental }
}

fn value(expr: &Expr, at: &[usize], sizes: &[usize]) -> i64 {
    match *expr {
        Expr::Abs(b) => at[b] as i64,
        Expr::Rel(a, b) => at[a] as i64 - at[b] as i64,
        Expr::Size(b) => sizes[b] as i64,
        Expr::Const(v) => v,
    }
}

fn obj_size(obj: &Obj) -> usize {
    match obj {
        Obj::Raw(b) => b.len(),
        Obj::Dict(entries) => entries
            .iter()
            .map(|e| {
                op_bytes(e.op).len()
                    + e.opnds
                        .iter()
                        .map(|o| match o {
                            Opnd::Enc(_, b) => b.len(),
                            Opnd::Slot(_, len) => *len,
                        })
                        .sum::<usize>()
            })
            .sum(),
    }
}

fn measure(blob: &Blob) -> usize {
    let data: usize = blob.objs.iter().map(obj_size).sum();
    match blob.index {
        None => data,
        Some(_) if blob.objs.is_empty() => 2,
        Some(offsize) => {
            let needed = match data + 1 {
                0..=0xff => 1,
                0x100..=0xffff => 2,
                0x10000..=0xffffff => 3,
                _ => 4,
            };
            3 + offsize.max(needed) as usize * (blob.objs.len() + 1) + data
        }
    }
}

fn render(obj: &Obj, at: &[usize], sizes: &[usize]) -> Vec<u8> {
    match obj {
        Obj::Raw(b) => b.clone(),
        Obj::Dict(entries) => {
            let mut bytes = vec![];
            for e in entries {
                for o in &e.opnds {
                    match o {
                        Opnd::Enc(_, b) => bytes.extend(b),
                        Opnd::Slot(expr, len) => bytes.extend(encode_int(value(expr, at, sizes), *len).unwrap()),
                    }
                }
                bytes.extend(op_bytes(e.op));
            }
            bytes
        }
    }
}

/// The font sets of the fonts that come with the library, if they are there.
pub fn real(which: usize) -> Option<Vec<u8>> {
    use std::sync::OnceLock;
    static FONTS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    let fonts = FONTS.get_or_init(|| {
        let folder = concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/tests/fixtures");
        let mut names: Vec<_> =
            std::fs::read_dir(folder).into_iter().flatten().flatten().map(|e| e.path()).collect();
        names.sort();
        names.iter().filter_map(|n| table(&std::fs::read(n).ok()?)).collect()
    });
    if fonts.is_empty() {
        None
    } else {
        Some(fonts[which % fonts.len()].clone())
    }
}

/// The table that holds the font set.
fn table(file: &[u8]) -> Option<Vec<u8>> {
    let word = |at: usize| Some(u32::from_be_bytes(file.get(at..at + 4)?.try_into().ok()?) as usize);
    let count = u16::from_be_bytes(file.get(4..6)?.try_into().ok()?) as usize;
    let entry = (0..count).map(|i| 12 + 16 * i).find(|&at| file.get(at..at + 4) == Some(b"CFF "))?;
    let (offset, length) = (word(entry + 8)?, word(entry + 12)?);
    let bytes = file.get(offset..offset + length)?.to_vec();
    crate::cff::read(&bytes).ok()?;
    Some(bytes)
}
