//! The reference reader: an independent, slice-based reading of a CFF 1.0 font set.
//!
//! It shares no code with the library. It also records which fields it met and
//! where, which the storage-fault generators use as targets.

use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum E {
    Eof,
    Bad(&'static str),
}

pub type Res<T> = Result<T, E>;

/// A number; reals are kept as bits so that equality is exact.
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Num {
    I(i32),
    R(u32),
}

pub type Dict = BTreeMap<u16, Vec<Num>>;

#[derive(Clone, Debug, Default, Eq, PartialEq)]
pub struct MIndex {
    pub count: u16,
    pub offsize: u8,
    pub offsets: Vec<u32>,
    pub data: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Charset {
    Iso,
    Expert,
    Subset,
    F0(u8, Vec<u16>),
    F1(u8, Vec<(u16, u8)>),
    F2(u8, Vec<(u16, u16)>),
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Enc {
    Standard,
    Expert,
    F0(u8, u8, Vec<u8>),
    F1(u8, u8, Vec<(u8, u8)>),
    Supp(u8, u8, Vec<(u8, u16)>),
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum FdSel {
    F0(u8, Vec<u8>),
    F3(u8, u16, Vec<(u16, u8)>, u16),
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct Private {
    pub ops: Dict,
    pub subrs: MIndex,
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Rec {
    Name(Private),
    Cid { registry: u16, ordering: u16, supplement: Num, fdsel: FdSel, dicts: Vec<Dict>, recs: Vec<Private> },
}

#[derive(Clone, Debug, Default, Eq, PartialEq)]
pub struct Set {
    pub header: (u8, u8, u8, u8),
    pub names: MIndex,
    pub top: Vec<Dict>,
    pub strings: MIndex,
    pub gsubrs: MIndex,
    pub encodings: Vec<Enc>,
    pub charstrings: Vec<MIndex>,
    pub charsets: Vec<Charset>,
    pub records: Vec<Rec>,
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum FieldKind {
    Header,
    Count16,
    Count8,
    OffSize,
    Offset,
    Operand,
    Operator,
    Format,
    Left,
    Sid,
    Real,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub at: usize,
    pub len: usize,
    pub kind: FieldKind,
}

#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub name: &'static str,
    pub lo: usize,
    pub hi: usize,
}

/// A cursor over the font, whose start is position 0.
pub struct R<'a> {
    d: &'a [u8],
    p: u64,
    pub hi: u64,
    pub fields: Option<Vec<Field>>,
    pub spans: Vec<Span>,
    base: usize,
}

impl<'a> R<'a> {
    pub fn new(d: &'a [u8]) -> R<'a> {
        R { d, p: 0, hi: 0, fields: None, spans: vec![], base: 0 }
    }
    pub fn at(d: &'a [u8], p: usize) -> R<'a> {
        R { p: p as u64, ..R::new(d) }
    }
    pub fn peek(&self) -> Option<u8> {
        self.d.get(self.p as usize).copied()
    }
    pub fn pos(&self) -> usize {
        self.p as usize
    }
    fn field(&mut self, len: usize, kind: FieldKind) {
        let at = self.base + self.p as usize;
        if let Some(fields) = &mut self.fields {
            fields.push(Field { at, len, kind });
        }
    }
    fn bytes(&mut self, n: usize) -> Res<&'a [u8]> {
        if n == 0 {
            return Ok(&[]);
        }
        let end = self.p + n as u64;
        if end > self.d.len() as u64 {
            self.hi = self.hi.max(end);
            return Err(E::Eof);
        }
        self.hi = self.hi.max(end);
        let s = &self.d[self.p as usize..end as usize];
        self.p = end;
        Ok(s)
    }
    fn u8(&mut self) -> Res<u8> {
        Ok(self.bytes(1)?[0])
    }
    fn u16(&mut self) -> Res<u16> {
        let b = self.bytes(2)?;
        Ok((b[0] as u16) << 8 | b[1] as u16)
    }
    fn f8(&mut self, kind: FieldKind) -> Res<u8> {
        self.field(1, kind);
        self.u8()
    }
    fn f16(&mut self, kind: FieldKind) -> Res<u16> {
        self.field(2, kind);
        self.u16()
    }
    fn span<T>(&mut self, name: &'static str, f: impl FnOnce(&mut Self) -> Res<T>) -> Res<T> {
        let lo = self.base + self.p as usize;
        let r = f(self)?;
        let hi = self.base + self.p as usize;
        if self.base == 0 {
            self.spans.push(Span { name, lo, hi });
        }
        Ok(r)
    }

    pub fn header(&mut self) -> Res<(u8, u8, u8, u8)> {
        self.field(2, FieldKind::Header);
        Ok((self.u8()?, self.u8()?, self.f8(FieldKind::Header)?, self.f8(FieldKind::OffSize)?))
    }

    pub fn offset(&mut self, size: u8) -> Res<u32> {
        if size < 1 || size > 4 {
            return Err(E::Bad("offset size"));
        }
        self.field(size as usize, FieldKind::Offset);
        Ok(self.bytes(size as usize)?.iter().fold(0u32, |a, &b| a << 8 | b as u32))
    }

    pub fn index(&mut self) -> Res<MIndex> {
        let count = self.f16(FieldKind::Count16)?;
        if count == 0 {
            return Ok(MIndex::default());
        }
        let offsize = self.f8(FieldKind::OffSize)?;
        let mut offsets = vec![];
        for _ in 0..count as usize + 1 {
            offsets.push(self.offset(offsize)?);
        }
        if offsets[0] != 1 {
            return Err(E::Bad("first offset"));
        }
        let mut data = vec![];
        for w in offsets.windows(2) {
            if w[1] < w[0] {
                return Err(E::Bad("offset order"));
            }
            data.push(self.bytes((w[1] - w[0]) as usize)?.to_vec());
        }
        Ok(MIndex { count, offsize, offsets, data })
    }

    pub fn number(&mut self) -> Res<Num> {
        let b0 = self.u8()? as i32;
        Ok(match b0 {
            32..=246 => Num::I(b0 - 139),
            247..=250 => Num::I((b0 - 247) * 256 + self.u8()? as i32 + 108),
            251..=254 => Num::I(-(b0 - 251) * 256 - self.u8()? as i32 - 108),
            28 => {
                self.field(2, FieldKind::Operand);
                Num::I(self.u16()? as i16 as i32)
            }
            29 => {
                self.field(4, FieldKind::Operand);
                let b = self.bytes(4)?;
                Num::I(i32::from_be_bytes([b[0], b[1], b[2], b[3]]))
            }
            30 => {
                let mut text = String::new();
                let start = self.p as usize;
                'outer: loop {
                    let b = self.u8()?;
                    for n in [b >> 4, b & 15] {
                        match n {
                            0..=9 => text.push_str(&n.to_string()),
                            10 => text.push('.'),
                            11 => text.push('e'),
                            12 => text.push_str("e-"),
                            14 => text.push('-'),
                            15 => break 'outer,
                            _ => return Err(E::Bad("real nibble")),
                        }
                    }
                }
                let len = self.p as usize - start;
                self.p = start as u64;
                self.field(len, FieldKind::Real);
                self.p += len as u64;
                match text.parse::<f32>() {
                    Ok(v) => Num::R(v.to_bits()),
                    _ => return Err(E::Bad("real")),
                }
            }
            _ => return Err(E::Bad("number")),
        })
    }

    /// Read operations up to the end of the data; the end is only legal between operations.
    pub fn dict(&mut self) -> Res<Dict> {
        let mut dict = Dict::new();
        while (self.p as usize) < self.d.len() {
            let mut operands = vec![];
            loop {
                let b0 = match self.d.get(self.p as usize) {
                    Some(&b) => b,
                    None => {
                        self.hi = self.hi.max(self.p + 1);
                        return Err(E::Eof);
                    }
                };
                match b0 {
                    28..=30 | 32..=254 => operands.push(self.number()?),
                    12 => {
                        self.field(2, FieldKind::Operator);
                        let code = self.u16()?;
                        if operator_name(code).is_none() {
                            return Err(E::Bad("operator"));
                        }
                        dict.insert(code, operands);
                        break;
                    }
                    _ => {
                        self.field(1, FieldKind::Operator);
                        let code = self.u8()? as u16;
                        if operator_name(code).is_none() {
                            return Err(E::Bad("operator"));
                        }
                        dict.insert(code, operands);
                        break;
                    }
                }
            }
        }
        Ok(dict)
    }

    /// Read a dictionary out of a chunk located at an absolute position.
    fn chunk(&mut self, chunk: &[u8], base: usize) -> Res<Dict> {
        let mut r = R { d: chunk, p: 0, hi: 0, fields: self.fields.take(), spans: vec![], base };
        let dict = r.dict();
        self.fields = r.fields.take();
        dict
    }

    fn dicts(&mut self) -> Res<Vec<Dict>> {
        let index = self.index()?;
        let end = self.pos();
        let size: usize = index.data.iter().map(|d| d.len()).sum();
        let mut at = end - size;
        let mut dicts = vec![];
        for data in &index.data {
            dicts.push(self.chunk(data, at)?);
            at += data.len();
        }
        Ok(dicts)
    }

    pub fn charset(&mut self, glyphs: usize) -> Res<Charset> {
        let format = self.f8(FieldKind::Format)?;
        if format > 2 {
            return Err(E::Bad("charset format"));
        }
        if glyphs == 0 {
            return Err(E::Bad("charset of no glyphs"));
        }
        if format == 0 {
            let mut sids = vec![];
            for _ in 1..glyphs {
                sids.push(self.f16(FieldKind::Sid)?);
            }
            return Ok(Charset::F0(0, sids));
        }
        let (mut f1, mut f2) = (vec![], vec![]);
        let mut covered = 1usize;
        while covered < glyphs {
            let first = self.f16(FieldKind::Sid)?;
            if format == 1 {
                let left = self.f8(FieldKind::Left)?;
                f1.push((first, left));
                covered += 1 + left as usize;
            } else {
                let left = self.f16(FieldKind::Left)?;
                f2.push((first, left));
                covered += 1 + left as usize;
            }
        }
        if covered != glyphs {
            return Err(E::Bad("charset coverage"));
        }
        Ok(if format == 1 { Charset::F1(1, f1) } else { Charset::F2(2, f2) })
    }

    /// Read an encoding.
    ///
    /// Encodings with the supplement bit are read the way the library reads them
    /// (known finding F1); the specification places the supplement after the
    /// codes or ranges.
    pub fn encoding(&mut self) -> Res<Enc> {
        let format = self.f8(FieldKind::Format)?;
        Ok(match format {
            0 => {
                let n = self.f8(FieldKind::Count8)?;
                Enc::F0(0, n, self.bytes(n as usize)?.to_vec())
            }
            1 => {
                let n = self.f8(FieldKind::Count8)?;
                let mut ranges = vec![];
                for _ in 0..n {
                    ranges.push((self.u8()?, self.f8(FieldKind::Left)?));
                }
                Enc::F1(1, n, ranges)
            }
            128..=255 => {
                let n = self.f8(FieldKind::Count8)?;
                let mut sups = vec![];
                for _ in 0..n {
                    sups.push((self.u8()?, self.f16(FieldKind::Sid)?));
                }
                Enc::Supp(format, n, sups)
            }
            _ => return Err(E::Bad("encoding format")),
        })
    }

    pub fn fdselect(&mut self, glyphs: usize) -> Res<FdSel> {
        let format = self.f8(FieldKind::Format)?;
        Ok(match format {
            0 => FdSel::F0(0, self.bytes(glyphs)?.to_vec()),
            3 => {
                let n = self.f16(FieldKind::Count16)?;
                let mut ranges = vec![];
                for _ in 0..n {
                    ranges.push((self.f16(FieldKind::Sid)?, self.u8()?));
                }
                FdSel::F3(3, n, ranges, self.f16(FieldKind::Sid)?)
            }
            _ => return Err(E::Bad("fdselect format")),
        })
    }

    fn seek(&mut self, offset: i64) -> Res<()> {
        if offset < 0 {
            return Err(E::Bad("negative offset"));
        }
        self.p = offset as u64;
        Ok(())
    }

    fn private(&mut self, dict: &Dict) -> Res<Private> {
        let (size, offset) = match dict.get(&0x12).map(|v| v.as_slice()) {
            Some(&[Num::I(size), Num::I(offset), ..]) => (size, offset),
            Some(&[_, _, ..]) => return Err(E::Bad("private operands")),
            _ => return Err(E::Bad("no private")),
        };
        if size < 0 {
            return Err(E::Bad("negative size"));
        }
        self.seek(offset as i64)?;
        let chunk = self.span("private", |r| r.bytes(size as usize))?;
        let ops = self.chunk(chunk, offset as usize)?;
        let subrs = match ops.get(&0x13).and_then(|v| v.first()) {
            Some(&Num::I(another)) => {
                self.seek(offset as i64 + another as i64)?;
                self.span("subrs", |r| r.index())?
            }
            Some(_) => return Err(E::Bad("subrs operand")),
            None => MIndex::default(),
        };
        Ok(Private { ops, subrs })
    }

    pub fn set(&mut self) -> Res<Set> {
        let header = self.span("header", |r| r.header())?;
        self.seek(header.2 as i64)?;
        let names = self.span("names", |r| r.index())?;
        let top = self.span("top", |r| r.dicts())?;
        let strings = self.span("strings", |r| r.index())?;
        let gsubrs = self.span("gsubrs", |r| r.index())?;
        let mut set = Set {
            header,
            names,
            top: top.clone(),
            strings,
            gsubrs,
            encodings: vec![],
            charstrings: vec![],
            charsets: vec![],
            records: vec![],
        };
        for dict in &top {
            let int = |code: u16, default: Option<i32>| match dict.get(&code) {
                None => default.ok_or(E::Bad("missing operator")),
                Some(v) => match v.first() {
                    Some(&Num::I(v)) => Ok(v),
                    Some(_) => Err(E::Bad("operand type")),
                    None => Err(E::Bad("no operand")),
                },
            };
            let at = int(0x11, None)?;
            if int(0x0c06, Some(2))? != 2 {
                return Err(E::Bad("charstring type"));
            }
            self.seek(at as i64)?;
            let charstrings = self.span("charstrings", |r| r.index())?;
            let glyphs = charstrings.count as usize;
            set.charstrings.push(charstrings);
            set.charsets.push(match int(0x0f, Some(0))? {
                0 => Charset::Iso,
                1 => Charset::Expert,
                2 => Charset::Subset,
                offset => {
                    self.seek(offset as i64)?;
                    self.span("charset", |r| r.charset(glyphs))?
                }
            });
            set.encodings.push(match int(0x10, Some(0))? {
                0 => Enc::Standard,
                1 => Enc::Expert,
                offset => {
                    self.seek(offset as i64)?;
                    self.span("encoding", |r| r.encoding())?
                }
            });
            let record = match dict.get(&0x0c1e) {
                None => Rec::Name(self.private(dict)?),
                Some(ros) => {
                    let (registry, ordering, supplement) = match ros.as_slice() {
                        &[Num::I(r), Num::I(o), s] => (r, o, s),
                        _ => return Err(E::Bad("ros operands")),
                    };
                    if registry < 0 || registry > 65535 || ordering < 0 || ordering > 65535 {
                        return Err(E::Bad("string identifier"));
                    }
                    let at = int(0x0c25, None)?;
                    self.seek(at as i64)?;
                    let fdsel = self.span("fdselect", |r| r.fdselect(glyphs))?;
                    let at = int(0x0c24, None)?;
                    self.seek(at as i64)?;
                    let dicts = self.span("fdarray", |r| r.dicts())?;
                    let mut recs = vec![];
                    for dict in &dicts {
                        recs.push(self.private(dict)?);
                    }
                    Rec::Cid { registry: registry as u16, ordering: ordering as u16, supplement, fdsel, dicts, recs }
                }
            };
            set.records.push(record);
        }
        Ok(set)
    }
}

/// What the reference reader found out about an image.
pub struct Survey {
    pub result: Res<Set>,
    /// One past the last byte consulted.
    pub hi: u64,
    pub fields: Vec<Field>,
    pub spans: Vec<Span>,
}

pub fn survey(d: &[u8]) -> Survey {
    let mut r = R::new(d);
    r.fields = Some(vec![]);
    let result = r.set();
    Survey { result, hi: r.hi, fields: r.fields.unwrap_or_default(), spans: r.spans }
}

pub fn read(d: &[u8]) -> Res<Set> {
    R::new(d).set()
}

pub fn count(d: &[u8]) -> Res<u16> {
    let mut r = R::new(d);
    let header = r.header()?;
    r.seek(header.2 as i64)?;
    r.u16()
}

/// The dictionary operators of the specification.
pub const OPERATORS: &[(u16, &str)] = &[
    (0x00, "Version"),
    (0x01, "Notice"),
    (0x02, "FullName"),
    (0x03, "FamilyName"),
    (0x04, "Weight"),
    (0x05, "FontBBox"),
    (0x06, "BlueValues"),
    (0x07, "OtherBlues"),
    (0x08, "FamilyBlues"),
    (0x09, "FamilyOtherBlues"),
    (0x0a, "StdHW"),
    (0x0b, "StdVW"),
    (0x0d, "UniqueID"),
    (0x0e, "XUID"),
    (0x0f, "CharSet"),
    (0x10, "Encoding"),
    (0x11, "CharStrings"),
    (0x12, "Private"),
    (0x13, "Subrs"),
    (0x14, "DefaultWidthX"),
    (0x15, "NominalWidthX"),
    (0x0c00, "Copyright"),
    (0x0c01, "IsFixedPitch"),
    (0x0c02, "ItalicAngle"),
    (0x0c03, "UnderlinePosition"),
    (0x0c04, "UnderlineThickness"),
    (0x0c05, "PaintType"),
    (0x0c06, "CharStringType"),
    (0x0c07, "FontMatrix"),
    (0x0c08, "StrokeWidth"),
    (0x0c09, "BlueScale"),
    (0x0c0a, "BlueShift"),
    (0x0c0b, "BlueFuzz"),
    (0x0c0c, "StemSnapH"),
    (0x0c0d, "StemSnapV"),
    (0x0c0e, "ForceBold"),
    (0x0c11, "LanguageGroup"),
    (0x0c12, "ExpansionFactor"),
    (0x0c13, "InitialRandomSeed"),
    (0x0c14, "SyntheticBase"),
    (0x0c15, "PostScript"),
    (0x0c16, "BaseFontName"),
    (0x0c17, "BaseFontBlend"),
    (0x0c1e, "ROS"),
    (0x0c1f, "CIDFontVersion"),
    (0x0c20, "CIDFontRevision"),
    (0x0c21, "CIDFontType"),
    (0x0c22, "CIDCount"),
    (0x0c23, "UIDBase"),
    (0x0c24, "FDArray"),
    (0x0c25, "FDSelect"),
    (0x0c26, "FontName"),
];

pub fn operator_name(code: u16) -> Option<&'static str> {
    OPERATORS.iter().find(|(c, _)| *c == code).map(|(_, n)| *n)
}
