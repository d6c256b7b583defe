//! Turns what the library returned into the reference reader's terms.

use crate::cff::*;
use postscript::compact1::font_set::{character_id_keyed as cid, Record};
use postscript::compact1::{CharacterSet, Encoding, FontSet, Index, Number, Operations, Operator};

pub fn code(operator: Operator) -> u16 {
    use Operator::*;
    match operator {
        Version => 0x00,
        Notice => 0x01,
        FullName => 0x02,
        FamilyName => 0x03,
        Weight => 0x04,
        FontBBox => 0x05,
        BlueValues => 0x06,
        OtherBlues => 0x07,
        FamilyBlues => 0x08,
        FamilyOtherBlues => 0x09,
        StdHW => 0x0a,
        StdVW => 0x0b,
        UniqueID => 0x0d,
        XUID => 0x0e,
        CharSet => 0x0f,
        Operator::Encoding => 0x10,
        CharStrings => 0x11,
        Operator::Private => 0x12,
        Subrs => 0x13,
        DefaultWidthX => 0x14,
        NominalWidthX => 0x15,
        Copyright => 0x0c00,
        IsFixedPitch => 0x0c01,
        ItalicAngle => 0x0c02,
        UnderlinePosition => 0x0c03,
        UnderlineThickness => 0x0c04,
        PaintType => 0x0c05,
        CharStringType => 0x0c06,
        FontMatrix => 0x0c07,
        StrokeWidth => 0x0c08,
        BlueScale => 0x0c09,
        BlueShift => 0x0c0a,
        BlueFuzz => 0x0c0b,
        StemSnapH => 0x0c0c,
        StemSnapV => 0x0c0d,
        ForceBold => 0x0c0e,
        LanguageGroup => 0x0c11,
        ExpansionFactor => 0x0c12,
        InitialRandomSeed => 0x0c13,
        SyntheticBase => 0x0c14,
        PostScript => 0x0c15,
        BaseFontName => 0x0c16,
        BaseFontBlend => 0x0c17,
        ROS => 0x0c1e,
        CIDFontVersion => 0x0c1f,
        CIDFontRevision => 0x0c20,
        CIDFontType => 0x0c21,
        CIDCount => 0x0c22,
        UIDBase => 0x0c23,
        FDArray => 0x0c24,
        FDSelect => 0x0c25,
        FontName => 0x0c26,
    }
}

pub fn num(n: Number) -> Num {
    match n {
        Number::Integer(v) => Num::I(v),
        Number::Real(v) => Num::R(v.to_bits()),
    }
}

pub fn dict(operations: &Operations) -> Dict {
    operations.0.iter().map(|(k, v)| (code(*k), v.iter().map(|&n| num(n)).collect())).collect()
}

pub fn index(index: &Index) -> MIndex {
    MIndex {
        count: index.count,
        offsize: index.offset_size,
        offsets: index.offsets.iter().map(|o| o.0).collect(),
        data: index.data.clone(),
    }
}

pub fn charset(set: &CharacterSet) -> Charset {
    match set {
        CharacterSet::ISOAdobe => Charset::Iso,
        CharacterSet::Expert => Charset::Expert,
        CharacterSet::ExpertSubset => Charset::Subset,
        CharacterSet::Format0(s) => Charset::F0(s.format, s.glyphs.clone()),
        CharacterSet::Format1(s) => {
            Charset::F1(s.format, s.ranges.iter().map(|r| (r.first_string_id, r.left_count)).collect())
        }
        CharacterSet::Format2(s) => {
            Charset::F2(s.format, s.ranges.iter().map(|r| (r.first_string_id, r.left_count)).collect())
        }
    }
}

pub fn encoding(encoding: &Encoding) -> Enc {
    match encoding {
        Encoding::Standard => Enc::Standard,
        Encoding::Expert => Enc::Expert,
        Encoding::Format0(e) => Enc::F0(e.format, e.code_count, e.codes.clone()),
        Encoding::Format1(e) => {
            Enc::F1(e.format, e.range_count, e.ranges.iter().map(|r| (r.first_code, r.left_count)).collect())
        }
        Encoding::FormatSupplemental(e) => {
            Enc::Supp(e.format, e.supplement_count, e.supplements.iter().map(|s| (s.code, s.glyph)).collect())
        }
    }
}

pub fn fdselect(encoding: &cid::Encoding) -> FdSel {
    match encoding {
        cid::Encoding::Format0(e) => FdSel::F0(e.format, e.dictionary_ids.clone()),
        cid::Encoding::Format3(e) => FdSel::F3(
            e.format,
            e.range_count,
            e.ranges.iter().map(|r| (r.first_glyph_id, r.dictionary_id)).collect(),
            e.glyph_count,
        ),
    }
}

pub fn record(record: &Record) -> Rec {
    match record {
        Record::CharacterNameKeyed(r) => {
            Rec::Name(Private { ops: dict(&r.operations), subrs: index(&r.subroutines) })
        }
        Record::CharacterIDKeyed(r) => Rec::Cid {
            registry: r.registry,
            ordering: r.ordering,
            supplement: num(r.supplement),
            fdsel: fdselect(&r.encoding),
            dicts: r.operations.iter().map(dict).collect(),
            recs: r
                .records
                .iter()
                .map(|r| Private { ops: dict(&r.operations), subrs: index(&r.subroutines) })
                .collect(),
        },
    }
}

pub fn set(set: &FontSet) -> Set {
    Set {
        header: (set.header.major, set.header.minor, set.header.header_size, set.header.offset_size),
        names: index(&set.names),
        top: set.operations.iter().map(dict).collect(),
        strings: index(&set.strings),
        gsubrs: index(&set.subroutines),
        encodings: set.encodings.iter().map(encoding).collect(),
        charstrings: set.character_strings.iter().map(|i| index(i)).collect(),
        charsets: set.character_sets.iter().map(charset).collect(),
        records: set.records.iter().map(record).collect(),
    }
}

/// Say where two readings differ.
pub fn difference(actual: &Set, expected: &Set) -> Option<String> {
    if actual == expected {
        return None;
    }
    macro_rules! field(($($name:ident),*) => ($(
        if actual.$name != expected.$name {
            let (a, e) = (format!("{:?}", actual.$name), format!("{:?}", expected.$name));
            let at = a.bytes().zip(e.bytes()).take_while(|(x, y)| x == y).count();
            let cut = |s: &str| {
                let bytes = s.as_bytes();
                let lo = at.saturating_sub(40).min(bytes.len());
                let hi = (at + 60).min(bytes.len());
                String::from_utf8_lossy(&bytes[lo..hi]).into_owned()
            };
            return Some(format!(concat!(stringify!($name), ": read …{}… but stored …{}…"), cut(&a), cut(&e)));
        }
    )*));
    field!(header, names, top, strings, gsubrs, encodings, charstrings, charsets, records);
    None
}
