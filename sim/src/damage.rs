//! Storage faults: what a disk, a cache or a transfer can do to a saved font.

use crate::cff::{Field, FieldKind, Survey};
use crate::genfont::any_int;
use crate::rng::Rng;
use crate::scenario::{Edit, Image};

fn set(at: usize, bytes: Vec<u8>, name: &str) -> Edit {
    Edit::Set { at, bytes, name: name.into() }
}

fn extreme(rng: &mut Rng, field: &Field, old: u64) -> u64 {
    let bits = 8 * field.len as u32;
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    mask & match rng.below(10) {
        0 => 0,
        1 => 1,
        2 => mask,
        3 => mask >> 1,
        4 => (mask >> 1) + 1,
        5 => old.wrapping_add(1),
        6 => old.wrapping_sub(1),
        7 => old.wrapping_add(rng.range(-20, 20) as u64),
        8 => any_int(rng) as u64,
        _ => rng.next(),
    }
}

fn word(d: &[u8], field: &Field) -> Option<u64> {
    if field.len > 8 {
        return None;
    }
    Some(d.get(field.at..field.at + field.len)?.iter().fold(0u64, |a, &b| a << 8 | b as u64))
}

fn put(at: usize, len: usize, value: u64, name: &str) -> Edit {
    set(at, value.to_be_bytes()[8 - len..].to_vec(), name)
}

/// Damage the offsets of one index together: a consistent mistake of whoever wrote it.
fn offsets(rng: &mut Rng, d: &[u8], survey: &Survey) -> Option<Edit> {
    let fields = &survey.fields;
    let starts: Vec<usize> = (1..fields.len())
        .filter(|&i| fields[i].kind == FieldKind::Offset && fields[i - 1].kind == FieldKind::OffSize)
        .collect();
    if starts.is_empty() {
        return None;
    }
    let first = *rng.pick(&starts);
    let len = fields[first].len;
    let mut last = first;
    while last + 1 < fields.len()
        && fields[last + 1].kind == FieldKind::Offset
        && fields[last + 1].len == len
        && fields[last + 1].at == fields[last].at + len
    {
        last += 1;
    }
    let count = last - first + 1;
    let mut values: Vec<u64> = fields[first..=last].iter().filter_map(|f| word(d, f)).collect();
    if values.len() < count {
        return None;
    }
    let delta = match rng.below(4) {
        0 => 1u64 << (8 * rng.below(len)),
        1 => (rng.next() as u8 as u64) << (8 * rng.below(len)),
        2 => rng.range(-3, 3) as u64,
        _ => 1,
    };
    match rng.below(5) {
        // All of them, those from one on, those up to one, or a single one.
        0 | 1 => values.iter_mut().for_each(|v| *v = v.wrapping_add(delta)),
        2 => {
            let from = rng.below(count);
            values[from..].iter_mut().for_each(|v| *v = v.wrapping_add(delta));
        }
        3 => {
            let to = rng.below(count);
            values[..=to].iter_mut().for_each(|v| *v = v.wrapping_add(delta));
        }
        _ => {
            let (a, b) = (rng.below(count), rng.below(count));
            values.swap(a, b);
        }
    }
    let bytes: Vec<u8> = values.iter().flat_map(|v| v.to_be_bytes()[8 - len..].to_vec()).collect();
    let at = fields[first].at;
    if bytes == d[at..at + bytes.len()] {
        return None;
    }
    Some(set(at, bytes, "damaged offsets"))
}

/// Damage a field in a way that depends on what it means.
fn meaning(rng: &mut Rng, d: &[u8], survey: &Survey) -> Option<Edit> {
    let field = *rng.pick(&survey.fields);
    if field.at + field.len > d.len() {
        return None;
    }
    let known = crate::cff::OPERATORS;
    match field.kind {
        FieldKind::Operator => {
            let mut code = rng.pick(known).0;
            match rng.below(4) {
                0 => code = code.wrapping_add(1),
                1 => code = code.wrapping_sub(1),
                2 if field.len == 2 => code = 0x0c00 | rng.next() as u8 as u16,
                2 => code = rng.next() as u8 as u16,
                _ => {}
            }
            if field.len == 2 {
                Some(put(field.at, 2, code as u64, "exchanged operator"))
            } else if code < 256 {
                Some(put(field.at, 1, code as u64, "exchanged operator"))
            } else {
                None
            }
        }
        FieldKind::Format => {
            let format = *rng.pick(&[0u64, 1, 2, 3, 4, 5, 127, 128, 129, 255]);
            Some(put(field.at, 1, format, "exchanged format"))
        }
        FieldKind::Real => {
            let at = field.at + rng.below(field.len);
            let nibble = *rng.pick(&[0u8, 9, 10, 11, 12, 13, 14, 15]);
            let byte = if rng.chance(1, 2) { d[at] & 0x0f | nibble << 4 } else { d[at] & 0xf0 | nibble };
            Some(set(at, vec![byte], "damaged real"))
        }
        FieldKind::Left | FieldKind::Count8 | FieldKind::Count16 | FieldKind::OffSize => {
            let old = word(d, &field)?;
            let new = old.wrapping_add(*rng.pick(&[1, 1, u64::MAX, u64::MAX, 2, 256, 128]));
            Some(put(field.at, field.len, new, "miscounted"))
        }
        _ => {
            // One byte of it.
            let at = field.at + rng.below(field.len.max(1)).min(field.len.saturating_sub(1));
            let byte = match rng.below(4) {
                0 => d[at].wrapping_add(1),
                1 => d[at].wrapping_sub(1),
                2 => d[at] ^ 0x80,
                _ => rng.next() as u8,
            };
            Some(set(at, vec![byte], "damaged byte"))
        }
    }
}

fn exchange(rng: &mut Rng, d: &[u8], survey: &Survey) -> Option<Edit> {
    let a = *rng.pick(&survey.fields);
    let alike: Vec<&Field> =
        survey.fields.iter().filter(|f| f.kind == a.kind && f.len == a.len && f.at != a.at).collect();
    if alike.is_empty() {
        return None;
    }
    let b = **rng.pick(&alike);
    let (lo, hi) = (a.at.min(b.at), a.at.max(b.at));
    if hi + a.len > d.len() || hi < lo + a.len || hi - lo > 5000 {
        return None;
    }
    let mut bytes = d[lo..hi + a.len].to_vec();
    let n = bytes.len();
    for k in 0..a.len {
        bytes.swap(k, n - a.len + k);
    }
    Some(set(lo, bytes, "exchanged fields"))
}

fn overwrite(rng: &mut Rng, d: &[u8], field: &Field, name: &str) -> Option<Edit> {
    if field.at + field.len > d.len() || field.len > 8 {
        return None;
    }
    let old = d[field.at..field.at + field.len].iter().fold(0u64, |a, &b| a << 8 | b as u64);
    let mut new = extreme(rng, field, old);
    if field.kind == FieldKind::Operand && field.len == 4 && rng.chance(1, 2) {
        // Offsets and sizes that point before, at the edge of, or far past the font.
        let n = d.len() as i64;
        new = *rng.pick(&[-1, -2, -4, -16, -n, n, n - 1, n + 1, i32::MIN as i64, i32::MAX as i64, 0, 4, 1 << 30, -100])
            as u64
            & 0xffffffff;
    }
    let bytes = new.to_be_bytes()[8 - field.len..].to_vec();
    if bytes == d[field.at..field.at + field.len] {
        return None;
    }
    Some(set(field.at, bytes, name))
}

/// Local subroutines around the very start of the font, which then is made such that an
/// index could be there.
fn start(rng: &mut Rng, d: &[u8], survey: &Survey) -> Vec<Edit> {
    let mut places = vec![];
    for span in survey.spans.iter().filter(|s| s.name == "private" && s.hi <= d.len()) {
        for at in span.lo..span.hi.saturating_sub(5) {
            if d[at] == 29 && d[at + 5] == 0x13 {
                places.push((at + 1, span.lo));
            }
        }
    }
    if places.is_empty() {
        return vec![];
    }
    let (at, origin) = *rng.pick(&places);
    let to = *rng.pick(&[0, 0, 0, 1, -1, 4]);
    let mut edits = vec![set(at, (to - origin as i32).to_be_bytes().to_vec(), "damaged operand")];
    if rng.chance(3, 4) {
        edits.push(set(0, vec![0, 0], "damaged field"));
    }
    edits
}

/// Several faults close to each other, so that which one is met first decides what the
/// failure says.
pub fn several(rng: &mut Rng, image: &mut Image, survey: &Survey) {
    let d = image.render();
    let is = |f: &&Field| matches!(f.kind, FieldKind::Operand | FieldKind::Operator);
    let all: Vec<&Field> = survey.fields.iter().filter(is).collect();
    if all.is_empty() {
        return;
    }
    let first = rng.below(all.len());
    let near = &all[first..(first + 16).min(all.len())];
    for _ in 0..rng.size(2, 6) {
        let field = **rng.pick(near);
        let edit = match field.kind {
            // A negative number as wide as what is there.
            FieldKind::Operand if rng.chance(2, 3) => Some(put(field.at, 1, 0xff, "damaged operand")),
            FieldKind::Operator if rng.chance(7, 8) => None,
            _ => overwrite(rng, &d, &field, "damaged operand"),
        };
        image.edits.extend(edit);
    }
}

/// Damage a saved font; `other` is what was stored before.
pub fn damage(rng: &mut Rng, image: &mut Image, survey: &Survey, other: &[u8]) {
    let d = image.render();
    if d.is_empty() {
        return;
    }
    let n = d.len();
    if rng.chance(1, 100) {
        let edits = start(rng, &d, survey);
        if !edits.is_empty() {
            image.edits.extend(edits);
            return;
        }
    }
    let times = if rng.chance(2, 3) { 1 } else { rng.size(1, 4) };
    for _ in 0..times {
        let operands: Vec<&Field> = survey.fields.iter().filter(|f| f.kind == FieldKind::Operand).collect();
        let edit = match rng.below(22) {
            0 | 1 => {
                let at = rng.below(n);
                Some(set(at, vec![d[at] ^ 1 << rng.below(8)], "bit rot"))
            }
            2 => {
                let size = *rng.pick(&[1, 4, 8, 16, 64, 512]);
                let at = rng.below(n) / size * size;
                let len = size.min(n - at);
                let fill = *rng.pick(&[0, 0, 0xff]);
                Some(set(at, vec![fill; len], "lost sector"))
            }
            3 if !other.is_empty() => {
                let size = *rng.pick(&[4, 8, 16, 64]);
                let at = rng.below(n.min(other.len())) / size * size;
                let len = size.min(n - at).min(other.len() - at);
                Some(set(at, other[at..at + len].to_vec(), "stale sector"))
            }
            4 => {
                let size = rng.size(1, 32).min(n);
                let (from, to) = (rng.below(n - size + 1), rng.below(n - size + 1));
                Some(set(to, d[from..from + size].to_vec(), "misdirected write"))
            }
            5 if other.len() > 1 => {
                let at = rng.below(n.min(other.len()));
                Some(set(at, other[at..].to_vec(), "torn write"))
            }
            6 | 7 | 8 if !survey.fields.is_empty() => {
                let field = *rng.pick(&survey.fields);
                overwrite(rng, &d, &field, "damaged field")
            }
            9 | 10 | 11 | 12 if !operands.is_empty() => {
                let field = **rng.pick(&operands);
                overwrite(rng, &d, &field, "damaged operand")
            }
            13 => {
                let at = rng.below(n);
                let bytes = if rng.chance(1, 2) {
                    let mut b = vec![rng.next() as u8];
                    b.extend(&d[at..n - 1]);
                    b
                } else {
                    d[at + 1..].to_vec()
                };
                Some(set(at, bytes, "shifted bytes"))
            }
            15 | 16 => offsets(rng, &d, survey),
            17 | 18 | 19 if !survey.fields.is_empty() => meaning(rng, &d, survey),
            20 if !survey.fields.is_empty() => exchange(rng, &d, survey),
            14 => Some(Edit::Cut { len: rng.below(n), name: "cut short".into() }),
            _ => {
                let at = rng.below(n);
                let len = rng.size(1, 8).min(n - at);
                Some(set(at, rng.bytes(len), "random bytes"))
            }
        };
        if let Some(edit) = edit {
            image.edits.push(edit);
        }
    }
}
