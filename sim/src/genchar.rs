//! Generates charstrings with their subroutines: well-formed and hostile ones.

use crate::rng::Rng;
use crate::t2;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Tables {
    pub codes: Vec<Vec<u8>>,
    pub global: Vec<Vec<u8>>,
    pub local: Vec<Vec<u8>>,
}

#[derive(Clone, Debug)]
enum Tok {
    Bytes(Vec<u8>),
    Call(bool, usize),
}

pub fn int(rng: &mut Rng, v: i64) -> Vec<u8> {
    let mut forms = vec![];
    if (-107..=107).contains(&v) {
        forms.push(vec![(v + 139) as u8]);
    }
    if (108..=1131).contains(&v) {
        forms.push(vec![(247 + (v - 108) / 256) as u8, ((v - 108) % 256) as u8]);
    }
    if (-1131..=-108).contains(&v) {
        forms.push(vec![(251 + (-v - 108) / 256) as u8, ((-v - 108) % 256) as u8]);
    }
    forms.push(vec![28, (v >> 8) as u8, v as u8]);
    forms.push(vec![255, (v >> 8) as u8, v as u8, 0, 0]);
    if rng.chance(3, 4) {
        forms[0].clone()
    } else {
        rng.pick(&forms).clone()
    }
}

pub fn number(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => {
            let b = rng.bytes(4);
            vec![255, b[0], b[1], b[2], b[3]]
        }
        1 => {
            let v = *rng.pick(&[
                0, 107, 108, -107, -108, 363, 364, 1131, 1132, -1131, -1132, 32767, -32768, 255, 256, -256,
            ]);
            int(rng, v)
        }
        2 => {
            let v = rng.range(-32768, 32767);
            int(rng, v)
        }
        _ => {
            let v = rng.range(-300, 300);
            int(rng, v)
        }
    }
}

const ESC: u8 = 12;

/// Tokens that push exactly one operand.
fn expression(rng: &mut Rng, depth: usize, out: &mut Vec<Tok>) {
    if depth == 0 || rng.chance(3, 5) {
        out.push(Tok::Bytes(number(rng)));
        return;
    }
    let op = |out: &mut Vec<Tok>, code: u8| out.push(Tok::Bytes(vec![ESC, code]));
    match rng.below(9) {
        0 => {
            expression(rng, depth - 1, out);
            let code = *rng.pick(&[0x05, 0x09, 0x0e, 0x1a]);
            op(out, code);
        }
        1 | 2 => {
            expression(rng, depth - 1, out);
            expression(rng, depth - 1, out);
            let code = *rng.pick(&[0x0a, 0x0b, 0x0c, 0x18, 0x03, 0x04, 0x0f]);
            op(out, code);
        }
        3 => {
            expression(rng, depth - 1, out);
            expression(rng, depth - 1, out);
            if rng.chance(1, 2) {
                op(out, 0x1c);
            }
            op(out, 0x12);
        }
        4 => {
            for _ in 0..4 {
                expression(rng, depth - 1, out);
            }
            op(out, 0x16);
        }
        5 => {
            expression(rng, depth - 1, out);
            op(out, 0x1b);
            let code = *rng.pick(&[0x0a, 0x18, 0x12, 0x0b]);
            op(out, code);
        }
        6 | 7 => {
            // Fill, roll and reduce.
            let n = rng.size(1, 6);
            for _ in 0..n {
                expression(rng, depth - 1, out);
            }
            let span = rng.range(0, n as i64);
            out.push(Tok::Bytes(int(rng, span)));
            let shift = match rng.below(4) {
                0 => rng.range(-40, 40),
                1 => *rng.pick(&[-32768, 32767, -1131, 1000]),
                _ => rng.range(-3, 3),
            };
            out.push(Tok::Bytes(int(rng, shift)));
            op(out, 0x1e);
            for _ in 1..n {
                let code = *rng.pick(&[0x0b, 0x12, 0x0a]);
                op(out, code);
            }
        }
        _ => {
            let n = rng.size(1, 4);
            for _ in 0..n {
                expression(rng, depth - 1, out);
            }
            let i = rng.range(-2, n as i64 - 1);
            out.push(Tok::Bytes(int(rng, i)));
            op(out, 0x1d);
            for _ in 0..n {
                let code = *rng.pick(&[0x0b, 0x0a]);
                op(out, code);
            }
        }
    }
}

fn operands(rng: &mut Rng, n: usize, out: &mut Vec<Tok>) {
    for _ in 0..n {
        let depth = if n < 12 && rng.chance(1, 6) { 2 } else { 0 };
        expression(rng, depth, out);
    }
}

fn legal(rng: &mut Rng, op: u16) -> usize {
    let k = match rng.below(10) {
        0 => rng.size(4, 12),
        _ => rng.size(1, 3),
    };
    match op {
        0x15 => 2,
        0x16 | 0x04 => 1,
        0x05 => 2 * k,
        0x06 | 0x07 => k,
        0x08 => 6 * k,
        0x1a | 0x1b | 0x1e | 0x1f => 4 * k + rng.below(2),
        0x18 => 6 * k + 2,
        0x19 => 2 * k + 6,
        0x0c23 => 13,
        0x0c25 => 11,
        0x0c22 => 7,
        0x0c24 => 9,
        0x01 | 0x03 | 0x12 | 0x17 => 2 * k,
        _ => 0,
    }
}

fn operator(op: u16) -> Tok {
    Tok::Bytes(if op > 255 { vec![ESC, op as u8] } else { vec![op as u8] })
}

const PATH: &[u16] = &[
    0x05, 0x06, 0x07, 0x08, 0x18, 0x19, 0x1a, 0x1b, 0x1e, 0x1f, 0x0c22, 0x0c23, 0x0c24, 0x0c25,
];

/// One well-formed program as tokens.
fn program(rng: &mut Rng, long: bool) -> Vec<Tok> {
    let mut out = vec![];
    let mut stems = 0usize;
    let mut width = rng.chance(1, 2);
    macro_rules! maybe_width(() => (
        if width {
            expression(rng, 1, &mut out);
        }
        #[allow(unused_assignments)]
        { width = false; }
    ));
    let masks = rng.chance(1, 2);
    if rng.chance(2, 3) {
        let many = masks && rng.chance(1, 5);
        let times = match rng.below(10) {
            // As many as a glyph may have, and more.
            _ if many => rng.size(3, 24),
            0 => rng.size(2, 5),
            _ => 1,
        };
        for i in 0..times {
            maybe_width!();
            let op = if masks { *rng.pick(&[0x12, 0x17]) } else { *rng.pick(&[0x01, 0x03]) };
            let n = if many { 2 * rng.size(8, 23) } else { legal(rng, op) };
            operands(rng, n, &mut out);
            if i + 1 == times && masks && rng.chance(1, 2) {
                // The operands are left to the mask operator.
                stems += n / 2;
                out.push(operator(*rng.pick(&[0x13, 0x14])));
                out.push(Tok::Bytes(rng.bytes((stems + 7) / 8)));
            } else {
                stems += n / 2;
                out.push(operator(op));
            }
        }
    }
    let parts = if long { rng.size(10, 60) } else { rng.size(0, 6) };
    for _ in 0..parts {
        if masks && rng.chance(1, 3) {
            maybe_width!();
            out.push(operator(*rng.pick(&[0x13, 0x14])));
            out.push(Tok::Bytes(rng.bytes((stems + 7) / 8)));
        }
        maybe_width!();
        let op = *rng.pick(&[0x15, 0x16, 0x04]);
        let n = legal(rng, op);
        operands(rng, n, &mut out);
        out.push(operator(op));
        for _ in 0..rng.size(0, 4) {
            let op = *rng.pick(PATH);
            let n = legal(rng, op);
            operands(rng, n, &mut out);
            out.push(operator(op));
        }
    }
    if rng.chance(9, 10) {
        maybe_width!();
        if rng.chance(1, 8) {
            operands(rng, 4, &mut out);
        }
        out.push(operator(0x0e));
    }
    out
}

struct Outliner<'r> {
    rng: &'r mut Rng,
    subrs: [Vec<Vec<Tok>>; 2],
}

impl Outliner<'_> {
    /// Move runs of tokens into subroutines, down to `depth` levels.
    fn outline(&mut self, mut tokens: Vec<Tok>, depth: usize, rate: usize) -> Vec<Tok> {
        if depth == 0 || tokens.is_empty() {
            return tokens;
        }
        for _ in 0..rate {
            if tokens.is_empty() {
                break;
            }
            let lo = self.rng.below(tokens.len());
            let hi = if self.rng.chance(1, 4) {
                tokens.len()
            } else {
                (lo + self.rng.size(0, 12)).min(tokens.len())
            };
            // A mask operator and its bytes stay together, and no call is moved
            // below the level it was counted for.
            let split = |i: usize, t: &[Tok]| {
                i > 0 && i < t.len() && matches!(&t[i - 1], Tok::Bytes(b) if b == &[0x13] || b == &[0x14])
            };
            if split(lo, &tokens) || split(hi, &tokens) {
                continue;
            }
            if tokens[lo..hi].iter().any(|t| matches!(t, Tok::Call(..))) {
                continue;
            }
            let body: Vec<Tok> = tokens[lo..hi].to_vec();
            let ends = hi == tokens.len() && matches!(body.last(), Some(Tok::Bytes(b)) if b == &[0x0e]);
            let mut body = self.outline(body, depth - 1, 1);
            // An end met in a nested subroutine must be the last thing everywhere.
            if !ends || self.rng.chance(0, 1) {
                body.push(Tok::Bytes(vec![0x0b]));
            }
            let global = self.rng.chance(1, 2) as usize;
            self.subrs[global].push(body);
            let call = Tok::Call(global == 1, self.subrs[global].len() - 1);
            tokens.splice(lo..hi, [call]);
        }
        tokens
    }
}

fn table_size(rng: &mut Rng, used: usize, large: bool) -> usize {
    let n = match rng.below(if large { 8 } else { 16 }) {
        0 => *rng.pick(&[1239, 1240, 1241]),
        1 if large => *rng.pick(&[33899, 33900, 33901]),
        2..=5 => used + rng.below(5),
        _ => used,
    };
    n.max(used)
}

/// Well-formed programs over shared subroutine tables.
pub fn well_formed(rng: &mut Rng, count: usize, deep: bool, large: bool) -> Tables {
    sized(rng, count, deep, large, 0)
}

/// The same with at least so many subroutines in each table that is used.
pub fn sized(rng: &mut Rng, count: usize, deep: bool, large: bool, least: usize) -> Tables {
    let mut subrs = [vec![], vec![]];
    let mut programs = vec![];
    for _ in 0..count {
        let long = rng.chance(1, 8);
        let mut tokens = program(rng, long);
        let (depth, rate) = match rng.below(4) {
            0 => (0, 0),
            1 if deep => (t2::NESTING, 2),
            2 => (3, rng.size(1, 4)),
            _ => (1, rng.size(1, 5)),
        };
        let mut outliner = Outliner { rng, subrs };
        tokens = outliner.outline(tokens, depth, rate);
        if deep && depth == t2::NESTING {
            // Wrap what is there so that the deepest level is reached.
            for _ in 0..t2::NESTING {
                let nested = depth_of(&tokens, &outliner.subrs);
                if nested >= t2::NESTING {
                    break;
                }
                let ends = matches!(tokens.last(), Some(Tok::Bytes(b)) if b == &[0x0e])
                    || matches!(tokens.last(), Some(Tok::Call(g, i)) if ends(&outliner.subrs, *g, *i));
                let lo = outliner.rng.below(2).min(tokens.len());
                let split =
                    lo > 0 && matches!(&tokens[lo - 1], Tok::Bytes(b) if b == &[0x13] || b == &[0x14]);
                let lo = if split { 0 } else { lo };
                let mut body: Vec<Tok> = tokens.drain(lo..).collect();
                if !ends {
                    body.push(Tok::Bytes(vec![0x0b]));
                }
                let global = outliner.rng.chance(1, 2) as usize;
                outliner.subrs[global].push(body);
                tokens.push(Tok::Call(global == 1, outliner.subrs[global].len() - 1));
            }
        }
        subrs = outliner.subrs;
        programs.push(tokens);
    }
    // Place the subroutines in tables.
    let mut places: [Vec<usize>; 2] = [vec![], vec![]];
    let mut sizes = [0, 0];
    for k in 0..2 {
        sizes[k] = table_size(rng, subrs[k].len(), large);
        if !subrs[k].is_empty() {
            sizes[k] = sizes[k].max(least);
        }
        let mut free: Vec<usize> = if sizes[k] > 2 * subrs[k].len() + 64 {
            // Mostly at the edges of a large table.
            let mut edges: Vec<usize> = (0..subrs[k].len() + 1).chain(sizes[k] - subrs[k].len() - 1..sizes[k]).collect();
            edges.sort();
            edges.dedup();
            edges
        } else {
            (0..sizes[k]).collect()
        };
        rng.shuffle(&mut free);
        places[k] = free[..subrs[k].len()].to_vec();
    }
    let render = |rng: &mut Rng, tokens: &[Tok]| {
        let mut bytes = vec![];
        for token in tokens {
            match token {
                Tok::Bytes(b) => bytes.extend(b),
                Tok::Call(global, i) => {
                    let k = *global as usize;
                    let v = places[k][*i] as i64 - t2::bias(sizes[k]);
                    bytes.extend(int(rng, v));
                    bytes.push(if *global { 29 } else { 10 });
                }
            }
        }
        bytes
    };
    let mut tables = Tables::default();
    for program in &programs {
        let bytes = render(rng, program);
        tables.codes.push(bytes);
    }
    for k in 0..2 {
        let mut table: Vec<Vec<u8>> = (0..sizes[k]).map(|_| vec![0x0b]).collect();
        for (i, subr) in subrs[k].iter().enumerate() {
            table[places[k][i]] = render(rng, subr);
        }
        if k == 0 {
            tables.local = table;
        } else {
            tables.global = table;
        }
    }
    tables
}

fn ends(subrs: &[Vec<Vec<Tok>>; 2], global: bool, i: usize) -> bool {
    !matches!(subrs[global as usize][i].last(), Some(Tok::Bytes(b)) if b == &[0x0b])
}

fn depth_of(tokens: &[Tok], subrs: &[Vec<Vec<Tok>>; 2]) -> usize {
    tokens
        .iter()
        .map(|t| match t {
            Tok::Call(g, i) => 1 + depth_of(&subrs[*g as usize][*i], subrs),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

/// Keep the work bounded whatever path is taken: at most a few calls per subroutine.
fn tame(table: &mut [Vec<u8>]) {
    for code in table.iter_mut() {
        let mut calls = 0;
        for b in code.iter_mut() {
            if *b == 10 || *b == 29 {
                calls += 1;
                if calls > 2 {
                    *b = 139;
                }
            }
        }
    }
}

const OPS: &[u16] = &[
    0x01, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x0a, 0x0b, 0x0e, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a,
    0x1b, 0x1d, 0x1e, 0x1f, 0x0c03, 0x0c04, 0x0c05, 0x0c09, 0x0c0a, 0x0c0b, 0x0c0c, 0x0c0e, 0x0c0f, 0x0c12, 0x0c14,
    0x0c15, 0x0c16, 0x0c17, 0x0c18, 0x0c1a, 0x0c1b, 0x0c1c, 0x0c1d, 0x0c1e, 0x0c22, 0x0c23, 0x0c24, 0x0c25, 0x00,
    0x02, 0x09, 0x0d, 0x0f, 0x10, 0x11, 0x0c00, 0x0c26, 0x0cff,
];

/// Pushes a number of any magnitude that arithmetic can reach.
fn extreme(rng: &mut Rng, out: &mut Vec<u8>) {
    match rng.below(7) {
        0 => out.extend([255, 0x7f, 0xff, 0xff, 0xff]),
        1 => out.extend([255, 0x80, 0, 0, 0]),
        2 => {
            // A product of large numbers, up to 2^31 and beyond.
            let n = rng.size(1, 6);
            out.extend([28, 0x40, 0]);
            for _ in 0..n {
                match rng.below(3) {
                    0 => out.extend([28, 0x40, 0, ESC, 0x18]),
                    1 => out.extend([141, ESC, 0x18]),
                    _ => out.extend([28, 0x80, 0, ESC, 0x18]),
                }
            }
        }
        3 => {
            // 2^31 exactly, or its negative.
            out.extend([28, 0x40, 0, 28, 0x40, 0, ESC, 0x18, 147, ESC, 0x18]);
            if rng.chance(1, 2) {
                out.extend([ESC, 0x0e]);
            }
        }
        4 => out.extend([140, 139, ESC, 0x0c]),
        5 => out.extend([138, ESC, 0x1a]),
        _ => {
            let n = number(rng);
            out.extend(n)
        }
    }
}

fn soup(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..n {
        match rng.below(10) {
            0 => extreme(rng, &mut out),
            1..=5 => {
                let b = number(rng);
                out.extend(b)
            }
            _ => {
                let op = *rng.pick(OPS);
                if op > 255 {
                    out.push(ESC);
                }
                out.push(op as u8);
            }
        }
    }
    out
}

/// Arbitrary and adversarial programs.
pub fn hostile(rng: &mut Rng) -> (Tables, &'static str) {
    let mut t = Tables::default();
    let kind;
    match rng.below(14) {
        0 | 1 => {
            kind = "random bytes";
            let n = rng.size(0, 80);
            t.codes.push(rng.bytes(n));
            for _ in 0..rng.below(4) {
                let n = rng.size(0, 30);
                t.local.push(rng.bytes(n));
                let n = rng.size(0, 30);
                t.global.push(rng.bytes(n));
            }
        }
        2 | 3 => {
            kind = "token soup";
            let n = rng.size(0, 60);
            t.codes.push(soup(rng, n));
            for _ in 0..rng.below(4) {
                let n = rng.size(0, 12);
                t.local.push(soup(rng, n));
                let n = rng.size(0, 12);
                t.global.push(soup(rng, n));
            }
        }
        4 | 5 => {
            kind = "damaged program";
            t = well_formed(rng, 1, true, false);
            let damage = rng.size(1, 6);
            for _ in 0..damage {
                let table = match rng.below(4) {
                    0 if !t.local.is_empty() => &mut t.local,
                    1 if !t.global.is_empty() => &mut t.global,
                    _ => &mut t.codes,
                };
                let i = rng.below(table.len());
                let code = &mut table[i];
                match rng.below(4) {
                    0 => code.truncate(rng.below(code.len() + 1)),
                    1 => {
                        let at = rng.below(code.len() + 1);
                        let n = rng.size(1, 4);
                        let extra = rng.bytes(n);
                        code.splice(at..at, extra);
                    }
                    _ if code.is_empty() => {}
                    2 => {
                        let at = rng.below(code.len());
                        code[at] = rng.next() as u8;
                    }
                    _ => {
                        let at = rng.below(code.len());
                        code.remove(at);
                    }
                }
            }
        }
        6 => {
            kind = "long chain without a path operator";
            let n = match rng.below(4) {
                0 => rng.size(20_000, 60_000),
                _ => rng.size(10, 3000),
            };
            let pair: Vec<u8> = match rng.below(5) {
                0 => vec![139, ESC, 0x12],
                1 => vec![139, ESC, 0x09, ESC, 0x12],
                2 => vec![139, 140, ESC, 0x1c, ESC, 0x12, ESC, 0x12],
                3 => vec![139, ESC, 0x05],
                _ => vec![139, ESC, 0x1b, ESC, 0x0a, ESC, 0x12],
            };
            let mut code = vec![];
            for _ in 0..n {
                code.extend(&pair);
            }
            if rng.chance(1, 2) {
                code.extend([139, 22, 14]);
            }
            t.codes.push(code);
        }
        7 => {
            kind = "calls and returns in a row";
            let n = match rng.below(4) {
                0 => rng.size(20_000, 60_000),
                _ => rng.size(10, 3000),
            };
            t.local.push(vec![0x0b]);
            t.global.push(vec![139, ESC, 0x12, 0x0b]);
            let mut code = vec![];
            for _ in 0..n {
                code.extend([139 - 107, *rng.pick(&[10, 29])]);
            }
            t.codes.push(code);
        }
        8 => {
            kind = "recursive calls";
            let n = rng.size(1, 4);
            for _ in 0..n {
                for table in [&mut t.local, &mut t.global] {
                    let mut code = vec![];
                    let steps = rng.below(3);
                    if steps > 0 {
                        code.extend(soup(rng, steps));
                    }
                    let i = rng.below(n) as i64 - 107;
                    code.extend(int(rng, i));
                    code.push(*rng.pick(&[10, 29]));
                    table.push(code);
                }
            }
            t.codes.push(vec![139 - 107, *rng.pick(&[10, 29])]);
        }
        9 | 10 => {
            kind = "nested calls around the limit";
            let depth = rng.size(t2::NESTING - 2, t2::NESTING + 3);
            // Level i calls level i + 1.
            let global: Vec<bool> = (0..depth).map(|_| rng.chance(1, 2)).collect();
            let mut index = vec![];
            let (mut l, mut g) = (0, 0);
            for &is in &global {
                let k = if is { &mut g } else { &mut l };
                index.push(*k);
                *k += 1;
            }
            let mark = |rng: &mut Rng, code: &mut Vec<u8>| {
                if rng.chance(1, 2) {
                    let v = rng.range(-99, 99);
                    code.extend(int(rng, v));
                    code.push(22);
                }
            };
            for i in 0..depth {
                let mut code = vec![];
                mark(rng, &mut code);
                if i + 1 < depth {
                    code.extend(int(rng, index[i + 1] as i64 - 107));
                    code.push(if global[i + 1] { 29 } else { 10 });
                    mark(rng, &mut code);
                }
                code.push(0x0b);
                if global[i] {
                    t.global.push(code);
                } else {
                    t.local.push(code);
                }
            }
            let mut code = vec![];
            for _ in 0..rng.size(1, 2) {
                mark(rng, &mut code);
                code.extend(int(rng, index[0] as i64 - 107));
                code.push(if global[0] { 29 } else { 10 });
            }
            mark(rng, &mut code);
            code.push(14);
            t.codes.push(code);
        }
        11 => {
            kind = "extreme operands of roll, index and calls";
            let mut code = vec![];
            for _ in 0..rng.size(1, 12) {
                let b = number(rng);
                code.extend(b);
            }
            for _ in 0..rng.size(1, 3) {
                match rng.below(6) {
                    0 => {
                        let n = rng.range(-2, 14);
                        code.extend(int(rng, n));
                        extreme(rng, &mut code);
                        code.extend([ESC, 0x1e]);
                    }
                    1 => {
                        extreme(rng, &mut code);
                        extreme(rng, &mut code);
                        code.extend([ESC, 0x1e]);
                    }
                    2 => {
                        extreme(rng, &mut code);
                        code.extend([ESC, 0x1d]);
                    }
                    3 => {
                        // As if there was something, but for the upper bits.
                        let n = rng.range(-107, 3);
                        code.extend(int(rng, n));
                        beyond(rng, &mut code);
                        match rng.below(3) {
                            0 => code.extend([ESC, 0x1d]),
                            _ => code.push(*rng.pick(&[10, 29])),
                        }
                    }
                    _ => {
                        extreme(rng, &mut code);
                        code.push(*rng.pick(&[10, 29]));
                    }
                }
            }
            code.extend([5, 14]);
            for _ in 0..rng.below(3) {
                t.local.push(vec![0x0b]);
                t.global.push(vec![0x0b]);
            }
            t.codes.push(code);
        }
        12 => {
            kind = "many operands";
            let n = rng.size(40, 3000);
            let mut code = vec![];
            for _ in 0..n {
                let b = number(rng);
                code.extend(b);
            }
            let op = *rng.pick(OPS);
            if op > 255 {
                code.push(ESC);
            }
            code.push(op as u8);
            let extra = rng.below(20);
            code.extend(rng.bytes(extra));
            t.codes.push(code);
        }
        _ => {
            kind = "program with something after its end";
            t = well_formed(rng, 1, false, false);
            let n = rng.size(1, 6);
            let extra = if rng.chance(1, 2) { rng.bytes(n) } else { soup(rng, n) };
            let table = match rng.below(3) {
                0 if !t.local.is_empty() => &mut t.local,
                1 if !t.global.is_empty() => &mut t.global,
                _ => &mut t.codes,
            };
            let i = rng.below(table.len());
            table[i].extend(extra);
        }
    }
    if kind == "random bytes" || kind == "token soup" || kind == "recursive calls" || kind == "damaged program" {
        tame(&mut t.local);
        tame(&mut t.global);
    }
    (t, kind)
}

/// Calls that fan out over several levels: more operators than anyone can execute.
pub fn fan_out(rng: &mut Rng) -> Tables {
    let mut t = Tables::default();
    let levels = rng.size(3, t2::NESTING);
    let calls = if levels < 5 { rng.size(100, 300) } else { rng.size(16, 120) };
    let global = rng.chance(1, 3);
    let call = |level: usize| [139 - 107 + level as u8, if global { 29 } else { 10 }];
    let mut table = vec![];
    for level in 0..levels {
        let mut code = vec![];
        if level + 1 < levels {
            for _ in 0..calls {
                if rng.chance(1, 50) {
                    code.extend([139, ESC, 0x12]);
                }
                code.extend(call(level + 1));
            }
        } else {
            match rng.below(6) {
                0 | 1 => {}
                2 => code.extend(vec![139; rng.clone().size(1, 30_000)]),
                3 => code.extend([139, ESC, 0x1b]),
                4 => code.extend([139, ESC, 0x12]),
                _ => code.extend([140, 22]),
            }
        }
        code.push(0x0b);
        table.push(code);
    }
    if global {
        t.global = table;
    } else {
        t.local = table;
    }
    let mut code = call(0).to_vec();
    code.push(14);
    t.codes.push(code);
    t
}

/// A short program whose nested subroutines yield very many operations.
pub fn prolific(rng: &mut Rng) -> Tables {
    let mut leaf = vec![];
    let operations = rng.size(1, 6);
    for _ in 0..operations {
        let op = match rng.below(8) {
            0 => *rng.pick(&[0x01, 0x03, 0x12, 0x17]),
            1..=3 => *rng.pick(&[0x04, 0x15, 0x16]),
            _ => *rng.pick(PATH),
        };
        let n = legal(rng, op).min(14) + rng.chance(1, 8) as usize;
        for _ in 0..n {
            leaf.extend(int(rng, rng.clone().next() as i64 % 1000));
        }
        match operator(op) {
            Tok::Bytes(bytes) => leaf.extend(bytes),
            _ => unreachable!(),
        }
    }
    let levels = rng.size(1, t2::NESTING - 1);
    // What is left for one token of the leaf when all is done.
    let total = *rng.pick(&[3_000, 20_000, 80_000, 400_000]) as f64 / (operations * 5) as f64;
    let calls = (total.powf(1.0 / levels as f64).ceil() as usize).max(2);
    let global = rng.chance(1, 3);
    let call = |level: usize| [139 - 107 + level as u8, if global { 29 } else { 10 }];
    leaf.push(0x0b);
    let mut table = vec![leaf];
    for level in 0..levels {
        let mut code = call(level).repeat(calls);
        code.push(0x0b);
        table.push(code);
    }
    let mut code = call(levels).to_vec();
    match rng.below(6) {
        0 => {}
        1 => code.push(0x0c),
        2 => code.push(0x15),
        3 => code.extend([140, 14, 140, 22]),
        _ => code.push(14),
    }
    let mut t = Tables { codes: vec![code], ..Default::default() };
    if global {
        t.global = table;
    } else {
        t.local = table;
    }
    t
}

/// To what is on the stack, add or subtract a power of two.
fn beyond(rng: &mut Rng, code: &mut Vec<u8>) {
    for power in [15, *rng.pick(&[0, 1, 1, 1, 2, 8, 9, 15, 16, 17])] {
        code.extend(int(rng, 1 << power.min(14)));
        for _ in 14..power {
            code.extend([ESC, 0x1b, ESC, 0x0a]);
        }
    }
    code.extend([ESC, 0x18, ESC, *rng.pick(&[0x0a, 0x0a, 0x0b])]);
}

/// A program that heaps up operands and reaches far below the topmost one.
pub fn heaped(rng: &mut Rng) -> Tables {
    let mut code = vec![];
    let mut held = 0usize;
    let height = match rng.below(20) {
        0 => rng.size(20_000, 47_000),
        1..=3 => rng.size(1000, 6000),
        4..=12 => rng.size(200, 700),
        _ => rng.size(40, 200),
    };
    for _ in 0..rng.size(1, 3) {
        let target = if rng.chance(1, 2) { height } else { rng.size(1, height) };
        while held < target {
            let v = rng.next() as i64 % 2000;
            code.extend(int(rng, v));
            held += 1;
        }
        for _ in 0..rng.size(0, 8) {
            match rng.below(4) {
                0 if rng.chance(1, 8) => {
                    // The address of a subroutine, if it were not for its upper bits.
                    code.extend(int(rng, rng.clone().range(-107, -104)));
                    if rng.chance(1, 2) {
                        beyond(rng, &mut code);
                    }
                    code.push(*rng.pick(&[10, 29]));
                }
                0 | 1 => {
                    let i = if rng.chance(1, 20) { held } else { rng.below(held) };
                    code.extend(int(rng, i.min(32767) as i64));
                    if rng.chance(1, 40) {
                        beyond(rng, &mut code);
                    }
                    code.extend([ESC, 0x1d]);
                    held += 1;
                }
                2 => {
                    let n = if rng.chance(1, 20) { held + 1 } else { rng.size(1, held) };
                    let shift = rng.size(0, 2 * n) as i64 - n as i64;
                    code.extend(int(rng, n.min(32767) as i64));
                    if rng.chance(1, 40) {
                        beyond(rng, &mut code);
                    }
                    code.extend(int(rng, shift.clamp(-32768, 32767)));
                    if rng.chance(1, 3) {
                        // Further than any number that can be written down.
                        code.extend(int(rng, rng.clone().below(600) as i64));
                        code.extend([ESC, 0x18]);
                    }
                    code.extend([ESC, 0x1e]);
                }
                _ => code.extend([ESC, *rng.pick(&[0x0a, 0x0b, 0x1c, 0x1b])]),
            }
        }
        match rng.below(5) {
            0 => {
                code.push(*rng.pick(&[0x01, 0x03, 0x12, 0x17]));
            }
            1 => {
                code.push(*rng.pick(&[0x13, 0x14]));
                code.extend(rng.bytes((held / 2 + 7) / 8));
            }
            _ => match operator(*rng.pick(PATH)) {
                Tok::Bytes(bytes) => code.extend(bytes),
                _ => unreachable!(),
            },
        }
        held = 0;
    }
    code.push(14);
    let table = |n: usize| vec![vec![0x0b]; n];
    Tables { codes: vec![code], local: table(rng.below(5)), global: table(rng.below(5)) }
}

/// A program whose code goes on for longer than sixteen bits can count, or whose
/// subroutine does.
pub fn vast(rng: &mut Rng) -> Tables {
    let mut part = vec![];
    for _ in 0..rng.size(1, 20) {
        let tokens = program(rng, true);
        let masks = |token: &Tok| matches!(token, Tok::Bytes(b) if b == &[0x13] || b == &[0x14] || b == &[0x12] || b == &[0x17]);
        if tokens.iter().any(masks) {
            continue;
        }
        for token in tokens {
            match token {
                Tok::Bytes(bytes) if bytes == [0x0e] => {}
                Tok::Bytes(bytes) => part.extend(bytes),
                _ => unreachable!(),
            }
        }
    }
    if part.is_empty() {
        part.extend([140, 0x16]);
    }
    if rng.chance(1, 6) {
        // So many stems that their mask is as long.
        let huge = rng.chance(1, 5);
        let stems = if huge { rng.size(23_700, 23_950) } else { rng.size(15_000, 23_000) };
        let mut subr = [139 + rng.below(50) as u8].repeat(2 * stems);
        subr.extend([0x12, 0x0b]);
        let times = if huge { rng.size(22, 25) } else { rng.size(1, 8) };
        let mut code = [32, 10].repeat(times);
        code.push(0x13);
        code.extend(rng.bytes((stems * times + 7) / 8));
        code.extend([140, 0x16, 14]);
        return Tables { codes: vec![code], local: vec![subr], ..Default::default() };
    }
    let size = *rng.pick(&[32_768, 65_536, 65_536, 131_072]) + rng.size(0, 3000);
    let mut code = vec![];
    // Stems once and masks all along.
    let stems = rng.size(1, 40);
    for _ in 0..stems {
        code.extend([140, 141, 0x12]);
    }
    while code.len() < size {
        if rng.chance(1, 2) {
            code.extend(&part);
        } else {
            code.push(*rng.pick(&[0x13, 0x14]));
            code.extend(rng.bytes((stems + 7) / 8));
            code.extend([139 + rng.below(100) as u8, *rng.pick(&[0x04, 0x16])]);
        }
    }
    if rng.chance(1, 2) {
        code.push(14);
        return Tables { codes: vec![code], ..Default::default() };
    }
    code.push(0x0b);
    Tables { codes: vec![vec![32, 10, 140, 0x16, 14]], local: vec![code], ..Default::default() }
}

/// A program that is hardly anything but calls.
pub fn calling(rng: &mut Rng) -> Tables {
    let mut tables: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
    let mut code = vec![];
    let kinds = rng.size(1, 3);
    for table in &mut tables {
        for _ in 0..kinds {
            let mut subr = vec![];
            match rng.below(4) {
                0 => {}
                1 => subr.extend([140, 141, ESC, 0x0a, 0x16]),
                2 => subr.extend([139 + rng.below(100) as u8, 0x16]),
                _ => {
                    let op = *rng.pick(PATH);
                    let n = legal(rng, op);
                    for _ in 0..n {
                        let v = rng.below(200) as i64;
                        subr.extend(int(rng, v));
                    }
                    match operator(op) {
                        Tok::Bytes(bytes) => subr.extend(bytes),
                        _ => unreachable!(),
                    }
                }
            }
            subr.push(0x0b);
            table.push(subr);
        }
        let least = *rng.pick(&[0, 0, 1239, 1240, 2000]);
        while table.len() < least {
            table.push(vec![0x0b]);
        }
    }
    for _ in 0..rng.size(3, 12) {
        let k = rng.below(2);
        let i = rng.below(kinds) as i64 - t2::bias(tables[k].len());
        code.extend(int(rng, i));
        code.push([10, 29][k]);
        if rng.chance(1, 4) {
            code.extend([139 + rng.below(100) as u8, 0x16]);
        }
    }
    code.push(14);
    let [local, global] = tables;
    Tables { codes: vec![code], local, global }
}

/// Programs that end in different ways, with something left behind the end.
pub fn ending(rng: &mut Rng) -> Tables {
    let mut t = Tables::default();
    let depth = rng.below(t2::NESTING + 1);
    let after = |rng: &mut Rng| -> Vec<u8> {
        match rng.below(5) {
            0 => vec![],
            1 => vec![139, 22],
            2 => vec![14],
            3 => {
                let n = rng.size(1, 8);
                rng.bytes(n)
            }
            _ => {
                let n = rng.size(1, 5);
                soup(rng, n)
            }
        }
    };
    let mut body: Vec<u8> = vec![];
    let operands = *rng.pick(&[0, 0, 1, 4, 5]);
    let before = rng.chance(1, 2);
    let start = if before { vec![139, 140, 22] } else { vec![] };
    for _ in 0..operands {
        let b = number(rng);
        body.extend(b);
    }
    let ends = rng.chance(4, 5);
    if ends {
        body.push(14);
        if depth == 0 || rng.chance(1, 6) {
            body.extend(after(rng));
        }
    } else if operands > 0 {
        body.extend([ESC, 0x12]);
    }
    for level in (0..depth).rev() {
        let global = rng.chance(1, 2);
        let table = if global { &mut t.global } else { &mut t.local };
        table.push(body);
        let i = table.len() as i64 - 1 - 107;
        body = int(rng, i);
        body.push(if global { 29 } else { 10 });
        if level == 0 || rng.chance(1, 12) {
            body.extend(after(rng));
        }
    }
    let mut code = start;
    code.extend(body);
    t.codes.push(code);
    t
}
