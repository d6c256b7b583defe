//! The reference interpreter of Type 2 charstrings: an explicit call stack, one
//! arity table, no recursion.
//!
//! Where the specification leaves a malformed program undefined, it takes the
//! tolerant reading that the library documents by its tests: operands beyond
//! those an operator takes are dropped (the one right below them gives the width
//! if there is none yet), operands of a mask operator count as vertical stems,
//! and a routine that runs out of bytes between operators ends the program.

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Op(u16, Vec<u32>),
    End,
    /// The program is malformed at this point.
    Error,
    /// The budget is spent: what follows is not judged.
    Budget,
}

pub const NESTING: usize = 10;

/// Programs that stack more operands than this are not judged: the library has a
/// limit of 65536.
const OPERANDS: usize = 48_000;

pub struct Machine<'a> {
    frames: Vec<(&'a [u8], usize)>,
    global: &'a [Vec<u8>],
    local: &'a [Vec<u8>],
    stack: Vec<f32>,
    stems: usize,
    pub width: Option<f32>,
    over: Option<Step>,
    pub budget: usize,
    /// The deepest nesting of subroutines reached.
    pub deepest: usize,
    pub executed: usize,
}

pub fn bits(v: f32) -> u32 {
    if v.is_nan() {
        f32::NAN.to_bits()
    } else {
        v.to_bits()
    }
}

pub fn bias(count: usize) -> i64 {
    match count {
        0..=1239 => 107,
        1240..=33899 => 1131,
        _ => 32768,
    }
}

/// The largest number of operands, out of those available, that the operator can take.
fn arity(op: u16, n: usize) -> Option<usize> {
    let steps = |base: usize, step: usize| {
        if n < base {
            None
        } else {
            Some(base + (n - base) / step * step)
        }
    };
    match op {
        0x15 => steps(2, usize::MAX),
        0x16 | 0x04 => steps(1, usize::MAX),
        0x05 => steps(2, 2),
        0x06 | 0x07 => steps(1, 1),
        0x08 => steps(6, 6),
        0x1a | 0x1b | 0x1e | 0x1f => steps(4, 4).map(|k| if n > k { k + 1 } else { k }),
        0x18 => steps(8, 6),
        0x19 => steps(8, 2),
        0x0c23 => steps(13, usize::MAX),
        0x0c25 => steps(11, usize::MAX),
        0x0c22 => steps(7, usize::MAX),
        0x0c24 => steps(9, usize::MAX),
        0x01 | 0x03 | 0x12 | 0x17 => steps(2, 2),
        _ => None,
    }
}

struct Malformed;

impl<'a> Machine<'a> {
    pub fn new(code: &'a [u8], global: &'a [Vec<u8>], local: &'a [Vec<u8>]) -> Machine<'a> {
        Machine {
            frames: vec![(code, 0)],
            global,
            local,
            stack: vec![],
            stems: 0,
            width: None,
            over: None,
            // Fewer than the operators that the library allows between two operations.
            budget: 1_500_000,
            deepest: 0,
            executed: 0,
        }
    }

    fn byte(&mut self) -> Result<u8, Malformed> {
        let (code, at) = self.frames.last_mut().unwrap();
        let b = *code.get(*at).ok_or(Malformed)?;
        *at += 1;
        Ok(b)
    }

    fn pop(&mut self) -> Result<f32, Malformed> {
        self.stack.pop().ok_or(Malformed)
    }

    fn int(&mut self) -> Result<i32, Malformed> {
        let v = self.pop()?;
        if v as i32 as f32 == v {
            Ok(v as i32)
        } else {
            Err(Malformed)
        }
    }

    pub fn step(&mut self) -> Step {
        if let Some(over) = &self.over {
            return over.clone();
        }
        let step = match self.advance() {
            Ok(step) => step,
            Err(Malformed) => Step::Error,
        };
        if !matches!(step, Step::Op(..)) {
            self.over = Some(step.clone());
        }
        step
    }

    fn advance(&mut self) -> Result<Step, Malformed> {
        loop {
            {
                let (code, at) = self.frames.last().unwrap();
                if *at == code.len() {
                    return Ok(Step::End);
                }
            }
            // Operands up to the next operator.
            let mut b0;
            loop {
                if self.executed >= self.budget || self.stack.len() > OPERANDS {
                    return Ok(Step::Budget);
                }
                self.executed += 1;
                b0 = self.byte()?;
                let value = match b0 {
                    32..=246 => b0 as i32 - 139,
                    247..=250 => (b0 as i32 - 247) * 256 + self.byte()? as i32 + 108,
                    251..=254 => -(b0 as i32 - 251) * 256 - self.byte()? as i32 - 108,
                    28 => i16::from_be_bytes([self.byte()?, self.byte()?]) as i32,
                    255 => {
                        let b = [self.byte()?, self.byte()?, self.byte()?, self.byte()?];
                        self.stack.push(i32::from_be_bytes(b) as f32 / 65536.0);
                        continue;
                    }
                    _ => break,
                };
                self.stack.push(value as f32);
            }
            let op = if b0 == 12 { 0x0c00 | self.byte()? as u16 } else { b0 as u16 };
            match op {
                0x0c09 => {
                    let a = self.pop()?;
                    self.stack.push(a.abs());
                }
                0x0c0e => {
                    let a = self.pop()?;
                    self.stack.push(-a);
                }
                0x0c1a => {
                    let a = self.pop()?;
                    self.stack.push(a.sqrt());
                }
                0x0c05 => {
                    let a = self.pop()?;
                    self.stack.push((a == 0.0) as u8 as f32);
                }
                0x0c0a | 0x0c0b | 0x0c0c | 0x0c18 | 0x0c03 | 0x0c04 | 0x0c0f => {
                    let b = self.pop()?;
                    let a = self.pop()?;
                    self.stack.push(match op {
                        0x0c0a => a + b,
                        0x0c0b => a - b,
                        0x0c0c => a / b,
                        0x0c18 => a * b,
                        0x0c03 => (a != 0.0 && b != 0.0) as u8 as f32,
                        0x0c04 => (a != 0.0 || b != 0.0) as u8 as f32,
                        _ => (a == b) as u8 as f32,
                    });
                }
                0x0c12 => {
                    self.pop()?;
                }
                0x0c1c => {
                    let b = self.pop()?;
                    let a = self.pop()?;
                    self.stack.push(b);
                    self.stack.push(a);
                }
                0x0c1b => {
                    let a = self.pop()?;
                    self.stack.push(a);
                    self.stack.push(a);
                }
                0x0c1d => {
                    let i = self.int()?.max(0) as usize;
                    let n = self.stack.len();
                    if i >= n {
                        return Err(Malformed);
                    }
                    self.stack.push(self.stack[n - 1 - i]);
                }
                0x0c1e => {
                    let j = self.int()? as i64;
                    let n = self.int()? as i64;
                    let len = self.stack.len() as i64;
                    if n < 0 || n > len {
                        return Err(Malformed);
                    }
                    if n > 0 {
                        let old = self.stack[(len - n) as usize..].to_vec();
                        for i in 0..n {
                            self.stack[(len - n + (i + j).rem_euclid(n)) as usize] = old[i as usize];
                        }
                    }
                }
                0x0c16 => {
                    let v2 = self.pop()?;
                    let v1 = self.pop()?;
                    let s2 = self.pop()?;
                    let s1 = self.pop()?;
                    self.stack.push(if v1 <= v2 { s1 } else { s2 });
                }
                0x0a | 0x1d => {
                    let address = self.int()? as i64;
                    let table = if op == 0x0a { self.local } else { self.global };
                    let i = address + bias(table.len());
                    if i < 0 || i >= table.len() as i64 || self.frames.len() > NESTING {
                        return Err(Malformed);
                    }
                    self.frames.push((&table[i as usize], 0));
                    self.deepest = self.deepest.max(self.frames.len() - 1);
                }
                0x0b => {
                    if self.frames.len() == 1 {
                        return Err(Malformed);
                    }
                    self.frames.pop();
                }
                0x0e => {
                    while self.frames.len() > 1 {
                        let (code, at) = self.frames.last().unwrap();
                        if *at != code.len() {
                            return Err(Malformed);
                        }
                        self.frames.pop();
                    }
                    if self.width.is_none() && matches!(self.stack.len(), 1 | 5) {
                        self.width = Some(self.stack[0]);
                    }
                    return Ok(Step::End);
                }
                0x13 | 0x14 => {
                    let n = self.stack.len();
                    self.stems += n / 2;
                    for _ in 0..(self.stems + 7) / 8 {
                        self.byte()?;
                    }
                    if self.width.is_none() && n % 2 == 1 {
                        self.width = Some(self.stack[0]);
                    }
                    self.stack.clear();
                    return Ok(Step::Op(op, vec![]));
                }
                _ => {
                    let n = self.stack.len();
                    let k = arity(op, n).ok_or(Malformed)?;
                    if matches!(op, 0x01 | 0x03 | 0x12 | 0x17) {
                        self.stems += n / 2;
                    }
                    if self.width.is_none() && n > k {
                        self.width = Some(self.stack[n - k - 1]);
                    }
                    let operands = self.stack[n - k..].iter().map(|&v| bits(v)).collect();
                    self.stack.clear();
                    return Ok(Step::Op(op, operands));
                }
            }
        }
    }
}

/// A whole run of the reference interpreter.
#[derive(Clone, Debug)]
pub struct Trace {
    /// Each step with the width known after it; the last one is not an operation.
    pub steps: Vec<(Step, Option<u32>)>,
    pub deepest: usize,
    pub executed: usize,
}

pub fn trace(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>], budget: usize) -> Trace {
    let mut machine = Machine::new(code, global, local);
    machine.budget = budget;
    let mut steps = vec![];
    loop {
        let step = machine.step();
        let done = !matches!(step, Step::Op(..));
        steps.push((step, machine.width.map(bits)));
        if done {
            return Trace { steps, deepest: machine.deepest, executed: machine.executed };
        }
    }
}
