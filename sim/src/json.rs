//! A minimal JSON reader and writer for replay and evidence files.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, key: &str) -> &J {
        match self {
            J::Obj(items) => items.iter().find(|(k, _)| k == key).map(|(_, v)| v).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            J::Int(v) => *v,
            J::Bool(v) => *v as i128,
            _ => 0,
        }
    }
    pub fn u64(&self) -> u64 {
        self.int() as u64
    }
    pub fn usize(&self) -> usize {
        self.int() as usize
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(v) => v,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn ints<T: TryFrom<i128>>(&self) -> Vec<T> {
        self.arr().iter().filter_map(|v| T::try_from(v.int()).ok()).collect()
    }

    pub fn emit(&self) -> String {
        let mut out = String::new();
        self.write(&mut out, 0);
        out.push('\n');
        out
    }

    fn flat(&self) -> bool {
        match self {
            J::Arr(v) => v.iter().all(|x| !matches!(x, J::Obj(_) | J::Arr(_))),
            J::Obj(v) => v.len() <= 8 && v.iter().all(|(_, x)| x.flat() && !matches!(x, J::Obj(_))),
            _ => true,
        }
    }

    fn write(&self, out: &mut String, depth: usize) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(v) => out.push_str(if *v { "true" } else { "false" }),
            J::Int(v) => out.push_str(&v.to_string()),
            J::Float(v) => out.push_str(&format!("{v:.6}")),
            J::Str(v) => quote(v, out),
            J::Arr(items) => {
                let flat = self.flat();
                out.push('[');
                for (i, item) in items.iter().enumerate() {
                    if i > 0 {
                        out.push_str(if flat { ", " } else { "," });
                    }
                    if !flat {
                        newline(out, depth + 1);
                    }
                    item.write(out, depth + 1);
                }
                if !flat && !items.is_empty() {
                    newline(out, depth);
                }
                out.push(']');
            }
            J::Obj(items) => {
                let flat = self.flat() && depth > 0;
                out.push('{');
                for (i, (key, item)) in items.iter().enumerate() {
                    if i > 0 {
                        out.push_str(if flat { ", " } else { "," });
                    }
                    if !flat {
                        newline(out, depth + 1);
                    }
                    quote(key, out);
                    out.push_str(": ");
                    item.write(out, depth + 1);
                }
                if !flat && !items.is_empty() {
                    newline(out, depth);
                }
                out.push('}');
            }
        }
    }

    pub fn parse(text: &str) -> Option<J> {
        let mut p = Parser { s: text.as_bytes(), i: 0 };
        let v = p.value()?;
        p.space();
        if p.i == p.s.len() {
            Some(v)
        } else {
            None
        }
    }
}

fn newline(out: &mut String, depth: usize) {
    out.push('\n');
    for _ in 0..depth {
        out.push(' ');
    }
}

fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

struct Parser<'a> {
    s: &'a [u8],
    i: usize,
}

impl Parser<'_> {
    fn space(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.space();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn word(&mut self, w: &str, v: J) -> Option<J> {
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Some(v)
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<J> {
        self.space();
        match *self.s.get(self.i)? {
            b'n' => self.word("null", J::Null),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut items = vec![];
                if self.eat(b']').is_some() {
                    return Some(J::Arr(items));
                }
                loop {
                    items.push(self.value()?);
                    if self.eat(b',').is_none() {
                        self.eat(b']')?;
                        return Some(J::Arr(items));
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut items = vec![];
                if self.eat(b'}').is_some() {
                    return Some(J::Obj(items));
                }
                loop {
                    self.space();
                    let key = self.string()?;
                    self.eat(b':')?;
                    items.push((key, self.value()?));
                    if self.eat(b',').is_none() {
                        self.eat(b'}')?;
                        return Some(J::Obj(items));
                    }
                }
            }
            _ => {
                let start = self.i;
                while self.i < self.s.len() && matches!(self.s[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1;
                }
                let text = std::str::from_utf8(&self.s[start..self.i]).ok()?;
                text.parse().ok().map(J::Int).or_else(|| text.parse().ok().map(J::Float))
            }
        }
    }
    fn string(&mut self) -> Option<String> {
        if self.s.get(self.i) != Some(&b'"') {
            return None;
        }
        self.i += 1;
        let mut out = vec![];
        loop {
            match *self.s.get(self.i)? {
                b'"' => {
                    self.i += 1;
                    return String::from_utf8(out).ok();
                }
                b'\\' => {
                    self.i += 1;
                    match *self.s.get(self.i)? {
                        b'n' => out.push(b'\n'),
                        b'u' => {
                            let hex = std::str::from_utf8(self.s.get(self.i + 1..self.i + 5)?).ok()?;
                            let c = char::from_u32(u32::from_str_radix(hex, 16).ok()?)?;
                            out.extend(c.to_string().bytes());
                            self.i += 4;
                        }
                        c => out.push(c),
                    }
                    self.i += 1;
                }
                c => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

pub fn hex(bytes: &[u8]) -> J {
    let mut s = String::with_capacity(bytes.len() * 2);
    for b in bytes {
        s.push(char::from_digit((b >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((b & 15) as u32, 16).unwrap());
    }
    J::Str(s)
}

pub fn unhex(j: &J) -> Vec<u8> {
    let digit = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
    j.str().as_bytes().chunks(2).map(|c| digit(c[0]) << 4 | digit(*c.get(1).unwrap_or(&b'0'))).collect()
}

pub fn obj(items: Vec<(&str, J)>) -> J {
    J::Obj(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn ints<T: Copy + Into<i128>>(items: &[T]) -> J {
    J::Arr(items.iter().map(|&v| J::Int(v.into())).collect())
}
