
//! Minimal JSON, in the shape TLC's Json module reads and writes.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(v: &str) -> J {
        J::Str(v.to_string())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn f(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| panic!("HARNESS: no field {} in {}", k, self.show()))
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            o.retain(|x| x.0 != k);
            o.push((k.to_string(), v));
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(v) => v,
            _ => panic!("HARNESS: not a string: {}", self.show()),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(v) => *v,
            _ => panic!("HARNESS: not a number: {}", self.show()),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(v) => *v,
            _ => panic!("HARNESS: not a bool: {}", self.show()),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            // TLC writes the empty sequence as [] and the empty record as {}.
            J::Obj(v) if v.is_empty() => &[],
            _ => panic!("HARNESS: not an array: {}", self.show()),
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn write(&self, s: &mut String) {
        match self {
            J::Null => s.push_str("null"),
            J::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => write!(s, "{}", n).unwrap(),
            J::Str(v) => {
                s.push('"');
                for c in v.chars() {
                    match c {
                        '"' => s.push_str("\\\""),
                        '\\' => s.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(s, "\\u{:04x}", c as u32).unwrap(),
                        c => s.push(c),
                    }
                }
                s.push('"');
            }
            J::Arr(v) => {
                s.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    x.write(s);
                }
                s.push(']');
            }
            J::Obj(v) => {
                s.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    J::s(k).write(s);
                    s.push(':');
                    x.write(s);
                }
                s.push('}');
            }
        }
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { J::Obj(vec![$(($k.to_string(), $v)),*]) };
}
#[macro_export]
macro_rules! arr {
    ($($v:expr),* $(,)?) => { J::Arr(vec![$($v),*]) };
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> J {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let j = p.val();
    p.ws();
    assert!(p.i == p.b.len(), "HARNESS: trailing JSON");
    j
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn val(&mut self) -> J {
        self.ws();
        match self.b[self.i] {
            b'{' => {
                self.i += 1;
                let mut o = vec![];
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b'}' => {
                            self.i += 1;
                            return J::Obj(o);
                        }
                        b',' => self.i += 1,
                        _ => {
                            let k = self.string();
                            self.ws();
                            assert!(self.b[self.i] == b':');
                            self.i += 1;
                            let v = self.val();
                            o.push((k, v));
                        }
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut a = vec![];
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b']' => {
                            self.i += 1;
                            return J::Arr(a);
                        }
                        b',' => self.i += 1,
                        _ => a.push(self.val()),
                    }
                }
            }
            b'"' => J::Str(self.string()),
            b't' => {
                self.i += 4;
                J::Bool(true)
            }
            b'f' => {
                self.i += 5;
                J::Bool(false)
            }
            b'n' => {
                self.i += 4;
                J::Null
            }
            _ => {
                let st = self.i;
                while self.i < self.b.len() && (self.b[self.i] == b'-' || self.b[self.i].is_ascii_digit()) {
                    self.i += 1;
                }
                J::Num(std::str::from_utf8(&self.b[st..self.i]).unwrap().parse().expect("HARNESS: number"))
            }
        }
    }
    fn string(&mut self) -> String {
        assert!(self.b[self.i] == b'"', "HARNESS: string expected");
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            match self.b[self.i] {
                b'"' => {
                    self.i += 1;
                    return String::from_utf8(out).unwrap();
                }
                b'\\' => {
                    self.i += 1;
                    let c = self.b[self.i];
                    self.i += 1;
                    match c {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'u' => {
                            let h = std::str::from_utf8(&self.b[self.i..self.i + 4]).unwrap();
                            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                            self.i += 4;
                            let mut buf = [0; 4];
                            out.extend(c.encode_utf8(&mut buf).bytes());
                        }
                        c => out.push(c),
                    }
                }
                c => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
    }
}
