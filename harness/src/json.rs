//! Minimal JSON used for case files and traces (ASCII strings, i64 numbers).
//! Deliberately independent of the JSON code under test.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(v: &str) -> J {
        J::Str(v.to_string())
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => panic!("case format: not an array: {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(v) => v,
            _ => panic!("case format: not a string: {:?}", self),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(v) => *v,
            J::Bool(b) => *b as i64,
            _ => panic!("case format: not an int: {:?}", self),
        }
    }
    pub fn get(&self, key: &str) -> &J {
        self.opt(key)
            .unwrap_or_else(|| panic!("case format: no {} in {:?}", key, self))
    }
    pub fn opt(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == key).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(out, "{}", i);
            }
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        ' '..='~' => out.push(c),
                        _ => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                let _ = write!(out, "\\u{:04x}", u);
                            }
                        }
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::s(k).write(out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        let v = value(b, &mut p);
        ws(b, &mut p);
        assert!(p == b.len(), "case format: garbage");
        v
    }
}

pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\t' | b'\r') {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                match b[*p] {
                    b'}' => {
                        *p += 1;
                        return J::Obj(v);
                    }
                    b',' => *p += 1,
                    _ => {
                        let k = value(b, p);
                        ws(b, p);
                        assert!(b[*p] == b':');
                        *p += 1;
                        let x = value(b, p);
                        v.push((k.str().to_string(), x));
                    }
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                match b[*p] {
                    b']' => {
                        *p += 1;
                        return J::Arr(v);
                    }
                    b',' => *p += 1,
                    _ => v.push(value(b, p)),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut s: Vec<u16> = vec![];
            let mut raw: Vec<u8> = vec![];
            fn flush(raw: &mut Vec<u8>, s: &mut Vec<u16>) {
                s.extend(String::from_utf8_lossy(raw).encode_utf16());
                raw.clear();
            }
            loop {
                match b[*p] {
                    b'"' => {
                        *p += 1;
                        flush(&mut raw, &mut s);
                        return J::Str(String::from_utf16_lossy(&s));
                    }
                    b'\\' => {
                        flush(&mut raw, &mut s);
                        *p += 1;
                        match b[*p] {
                            b'n' => s.push(10),
                            b't' => s.push(9),
                            b'r' => s.push(13),
                            b'b' => s.push(8),
                            b'f' => s.push(12),
                            b'u' => {
                                let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                                s.push(u16::from_str_radix(h, 16).unwrap());
                                *p += 4;
                            }
                            c => s.push(c as u16),
                        }
                        *p += 1;
                    }
                    c => {
                        raw.push(c);
                        *p += 1;
                    }
                }
            }
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let start = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'0'..=b'9') {
                *p += 1;
            }
            J::Int(std::str::from_utf8(&b[start..*p]).unwrap().parse().unwrap())
        }
    }
}
