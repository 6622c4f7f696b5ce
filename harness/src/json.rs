//! Minimal JSON: values, writer, reader.
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s(v: &str) -> J {
    J::S(v.to_string())
}
pub fn n(v: usize) -> J {
    J::N(v as i64)
}
pub fn o(fields: Vec<(&str, J)>) -> J {
    let mut v: Vec<(String, J)> = fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    // the order of fields never matters
    v.sort_by(|a, b| a.0.cmp(&b.0));
    J::O(v)
}
/// a text as its code points
pub fn codes(t: &str) -> J {
    J::A(t.chars().map(|c| J::N(c as i64)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(fs) => fs.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(v) => v,
            _ => panic!("string expected: {:?}", self),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::N(v) => *v,
            _ => panic!("number expected: {:?}", self),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::B(v) => *v,
            _ => panic!("boolean expected: {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("array expected: {:?}", self),
        }
    }
    /// code points to text
    pub fn text(&self) -> String {
        self.arr().iter().map(|c| char::from_u32(c.int() as u32).unwrap()).collect()
    }
    pub fn write(&self, w: &mut String) {
        match self {
            J::Null => w.push_str("null"),
            J::B(b) => w.push_str(if *b { "true" } else { "false" }),
            J::N(v) => {
                let _ = write!(w, "{}", v);
            }
            J::S(v) => {
                w.push('"');
                for c in v.chars() {
                    match c {
                        '"' => w.push_str("\\\""),
                        '\\' => w.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                let _ = write!(w, "\\u{:04x}", u);
                            }
                        }
                        c => w.push(c),
                    }
                }
                w.push('"');
            }
            J::A(v) => {
                w.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        w.push(',');
                    }
                    e.write(w);
                }
                w.push(']');
            }
            J::O(v) => {
                w.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        w.push(',');
                    }
                    J::S(k.clone()).write(w);
                    w.push(':');
                    e.write(w);
                }
                w.push('}');
            }
        }
    }
    pub fn dump(&self) -> String {
        let mut w = String::new();
        self.write(&mut w);
        w
    }
    pub fn parse(t: &str) -> J {
        let b: Vec<char> = t.chars().collect();
        let mut p = 0;
        let v = value(&b, &mut p);
        ws(&b, &mut p);
        assert!(p == b.len(), "trailing JSON text");
        v
    }
}

fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_whitespace() {
        *p += 1
    }
}

fn value(b: &[char], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        '{' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            while b[*p] != '}' {
                let k = match value(b, p) {
                    J::S(k) => k,
                    _ => panic!("key"),
                };
                ws(b, p);
                assert!(b[*p] == ':');
                *p += 1;
                v.push((k, value(b, p)));
                ws(b, p);
                if b[*p] == ',' {
                    *p += 1;
                    ws(b, p);
                }
            }
            *p += 1;
            v.sort_by(|a: &(String, J), b: &(String, J)| a.0.cmp(&b.0));
            J::O(v)
        }
        '[' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            while b[*p] != ']' {
                v.push(value(b, p));
                ws(b, p);
                if b[*p] == ',' {
                    *p += 1;
                    ws(b, p);
                }
            }
            *p += 1;
            J::A(v)
        }
        '"' => {
            *p += 1;
            let mut u: Vec<u16> = vec![];
            while b[*p] != '"' {
                if b[*p] == '\\' {
                    *p += 1;
                    match b[*p] {
                        'n' => u.push(10),
                        't' => u.push(9),
                        'r' => u.push(13),
                        'b' => u.push(8),
                        'f' => u.push(12),
                        'u' => {
                            let h: String = b[*p + 1..*p + 5].iter().collect();
                            u.push(u16::from_str_radix(&h, 16).unwrap());
                            *p += 4;
                        }
                        c => u.push(c as u16),
                    }
                    *p += 1;
                } else {
                    let mut buf = [0u16; 2];
                    u.extend_from_slice(b[*p].encode_utf16(&mut buf));
                    *p += 1;
                }
            }
            *p += 1;
            J::S(String::from_utf16(&u).unwrap())
        }
        't' => {
            *p += 4;
            J::B(true)
        }
        'f' => {
            *p += 5;
            J::B(false)
        }
        'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == '-' || b[*p].is_ascii_digit()) {
                *p += 1
            }
            J::N(b[st..*p].iter().collect::<String>().parse().unwrap())
        }
    }
}
