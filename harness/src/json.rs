//! Minimal JSON value, parser and printer (no external crates, works offline).
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(i64),
    S(String),
    A(Vec<V>),
    O(Vec<(String, V)>),
}

impl V {
    pub fn int(&self) -> i64 {
        match self {
            V::I(x) => *x,
            _ => panic!("driver: int expected, got {:?}", self),
        }
    }
    pub fn u(&self) -> usize {
        self.int() as usize
    }
    pub fn arr(&self) -> &[V] {
        match self {
            V::A(x) => x,
            _ => panic!("driver: array expected, got {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            V::S(x) => x,
            _ => panic!("driver: string expected, got {:?}", self),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
    pub fn usizes(&self) -> Vec<usize> {
        self.arr().iter().map(|x| x.int() as usize).collect()
    }
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::O(m) => m.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn show(&self, o: &mut String) {
        match self {
            V::I(x) => {
                let _ = write!(o, "{}", x);
            }
            V::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                let _ = write!(o, "\\u{:04x}", u);
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            V::A(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.show(o);
                }
                o.push(']');
            }
            V::O(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    V::S(k.clone()).show(o);
                    o.push(':');
                    x.show(o);
                }
                o.push('}');
            }
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        self.show(&mut s);
        s
    }
}

pub fn parse(s: &str) -> V {
    let b = s.as_bytes();
    let mut p = 0;
    let v = val(b, &mut p);
    ws(b, &mut p);
    assert!(p == b.len(), "driver: trailing JSON");
    v
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}
fn val(b: &[u8], p: &mut usize) -> V {
    ws(b, p);
    match b[*p] {
        b'[' => {
            *p += 1;
            let mut a = vec![];
            ws(b, p);
            if b[*p] == b']' {
                *p += 1;
                return V::A(a);
            }
            loop {
                a.push(val(b, p));
                ws(b, p);
                let c = b[*p];
                *p += 1;
                if c == b']' {
                    return V::A(a);
                }
                assert!(c == b',', "driver: bad JSON array");
            }
        }
        b'{' => {
            *p += 1;
            let mut a = vec![];
            ws(b, p);
            if b[*p] == b'}' {
                *p += 1;
                return V::O(a);
            }
            loop {
                ws(b, p);
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == b':', "driver: bad JSON object");
                *p += 1;
                a.push((k, val(b, p)));
                ws(b, p);
                let c = b[*p];
                *p += 1;
                if c == b'}' {
                    return V::O(a);
                }
                assert!(c == b',', "driver: bad JSON object");
            }
        }
        b'"' => V::S(string(b, p)),
        b't' => {
            *p += 4;
            V::I(1)
        }
        b'f' => {
            *p += 5;
            V::I(0)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            V::I(std::str::from_utf8(&b[st..*p]).unwrap().parse().expect("driver: bad JSON int"))
        }
    }
}
fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"', "driver: bad JSON string");
    *p += 1;
    let mut out: Vec<u8> = vec![];
    loop {
        let c = b[*p];
        *p += 1;
        match c {
            b'"' => break,
            b'\\' => {
                let d = b[*p];
                *p += 1;
                match d {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'r' => out.push(b'\r'),
                    b'b' => out.push(8),
                    b'f' => out.push(12),
                    b'u' => {
                        let rd = |p: usize| u32::from_str_radix(std::str::from_utf8(&b[p..p + 4]).unwrap(), 16).unwrap();
                        let mut u = rd(*p);
                        *p += 4;
                        if (0xd800..0xdc00).contains(&u) {
                            let lo = rd(*p + 2);
                            *p += 6;
                            u = 0x10000 + ((u - 0xd800) << 10) + (lo - 0xdc00);
                        }
                        let mut buf = [0u8; 4];
                        out.extend_from_slice(char::from_u32(u).unwrap().encode_utf8(&mut buf).as_bytes());
                    }
                    d => out.push(d),
                }
            }
            c => out.push(c),
        }
    }
    String::from_utf8(out).unwrap()
}

/// Sentinel for values a correct run can never produce (outside the int32 range TLC can hold).
pub const BAD: i64 = -2147483648;

/// Encode an integer for TLC; anything outside int32 becomes the sentinel.
pub fn enc<T: std::convert::TryInto<i128>>(x: T) -> V {
    match x.try_into() {
        Ok(v) if v > BAD as i128 && v <= 2147483647 => V::I(v as i64),
        _ => V::I(BAD),
    }
}
pub fn encs<T: std::convert::TryInto<i128>, I: IntoIterator<Item = T>>(x: I) -> V {
    V::A(x.into_iter().map(|v| enc(v)).collect())
}
pub fn one<T: std::convert::TryInto<i128>>(x: T) -> V {
    V::A(vec![enc(x)])
}
pub fn flag(b: bool) -> V {
    V::A(vec![V::I(b as i64)])
}
pub fn unit() -> V {
    V::A(vec![])
}
pub fn i<T: std::convert::TryInto<i64>>(x: T) -> V {
    V::I(x.try_into().ok().expect("driver: int out of range"))
}
pub fn is<T: std::convert::TryInto<i64>, I: IntoIterator<Item = T>>(x: I) -> V {
    V::A(x.into_iter().map(i).collect())
}
