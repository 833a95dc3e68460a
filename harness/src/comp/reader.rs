use super::{obj, wide, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::misc::input::In;

pub struct C;
struct M {
    r: In<'static>,
}
fn cps(s: &str) -> V {
    V::A(s.chars().map(|c| i(c as u32)).collect())
}
fn int(x: i128) -> V {
    wide::put_i(x)
}
/// call $f::<T>() for the type number $ty and turn the results into values
macro_rules! by_type {
    ($ty:expr, $go:ident) => {
        match $ty {
            0 => $go!(i8, |x: i8| int(x as i128)),
            1 => $go!(i16, |x: i16| int(x as i128)),
            2 => $go!(i32, |x: i32| int(x as i128)),
            3 => $go!(i64, |x: i64| int(x as i128)),
            4 => $go!(i128, |x: i128| int(x)),
            5 => $go!(isize, |x: isize| int(x as i128)),
            6 => $go!(u8, |x: u8| int(x as i128)),
            7 => $go!(u16, |x: u16| int(x as i128)),
            8 => $go!(u32, |x: u32| int(x as i128)),
            9 => $go!(u64, |x: u64| int(x as i128)),
            10 => $go!(u128, |x: u128| wide::put((false, x))),
            11 => $go!(usize, |x: usize| int(x as i128)),
            12 => $go!(String, |x: String| cps(&x)),
            13 => $go!(char, |x: char| i(x as u32)),
            14 => $go!(bool, |x: bool| i(x as usize)),
            _ => panic!("driver: type"),
        }
    };
}
impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        let r = &mut self.r;
        match op {
            "read" => {
                macro_rules! go { ($t:ty, $f:expr) => { V::A(vec![$f(r.read::<$t>())]) } }
                by_type!(a[0].u(), go)
            }
            "checked_read" => {
                macro_rules! go { ($t:ty, $f:expr) => { match r.checked_read::<$t>() { Some(x) => V::A(vec![$f(x)]), None => V::A(vec![]) } } }
                by_type!(a[0].u(), go)
            }
            "vec" => {
                macro_rules! go { ($t:ty, $f:expr) => { V::A(vec![V::A(r.vec::<$t>(a[1].u()).into_iter().map($f).collect())]) } }
                by_type!(a[0].u(), go)
            }
            "i32" => V::A(vec![int(r.i32() as i128)]),
            "i64" => V::A(vec![int(r.i64() as i128)]),
            "usize" => V::A(vec![int(r.usize() as i128)]),
            "bytes" => V::A(vec![V::A(r.bytes().into_iter().map(|x| i(x as u32)).collect())]),
            "chars" => V::A(vec![V::A(r.chars().into_iter().map(|x| i(x as u32)).collect())]),
            _ => panic!("driver: op {}", op),
        }
    }
}
const WHITE: [u32; 25] = [
    32, 32, 10, 9, 13, 11, 12, 0x85, 0xa0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2008, 0x2009, 0x200a,
    0x2028, 0x2029, 0x202f, 0x205f, 0x3000,
];
// look like white space or controls but are not
const ODD: [u32; 14] = [0, 8, 14, 28, 31, 0x7f, 0x200b, 0x200d, 0x2060, 0xfeff, 0x180e, 0x2800, 0xe9, 0x1f600];
const BITS: [u32; 6] = [8, 16, 32, 64, 128, 64];
impl Component for C {
    fn make(&self, m: &V) -> Box<dyn Machine> {
        let t: String = m.get("text").unwrap().ints().iter().map(|&c| char::from_u32(c as u32).expect("driver: char")).collect();
        Box::new(M { r: In::new(Box::leak(Box::new(t))) })
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        // long texts, some with very long tokens and gaps
        let large = idx % 400 == 57;
        let mut b = B::new();
        let mut text: Vec<u32> = vec![];
        let gap = |r: &mut Rng, text: &mut Vec<u32>, least: usize| {
            let k = if large && r.chance(1, 60) { r.below(700) + least } else if r.chance(2, 3) { least.max(r.below(2)) } else { least + r.below(4) };
            for _ in 0..k {
                text.push(if r.chance(1, 2) { *r.pick(&[32u32, 10]) } else { *r.pick(&WHITE) });
            }
        };
        gap(r, &mut text, 0);
        let medium = idx % 20 == 17;
        let n = if large { 40 + r.below(if thorough { 900 } else { 300 }) } else if medium { 10 + r.below(200) } else { r.below(14) };
        let mut vecs: Option<(usize, usize)> = None; // type, remaining
        let bad_at = if large { if r.chance(1, 4) { n - 1 } else { usize::MAX } } else if medium { if r.chance(1, 2) { r.below(n) } else { usize::MAX } } else if r.chance(1, 4) { r.below(14) } else { usize::MAX };
        for k in 0..n {
            if vecs.is_none() && n - k >= 2 && r.chance(1, if medium { 3 } else { 6 }) {
                let ty = *r.pick(&[2usize, 3, 11, 9, 12, 13, 0, 10]);
                let c = 1 + if large && r.chance(1, 2) { r.below(4) } else { r.below(n - k) };
                // more of them than there are
                let c = if medium && r.chance(1, 6) { n - k + 1 + r.below(120) } else { c };
                b.op("vec", vec![i(ty), i(c)]);
                vecs = Some((ty, c));
            }
            let named = r.below(12);
            let ty = match vecs {
                Some((t, _)) => t,
                None => match named {
                    0 => 2,
                    1 => 3,
                    2 => 11,
                    3 | 4 => 12,
                    _ => r.below(15),
                },
            };
            let mut tok: Vec<u32> = vec![];
            if ty < 12 {
                let bits = BITS[ty % 6];
                let hi: u128 = if ty >= 6 { u128::MAX >> (128 - bits) } else { (1u128 << (bits - 1)) - 1 };
                let x = ((r.next() as u128) << 64) | r.next() as u128;
                let mut mag = match r.below(5) {
                    0 => hi,
                    1 => r.below(30) as u128,
                    2 => hi - hi.min(r.below(30) as u128),
                    _ => (x >> r.below(128)) & hi,
                };
                let neg = ty < 6 && r.chance(1, 3);
                if neg && r.chance(1, 4) {
                    mag = hi + 1;
                }
                let mut s = String::new();
                if neg {
                    s.push('-');
                } else if r.chance(1, 10) {
                    s.push('+');
                }
                for _ in 0..(if r.chance(1, 8) { r.below(40) } else { 0 }) {
                    s.push('0');
                }
                if k == bad_at && r.chance(1, 2) && mag == hi && hi < u128::MAX {
                    mag = hi + 2; // just beyond the type on either side
                }
                s += &mag.to_string();
                tok = s.chars().map(|c| c as u32).collect();
            } else if ty == 13 {
                tok.push(if r.chance(1, 2) { 97 + r.below(26) as u32 } else { *r.pick(&ODD) });
            } else if ty == 14 {
                tok = (if r.chance(1, 2) { "true" } else { "false" }).chars().map(|c| c as u32).collect();
            } else {
                let len = if large && r.chance(1, 25) { *r.pick(&[255usize, 256, 300, 1024, 2500]) } else { 1 + r.below(6) };
                for _ in 0..len {
                    tok.push(match r.below(4) {
                        0 => *r.pick(&ODD),
                        1 => 33 + r.below(94) as u32,
                        2 => *r.pick(&[0x7ffu32, 0x800, 0xffff, 0x10000, 0x10ffff, 0x80, 0xd7ff, 0xe000, 0xa1, 0x2010]),
                        _ => 97 + r.below(4) as u32,
                    });
                }
            }
            if k == bad_at && r.chance(2, 3) {
                // a token without a value
                let at = r.below(tok.len() + 1);
                tok.insert(at, *r.pick(&[45u32, 120, 46, 0x200b]));
            }
            if !text.is_empty() {
                gap(r, &mut text, if k == 0 { 0 } else { 1 });
            }
            text.extend(tok);
            if let Some((t, c)) = vecs {
                vecs = if c == 1 { None } else { Some((t, c - 1)) };
            } else {
                match named {
                    0 => b.op("i32", vec![]),
                    1 => b.op("i64", vec![]),
                    2 => b.op("usize", vec![]),
                    3 => b.op("bytes", vec![]),
                    4 => b.op("chars", vec![]),
                    5..=7 => b.op("checked_read", vec![i(ty)]),
                    _ => b.op("read", vec![i(ty)]),
                }
                if r.chance(1, 20) {
                    b.op("vec", vec![i(r.below(15)), i(0)]);
                }
            }
        }
        gap(r, &mut text, 0);
        // past the end
        for _ in 0..r.below(6) {
            match r.below(6) {
                0 => b.op("read", vec![i(r.below(15))]),
                1 => b.op("bytes", vec![]),
                2 => b.op("chars", vec![]),
                3 => b.op("usize", vec![]),
                _ => b.op("checked_read", vec![i(r.below(15))]),
            }
        }
        if r.chance(1, 10) {
            let most = if r.chance(1, 3) { 200 } else { 3 };
            b.op("vec", vec![i(3), i(1 + r.below(most))]);
        }
        b.script(obj(&[("text", V::A(text.into_iter().map(i).collect()))]))
    }
}
