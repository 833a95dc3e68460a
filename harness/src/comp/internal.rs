//! The crate-private number theory, through the cfg(cp_verif) hook.
use super::{obj, wide, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::math::verif as im;

pub struct C;
struct M;
/// A number modulo m or near it that fits 32 bits is passed as is.
impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        let long = |v: &V| wide::get_i(v) as i64;
        let nat = |v: &V| wide::get_nat(v) as i64;
        V::A(match op {
            "is_prime" => vec![i(im::is_prime(a[0].int() as i32) as u32)],
            "primitive_root" => vec![i(im::primitive_root(a[0].int() as i32))],
            "inv_gcd" => {
                let (g, x) = im::inv_gcd(long(&a[0]), nat(&a[1]));
                vec![wide::put_i(g as i128), wide::put_i(x as i128)]
            }
            "pow_mod" => vec![i(im::pow_mod(long(&a[0]), nat(&a[1]), (a[2].int() + 1) as i32))],
            "safe_mod" => vec![wide::put_i(im::safe_mod(long(&a[0]), nat(&a[1])) as i128)],
            "barrett" => {
                let (m, r) = im::barrett_mul((a[0].int() + 1) as u32, a[1].u() as u32, a[2].u() as u32);
                vec![i(m as i64 - 1), i(r)]
            }
            _ => panic!("driver: op {}", op),
        })
    }
}
fn prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return false;
        }
        d += 1;
    }
    true
}
fn next_prime(mut n: u64) -> u64 {
    while !prime(n) {
        n += 1;
    }
    n
}
const TABLED: [u64; 5] = [2, 167_772_161, 469_762_049, 754_974_721, 998_244_353];
/// composites that pass the test to base 2, some also to base 7 or 61
const PSEUDO: [u64; 24] = [
    2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1373653, 25326001,
    314821, 2269093, 2284453, 4759123, 3215031751 & 0x7fffffff, 1194649,
];
impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M)
    }
    fn gen(&self, r: &mut Rng, _thorough: bool, _idx: usize) -> Script {
        let mut b = B::new();
        const TOP: u64 = i32::MAX as u64;
        // p (k p - k + 1): the shape of most strong pseudoprimes
        for _ in 0..10 {
            let k = 2 + r.below(6) as u64;
            let lim = ((TOP / k) as f64).sqrt() as u64;
            let mut p = next_prime(3 + r.next() % (lim - 3) / 2 + if r.chance(1, 2) { lim / 3 } else { 0 });
            for _ in 0..200 {
                if prime(k * (p - 1) + 1) {
                    break;
                }
                p = next_prime(p + 1);
            }
            let n = p * (k * (p - 1) + 1);
            if n <= TOP {
                b.o("is_prime", &[n as usize]);
            }
        }
        for _ in 0..3 {
            let n = match r.below(7) {
                0 => *r.pick(&PSEUDO),
                1 => next_prime(r.next() % (TOP - 300)),
                2 => {
                    let p = next_prime(r.next() % 46000);
                    if p * p <= TOP { p * p } else { p }
                }
                3 => TOP - r.below(100) as u64,
                4 => r.below(200) as u64,
                5 => *r.pick(&TABLED),
                _ => r.next() % TOP,
            };
            b.o("is_prime", &[n as usize]);
        }
        if r.chance(1, 4) {
            b.op("is_prime", vec![i(if r.chance(1, 3) { i32::MIN as i64 } else { -(r.below(1000) as i64) })]);
        }
        {
            let p = match r.below(8) {
                0 => *r.pick(&TABLED),
                1 => 2147483647,
                2 => next_prime(r.next() % (TOP - 300)),
                3 => {
                    // p - 1 with many prime divisors, or twice a prime
                    let k = if r.chance(1, 2) { *r.pick(&[223092870u64, 9699690, 510510, 30030, 210]) } else { 2 * next_prime(3 + r.next() % 20000) };
                    let mut j = 1;
                    while !prime(k * j + 1) && k * (j + 1) < TOP {
                        j += 1;
                    }
                    if prime(k * j + 1) { k * j + 1 } else { 3 }
                }
                4 => next_prime(r.next() % 100000),
                5 => *r.pick(&[3u64, 5, 7, 11, 13, 17, 257, 65537, 191, 409, 439, 1031, 1811, 2161, 5881, 36721, 55441, 71761, 110881, 760321, 5109721, 17551561]),
                6 => {
                    // p - 1 divisible by the square of a prime
                    let q = *r.pick(&[3u64, 5, 7, 11, 13, 31, 101]);
                    let k = 2 * q * q;
                    let mut j = 1 + r.next() % 1000;
                    while !prime(k * j + 1) {
                        j += 1;
                    }
                    k * j + 1
                }
                _ => next_prime(r.next() % 2000),
            };
            b.o("primitive_root", &[p as usize]);
        }
        let long = |r: &mut Rng| -> i64 {
            match r.below(5) {
                0 => i64::MAX - r.below(3) as i64,
                1 => i64::MIN + r.below(3) as i64,
                2 => r.range(-20, 20),
                _ => (r.next() as i64) >> r.below(64),
            }
        };
        for _ in 0..2 {
            let m = (long(r) & i64::MAX).max(1);
            let mut a = long(r);
            if r.chance(1, 3) {
                // a common divisor
                let g = (r.next() >> (32 + r.below(31))) as i64 + 1;
                let m = ((m >> r.below(62)) / g * g).max(g);
                a = (a >> r.below(62)) / g * g;
                b.op("inv_gcd", vec![wide::put_i(a as i128), wide::nat(m as u128)]);
                continue;
            }
            b.op("inv_gcd", vec![wide::put_i(a as i128), wide::nat(m as u128)]);
            let (x, m) = (long(r), (long(r) & i64::MAX).max(1));
            b.op("safe_mod", vec![wide::put_i(x as i128), wide::nat(m as u128)]);
        }
        for _ in 0..2 {
            let mm = match r.below(4) {
                0 => TOP - 1 - r.below(3) as u64,
                1 => r.below(6) as u64,
                _ => (r.next() % TOP) >> r.below(31),
            };
            b.op("pow_mod", vec![wide::put_i(long(r) as i128), wide::nat((long(r) & i64::MAX) as u128), i(mm)]);
        }
        for _ in 0..5 {
            let mm: u64 = match r.below(4) {
                0 => TOP - r.below(3) as u64,
                1 => r.below(6) as u64,
                _ => (r.next() % (TOP + 1)) >> r.below(31),
            };
            let one = |r: &mut Rng| match r.below(3) {
                0 => mm - mm.min(r.below(3) as u64),
                _ => r.next() % (mm + 1),
            };
            let (x, y) = (one(r), one(r));
            b.op("barrett", vec![i(mm), i(x), i(y)]);
        }
        b.script(obj(&[("k", i(0))]))
    }
}
