use super::{obj, wide, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::math::number_theory::{ex_crt, ex_gcd, gcd, lcm};

pub struct Div;
struct M;
trait Wide {
    fn w(self) -> V;
}
macro_rules! wides { ($($s:ty)*; $($u:ty)*) => {
    $(impl Wide for $s { fn w(self) -> V { wide::put((self < 0, self.unsigned_abs() as u128)) } })*
    $(impl Wide for $u { fn w(self) -> V { wide::put((false, self as u128)) } })*
} }
wides!(i8 i16 i32 i64 i128 isize; u8 u16 u32 u64 u128 usize);
impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        macro_rules! as_type {
            ($t:ty, $w:expr) => {{
                let (neg, mag) = wide::get($w);
                if neg { (mag as i128).wrapping_neg() as $t } else { mag as $t }
            }};
        }
        macro_rules! go {
            ($t:ty) => {{
                let (x, y) = (as_type!($t, &a[1]), as_type!($t, &a[2]));
                match op {
                    "gcd" => V::A(vec![gcd(x, y).w()]),
                    "lcm" => V::A(vec![lcm(x, y).w()]),
                    "ex_gcd" => {
                        let (p, q, g) = ex_gcd(x, y);
                        V::A(vec![p.w(), q.w(), g.w()])
                    }
                    _ => panic!("driver: op {}", op),
                }
            }};
        }
        match a[0].u() {
            0 => go!(i8),
            1 => go!(i16),
            2 => go!(i32),
            3 => go!(i64),
            4 => go!(i128),
            5 => go!(isize),
            6 => go!(u8),
            7 => go!(u16),
            8 => go!(u32),
            9 => go!(u64),
            10 => go!(u128),
            11 => go!(usize),
            _ => panic!("driver: type"),
        }
    }
}
/// Certificate of the gcd of two naturals: (g, p, q, u, v) with a = p g, b = q g, u p - v q = 1 or -1.
fn cert(a: u128, b: u128) -> (u128, u128, u128, u128, u128) {
    if a == 0 && b == 0 {
        return (0, 0, 0, 0, 0);
    }
    // quotients of the Euclidean algorithm; continuants of p/q
    let (mut x, mut y) = (a, b);
    let mut qs = vec![];
    while y != 0 {
        qs.push(x / y);
        let t = x % y;
        x = y;
        y = t;
    }
    let g = x;
    let (p, q) = (a / g, b / g);
    // convergents h/k of p/q; the last is p/q itself, the one before gives the coefficients
    let (mut h0, mut k0, mut h1, mut k1) = (0u128, 1u128, 1u128, 0u128);
    for &c in &qs {
        let (h2, k2) = (c * h1 + h0, c * k1 + k0);
        h0 = h1;
        k0 = k1;
        h1 = h2;
        k1 = k2;
    }
    // p k0 - q h0 = +-1
    (g, p, q, k0, h0)
}
fn cert_v(a: u128, b: u128) -> V {
    let c = cert(a, b);
    V::A([c.0, c.1, c.2, c.3, c.4].iter().map(|&x| wide::nat(x)).collect())
}
const BITS: [u32; 6] = [8, 16, 32, 64, 128, 64];
fn limits(ty: usize) -> (u128, u128) {
    // (largest value, magnitude of the smallest)
    if ty < 6 {
        ((1u128 << (BITS[ty] - 1)) - 1, 1u128 << (BITS[ty] - 1))
    } else if BITS[ty - 6] == 128 {
        (u128::MAX, 0)
    } else {
        ((1u128 << BITS[ty - 6]) - 1, 0)
    }
}
impl Component for Div {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M)
    }
    fn gen(&self, r: &mut Rng, _thorough: bool, _idx: usize) -> Script {
        let mut b = B::new();
        for _ in 0..8 {
            let ty = r.below(12);
            let (hi, lo) = limits(ty);
            let bits = BITS[ty % 6];
            let word = |r: &mut Rng| -> u128 {
                let x = ((r.next() as u128) << 64) | r.next() as u128;
                match r.below(5) {
                    0 => r.below(20) as u128,
                    1 => hi - r.below(3) as u128,
                    2 => (1u128 << r.below(bits as usize)).min(hi),
                    3 => (x >> r.below(128)) & hi,
                    _ => x & hi,
                }
            };
            let (mut x, mut y) = (word(r), word(r));
            match r.below(5) {
                0 | 1 => {
                    // a common factor; often so that the lcm fits although the product does not
                    let g = 1u128.max(word(r) >> r.below(bits as usize));
                    let p = 1u128.max((word(r) >> r.below(bits as usize)).min(hi / g));
                    let q = 1u128.max((word(r) >> r.below(bits as usize)).min(hi / g / p));
                    x = g * p;
                    y = g * q;
                }
                2 => {
                    // consecutive Fibonacci numbers: the longest chains
                    let (mut p, mut q) = (1u128, 1u128);
                    for _ in 0..r.below(190) {
                        if q > hi - p {
                            break;
                        }
                        let t = p + q;
                        p = q;
                        q = t;
                    }
                    x = p;
                    y = q;
                }
                _ => {}
            }
            if r.chance(1, 2) {
                std::mem::swap(&mut x, &mut y);
            }
            let (mut sx, mut sy) = (false, false);
            if ty < 6 {
                if r.chance(1, 12) {
                    x = lo;
                    sx = true;
                }
                if r.chance(1, 12) {
                    y = lo;
                    sy = true;
                }
                sx = sx || (x != 0 && r.chance(1, 3));
                sy = sy || (y != 0 && r.chance(1, 3));
            }
            let args = vec![i(ty), wide::put((sx, x)), wide::put((sy, y)), cert_v(x, y)];
            b.op("gcd", args.clone());
            if ty < 6 {
                b.op("ex_gcd", args.clone());
            }
            if (x != 0 || y != 0) && {
                let c = cert(x, y);
                x.checked_mul(c.2).map_or(false, |l| l <= hi)
            } {
                b.op("lcm", args);
            }
        }
        b.script(obj(&[("k", i(0))]))
    }
}

/// Systems of linear congruences.
pub struct Crt;
struct CrtM;
impl Machine for CrtM {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        assert!(op == "ex_crt", "driver: op {}", op);
        let sys = a[0].arr();
        let x: Vec<i64> = sys.iter().map(|c| wide::get_i(&c.arr()[0]) as i64).collect();
        let y: Vec<i64> = sys.iter().map(|c| wide::get_i(&c.arr()[1]) as i64).collect();
        let m: Vec<i64> = sys.iter().map(|c| wide::get_nat(&c.arr()[2]) as i64).collect();
        match ex_crt(&x, &y, &m) {
            None => V::A(vec![]),
            Some((p, q)) => V::A(vec![wide::put_i(p as i128), wide::put_i(q as i128)]),
        }
    }
}
fn gcd_u(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd_u(b, a % b) }
}
impl Component for Crt {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(CrtM)
    }
    fn gen(&self, r: &mut Rng, _thorough: bool, idx: usize) -> Script {
        let mut b = B::new();
        // long systems, whose moduli must share many factors
        let long = idx % 40 == 7;
        for _ in 0..if long { 1 } else { 3 } {
            // products of a coefficient and the period so far, and the period itself, stay below 2^60
            let top: u128 = 1 << 60;
            let n = if long { 7 + r.below(70) } else { *r.pick(&[0usize, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6]) };
            let planted = if long || r.chance(3, 4) { Some(r.range(-(1 << 40), 1 << 40) as i128) } else { None };
            let per = if n == 0 { 60 } else { 60 / n };
            let mut period: u128 = 1;
            let mut sys = vec![];
            let factors = [1u128, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 25, 27, 49];
            for _ in 0..n {
                let mut m: u128 = match r.below(4) {
                    0 => 1 + r.below(30) as u128,
                    1 => 1 + (r.next() as u128 >> (64 - per.min(59))),
                    _ => {
                        let mut m = 1u128;
                        for _ in 0..r.below(8) {
                            m *= *r.pick(&factors);
                        }
                        m
                    }
                };
                if long && period > 1 << 40 && r.chance(2, 3) {
                    // a modulus that adds nothing: a divisor of the period, perhaps after division by gcd(a, m)
                    m = 1;
                    for _ in 0..r.below(10) {
                        let f = *r.pick(&factors);
                        if period % (m * f) == 0 {
                            m *= f;
                        }
                    }
                }
                if m.saturating_mul(period) > top {
                    m = (top / period).min(1 + r.below(30) as u128);
                }
                let lim = (top / period).max(1);
                let mag = match r.below(6) {
                    0 => 0,
                    1 | 2 => 1,
                    3 => 1 + r.below(20) as u128,
                    4 => m * (1 + r.below(5) as u128) + r.below(3) as u128 - 1,
                    _ => r.next() as u128 >> (4 + r.below(60)),
                }
                .min(lim);
                let a = if r.chance(1, 3) { -(mag as i128) } else { mag as i128 };
                let any = {
                    let x = (r.next() >> (4 + r.below(60))) as i128;
                    if r.chance(1, 2) { -x } else { x }
                };
                let rhs = match planted {
                    Some(x) if r.chance(if long { 199 } else { 180 }, 200) => {
                        // consistent with x; shifted by multiples of m
                        let v = ((a.rem_euclid(m as i128)) * x.rem_euclid(m as i128)).rem_euclid(m as i128);
                        let k = r.range(-3, 3) as i128;
                        let w = v + k * m as i128;
                        if w.unsigned_abs() < top { w } else { v }
                    }
                    _ => any,
                };
                sys.push(V::A(vec![wide::put_i(a), wide::put_i(rhs), wide::nat(m)]));
                let g = gcd_u(a.unsigned_abs(), m);
                let k = m / g;
                period *= k / gcd_u(k, period);
            }
            b.op("ex_crt", vec![V::A(sys)]);
        }
        b.script(obj(&[("k", i(0))]))
    }
}
