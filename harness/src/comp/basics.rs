//! Monoids, constants and integer logarithms.
use super::{obj, wide, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::misc::monoids::{Additive, Max, Min, Multiplicative};
use rust_cp::misc::util::{ceil_lg, lg};
use rust_cp::traits::monoid::Monoid;
use rust_cp::traits::numeric::{BoundedAbove, BoundedBelow, One, Zero};

pub struct Monoids;
pub struct Logs;
struct MM;
struct LM;
const BITS: [u32; 6] = [8, 16, 32, 64, 128, 64];
pub fn limits(ty: usize) -> (u128, u128) {
    // (largest value, magnitude of the smallest)
    if ty < 6 {
        ((1u128 << (BITS[ty] - 1)) - 1, 1u128 << (BITS[ty] - 1))
    } else {
        (u128::MAX >> (128 - BITS[ty - 6]), 0)
    }
}
trait W {
    fn w(self) -> V;
}
macro_rules! wides { ($($s:ty)*; $($u:ty)*) => {
    $(impl W for $s { fn w(self) -> V { wide::put((self < 0, self.unsigned_abs() as u128)) } })*
    $(impl W for $u { fn w(self) -> V { wide::put((false, self as u128)) } })*
} }
wides!(i8 i16 i32 i64 i128 isize; u8 u16 u32 u64 u128 usize);
/// Element types of a user's own, of several sizes: a pair whose sum and product keep the first
/// coordinate that is not zero from the left and from the right, ordered by the first coordinate.
#[derive(Clone, Copy)]
struct Own<T, const K: usize>(T, T, [T; K]);
trait Small: Copy {
    fn small(x: i64) -> Self;
    fn big(self) -> i64;
}
impl Small for i8 {
    fn small(x: i64) -> i8 {
        x as i8
    }
    fn big(self) -> i64 {
        self as i64
    }
}
impl Small for i64 {
    fn small(x: i64) -> i64 {
        x
    }
    fn big(self) -> i64 {
        self
    }
}
impl<T: Small, const K: usize> Own<T, K> {
    fn of(v: &V) -> Self {
        Self::make(v.arr()[0].int(), v.arr()[1].int())
    }
    fn make(x: i64, y: i64) -> Self {
        Own(T::small(x), T::small(y), [T::small(x + y); K])
    }
    fn show(self) -> V {
        assert!(self.2.iter().all(|p| p.big() == self.0.big() + self.1.big()));
        is([self.0.big(), self.1.big()])
    }
    fn both(self, o: Self) -> Self {
        let (x, y) = (self.0.big(), o.1.big());
        Self::make(if x != 0 { x } else { o.0.big() }, if y != 0 { y } else { self.1.big() })
    }
}
impl<T: Small, const K: usize> PartialEq for Own<T, K> {
    fn eq(&self, o: &Self) -> bool {
        self.0.big() == o.0.big()
    }
}
impl<T: Small, const K: usize> Eq for Own<T, K> {}
impl<T: Small, const K: usize> PartialOrd for Own<T, K> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T: Small, const K: usize> Ord for Own<T, K> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.big().cmp(&o.0.big())
    }
}
impl<T: Small, const K: usize> std::ops::Add for Own<T, K> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        self.both(o)
    }
}
impl<T: Small, const K: usize> std::ops::Mul for Own<T, K> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        self.both(o)
    }
}
impl<T: Small, const K: usize> Zero for Own<T, K> {
    fn zero() -> Self {
        Self::make(0, 0)
    }
}
impl<T: Small, const K: usize> One for Own<T, K> {
    fn one() -> Self {
        Self::make(0, 0)
    }
}
impl<T: Small, const K: usize> BoundedBelow for Own<T, K> {
    fn min_value() -> Self {
        Self::make(-9, -9)
    }
}
impl<T: Small, const K: usize> BoundedAbove for Own<T, K> {
    fn max_value() -> Self {
        Self::make(9, 9)
    }
}
fn own<T: Small, const K: usize>(op: &str, a: &[V]) -> V {
    macro_rules! on {
        ($m:ty) => {
            V::A(vec![match op {
                "own_identity" => <$m as Monoid>::identity().show(),
                _ => <$m as Monoid>::binary_operation(&Own::of(&a[2]), &Own::of(&a[3])).show(),
            }])
        };
    }
    match a[1].u() {
        0 => on!(Max<Own<T, K>>),
        1 => on!(Min<Own<T, K>>),
        2 => on!(Additive<Own<T, K>>),
        _ => on!(Multiplicative<Own<T, K>>),
    }
}
impl Machine for MM {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        if op == "own" || op == "own_identity" {
            return match a[0].u() {
                0 => own::<i8, 0>(op, a),
                1 => own::<i8, 2>(op, a),
                2 => own::<i8, 6>(op, a),
                3 => own::<i64, 0>(op, a),
                _ => own::<i64, 7>(op, a),
            };
        }
        macro_rules! go {
            ($t:ty) => {{
                let get = |v: &V| -> $t {
                    let (neg, mag) = wide::get(v);
                    if neg { (mag as i128).wrapping_neg() as $t } else { mag as $t }
                };
                macro_rules! on {
                    ($m:ty) => {
                        match op {
                            "identity" => vec![<$m as Monoid>::identity().w()],
                            "combine" => vec![<$m as Monoid>::binary_operation(&get(&a[2]), &get(&a[3])).w()],
                            "around" => {
                                let (e, x) = (<$m as Monoid>::identity(), get(&a[2]));
                                vec![<$m as Monoid>::binary_operation(&e, &x).w(), <$m as Monoid>::binary_operation(&x, &e).w()]
                            }
                            _ => panic!("driver: op {}", op),
                        }
                    };
                }
                V::A(match op {
                    "zero" => vec![<$t as Zero>::zero().w()],
                    "one" => vec![<$t as One>::one().w()],
                    "min" => vec![<$t as BoundedBelow>::min_value().w()],
                    "max" => vec![<$t as BoundedAbove>::max_value().w()],
                    _ => match a[1].u() {
                        0 => on!(Max<$t>),
                        1 => on!(Min<$t>),
                        2 => on!(Additive<$t>),
                        3 => on!(Multiplicative<$t>),
                        _ => panic!("driver: monoid"),
                    },
                })
            }};
        }
        match a[0].u() {
            0 => go!(i8),
            1 => go!(i16),
            2 => go!(i32),
            3 => go!(i64),
            4 => go!(i128),
            5 => go!(isize),
            6 => go!(u8),
            7 => go!(u16),
            8 => go!(u32),
            9 => go!(u64),
            10 => go!(u128),
            11 => go!(usize),
            _ => panic!("driver: type"),
        }
    }
}
impl Component for Monoids {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(MM)
    }
    fn gen(&self, r: &mut Rng, _thorough: bool, idx: usize) -> Script {
        let mut b = B::new();
        let ty = idx % 12;
        let (hi, lo) = limits(ty);
        for c in ["zero", "one", "min", "max"] {
            b.o(c, &[ty]);
        }
        for mon in 0..4 {
            b.o("identity", &[ty, mon]);
        }
        for _ in 0..3 {
            let (size, mon) = (r.below(5), r.below(4));
            let mut pair = || is([r.range(-2, 2), r.range(-2, 2)]);
            let (x, y) = (pair(), pair());
            b.o("own_identity", &[size, mon]);
            b.op("own", vec![i(size), i(mon), x, y]);
        }
        let value = |r: &mut Rng| -> (bool, u128) {
            let x = ((r.next() as u128) << 64) | r.next() as u128;
            let neg = lo > 0 && r.chance(1, 2);
            let top = if neg { lo } else { hi };
            let m = match r.below(5) {
                0 => top,
                1 => top - (r.below(4) as u128),
                2 => r.below(5) as u128,
                _ => (x >> r.below(128)).min(top),
            };
            (neg && m > 0, m)
        };
        let fits = |neg: bool, m: Option<u128>| m.map_or(false, |m| if neg { m <= lo } else { m <= hi });
        for _ in 0..16 {
            let mon = r.below(4);
            let (x, y) = (value(r), value(r));
            b.op("around", vec![i(ty), i(mon), wide::put(x)]);
            let ok = match mon {
                2 if x.0 == y.0 => fits(x.0, x.1.checked_add(y.1)),
                3 => fits(x.0 != y.0, x.1.checked_mul(y.1)),
                _ => true,
            };
            if ok {
                b.op("combine", vec![i(ty), i(mon), wide::put(x), wide::put(y)]);
            }
        }
        b.script(obj(&[("k", i(0))]))
    }
}
impl Machine for LM {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        let n = wide::get_nat(&a[0]);
        match op {
            "lg" => V::A(vec![i(lg(n as usize))]),
            "ceil_lg" => V::A(vec![i(ceil_lg(n as u32))]),
            _ => panic!("driver: op {}", op),
        }
    }
}
impl Component for Logs {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(LM)
    }
    fn gen(&self, r: &mut Rng, _thorough: bool, _idx: usize) -> Script {
        let mut b = B::new();
        for _ in 0..12 {
            let word = |r: &mut Rng, bits: u32| -> u64 {
                let mask = u64::MAX >> (64 - bits);
                match r.below(4) {
                    0 => (1u64 << r.below(bits as usize)).wrapping_sub(1 + r.below(3) as u64) & mask,
                    1 => ((1u64 << r.below(bits as usize)).wrapping_add(r.below(3) as u64)) & mask,
                    2 => mask - r.below(5) as u64,
                    _ => (r.next() & mask) >> r.below(bits as usize),
                }
            };
            let x = word(r, 64).max(1);
            b.op("lg", vec![wide::nat(x as u128)]);
            let y = word(r, 32);
            b.op("ceil_lg", vec![wide::nat(y as u128)]);
        }
        b.script(obj(&[("k", i(0))]))
    }
}
