use super::modular::{Statics, STATICS};
use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::math::factorial::Factorial;
use rust_cp::misc::modint::{Modulus, StaticModInt};

pub struct C {
    pub invalid: bool,
}
pub trait Table {
    fn q(&self, op: &str, m: usize, k: usize) -> u32;
    fn modulus(&self) -> u32;
}
impl<M: Modulus> Table for Factorial<M> {
    fn q(&self, op: &str, m: usize, k: usize) -> u32 {
        let v: StaticModInt<M> = if op == "choose" { self.choose(m, k) } else { self.perm(m, k) };
        v.val()
    }
    fn modulus(&self) -> u32 {
        StaticModInt::<M>::modulus()
    }
}
struct M(Option<Box<dyn Table>>);
impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        match op {
            "new" => {
                let t = Statics::table(a[0].u(), a[2].u());
                let m = t.modulus();
                self.0 = Some(t);
                one(m as i64 - 1)
            }
            "choose" | "perm" => one(self.0.as_ref().expect("driver: no table").q(op, a[0].u(), a[1].u())),
            _ => panic!("driver: op {}", op),
        }
    }
}
/// Families of the driver whose modulus is prime.
const PRIMES: [u32; 14] =
    [2, 3, 5, 7, 11, 13, 101, 257, 65537, 2147483647, 2147483629, 1_000_000_007, 998_244_353, 2147483647];
impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M(None))
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        matches!(s.ops[k].0.as_str(), "choose" | "perm")
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        // now and then a table longer than 16 bits can index, asked near both ends of the rows
        let long = idx % 60 == 11 && !self.invalid;
        let p = if long { *PRIMES.iter().max().unwrap() } else { *r.pick(&PRIMES) };
        let all: Vec<usize> = (0..STATICS.len()).filter(|&k| STATICS[k].0 == p).collect();
        let which = *r.pick(&all);
        let top = (p - 1).min(if idx % 30 == 5 { if thorough { 6000 } else { 2500 } } else { 150 }) as usize;
        let n = if long {
            *r.pick(&[8192usize, 33000, 65535, 65536, 65537, 70000, 131072]) + r.below(40)
        } else if r.chance(1, 4) { top } else { r.size(0, top) };
        let mut b = B::new();
        b.op("new", vec![i(which), i(p as i64 - 1), i(n)]);
        for _ in 0..30 {
            let op = if r.chance(2, 3) { "choose" } else { "perm" };
            let m = if r.chance(1, 4) { n } else { r.below(n + 1) };
            let k = match r.below(5) {
                0 => 0,
                1 => m,
                2 => m.min(1),
                _ if long => {
                    let k = r.below(50).min(m);
                    if op == "choose" && r.chance(1, 2) { m - k } else { k }
                }
                _ => r.below(m + 1),
            };
            let k = if long && op == "perm" && k == m { 1 } else { k };
            b.o(op, &[m, k]);
            if self.invalid && r.chance(1, 2) {
                let op = if r.chance(1, 2) { "choose" } else { "perm" };
                let far = r.beyond(n + 1);
                let k2 = r.beyond(m + 1);
                match r.below(6) {
                    0 => b.o(op, &[m, m + 1 + r.below(3)]),
                    1 => b.o(op, &[n + 1, r.below(n + 2)]),
                    2 => b.op(op, vec![i(far), i(r.below(n + 9))]),
                    3 => b.op(op, vec![i(m), i(k2)]),
                    4 => b.op(op, vec![i(far), i(far)]),
                    _ => b.o(op, &[0, 1]),
                }
            }
        }
        b.script(obj(&[("k", i(0))]))
    }
}
