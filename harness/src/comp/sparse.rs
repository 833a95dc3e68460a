use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::data_structure::sparse_table::SparseTable;

pub struct C {
    pub invalid: bool,
}
type Pair = (i64, i64);
type T = SparseTable<Pair, fn(Pair, Pair) -> Pair>;
struct M(Option<T>);

pub const POISON: Pair = (-77, -77);
/// Symbolic blocks: (x, y) stands for the fold of elements x..y-1.  Combining left and right is
/// the fold of the union for every associative idempotent operation exactly when the left block
/// starts first, they touch or overlap, and the right one ends last.
fn blocks(a: Pair, b: Pair) -> Pair {
    if a != POISON && b != POISON && a.0 <= b.0 && b.0 <= a.1 && a.1 <= b.1 {
        (a.0, b.1)
    } else {
        POISON
    }
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn op_of(kind: i64) -> fn(Pair, Pair) -> Pair {
    match kind {
        0 => blocks,
        1 => |a, b| (a.0.min(b.0), 0),
        2 => |a, b| (a.0.max(b.0), 0),
        3 => |a, b| (gcd(a.0, b.0), 0),
        4 => |a, b| (a.0 & b.0, 0),
        5 => |a, b| (a.0 | b.0, 0),
        6 => |a, _| a,
        _ => |_, b| b,
    }
}
impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        match op {
            "symbolic" => {
                let v: Vec<Pair> = (0..a[0].int()).map(|x| (x, x + 1)).collect();
                self.0 = Some(SparseTable::from(&v, POISON, op_of(0)));
                unit()
            }
            "build" => {
                let v: Vec<Pair> = a[2].ints().into_iter().map(|x| (x, 0)).collect();
                self.0 = Some(SparseTable::from(&v, (a[1].int(), 0), op_of(a[0].int())));
                unit()
            }
            "get" => {
                let (x, y) = self.0.as_ref().expect("driver: no object").get(a[0].u(), a[1].u());
                is([x, y])
            }
            _ => panic!("driver: op {}", op),
        }
    }
}
impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M(None))
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        matches!(s.ops[k].0.as_str(), "get")
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        let mut b = B::new();
        let n;
        if r.chance(1, 2) {
            let huge = idx % 50 == 1;
            n = if huge { r.size(1000, if thorough { 300000 } else { 70000 }) } else { r.size(0, 300) };
            b.o("symbolic", &[n]);
        } else {
            n = r.size(0, 40);
            let kind = 1 + r.below(7);
            let hi = *r.pick(&[1i64, 3, 7, 1000000]);
            let lo = if kind <= 2 { -hi } else { 0 };
            b.op("build", vec![i(kind), i(r.range(lo, hi)), is((0..n).map(|_| r.range(lo, hi)))]);
        }
        if n == 0 && !self.invalid {
            return b.script(obj(&[("n", i(n))]));
        }
        let q = if n <= 12 { n * (n + 1) / 2 } else { 60 };
        let mut all = vec![];
        if n <= 12 {
            for l in 0..n {
                for h in l + 1..=n {
                    all.push((l, h));
                }
            }
        }
        for k in 0..q {
            let (l, h) = if n <= 12 {
                all[k]
            } else {
                match r.below(4) {
                    // lengths at and around powers of two
                    0 => {
                        let mut w = 1usize << r.below(17);
                        while w > n {
                            w >>= 1;
                        }
                        let w = (w + r.below(3)).saturating_sub(1).clamp(1, n);
                        let l = r.below(n - w + 1);
                        (l, l + w)
                    }
                    1 => {
                        let h = 1 + r.below(n);
                        (0, h)
                    }
                    2 => (r.below(n), n),
                    _ => {
                        let l = r.below(n);
                        (l, l + 1 + r.below(n - l))
                    }
                }
            };
            b.o("get", &[l, h]);
            if self.invalid && r.chance(1, 3) {
                // empty or reversed range
                let l = r.below(n + 1);
                match r.below(5) {
                    0 => b.op("get", vec![i(-1), i(l)]),
                    1 => b.op("get", vec![i(r.beyond(n)), i(l)]),
                    2 | 3 => b.o("get", &[l, l]),
                    _ => b.o("get", &[l, r.below(l + 1)]),
                }
            }
        }
        if self.invalid {
            b.o("get", &[0, 0]);
            b.o("get", &[n, n]);
        }
        b.script(obj(&[("n", i(n))]))
    }
}
