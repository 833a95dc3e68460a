use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::data_structure::fenwick_tree::FenwickTree;

/// `search`: histories that exercise partition_point / search; otherwise sums.
pub struct C {
    pub search: bool,
}
enum M {
    Empty,
    I64(FenwickTree<i64>),
    I32(FenwickTree<i32>),
    U64(FenwickTree<u64>),
    I128(FenwickTree<i128>),
    F64(FenwickTree<f64>),
}

macro_rules! run {
    ($t:expr, $ty:ty, $op:expr, $a:expr, $enc:expr) => {{
        let t = $t;
        let a = $a;
        match $op {
            "add" => {
                t.add(a[0].u(), a[1].int() as $ty);
                unit()
            }
            "pref" => V::A(vec![$enc(t.pref(a[0].u()))]),
            "sum" => V::A(vec![$enc(t.sum(a[0].u(), a[1].u()))]),
            "search" => one(t.search(&(a[0].int() as $ty))),
            "below" => one(t.partition_point(|x| *x < a[0].int() as $ty)),
            "above" => one(t.partition_point(|x| *x > a[0].int() as $ty)),
            "among" => {
                let l: Vec<$ty> = a[0].ints().into_iter().map(|x| x as $ty).collect();
                one(t.partition_point(|x| l.contains(x)))
            }
            "always" => one(t.partition_point(|_| true)),
            "never" => one(t.partition_point(|_| false)),
            _ => panic!("driver: op"),
        }
    }};
}

impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        match op {
            "new" => {
                let n = a[1].u();
                *self = match a[0].int() {
                    0 => M::I64(FenwickTree::new(n)),
                    1 => M::I32(FenwickTree::new(n)),
                    2 => M::U64(FenwickTree::new(n)),
                    3 => M::I128(FenwickTree::new(n)),
                    _ => M::F64(FenwickTree::new(n)),
                };
                return unit();
            }
            "from" => {
                let v = a[1].ints();
                *self = match a[0].int() {
                    0 => M::I64(FenwickTree::from(&v)),
                    1 => M::I32(FenwickTree::from(&v.iter().map(|&x| x as i32).collect::<Vec<_>>())),
                    2 => M::U64(FenwickTree::from(&v.iter().map(|&x| x as u64).collect::<Vec<_>>())),
                    3 => M::I128(FenwickTree::from(&v.iter().map(|&x| x as i128).collect::<Vec<_>>())),
                    _ => M::F64(FenwickTree::from(&v.iter().map(|&x| x as f64).collect::<Vec<_>>())),
                };
                return unit();
            }
            _ => {}
        }
        match self {
            M::I64(t) => run!(t, i64, op, a, enc),
            M::I32(t) => run!(t, i32, op, a, enc),
            M::U64(t) => run!(t, u64, op, a, enc),
            M::I128(t) => run!(t, i128, op, a, enc),
            M::F64(t) => run!(t, f64, op, a, |x: f64| if x == (x as i32) as f64 { enc(x as i32) } else { V::I(BAD) }),
            M::Empty => panic!("driver: no object"),
        }
    }
}

impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M::Empty)
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        !matches!(s.ops[k].0.as_str(), "new" | "from" | "add")
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        if idx % 2400 == 33 {
            return large(r, self.search);
        }
        let big = idx % 30 == 11;
        let n = if big { r.size(60, if thorough { 1200 } else { 500 }) } else { r.size(0, 40) };
        let ty = r.below(5);
        // sign: 0 non-negative, 1 mixed, 2 non-positive (u64 is non-negative only)
        let sign = if ty == 2 { 0 } else if self.search { *r.pick(&[0, 0, 2, 1]) } else { r.below(3) };
        let hi = *r.pick(&[1i64, 2, 10, 100000]);
        let mut val = |r: &mut Rng| -> i64 {
            if r.chance(1, 4) {
                return 0;
            }
            match sign {
                0 => r.range(0, hi),
                1 => r.range(-hi, hi),
                _ => r.range(-hi, 0),
            }
        };
        let mut b = B::new();
        let mut a: Vec<i64>;
        if r.chance(1, 2) {
            a = (0..n).map(|_| val(r)).collect();
            b.op("from", vec![i(ty), is(a.clone())]);
        } else {
            a = vec![0; n];
            b.o("new", &[ty, n]);
        }
        let steps = if big { 40 } else { 6 + r.below(24) };
        for _ in 0..steps {
            if n > 0 && r.chance(1, 2) {
                let p = r.below(n);
                let v = val(r);
                a[p] += v;
                b.op("add", vec![i(p), i(v)]);
            }
            let pre: Vec<i64> = a.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect();
            if self.search {
                let near = |r: &mut Rng| -> i64 {
                    let base = if n == 0 { 0 } else { pre[r.below(n)] };
                    base + r.range(-1, 1)
                };
                let inc = pre.windows(2).all(|w| w[0] <= w[1]);
                let dec = pre.windows(2).all(|w| w[0] >= w[1]);
                match r.below(8) {
                    0 | 1 | 2 if inc => {
                        let t = near(r);
                        if ty != 2 || t >= 0 {
                            b.op(if r.chance(1, 2) { "search" } else { "below" }, vec![i(t)]);
                        }
                    }
                    3 | 4 if dec => {
                        let t = near(r);
                        if ty != 2 || t >= 0 {
                            b.op("above", vec![i(t)]);
                        }
                    }
                    5 => b.o("always", &[]),
                    6 => b.o("never", &[]),
                    _ => {
                        // an arbitrary partitioning predicate: membership in the first p prefix sums
                        let p = r.below(n + 1);
                        let l: Vec<i64> = pre[..p].to_vec();
                        if pre[p..].iter().all(|x| !l.contains(x)) {
                            b.op("among", vec![is(l)]);
                        }
                    }
                }
            } else {
                let l = r.below(n + 1);
                let h = l + r.below(n + 1 - l);
                // range sums need subtraction that stays in the type: prefixes are monotone for u64
                b.o("sum", &[l, h]);
                if r.chance(1, 2) {
                    b.o("pref", &[r.below(n + 1)]);
                }
            }
        }
        if !big {
            if self.search {
                let pre: Vec<i64> = a.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect();
                if pre.windows(2).all(|w| w[0] <= w[1]) {
                    let mut ts: Vec<i64> = pre.iter().flat_map(|x| [*x, *x + 1]).collect();
                    ts.push(0);
                    ts.sort();
                    ts.dedup();
                    for t in ts {
                        if ty != 2 || t >= 0 {
                            b.op("search", vec![i(t)]);
                        }
                    }
                }
            } else {
                for k in 0..=n {
                    b.o("pref", &[k]);
                }
            }
        }
        b.script(obj(&[("n", i(n))]))
    }
}

/// Few calls on very long arrays.
fn large(r: &mut Rng, search: bool) -> Script {
    let n = *r.pick(&[65535usize, 65537, 66000, 70000, 100000, 131071, 131072]) + r.below(2);
    let ty = r.below(5);
    let mut b = B::new();
    let mut a = vec![0i64; n];
    if r.chance(1, 3) {
        a = (0..n).map(|_| r.range(0, 3)).collect();
        b.op("from", vec![i(ty), is(a.clone())]);
    } else {
        b.o("new", &[ty, n]);
    }
    let spot = |r: &mut Rng| match r.below(4) {
        0 => n - 1 - r.below(3),
        1 => ((1usize << r.below(17)) + r.below(3)).saturating_sub(1).min(n - 1),
        2 => r.below(3),
        _ => r.below(n),
    };
    for _ in 0..14 {
        let (p, v) = (spot(r), r.range(0, 50));
        a[p] += v;
        b.op("add", vec![i(p), i(v)]);
        if search {
            let q = spot(r);
            let t: i64 = a[..q + 1].iter().sum();
            b.op(if r.chance(1, 2) { "search" } else { "below" }, vec![i((t + r.range(-1, 1)).max(0))]);
        } else {
            let (x, y) = (spot(r), spot(r) + 1);
            b.o("sum", &[x.min(y), x.max(y)]);
            b.o("pref", &[if r.chance(1, 3) { n } else { spot(r) + 1 }]);
        }
    }
    if search {
        b.o("always", &[]);
        b.o("never", &[]);
    }
    b.script(obj(&[("n", i(n))]))
}
