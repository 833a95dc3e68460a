use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::traits::monoid::{MapMonoid, Monoid};

// ---------------------------------------------------------------- symbolic monoids
/// An element: its letter followed by the updates applied to it, oldest first.
pub type Elem = Vec<i64>;
/// The free monoid on elements, acted on by the free monoid of updates: whatever holds here
/// holds for every monoid with a compatible family of maps.
pub struct Free;
impl Monoid for Free {
    type S = Vec<Elem>;
    fn identity() -> Self::S {
        vec![]
    }
    fn binary_operation(a: &Self::S, b: &Self::S) -> Self::S {
        let mut r = a.clone();
        r.extend_from_slice(b);
        r
    }
}
pub struct FreeMap;
impl MapMonoid for FreeMap {
    type M = Free;
    type F = Vec<i64>;
    fn identity_map() -> Self::F {
        vec![]
    }
    fn mapping(f: &Self::F, x: &Vec<Elem>) -> Vec<Elem> {
        x.iter().map(|e| { let mut e = e.clone(); e.extend_from_slice(f); e }).collect()
    }
    /// f after g
    fn composition(f: &Self::F, g: &Self::F) -> Self::F {
        let mut r = g.clone();
        r.extend_from_slice(f);
        r
    }
}
/// Polynomial hash of a word of residues under affine maps: small values, non-commutative product
/// and non-commuting maps; used for long arrays and histories.
pub const P: i64 = 30011;
pub const BASE: i64 = 211;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct H {
    h: i64,
    len: i64,
    pw: i64,
    g: i64,
}
pub struct Hash;
impl Monoid for Hash {
    type S = H;
    fn identity() -> H {
        H { h: 0, len: 0, pw: 1, g: 0 }
    }
    fn binary_operation(a: &H, b: &H) -> H {
        H { h: (a.h * b.pw + b.h) % P, len: a.len + b.len, pw: a.pw * b.pw % P, g: (a.g * b.pw + b.g) % P }
    }
}
pub struct HashMap_;
impl MapMonoid for HashMap_ {
    type M = Hash;
    type F = (i64, i64);
    fn identity_map() -> (i64, i64) {
        (1, 0)
    }
    fn mapping(f: &(i64, i64), x: &H) -> H {
        H { h: (f.0 * x.h + f.1 * x.g) % P, ..*x }
    }
    fn composition(f: &(i64, i64), g: &(i64, i64)) -> (i64, i64) {
        (f.0 * g.0 % P, (f.0 * g.1 + f.1) % P)
    }
}

/// Largest letter (-1: none) under clamps x -> min(max(x, lo), hi): the maps distribute over the
/// product but need not keep its identity, and they do not commute.
pub struct Top;
impl Monoid for Top {
    type S = i64;
    fn identity() -> i64 {
        -1
    }
    fn binary_operation(a: &i64, b: &i64) -> i64 {
        *a.max(b)
    }
}
pub struct Clamp;
fn clamp(f: &(i64, i64), x: i64) -> i64 {
    x.max(f.0).min(f.1)
}
impl MapMonoid for Clamp {
    type M = Top;
    type F = (i64, i64);
    fn identity_map() -> (i64, i64) {
        (-1, i64::MAX)
    }
    fn mapping(f: &(i64, i64), x: &i64) -> i64 {
        clamp(f, *x)
    }
    fn composition(f: &(i64, i64), g: &(i64, i64)) -> (i64, i64) {
        (clamp(f, g.0), clamp(f, g.1))
    }
}

/// The symbolic families behind one interface.  Values travel as arrays.
pub trait Sym: MapMonoid {
    fn s_in(v: &V) -> <Self::M as Monoid>::S;
    fn s_out(s: &<Self::M as Monoid>::S) -> V;
    fn f_in(v: &V) -> Self::F;
    /// predicate `kind` with parameter `k` in direction `dir` (0 right, 1 left)
    fn pred(s: &<Self::M as Monoid>::S, kind: i64, dir: i64, k: &V) -> bool;
}
/// weight of an element, from its letter and its latest update
fn weight(e: &Elem) -> i64 {
    e[0] + if e.len() > 1 { *e.last().unwrap() } else { 0 }
}
impl Sym for FreeMap {
    fn s_in(v: &V) -> Vec<Elem> {
        v.arr().iter().map(|e| e.ints()).collect()
    }
    fn s_out(s: &Vec<Elem>) -> V {
        V::A(s.iter().map(|e| is(e.iter().copied())).collect())
    }
    fn f_in(v: &V) -> Vec<i64> {
        v.ints()
    }
    fn pred(s: &Vec<Elem>, kind: i64, dir: i64, k: &V) -> bool {
        match kind {
            // few enough elements
            0 => s.len() as i64 <= k.int(),
            // small enough non-negative weight
            1 => s.iter().map(|e| weight(e) % 4).sum::<i64>() <= k.int(),
            // no running sum of signed weights, taken from the fixed end, exceeds k
            2 => {
                let mut t = 0;
                let mut ok = true;
                let mut see = |e: &Elem| {
                    t += weight(e) % 7 - 3;
                    ok &= t <= k.int();
                };
                if dir == 0 {
                    s.iter().for_each(&mut see)
                } else {
                    s.iter().rev().for_each(&mut see)
                }
                ok
            }
            // no element whose latest update (or letter) is k
            3 => s.iter().all(|e| *e.last().unwrap() != k.int()),
            // always true
            _ => true,
        }
    }
}
impl Sym for HashMap_ {
    fn s_in(v: &V) -> H {
        v.arr().iter().fold(Hash::identity(), |a, x| {
            Hash::binary_operation(&a, &H { h: x.int(), len: 1, pw: BASE, g: 1 })
        })
    }
    fn s_out(s: &H) -> V {
        is([s.h, s.len])
    }
    fn f_in(v: &V) -> (i64, i64) {
        let f = v.ints();
        (f[0], f[1])
    }
    fn pred(s: &H, kind: i64, _dir: i64, k: &V) -> bool {
        match kind {
            0 => s.len <= k.int(),
            _ => true,
        }
    }
}

impl Sym for Clamp {
    fn s_in(v: &V) -> i64 {
        v.arr().iter().fold(Top::identity(), |a, x| Top::binary_operation(&a, &x.int()))
    }
    fn s_out(s: &i64) -> V {
        is([*s])
    }
    fn f_in(v: &V) -> (i64, i64) {
        let f = v.ints();
        (f[0], f[1])
    }
    fn pred(s: &i64, kind: i64, _dir: i64, k: &V) -> bool {
        match kind {
            // nothing above k
            5 => *s <= k.int(),
            _ => true,
        }
    }
}

// ---------------------------------------------------------------- machines
pub enum M {
    Empty,
    Seg0(Segtree<Free>),
    Seg1(Segtree<Hash>),
    Seg2(Segtree<Top>),
    Lazy0(LazySegtree<FreeMap>),
    Lazy1(LazySegtree<HashMap_>),
    Lazy2(LazySegtree<Clamp>),
}
fn run_seg<Y: Sym>(t: &mut Segtree<Y::M>, op: &str, a: &[V]) -> V {
    match op {
        "set" => {
            t.set(a[0].u(), Y::s_in(&a[1]));
            unit()
        }
        "get" => Y::s_out(&t.get(a[0].u())),
        "prod" => Y::s_out(&t.prod(a[0].u(), a[1].u())),
        "all" => Y::s_out(&t.all_prod()),
        "right" => one(t.max_right(a[0].u(), |s| Y::pred(s, a[1].int(), 0, &a[2]))),
        "left" => one(t.min_left(a[0].u(), |s| Y::pred(s, a[1].int(), 1, &a[2]))),
        // a predicate that is false on the identity
        "right_false" => one(t.max_right(a[0].u(), |_| false)),
        "left_false" => one(t.min_left(a[0].u(), |_| false)),
        _ => panic!("driver: op {}", op),
    }
}
fn run_lazy<Y: Sym>(t: &mut LazySegtree<Y>, op: &str, a: &[V]) -> V {
    match op {
        "set" => {
            t.set(a[0].u(), Y::s_in(&a[1]));
            unit()
        }
        "apply" => {
            t.apply(a[0].u(), Y::f_in(&a[1]));
            unit()
        }
        "range" => {
            t.apply_range(a[0].u(), a[1].u(), Y::f_in(&a[2]));
            unit()
        }
        "get" => Y::s_out(&t.get(a[0].u())),
        "prod" => Y::s_out(&t.prod(a[0].u(), a[1].u())),
        "all" => Y::s_out(&t.all_prod()),
        "right" => one(t.max_right(a[0].u(), |s| Y::pred(&s, a[1].int(), 0, &a[2]))),
        "left" => one(t.min_left(a[0].u(), |s| Y::pred(&s, a[1].int(), 1, &a[2]))),
        "right_false" => one(t.max_right(a[0].u(), |_| false)),
        "left_false" => one(t.min_left(a[0].u(), |_| false)),
        _ => panic!("driver: op {}", op),
    }
}
impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        match op {
            // tree kind (0 plain, 1 lazy), symbolic family, size / values
            "new" => {
                let n = a[2].u();
                *self = match (a[0].int(), a[1].int()) {
                    (0, 0) => M::Seg0(Segtree::new(n)),
                    (0, 1) => M::Seg1(Segtree::new(n)),
                    (0, _) => M::Seg2(Segtree::new(n)),
                    (_, 0) => M::Lazy0(LazySegtree::new(n)),
                    (_, 1) => M::Lazy1(LazySegtree::new(n)),
                    _ => M::Lazy2(LazySegtree::new(n)),
                };
                return unit();
            }
            "default" => {
                *self = match (a[0].int(), a[1].int()) {
                    (0, 0) => M::Seg0(Segtree::default()),
                    (0, 1) => M::Seg1(Segtree::default()),
                    (0, _) => M::Seg2(Segtree::default()),
                    (_, 0) => M::Lazy0(LazySegtree::default()),
                    (_, 1) => M::Lazy1(LazySegtree::default()),
                    _ => M::Lazy2(LazySegtree::default()),
                };
                return unit();
            }
            "from" => {
                let v0 = || a[2].arr().iter().map(FreeMap::s_in).collect::<Vec<_>>();
                let v1 = || a[2].arr().iter().map(HashMap_::s_in).collect::<Vec<_>>();
                let v2 = || a[2].arr().iter().map(Clamp::s_in).collect::<Vec<_>>();
                *self = match (a[0].int(), a[1].int()) {
                    (0, 0) => M::Seg0(v0().into()),
                    (0, 1) => M::Seg1(v1().into()),
                    (0, _) => M::Seg2(v2().into()),
                    (_, 0) => M::Lazy0(v0().into()),
                    (_, 1) => M::Lazy1(v1().into()),
                    _ => M::Lazy2(v2().into()),
                };
                return unit();
            }
            _ => {}
        }
        match self {
            M::Empty => panic!("driver: no object"),
            M::Seg0(t) => run_seg::<FreeMap>(t, op, a),
            M::Seg1(t) => run_seg::<HashMap_>(t, op, a),
            M::Seg2(t) => run_seg::<Clamp>(t, op, a),
            M::Lazy0(t) => run_lazy::<FreeMap>(t, op, a),
            M::Lazy1(t) => run_lazy::<HashMap_>(t, op, a),
            M::Lazy2(t) => run_lazy::<Clamp>(t, op, a),
        }
    }
}

// ---------------------------------------------------------------- histories
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Plain,
    Lazy,
    Search, // both trees
    Invalid,
}
pub struct C(pub Mode);

/// A letter of the family: a name not used before, a residue, a small number
pub fn letter(r: &mut Rng, fam: usize, name: i64) -> V {
    match fam {
        0 => is([name]),
        1 => i(r.range(0, P - 1)),
        _ => i(r.range(0, 9)),
    }
}
/// A fresh one-element (sometimes empty or two-element) value.
pub fn fresh(r: &mut Rng, fam: usize, next: &mut i64) -> V {
    let k = match r.below(10) {
        0 => 0,
        1 => 2,
        _ => 1,
    };
    V::A((0..k).map(|_| {
        *next += 1;
        letter(r, fam, *next)
    }).collect())
}
pub fn upd(r: &mut Rng, fam: usize, next: &mut i64) -> V {
    *next += 1;
    if fam == 0 {
        if r.chance(1, 12) { unit() } else { is([*next]) }
    } else if fam == 1 {
        is([r.range(0, P - 1), r.range(0, P - 1)])
    } else {
        // floors, ceilings, assignments, windows
        let (x, y) = (r.range(0, 9), r.range(0, 9));
        is(*r.pick(&[[x, 99], [-1, y], [x, x], [x.min(y), x.max(y)]]))
    }
}

impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M::Empty)
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        match s.ops[k].0.as_str() {
            "new" | "default" | "from" => false,
            // clamps may be repeated
            "apply" | "range" => s.ops[0].1.arr()[1] == i(2),
            _ => true,
        }
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        let mode = self.0;
        let lazy = match mode {
            Mode::Plain => 0,
            Mode::Lazy => 1,
            _ => r.below(2),
        };
        let large = idx % 2000 == 54;
        let big = idx % 25 == 4;
        let fam = if big { *r.pick(&[1, 1, 2]) } else { *r.pick(&[0, 0, 0, 1, 2]) };
        let n = if large {
            *r.pick(&[32768, 65536, 65537, 66000, 70000, 100000, 131072]) + r.below(2)
        } else if big {
            r.size(50, if thorough { 2500 } else { 1100 })
        } else if r.chance(1, 2) {
            r.size(0, 9)
        } else {
            r.size(0, 33)
        };
        let mut next = 100i64;
        let mut b = B::new();
        if n == 0 && r.chance(1, 3) {
            b.o("default", &[lazy, fam]);
        } else if r.chance(1, 5) {
            b.o("new", &[lazy, fam, n]);
        } else {
            let v = V::A((0..n).map(|_| fresh(r, fam, &mut next)).collect());
            b.op("from", vec![i(lazy), i(fam), v]);
        }
        let steps = if large { 12 } else if big { 50 } else { 4 + r.below(36) };
        let search = mode == Mode::Search;
        // styles: how update positions/ranges are chosen
        let style = r.below(3);
        let rng2 = |r: &mut Rng| -> (usize, usize) {
            if n == 0 {
                return (0, 0);
            }
            match (style, r.below(4)) {
                (1, _) => {
                    // suffixes, prefixes
                    let k = r.below(n + 1);
                    if r.chance(1, 2) { (0, k) } else { (k, n) }
                }
                (2, 0) | (2, 1) => {
                    // aligned blocks
                    let w = 1usize << r.below(4);
                    let l = (r.below(n) / w) * w;
                    (l, (l + w).min(n))
                }
                _ => {
                    let l = r.below(n + 1);
                    (l, l + r.below(n + 1 - l))
                }
            }
        };
        for _ in 0..steps {
            // mutate
            if n > 0 && r.chance(2, 3) {
                if lazy == 1 && r.chance(3, 4) {
                    if r.chance(1, 5) {
                        let f = upd(r, fam, &mut next);
                        b.op("apply", vec![i(r.below(n)), f]);
                    } else {
                        let (l, h) = rng2(r);
                        let f = upd(r, fam, &mut next);
                        b.op("range", vec![i(l), i(h), f]);
                    }
                } else {
                    let x = fresh(r, fam, &mut next);
                    b.op("set", vec![i(r.below(n)), x]);
                }
            }
            // observe (sometimes not: keeps pending updates pending)
            if search {
                for _ in 0..r.below(3) {
                    let kind = if fam == 1 { *r.pick(&[0, 4]) } else if fam == 2 { *r.pick(&[5, 5, 5, 4]) } else { *r.pick(&[0, 0, 1, 2, 2, 3, 4]) };
                    let k = match kind {
                        0 => r.range(0, n as i64 + 1),
                        1 => r.range(0, 2 * n as i64 + 1),
                        2 => r.range(0, 6),
                        5 => r.range(-1, 9),
                        _ => r.range(100, next.max(100)),
                    };
                    let at = match r.below(6) {
                        0 => 0,
                        1 => n,
                        _ => r.below(n + 1),
                    };
                    b.op(if r.chance(1, 2) { "right" } else { "left" }, vec![i(at), i(kind), i(k)]);
                }
                if r.chance(1, 6) {
                    let (l, h) = rng2(r);
                    b.o("prod", &[l, h]);
                }
            } else {
                for _ in 0..r.below(3) {
                    match r.below(5) {
                        0 if n > 0 => b.o("get", &[r.below(n)]),
                        1 => b.o("all", &[]),
                        _ => {
                            let (l, h) = if r.chance(1, 4) {
                                let l = r.below(n + 1);
                                (l, l)
                            } else {
                                rng2(r)
                            };
                            b.o("prod", &[l, h]);
                        }
                    }
                }
            }
            if mode == Mode::Invalid {
                let out = r.beyond(n);
                let over = r.beyond(n + 1);
                let x = fresh(r, fam, &mut next);
                let f = upd(r, fam, &mut next);
                match r.below(14) {
                    0 => b.op("set", vec![i(out), x]),
                    1 => b.op("get", vec![i(out)]),
                    2 => b.op("prod", vec![i(r.below(n + 1)), i(over)]),
                    3 if n > 0 => {
                        let l = 1 + r.below(n);
                        b.o("prod", &[l, r.below(l)]);
                    }
                    4 => b.op("right", vec![i(over), i(4), i(0)]),
                    5 => b.op("left", vec![i(over), i(4), i(0)]),
                    6 => b.o("right_false", &[r.below(n + 1)]),
                    7 => b.o("left_false", &[r.below(n + 1)]),
                    8 if lazy == 1 => b.op("apply", vec![i(out), f]),
                    9 if lazy == 1 => b.op("range", vec![i(r.below(n + 1)), i(over), f]),
                    10 if lazy == 1 && n > 0 => {
                        let l = 1 + r.below(n);
                        b.op("range", vec![i(l), i(r.below(l)), f]);
                    }
                    11 if n > 0 => b.op("prod", vec![i(over), i(r.below(n))]),
                    12 if lazy == 1 => b.op("range", vec![i(over), i(r.below(n + 1)), f]),
                    _ => {
                        let o2 = r.beyond(n + 1);
                        b.op("prod", vec![i(over), i(o2)])
                    },
                }
            }
        }
        // final full observation
        if !big {
            b.o("all", &[]);
            b.o("prod", &[0, n]);
            for p in 0..n.min(40) {
                b.o("get", &[p]);
            }
            b.o("prod", &[0, n]);
        }
        b.script(obj(&[("n", i(n))]))
    }
}
