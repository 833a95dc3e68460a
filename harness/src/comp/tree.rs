//! Trees: heavy-light decomposition and binary lifting.
use super::segtree::{letter, upd, Clamp, Elem, Free, FreeMap, Sym, P};
use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::graph::binary_lifting::BinaryLifting;
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::traits::monoid::{MapMonoid, Monoid};

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Hld,
    HldInvalid,
    Lift,
}
pub struct C(pub Mode);

/// Sum of residues under affine maps, with the number of summands: commutative.
#[derive(Clone, Copy)]
pub struct Sum {
    s: i64,
    k: i64,
}
pub struct SumM;
impl Monoid for SumM {
    type S = Sum;
    fn identity() -> Sum {
        Sum { s: 0, k: 0 }
    }
    fn binary_operation(a: &Sum, b: &Sum) -> Sum {
        Sum { s: (a.s + b.s) % P, k: a.k + b.k }
    }
}
pub struct SumMap;
impl MapMonoid for SumMap {
    type M = SumM;
    type F = (i64, i64);
    fn identity_map() -> (i64, i64) {
        (1, 0)
    }
    fn mapping(f: &(i64, i64), x: &Sum) -> Sum {
        Sum { s: (f.0 * x.s + f.1 * (x.k % P)) % P, k: x.k }
    }
    fn composition(f: &(i64, i64), g: &(i64, i64)) -> (i64, i64) {
        (f.0 * g.0 % P, (f.0 * g.1 + f.1) % P)
    }
}
trait Com: MapMonoid {
    fn c_in(v: &V) -> <Self::M as Monoid>::S;
    fn c_out(s: <Self::M as Monoid>::S) -> V;
    fn u_in(v: &V) -> Self::F;
}
/// Words as bags: the free commutative monoid (words are sorted before they are shown).
impl Com for FreeMap {
    fn c_in(v: &V) -> Vec<Elem> {
        FreeMap::s_in(v)
    }
    fn c_out(mut s: Vec<Elem>) -> V {
        s.sort();
        FreeMap::s_out(&s)
    }
    fn u_in(v: &V) -> Vec<i64> {
        v.ints()
    }
}
impl Com for SumMap {
    fn c_in(v: &V) -> Sum {
        v.arr().iter().fold(SumM::identity(), |a, x| SumM::binary_operation(&a, &Sum { s: x.int(), k: 1 }))
    }
    fn c_out(s: Sum) -> V {
        is([s.s, s.k])
    }
    fn u_in(v: &V) -> (i64, i64) {
        let f = v.ints();
        (f[0], f[1])
    }
}
impl Com for Clamp {
    fn c_in(v: &V) -> i64 {
        Clamp::s_in(v)
    }
    fn c_out(s: i64) -> V {
        is([s])
    }
    fn u_in(v: &V) -> (i64, i64) {
        Clamp::f_in(v)
    }
}
fn _free(_: Free) {}

enum M {
    Empty,
    H0(HLD<FreeMap>),
    H1(HLD<SumMap>),
    H2(HLD<Clamp>),
    L(BinaryLifting),
}
fn adj(v: &V) -> Vec<Vec<usize>> {
    v.arr().iter().map(|x| x.usizes()).collect()
}
fn run<T: Com>(h: &mut HLD<T>, op: &str, a: &[V]) -> V {
    match op {
        "set" => {
            h.set(a[0].u(), T::c_in(&a[1]));
            unit()
        }
        "get" => T::c_out(h.get(a[0].u())),
        "path" => {
            h.apply_path(a[0].u(), a[1].u(), T::u_in(&a[2]));
            unit()
        }
        "sub" => {
            h.apply_subtree(a[0].u(), T::u_in(&a[1]));
            unit()
        }
        "path_prod" => T::c_out(h.path_prod(a[0].u(), a[1].u())),
        "sub_prod" => T::c_out(h.subtree_prod(a[0].u())),
        "all" => T::c_out(h.data.all_prod()),
        "at" => {
            // the public layout: position of a node in the public array
            let p = h.pos[a[0].u()];
            T::c_out(h.data.get(p))
        }
        _ => panic!("driver: op {}", op),
    }
}
impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        match op {
            // family, root, adjacency
            "new" => {
                *self = match a[0].int() {
                    0 => M::H0(HLD::new(&adj(&a[2]), a[1].u())),
                    2 => M::H2(HLD::new(&adj(&a[2]), a[1].u())),
                    _ => M::H1(HLD::new(&adj(&a[2]), a[1].u())),
                };
                return unit();
            }
            "init" => {
                *self = match a[0].int() {
                    0 => M::H0(HLD::with_init_value(&adj(&a[2]), a[1].u(), &a[3].arr().iter().map(FreeMap::c_in).collect())),
                    2 => M::H2(HLD::with_init_value(&adj(&a[2]), a[1].u(), &a[3].arr().iter().map(Clamp::c_in).collect())),
                    _ => M::H1(HLD::with_init_value(&adj(&a[2]), a[1].u(), &a[3].arr().iter().map(SumMap::c_in).collect())),
                };
                return unit();
            }
            // root, adjacency
            "lift" => {
                *self = M::L(BinaryLifting::from(&adj(&a[1]), a[0].u()));
                return unit();
            }
            _ => {}
        }
        match self {
            M::Empty => panic!("driver: no object"),
            M::H0(h) => run(h, op, a),
            M::H1(h) => run(h, op, a),
            M::H2(h) => run(h, op, a),
            M::L(t) => match op {
                "anc" => flag(t.is_ancestor(a[0].u(), a[1].u())),
                "lca" => one(t.lca(a[0].u(), a[1].u())),
                "dis" => one(t.dis(a[0].u(), a[1].u())),
                "tables" => V::A(vec![
                    V::A(t.pa.iter().map(|x| encs(x.iter().copied())).collect()),
                    encs(t.dep.iter().copied()),
                    encs(t.tin.iter().copied()),
                    encs(t.tout.iter().copied()),
                ]),
                _ => panic!("driver: op {}", op),
            },
        }
    }
}

pub struct Tree {
    pub n: usize,
    pub root: usize,
    pub par: Vec<usize>,
    pub dep: Vec<usize>,
    /// nodes, parents first
    pub order: Vec<usize>,
    pub adj: Vec<Vec<usize>>,
}
pub fn random_tree(r: &mut Rng, n: usize) -> Tree {
    let shape = r.below(8);
    shaped_tree(r, n, shape)
}
fn shaped_tree(r: &mut Rng, n: usize, shape: usize) -> Tree {
    let mut p = vec![0usize; n];
    for v in 1..n {
        p[v] = match shape {
            0 => v - 1,
            1 => 0,
            2 => (v - 1) / 2,
            3 => r.below(v),
            4 => v - 1 - r.below(v.min(3)),
            5 => if v % 2 == 1 { v.saturating_sub(2) / 2 * 2 } else { v - 2 },  // caterpillar
            6 => if v < n / 2 { v - 1 } else { (n / 2).max(1) - 1 },            // broom
            _ => if r.chance(3, 4) { v - 1 } else { r.below(v) },
        };
    }
    // move the root somewhere else on occasion: re-root the unrooted tree
    let mut adj0 = vec![vec![]; n];
    for v in 1..n {
        adj0[v].push(p[v]);
        adj0[p[v]].push(v);
    }
    let lab = if r.chance(1, 4) { (0..n).collect() } else { r.perm(n) };
    let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
    for v in 0..n {
        adj[lab[v]] = adj0[v].iter().map(|&x| lab[x]).collect();
        match r.below(3) {
            0 => r.shuffle(&mut adj[lab[v]]),
            1 => adj[lab[v]].sort(),
            _ => {}
        }
    }
    let root = lab[if r.chance(1, 2) { 0 } else { r.below(n) }];
    let mut par = vec![root; n];
    let mut dep = vec![0; n];
    let mut order = vec![root];
    let mut k = 0;
    while k < order.len() {
        let u = order[k];
        k += 1;
        for &v in &adj[u] {
            if v != par[u] {
                par[v] = u;
                dep[v] = dep[u] + 1;
                order.push(v);
            }
        }
    }
    Tree { n, root, par, dep, order, adj }
}
fn adj_v(t: &Tree) -> V {
    V::A(t.adj.iter().map(|x| is(x.iter().copied())).collect())
}
fn meta(t: &Tree) -> V {
    obj(&[
        ("n", i(t.n)),
        ("root", i(t.root)),
        ("par", is(t.par.iter().copied())),
        ("dep", is(t.dep.iter().copied())),
        ("order", is(t.order.iter().copied())),
    ])
}
impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M::Empty)
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        let (op, a) = &s.ops[k];
        match op.as_str() {
            "lift" | "new" | "init" | "tables" => false,
            // clamps may be repeated
            "path" | "sub" => a.arr().last().unwrap().arr().len() == 2 && s.ops[0].1.arr()[0] == i(2),
            _ => true,
        }
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        let mut b = B::new();
        let big = idx % 20 == 7;
        let top = if thorough { 400 } else { 200 };
        let large = idx % 1000 == 67;
        // very wide trees are only generated with logarithmic depth
        let vast = large && self.0 != Mode::HldInvalid && idx >= 1000;
        let n = if vast {
            *r.pick(&[65537usize, 70000, 131072, 132000])
        } else if large {
            *r.pick(&[1023usize, 1024, 1025, 2000, 2047, 2049])
        } else if big {
            r.size(40, top)
        } else {
            r.size(1, 20)
        };
        let t = if vast { shaped_tree(r, n, 3) } else { random_tree(r, n) };
        let node = |r: &mut Rng| r.below(n);
        if self.0 == Mode::Lift {
            b.op("lift", vec![i(t.root), adj_v(&t)]);
            if !vast {
                b.o("tables", &[]);
            }
            let all = n <= 7;
            for k in 0..if all { n * n } else { 30 } {
                let (u, v) = if all { (k / n, k % n) } else { (node(r), node(r)) };
                // make deep pairs and near pairs likely
                let v = if !all && r.chance(1, 4) { t.par[t.par[u]] } else { v };
                b.o("anc", &[u, v]);
                b.o("lca", &[u, v]);
                b.o("dis", &[u, v]);
            }
            return b.script(meta(&t));
        }
        let invalid = self.0 == Mode::HldInvalid;
        let big = big || vast;
        let fam = if big { *r.pick(&[1, 1, 2]) } else { *r.pick(&[0, 0, 0, 0, 2]) };
        let mut next = 100i64;
        let mut val = |r: &mut Rng, next: &mut i64| -> V {
            let k = *r.pick(&[1, 1, 1, 1, 0, 2]);
            V::A((0..k).map(|_| {
                *next += 1;
                letter(r, fam, *next)
            }).collect())
        };
        if invalid {
            let v = V::A((0..n).map(|_| val(r, &mut next)).collect());
            let far = r.beyond(n);
            b.op("new", vec![i(fam), i(far), adj_v(&t)]);
            b.op("init", vec![i(fam), i(far), adj_v(&t), v.clone()]);
            b.op("new", vec![i(fam), i(0), V::A(vec![])]);
            // one value too few / too many
            let mut short = v.arr().to_vec();
            if r.chance(1, 2) {
                short.pop();
            } else {
                short.push(short[0].clone());
            }
            b.op("init", vec![i(fam), i(t.root), adj_v(&t), V::A(short)]);
            b.op("lift", vec![i(far), adj_v(&t)]);
        }
        if r.chance(1, 5) {
            b.op("new", vec![i(fam), i(t.root), adj_v(&t)]);
        } else {
            let v = V::A((0..n).map(|_| val(r, &mut next)).collect());
            b.op("init", vec![i(fam), i(t.root), adj_v(&t), v]);
        }
        for _ in 0..if big { 30 } else { 6 + r.below(30) } {
            if r.chance(3, 4) {
                match r.below(6) {
                    0 => {
                        let x = val(r, &mut next);
                        b.op("set", vec![i(node(r)), x]);
                    }
                    1 | 2 | 3 => {
                        let f = upd(r, fam, &mut next);
                        b.op("path", vec![i(node(r)), i(node(r)), f]);
                    }
                    _ => {
                        let f = upd(r, fam, &mut next);
                        b.op("sub", vec![i(node(r)), f]);
                    }
                }
            }
            for _ in 0..r.below(3) {
                match r.below(6) {
                    0 => b.o("get", &[node(r)]),
                    1 | 2 | 3 => {
                        let u = node(r);
                        b.o("path_prod", &[u, if r.chance(1, 6) { u } else { node(r) }])
                    }
                    4 => b.o("sub_prod", &[node(r)]),
                    _ => b.o(if r.chance(1, 2) { "all" } else { "at" }, &[node(r)]),
                }
            }
            if invalid {
                let out = r.beyond(n);
                let two = if r.chance(1, 2) { vec![i(out), i(node(r))] } else { vec![i(node(r)), i(out)] };
                let two = if r.chance(1, 5) { vec![i(out), i(r.beyond(n))] } else { two };
                match r.below(6) {
                    0 => b.op("get", vec![i(out)]),
                    1 => b.op("set", vec![i(out), V::A(vec![])]),
                    2 => b.op("path_prod", two),
                    3 => {
                        let f = upd(r, fam, &mut next);
                        b.op("path", [two, vec![f]].concat())
                    }
                    4 => b.op("sub_prod", vec![i(out)]),
                    _ => {
                        let f = upd(r, fam, &mut next);
                        b.op("sub", vec![i(out), f])
                    }
                }
            }
        }
        if vast {
            // the last node of the preorder and everything above it
            let mut u = *t.order.last().unwrap();
            loop {
                b.o("sub_prod", &[u]);
                b.o("path_prod", &[u, node(r)]);
                if u == t.root {
                    break;
                }
                u = t.par[u];
            }
            let f = upd(r, fam, &mut next);
            b.op("sub", vec![i(t.root), f]);
            b.o("sub_prod", &[t.root]);
        }
        if !big {
            for u in 0..n {
                b.o("get", &[u]);
                b.o("sub_prod", &[u]);
                b.o("path_prod", &[u, node(r)]);
            }
        }
        b.script(meta(&t))
    }
}
