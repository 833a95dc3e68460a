//! What the calls cost, counted in the operations the user supplies: products of the monoid,
//! mappings and compositions of updates, predicate calls, comparisons, equality tests, additions.
//! Every call answers with the number of such operations it made.
use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::data_structure::{
    fenwick_tree::FenwickTree, lazy_segtree::LazySegtree, min_heap::MinHeap, segtree::Segtree, sparse_table::SparseTable,
};
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::string::{kmp::kmp, z_algorithm::z_function};
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::cell::Cell;
use std::cmp::Ordering;

pub struct C;
thread_local!(static COUNT: Cell<i64> = Cell::new(0));
fn tick() {
    COUNT.with(|c| c.set(c.get() + 1));
}

struct Sum;
impl Monoid for Sum {
    type S = i64;
    fn identity() -> i64 {
        0
    }
    fn binary_operation(a: &i64, b: &i64) -> i64 {
        tick();
        a + b
    }
}
/// Updates are counted only: the identity leaves the element unchanged, and so does every other.
struct Idle;
impl MapMonoid for Idle {
    type M = Sum;
    type F = i64;
    fn identity_map() -> i64 {
        0
    }
    fn mapping(_: &i64, x: &i64) -> i64 {
        tick();
        *x
    }
    fn composition(f: &i64, g: &i64) -> i64 {
        tick();
        *f.max(g)
    }
}

#[derive(Clone, Copy, Default, Debug)]
struct Num(i64);
impl std::ops::Add for Num {
    type Output = Num;
    fn add(self, o: Num) -> Num {
        tick();
        Num(self.0 + o.0)
    }
}
impl std::ops::Sub for Num {
    type Output = Num;
    fn sub(self, o: Num) -> Num {
        tick();
        Num(self.0 - o.0)
    }
}
impl std::ops::AddAssign for Num {
    fn add_assign(&mut self, o: Num) {
        tick();
        self.0 += o.0;
    }
}
impl PartialEq for Num {
    fn eq(&self, o: &Num) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Num {}
impl PartialOrd for Num {
    fn partial_cmp(&self, o: &Num) -> Option<Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
}
impl Ord for Num {
    fn cmp(&self, o: &Num) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}

/// Trees on which a wrong choice of heavy children, or walking node by node, shows.
fn tree(shape: usize, n: usize, seed: usize) -> Vec<Vec<usize>> {
    let mut par = vec![0usize; n];
    let mut r = Rng::new(seed as u64);
    match shape {
        // a path
        0 => (1..n).for_each(|v| par[v] = v - 1),
        // a path with a leaf at each of its nodes
        1 => (1..n).for_each(|v| par[v] = if v % 2 == 1 { v - 1 } else { v.max(2) - 2 }),
        // a path whose k-th node from the bottom carries a chain of k + 1 nodes: the deepest child is the light one
        2 => {
            let mut m = 1;
            while (m + 1) * (m + 4) / 2 <= n {
                m += 1;
            }
            (1..m).for_each(|v| par[v] = v - 1);
            let mut v = m;
            for k in 0..m {
                for j in 0..m - k + 1 {
                    if v < n {
                        par[v] = if j == 0 { k } else { v - 1 };
                        v += 1;
                    }
                }
            }
            (v..n).for_each(|v| par[v] = m - 1);
        }
        // a complete binary tree
        3 => (1..n).for_each(|v| par[v] = (v - 1) / 2),
        // a path with a star of two leaves at each node: the child with most children is the light one
        4 => (1..n).for_each(|v| par[v] = match v % 4 { 0 => v - 4, 1 => v - 1, _ => v / 4 * 4 + 1 }),
        5 => (1..n).for_each(|v| par[v] = r.below(v)),
        // random, long
        _ => (1..n).for_each(|v| par[v] = v - 1 - r.below(v.min(3))),
    }
    // names: as built, or shuffled; neighbours in order of their names, or backwards, or shuffled
    let name = if seed % 3 == 0 { (0..n).collect() } else { let mut p = r.perm(n); let k = p.iter().position(|&x| x == 0).unwrap(); p.swap(0, k); p };
    let mut g = vec![vec![]; n];
    for v in 1..n {
        let (a, b) = (name[v], name[par[v]]);
        g[a].push(b);
        g[b].push(a);
    }
    for a in g.iter_mut() {
        match seed % 4 {
            0 => {}
            1 => a.reverse(),
            _ => r.shuffle(a),
        }
    }
    g
}

/// Words on which failure links or matches get long.
pub fn word(style: usize, n: usize, seed: usize) -> Vec<i64> {
    let mut r = Rng::new(seed as u64);
    let p = 1 + seed % 97;
    match style {
        0 => vec![7; n],
        1 => (0..n).map(|k| (k + 1 == n) as i64).collect(),
        2 => (0..n).map(|k| ((k + 1) % (p + 1) == 0) as i64).collect(),
        // Fibonacci
        3 => {
            let (mut a, mut b) = (vec![0i64], vec![0i64, 1]);
            while b.len() < n {
                let c = [&b[..], &a[..]].concat();
                a = std::mem::replace(&mut b, c);
            }
            b.truncate(n);
            b
        }
        // runs of the longest prefix so far, broken: a^k b a^(k-1) b ..
        4 => {
            let mut w = vec![];
            let mut k = (2.0 * n as f64).sqrt() as usize + 1;
            while w.len() < n {
                w.extend(vec![0; k]);
                w.push(1);
                k = k.saturating_sub(1);
            }
            w.truncate(n);
            w
        }
        // half a run, then almost that run, over and over
        5 => {
            let h = n / 2;
            (0..n).map(|k| if k < h { 0 } else { ((k - h) % (h / 2 + 1) == h / 2) as i64 }).collect()
        }
        6 => {
            // Thue-Morse
            (0..n).map(|k| (k.count_ones() % 2) as i64).collect()
        }
        7 => (0..n).map(|k| (k % p) as i64).collect(),
        _ => (0..n).map(|_| r.below(2) as i64).collect(),
    }
}

enum M {
    Empty,
    Seg(Segtree<Sum>),
    Lazy(LazySegtree<Idle>),
    Hld(HLD<Idle>),
    Fen(FenwickTree<Num>),
    Heaps(Vec<MinHeap<Num>>),
    Sparse(SparseTable<i64, fn(i64, i64) -> i64>),
}

impl M {
    fn call(&mut self, op: &str, a: &[V]) {
        let u = |k: usize| a[k].u();
        match op {
            "seg" => *self = M::Seg(vec![1; u(0)].into()),
            "seg_new" => *self = M::Seg(Segtree::new(u(0))),
            "lazy" => *self = M::Lazy(vec![1; u(0)].into()),
            "lazy_new" => *self = M::Lazy(LazySegtree::new(u(0))),
            "fen" => *self = M::Fen(FenwickTree::from(&vec![Num(1); u(0)])),
            "fen_new" => *self = M::Fen(FenwickTree::new(u(0))),
            "sparse" => {
                let f: fn(i64, i64) -> i64 = |x, y| {
                    tick();
                    x.max(y)
                };
                *self = M::Sparse(SparseTable::from(&(0..u(0) as i64).collect::<Vec<_>>(), 0, f))
            }
            "hld" => {
                let g = tree(u(1), u(0), u(2));
                *self = M::Hld(HLD::with_init_value(&g, 0, &vec![1; u(0)]))
            }
            "kmp" => drop(kmp(&word(u(1), u(0), u(2)).into_iter().map(Num).collect::<Vec<_>>())),
            "z" => drop(z_function(&word(u(1), u(0), u(2)).into_iter().map(Num).collect::<Vec<_>>())),
            "heaps" => *self = M::Heaps((0..u(0)).map(|_| MinHeap::new()).collect()),
            _ => match self {
                M::Seg(t) => match op {
                    "set" => t.set(u(0), 1),
                    "get" => drop(t.get(u(0))),
                    "all" => drop(t.all_prod()),
                    "prod" => drop(t.prod(u(0), u(1))),
                    "right" => drop(t.max_right(u(0), |x| {
                        tick();
                        *x <= a[1].int()
                    })),
                    "left" => drop(t.min_left(u(0), |x| {
                        tick();
                        *x <= a[1].int()
                    })),
                    _ => panic!("driver: op {}", op),
                },
                M::Lazy(t) => match op {
                    "set" => t.set(u(0), 1),
                    "get" => drop(t.get(u(0))),
                    "all" => drop(t.all_prod()),
                    "prod" => drop(t.prod(u(0), u(1))),
                    "apply" => t.apply(u(0), 1),
                    "range" => t.apply_range(u(0), u(1), 1),
                    "right" => drop(t.max_right(u(0), |x| {
                        tick();
                        x <= a[1].int()
                    })),
                    "left" => drop(t.min_left(u(0), |x| {
                        tick();
                        x <= a[1].int()
                    })),
                    _ => panic!("driver: op {}", op),
                },
                M::Hld(t) => match op {
                    "set" => t.set(u(0), 1),
                    "get" => drop(t.get(u(0))),
                    "path" => drop(t.path_prod(u(0), u(1))),
                    "path_apply" => t.apply_path(u(0), u(1), 1),
                    "tree" => drop(t.subtree_prod(u(0))),
                    "tree_apply" => t.apply_subtree(u(0), 1),
                    _ => panic!("driver: op {}", op),
                },
                M::Fen(t) => match op {
                    "add" => t.add(u(0), Num(1)),
                    "pref" => drop(t.pref(u(0))),
                    "sum" => drop(t.sum(u(0), u(1))),
                    "search" => drop(t.search(&Num(a[0].int()))),
                    "point" => drop(t.partition_point(|x| {
                        tick();
                        x.0 < a[0].int()
                    })),
                    _ => panic!("driver: op {}", op),
                },
                M::Heaps(hs) => match op {
                    "push" => hs[u(0)].push(Num(a[1].int())),
                    // a run of pushes: from a[1], step a[2], a[3] of them
                    "pushes" => (0..a[3].int()).for_each(|k| hs[u(0)].push(Num(a[1].int() + k * a[2].int()))),
                    "pop" => drop(hs[u(0)].pop()),
                    "pops" => (0..u(1)).for_each(|_| drop(hs[u(0)].pop())),
                    "peek" => drop(hs[u(0)].peek().is_some()),
                    "append" => {
                        let mut o = std::mem::replace(&mut hs[u(1)], MinHeap::new());
                        hs[u(0)].append(&mut o);
                        hs[u(1)] = o;
                    }
                    "sorted" => drop(std::mem::replace(&mut hs[u(0)], MinHeap::new()).into_sorted_vec()),
                    _ => panic!("driver: op {}", op),
                },
                M::Sparse(t) => match op {
                    "get" => drop(t.get(u(0), u(1))),
                    _ => panic!("driver: op {}", op),
                },
                M::Empty => panic!("driver: op {}", op),
            },
        }
    }
}
impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        COUNT.with(|c| c.set(0));
        self.call(op, a);
        V::A(vec![V::I(COUNT.with(|c| c.get()))])
    }
}

/// A position below n: anywhere, near an end, near a power of two.
fn at(r: &mut Rng, n: usize) -> usize {
    let p = 1usize << r.below(17);
    match r.below(6) {
        0 => 0,
        1 => n - 1,
        2 => p.min(n - 1),
        3 => (p - 1).min(n - 1),
        4 => (n - 1).saturating_sub(p),
        _ => r.below(n),
    }
}

impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M::Empty)
    }
    fn gen(&self, r: &mut Rng, t: bool, idx: usize) -> Script {
        let mut b = B::new();
        let big = idx % 4 == 0;
        let top = if t { 1 << 17 } else { 1 << 16 };
        let n = if big { r.size(4000, top) } else { r.size(1, 3000) };
        let steps = 12 + r.below(40);
        let kinds = ["seg", "lazy", "hld", "fen", "heaps", "sparse", "kmp", "z"];
        let kind = kinds[idx / 4 % 8];
        let n = match kind {
            "hld" | "sparse" => n.min(20000),
            _ => n,
        };
        match kind {
            "seg" | "lazy" => {
                let empty = r.chance(1, 12);
                let n = if empty { 0 } else { n };
                b.o(&format!("{}{}", kind, if r.chance(1, 3) { "_new" } else { "" }), &[n]);
                for _ in 0..steps {
                    let (x, y) = (r.below(n + 1), if n > 0 && r.chance(1, 2) { at(r, n) } else { r.below(n + 1) });
                    let (x, y) = (x.min(y), x.max(y));
                    let k = r.below(if kind == "lazy" { 10 } else { 7 });
                    match k {
                        0 if n > 0 => b.o("set", &[at(r, n)]),
                        1 if n > 0 => b.o("get", &[at(r, n)]),
                        2 => b.o("all", &[]),
                        3 | 4 => b.o("prod", &[x, y]),
                        5 => b.o(["right", "left"][r.below(2)], &[x, r.below(n + 2)]),
                        6 => b.o(["right", "left"][r.below(2)], &[y, y - x]),
                        7 if n > 0 => b.o("apply", &[at(r, n)]),
                        8 | 9 => b.o("range", &[x, y]),
                        _ => b.o("prod", &[0, n]),
                    }
                }
            }
            "hld" => {
                b.o("hld", &[n, r.below(7), r.below(1000)]);
                for _ in 0..steps {
                    let (x, y) = (at(r, n), at(r, n));
                    match r.below(8) {
                        0 | 1 => b.o("path", &[x, y]),
                        2 | 3 => b.o("path_apply", &[x, y]),
                        4 => b.o("tree", &[x]),
                        5 => b.o("tree_apply", &[x]),
                        6 => b.o("get", &[x]),
                        _ => b.o("set", &[x]),
                    }
                }
            }
            "fen" => {
                let n = if r.chance(1, 12) { 0 } else { n };
                b.o(["fen", "fen", "fen_new"][r.below(3)], &[n]);
                for _ in 0..steps {
                    let (x, y) = (r.below(n + 1), r.below(n + 1));
                    match r.below(5) {
                        0 if n > 0 => b.o("add", &[at(r, n)]),
                        1 => b.o("pref", &[x]),
                        2 => b.o("sum", &[x.min(y), x.max(y)]),
                        3 => b.o("search", &[x]),
                        _ => b.o("point", &[y]),
                    }
                }
            }
            "heaps" => {
                b.o("heaps", &[2]);
                let mut len = [0usize; 2];
                for _ in 0..steps {
                    let h = r.below(2);
                    match r.below(10) {
                        0 | 1 => {
                            let k = r.size(1, n);
                            b.op("pushes", vec![i(h), i(r.range(-1000, 1000)), i(r.range(-3, 3)), i(k)]);
                            len[h] += k;
                        }
                        2 | 3 => {
                            b.op("push", vec![i(h), i(r.range(-100000, 100000))]);
                            len[h] += 1;
                        }
                        4 | 5 => {
                            b.o("pop", &[h]);
                            len[h] = len[h].saturating_sub(1);
                        }
                        6 => {
                            let k = r.below(len[h] + 1);
                            b.o("pops", &[h, k]);
                            len[h] -= k;
                        }
                        7 => b.o("peek", &[h]),
                        8 => {
                            b.o("append", &[h, 1 - h]);
                            len[h] += len[1 - h];
                            len[1 - h] = 0;
                        }
                        _ => {
                            if r.chance(1, 4) {
                                b.o("sorted", &[h]);
                                len[h] = 0;
                            }
                        }
                    }
                }
            }
            "sparse" => {
                let n = if r.chance(1, 12) { 0 } else { n };
                b.o("sparse", &[n]);
                for _ in 0..if n > 0 { steps } else { 0 } {
                    let (x, y) = (at(r, n), at(r, n));
                    b.o("get", &[x.min(y), x.max(y) + 1]);
                }
            }
            _ => {
                for k in 0..9 {
                    b.o(kind, &[if r.chance(1, 12) { 0 } else { n }, k, r.below(1000)]);
                }
            }
        }
        b.script(obj(&[]))
    }
}
