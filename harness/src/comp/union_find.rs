use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::data_structure::union_find::UnionFind;

pub struct C {
    pub invalid: bool,
}
struct M(Option<UnionFind>, usize);

impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        if op == "new" {
            self.0 = Some(UnionFind::new(a[0].u()));
            self.1 = a[0].u();
            return unit();
        }
        let n = self.1;
        let u = self.0.as_mut().expect("driver: no object");
        match op {
            "join" => flag(u.join(a[0].u(), a[1].u())),
            "chain" => {
                let (s, d, k) = (a[0].u(), a[1].u(), a[2].u());
                one((1..k).filter(|j| u.join((s + (j - 1) * d) % n, (s + j * d) % n)).count())
            }
            "same" => flag(u.is_same(a[0].u(), a[1].u())),
            "find" => one(u.find(a[0].u())),
            "size" => one(u.size(a[0].u())),
            "groups" => V::A(u.groups().into_iter().map(encs).collect()),
            _ => panic!("driver: op {}", op),
        }
    }
}

impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M(None, 0))
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        let (op, a) = &s.ops[k];
        match op.as_str() {
            "find" | "same" | "size" | "groups" => true,
            // again, when it was already done
            "join" => k > 0 && s.ops[k - 1].0 == *op && s.ops[k - 1].1 == *a,
            _ => false,
        }
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        if idx % 800 == 27 {
            return large(r, idx / 800 % 2 == 0);
        }
        if !self.invalid && idx % 16 == 5 {
            return binomial(r, thorough);
        }
        let big = idx % 40 == 7;
        let n = if big { r.size(100, if thorough { 600 } else { 260 }) } else { r.size(0, 24) };
        let mut b = B::new();
        b.o("new", &[n]);
        if n == 0 {
            b.o("groups", &[]);
            return b.script(obj(&[("n", i(n))]));
        }
        let steps = if big { n + n / 2 } else { r.below(3 * n + 4) };
        // style: uniform pairs, chain, star, balanced merging, block-local
        let style = r.below(5);
        let quiet = r.chance(1, 2); // few queries between joins: keeps uncompressed paths alive
        let perm = r.perm(n);
        for k in 0..steps {
            let (x, y) = match style {
                0 => (r.below(n), r.below(n)),
                1 => (k % n, (k + 1) % n),
                2 => (0, r.below(n)),
                3 => {
                    let d = 1usize << r.below(6);
                    let x = r.below(n);
                    (x, (x + d) % n)
                }
                _ => {
                    let w = 1 + n / 3;
                    let base = r.below(3) * w;
                    (((base + r.below(w)) % n), ((base + r.below(w)) % n))
                }
            };
            let (x, y) = if r.chance(1, 2) { (perm[x], perm[y]) } else { (perm[y], perm[x]) };
            if self.invalid && r.chance(1, 3) {
                // an element out of range, on either side
                let far = r.beyond(n);
                let (x, y) = (x as i64, y as i64);
                let far2 = r.beyond(n);
                match r.below(6) {
                    0 => b.op("join", vec![i(x), i(far)]),
                    1 => b.op("join", vec![i(far), i(y)]),
                    2 => b.op("same", if r.chance(1, 2) { vec![i(x), i(far)] } else { vec![i(far), i(x)] }),
                    3 => b.op("find", vec![i(far)]),
                    4 => b.op(*r.pick(&["join", "same"]), vec![i(far), i(if r.chance(1, 2) { far } else { far2 })]),
                    _ => b.op("size", vec![i(far)]),
                }
            }
            b.o("join", &[x, y]);
            if !quiet || r.chance(1, 8) {
                match r.below(if big { 4 } else { 5 }) {
                    0 | 1 => b.o("same", &[r.below(n), r.below(n)]),
                    2 => b.o("find", &[r.below(n)]),
                    3 => b.o("size", &[r.below(n)]),
                    _ => b.o("groups", &[]),
                }
            }
        }
        b.o("groups", &[]);
        for x in 0..n {
            if n <= 24 || r.chance(1, 8) {
                b.o("size", &[x]);
                b.o("find", &[x]);
                b.o("same", &[x, r.below(n)]);
            }
        }
        b.o("groups", &[]);
        b.script(obj(&[("n", i(n))]))
    }
}

/// Few calls on very many elements.
fn large(r: &mut Rng, halves: bool) -> Script {
    let n = *r.pick(if halves { &[131072, 131080, 140000] } else { &[1000, 65536, 65537, 66000, 70000, 100000] }) + r.below(3);
    let mut b = B::new();
    b.o("new", &[n]);
    if halves {
        // two large sets become one
        b.o("chain", &[0, 2, n / 2]);
        b.o("chain", &[1, 2, n / 2]);
        b.o("same", &[r.below(n), r.below(n)]);
        let (x, y) = (2 * r.below(n / 2), 2 * r.below(n / 2) + 1);
        b.op("join", if r.chance(1, 2) { is([x, y]) } else { is([y, x]) }.arr().to_vec());
        b.o("size", &[r.below(n / 2)]);
        b.o("join", &[n - 1, n - 2]);
        b.o("size", &[n - 1]);
        b.o("groups", &[]);
        return b.script(obj(&[("n", i(n))]));
    }
    let mut ends = vec![0, n - 1];
    for k in 0..6 {
        let step = *r.pick(&[1, 1, 2, 3, 255, 256, 10007]);
        let start = r.below(n);
        let count = if k < 3 { 1 + r.below(300) } else { 1 + r.below(n) };
        b.o("chain", &[start, step, count]);
        ends.push(start);
        ends.push((start + (count - 1) * step) % n);
        for _ in 0..3 {
            let (x, y) = (*r.pick(&ends), if r.chance(1, 2) { r.below(n) } else { *r.pick(&ends) });
            match r.below(4) {
                0 => b.o("join", &[x, y]),
                1 => b.o("same", &[x, y]),
                2 => b.o("find", &[y]),
                _ => b.o("size", &[x]),
            }
        }
        if k == 5 {
            b.o("groups", &[]);
        }
    }
    b.script(obj(&[("n", i(n))]))
}

/// Blocks merged pairwise through their first members only, so that the paths of the others stay long.
fn binomial(r: &mut Rng, thorough: bool) -> Script {
    let levels = 3 + r.below(if thorough { 6 } else { 5 });
    let n = (1usize << levels) + r.below(4);
    let mut b = B::new();
    b.o("new", &[n]);
    let p = r.perm(n);
    let side = r.below(3);
    for lv in 0..levels {
        let w = 1usize << lv;
        for i in (0..(1usize << levels)).step_by(2 * w) {
            if side < 2 && (side == 0) != r.chance(1, 40) {
                b.o("join", &[p[i], p[i + w]]);
            } else {
                b.o("join", &[p[i + w], p[i]]);
            }
        }
    }
    // members far from the top first
    let mut xs: Vec<usize> = (0..n).collect();
    if r.chance(1, 2) {
        xs.reverse();
    } else {
        xs = r.perm(n);
    }
    let most = if thorough { n } else { n.min(40) };
    for &k in &xs[..most] {
        match r.below(5) {
            0 => b.o("same", &[p[k], r.below(n)]),
            1 => b.o("find", &[p[k]]),
            2 => b.o("join", &[p[k], r.below(n)]),
            3 => b.o("size", &[p[k]]),
            _ => b.o("same", &[r.below(n), p[k]]),
        }
    }
    b.o("groups", &[]);
    b.script(obj(&[("n", i(n))]))
}
