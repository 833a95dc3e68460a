//! Bipartite matching, maximum flow, strongly connected components, shortest paths.
use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::graph::bipartite_matching::AugmentedPath;
use rust_cp::graph::max_flow::Dinic;
use rust_cp::graph::shortest_path::dijkstra;
use rust_cp::graph::tarjan::scc;

fn quot<T: TryInto<i128>>(x: T, k: i128) -> V {
    match x.try_into() {
        Ok(v) if v % k == 0 => enc(v / k),
        _ => V::I(BAD),
    }
}

// ---------------------------------------------------------------- matching
pub struct Matching;
struct MM(Option<AugmentedPath>);
impl Machine for MM {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        if op == "new" {
            self.0 = Some(AugmentedPath::new(a[0].u(), a[1].u()));
            return unit();
        }
        let g = self.0.as_mut().expect("driver: no object");
        match op {
            "edge" => {
                g.add_edge(a[0].u(), a[1].u());
                unit()
            }
            "edges" => {
                for e in a[0].arr() {
                    g.add_edge(e.arr()[0].u(), e.arr()[1].u());
                }
                unit()
            }
            // the arguments are a proof of the answer, for the specification only
            "solve" | "solve_proved" => one(g.solve()),
            _ => panic!("driver: op {}", op),
        }
    }
}
/// A maximum matching and a vertex cover of the same size.
fn koenig(n: usize, m: usize, g: &[Vec<usize>]) -> (Vec<(usize, usize)>, Vec<usize>, Vec<usize>) {
    let mut mate_l = vec![usize::MAX; n];
    let mut mate_r = vec![usize::MAX; m];
    // one alternating breadth-first search from the free left vertices
    let search = |ml: &[usize], mr: &[usize], from: Vec<usize>| {
        let mut pred = vec![usize::MAX; m];
        let mut seen = vec![false; n];
        let mut q: std::collections::VecDeque<usize> = from.into();
        for &u in &q {
            seen[u] = true;
        }
        while let Some(u) = q.pop_front() {
            for &v in &g[u] {
                if pred[v] == usize::MAX && ml[u] != v {
                    pred[v] = u;
                    if mr[v] == usize::MAX {
                        return (Some(v), pred, seen);
                    }
                    if !seen[mr[v]] {
                        seen[mr[v]] = true;
                        q.push_back(mr[v]);
                    }
                }
            }
        }
        (None, pred, seen)
    };
    for u in 0..n {
        if let (Some(mut v), pred, _) = search(&mate_l, &mate_r, vec![u]) {
            loop {
                let x = pred[v];
                let next = mate_l[x];
                mate_l[x] = v;
                mate_r[v] = x;
                if x == u {
                    break;
                }
                v = next;
            }
        }
    }
    let free = (0..n).filter(|&u| mate_l[u] == usize::MAX).collect();
    let (_, pred, seen) = search(&mate_l, &mate_r, free);
    (
        (0..n).filter(|&u| mate_l[u] != usize::MAX).map(|u| (u, mate_l[u])).collect(),
        (0..n).filter(|&u| !seen[u]).collect(),
        (0..m).filter(|&v| pred[v] != usize::MAX).collect(),
    )
}
fn large_matching(r: &mut Rng) -> Script {
    let top = *r.pick(&[70usize, 140, 300, 600]);
    let (n, m) = (r.range(top as i64 / 2, top as i64) as usize, r.range(top as i64 / 2, top as i64) as usize);
    let mut b = B::new();
    b.o("new", &[n, m]);
    let mut g = vec![vec![]; n];
    let (lp, rp) = (r.perm(n), r.perm(m));
    let style = r.below(5);
    let rounds = 1 + r.below(4);
    for _ in 0..rounds {
        let mut es = vec![];
        let k = (n + m) / rounds + r.below(n);
        for j in 0..k {
            let (u, v) = match style {
                0 => (r.below(n), r.below(m)),
                1 => {
                    let u = r.below(n);
                    (u, r.below((u + 1).min(m)))
                }
                2 => ((j / 2) % n, ((j + 1) / 2) % m),
                3 => {
                    let j = k - 1 - j;
                    ((j / 2) % n, ((j + 1) / 2) % m)
                }
                _ => (r.below(n), r.below(1 + m / 3)),
            };
            es.push((lp[u], rp[v]));
        }
        if r.chance(1, 2) {
            r.shuffle(&mut es);
        }
        for &(u, v) in &es {
            g[u].push(v);
        }
        b.op("edges", vec![V::A(es.iter().map(|e| is([e.0, e.1])).collect())]);
        let (w, cl, cr) = koenig(n, m, &g);
        b.op("solve_proved", vec![V::A(w.iter().map(|e| is([e.0, e.1])).collect()), is(cl), is(cr)]);
    }
    b.script(obj(&[("n", i(n))]))
}
/// Blocks of two and two vertices, or one popular vertex with its suitors, under arbitrary names: the
/// optimum is known block by block, however many there are.
fn wide_matching(r: &mut Rng) -> Script {
    let blocks = *r.pick(&[32769usize, 40000, 65536]);
    let n = 2 * blocks;
    let (lp, rp) = (r.perm(n), r.perm(n));
    let mut b = B::new();
    b.o("new", &[n, n]);
    let kind: Vec<usize> = (0..blocks).map(|_| r.below(4)).collect();
    for round in 0..2 {
        let (mut es, mut w, mut cl, mut cr) = (vec![], vec![], vec![], vec![]);
        for (k, &kd) in kind.iter().enumerate() {
            let (a, c, x, y) = (lp[2 * k], lp[2 * k + 1], rp[2 * k], rp[2 * k + 1]);
            // both want x; later one of them, or nobody, may have y; or both want both
            if round == 0 {
                es.extend([[a, x], [c, x]]);
                if kd == 3 {
                    es.push([a, y]);
                }
            } else if kd == 0 || kd == 1 {
                es.push([if kd == 0 { a } else { c }, y]);
            }
            if kd == 3 || (round == 1 && kd < 2) {
                let first = if kd == 1 { c } else { a };
                w.extend([[first, y], [a + c - first, x]]);
                cl.extend([a, c]);
            } else {
                w.push([a, x]);
                cr.push(x);
            }
        }
        r.shuffle(&mut es);
        b.op("edges", vec![V::A(es.iter().map(|e| is(*e)).collect())]);
        b.op("solve_proved", vec![V::A(w.iter().map(|e| is(*e)).collect()), is(cl), is(cr)]);
    }
    b.script(obj(&[("n", i(n))]))
}
/// Few edges, very many questions in between: marks left by earlier questions must not be believed.
fn stubborn_matching(r: &mut Rng) -> Script {
    let n = 2 + r.below(4);
    let mut b = B::new();
    b.o("new", &[n, n]);
    let (lp, rp) = (r.perm(n), r.perm(n));
    // a chain that is matched from its far end
    for k in (0..2 * n - 2).rev() {
        if r.chance(1, 8) {
            continue;
        }
        b.o("edge", &[lp[k / 2], rp[(k + 1) / 2]]);
        if r.chance(1, 2) {
            b.o("solve", &[]);
        }
        if r.chance(1, 3) {
            let t = *r.pick(&[250, 251, 252, 253, 254, 255, 256, 257, 65533, 65534, 65535, 65536]);
            b.o(&format!("solve#{}", t), &[]);
        }
    }
    for _ in 0..n {
        b.o("edge", &[r.below(n), r.below(n)]);
        b.o("solve", &[]);
    }
    b.script(obj(&[("n", i(n))]))
}
impl Component for Matching {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(MM(None))
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        matches!(s.ops[k].0.as_str(), "edge" | "solve" | "solve_proved")
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        if idx % 200 == 9 {
            return large_matching(r);
        }
        if idx % 1600 == 100 {
            return wide_matching(r);
        }
        if idx % 8 == 6 {
            return stubborn_matching(r);
        }
        let big = idx % 25 == 3;
        let top = if big { if thorough { 40 } else { 24 } } else { 8 };
        let (n, m) = (r.size(0, top), r.size(0, top));
        let mut b = B::new();
        b.o("new", &[n, m]);
        if r.chance(1, 4) {
            b.o("solve", &[]);
        }
        if n > 0 && m > 0 {
            let style = r.below(5);
            let lp = r.perm(n);
            let rp = r.perm(m);
            let steps = match r.below(3) {
                0 => r.below(n + m + 2),
                1 => r.below(n * m + 2).min(3 * (n + m)),
                _ => n + m,
            };
            let often = *r.pick(&[1, 3, 10, 1000]);
            let mut last = (0, 0);
            for k in 0..steps {
                let (u, v) = match style {
                    0 => (r.below(n), r.below(m)),
                    // half graph: greedy choices must be undone
                    1 => {
                        let u = r.below(n);
                        (u, r.below((u + 1).min(m)))
                    }
                    // long alternating chain
                    2 => ((k / 2) % n, ((k + 1) / 2) % m),
                    // a few popular right vertices
                    3 => (r.below(n), r.below(m.min(3))),
                    // reversed chain: added from the far end
                    _ => {
                        let k = steps - 1 - k;
                        ((k / 2) % n, ((k + 1) / 2) % m)
                    }
                };
                let (u, v) = if r.chance(1, 12) { last } else { (lp[u], rp[v]) };
                last = (u, v);
                b.o("edge", &[u, v]);
                if r.below(often) == 0 {
                    b.o("solve", &[]);
                    if r.chance(1, 6) {
                        b.o("solve", &[]);
                    }
                }
            }
        }
        b.o("solve", &[]);
        b.script(obj(&[("n", i(n))]))
    }
}

// ---------------------------------------------------------------- maximum flow
/// Capacities travel divided by a scale K; -1 stands for the largest value of the type.
pub struct Flow {
    pub invalid: bool,
}
enum FM {
    Empty,
    I8(Dinic<i8>),
    U8(Dinic<u8>),
    I16(Dinic<i16>),
    I32(Dinic<i32>),
    U32(Dinic<u32>),
    I64(Dinic<i64>),
    U64(Dinic<u64>),
    Us(Dinic<usize>),
    Is(Dinic<isize>),
    I128(Dinic<i128>),
    U128(Dinic<u128>),
}
struct FS {
    d: FM,
    k: i128,
}
const SCALE: [i128; 11] = [
    1,
    1,
    7,
    65_537,
    65_537,
    1_000_000_000_007,
    1_000_000_000_007,
    3_000_000_019,
    1,
    1 << 90,
    (1 << 90) + 3,
];
macro_rules! fl {
    ($g:expr, $ty:ty, $op:expr, $a:expr, $k:expr) => {{
        let (g, a, k) = ($g, $a, $k);
        match $op {
            "edge" => {
                let c = a[2].int();
                let c = if c < 0 { <$ty>::MAX } else { (c as i128 * k) as $ty };
                g.add_edge(a[0].u(), a[1].u(), c);
                unit()
            }
            "edges" => {
                for e in a[0].arr() {
                    let e = e.ints();
                    g.add_edge(e[0] as usize, e[1] as usize, (e[2] as i128 * k) as $ty);
                }
                unit()
            }
            // further arguments are a proof of the answer, for the specification only
            "flow" | "flow_proved" => {
                let f: $ty = g.get_max_flow(a[0].u(), a[1].u());
                V::A(vec![quot(f, k)])
            }
            _ => panic!("driver: op"),
        }
    }};
}
impl Machine for FS {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        // a network of its own: one long chain, capacities repeating
        if op == "chain" {
            let (n, caps) = (a[0].u(), a[1].ints());
            let mut g = Dinic::<i64>::new(n);
            let order: Vec<usize> = if a[2].u() == 0 { (0..n - 1).collect() } else { (0..n - 1).rev().collect() };
            for v in order {
                g.add_edge(v, v + 1, caps[v % caps.len()]);
            }
            return V::A((0..2).map(|_| enc(g.get_max_flow(0, n - 1))).collect());
        }
        // a network of its own: many copies of a small one between the same two terminals 0 and 1
        if op == "copies" {
            let (k, m) = (a[0].u(), a[1].u());
            let mut g = Dinic::<i64>::new(2 + k * (m - 2));
            let mut order: Vec<usize> = (0..k).collect();
            Rng::new(a[3].u() as u64).shuffle(&mut order);
            for c in order {
                let at = |v: usize| if v < 2 { v } else { c * (m - 2) + v };
                for e in a[2].arr() {
                    let e = e.ints();
                    g.add_edge(at(e[0] as usize), at(e[1] as usize), e[2]);
                }
            }
            return V::A((0..2).map(|_| enc(g.get_max_flow(0, 1))).collect());
        }
        if op == "new" {
            let n = a[1].u();
            self.k = SCALE[a[0].u()];
            self.d = match a[0].u() {
                0 => FM::I8(Dinic::new(n)),
                1 => FM::U8(Dinic::new(n)),
                2 => FM::I16(Dinic::new(n)),
                3 => FM::I32(Dinic::new(n)),
                4 => FM::U32(Dinic::new(n)),
                5 => FM::I64(Dinic::new(n)),
                6 => FM::U64(Dinic::new(n)),
                7 => FM::Us(Dinic::new(n)),
                8 => FM::Is(Dinic::new(n)),
                9 => FM::I128(Dinic::new(n)),
                _ => FM::U128(Dinic::new(n)),
            };
            return unit();
        }
        let k = self.k;
        match &mut self.d {
            FM::Empty => panic!("driver: no object"),
            FM::I8(g) => fl!(g, i8, op, a, k),
            FM::U8(g) => fl!(g, u8, op, a, k),
            FM::I16(g) => fl!(g, i16, op, a, k),
            FM::I32(g) => fl!(g, i32, op, a, k),
            FM::U32(g) => fl!(g, u32, op, a, k),
            FM::I64(g) => fl!(g, i64, op, a, k),
            FM::U64(g) => fl!(g, u64, op, a, k),
            FM::Us(g) => fl!(g, usize, op, a, k),
            FM::Is(g) => fl!(g, isize, op, a, k),
            FM::I128(g) => fl!(g, i128, op, a, k),
            FM::U128(g) => fl!(g, u128, op, a, k),
        }
    }
}
/// Networks grown edge by edge, each new edge leading from a vertex the source still reaches to one
/// that still reaches the terminal, so that most calls must reroute what earlier calls pushed.
fn guided(r: &mut Rng, thorough: bool) -> Script {
    let n = r.range(4, if thorough { 14 } else { 11 }) as usize;
    let p = r.perm(n);
    let (s, t) = (p[0], p[n - 1]);
    let ty = r.below(11);
    let mut b = B::new();
    b.o("new", &[ty, n]);
    let mut c = vec![vec![0i64; n]; n];
    let cap = *r.pick(&[1i64, 1, 2, 3]);
    let per = 1 + r.below(3);
    let steps = r.range(10, if thorough { 80 } else { 50 }) as usize;
    let reach = |c: &Vec<Vec<i64>>, from: usize, fwd: bool| {
        let mut pred = vec![usize::MAX; n];
        pred[from] = from;
        let mut q = std::collections::VecDeque::from([from]);
        while let Some(u) = q.pop_front() {
            for v in 0..n {
                let k = if fwd { c[u][v] } else { c[v][u] };
                if k > 0 && pred[v] == usize::MAX {
                    pred[v] = u;
                    q.push_back(v);
                }
            }
        }
        pred
    };
    let mut out_s = 0;
    for step in 0..steps {
        let (a, z) = (reach(&c, s, true), reach(&c, t, false));
        let (u, v) = match r.below(8) {
            0 | 1 => (s, r.below(n)),
            2 | 3 => (r.below(n), t),
            7 => (r.below(n), r.below(n)),
            _ => {
                let us: Vec<usize> = (0..n).filter(|&x| a[x] != usize::MAX && (x != s || r.chance(1, 4))).collect();
                let vs: Vec<usize> = (0..n).filter(|&x| z[x] != usize::MAX && (x != t || r.chance(1, 4))).collect();
                if us.is_empty() || vs.is_empty() { (r.below(n), r.below(n)) } else { (*r.pick(&us), *r.pick(&vs)) }
            }
        };
        let mut w = r.range(1, cap);
        if u == s && v != s {
            w = w.min(100 - out_s);
            out_s += w;
        }
        b.op("edge", vec![i(u), i(v), i(w)]);
        if u != v {
            c[u][v] += w;
        }
        if r.below(per) == 0 || step + 1 == steps {
            b.o("flow", &[s, t]);
            loop {
                let pred = reach(&c, s, true);
                if pred[t] == usize::MAX {
                    break;
                }
                let mut v = t;
                while v != s {
                    c[pred[v]][v] -= 1;
                    c[v][pred[v]] += 1;
                    v = pred[v];
                }
            }
        }
    }
    b.script(obj(&[("n", i(n))]))
}

fn large_flow(r: &mut Rng) -> Script {
    let top = *r.pick(&[60i64, 120]);
    let n = r.range(20, top) as usize;
    let ty = 3 + r.below(8);
    let mut b = B::new();
    b.o("new", &[ty, n]);
    let p = r.perm(n);
    let (s, t) = (p[0], p[n - 1]);
    let hi = *r.pick(&[1i64, 3, 20, 1000]);
    let style = r.below(5);
    let width = *r.pick(&[2usize, 4, 10]);
    let rounds = 1 + r.below(4);
    let mut es: Vec<(usize, usize, i64)> = vec![];
    let mut f: Vec<i64> = vec![];
    let mut out_s = 0;
    for round in 0..rounds {
        let mut new = vec![];
        for j in 0..(if r.chance(1, 2) { 2 } else { 4 }) * n / rounds + 1 {
            let (u, v) = match style {
                0 => {
                    let x = r.below(n - 1);
                    let y = (x + 1 + r.below(3)).min(n - 1);
                    if r.chance(1, 5) { (y, x) } else { (x, y) }
                }
                // layers of the given width
                1 => {
                    let x = r.below(n);
                    let l = x / width + 1;
                    let y = if x == 0 { 1 + r.below(width) } else { l * width + r.below(width) };
                    (x, y.min(n - 1))
                }
                // parallel long paths with cross links
                2 => {
                    let x = 1 + r.below(n - 2);
                    match r.below(8) {
                        0 => (x, 1 + r.below(n - 2)),
                        _ => {
                            let y = if x < width { 0 } else { x - width };
                            if x + width >= n - 1 && r.chance(1, 2) { (x, n - 1) } else { (y, x) }
                        }
                    }
                }
                3 => if j < n - 1 && round == 0 { (j, j + 1) } else { (r.below(n), r.below(n)) },
                _ => (r.below(n), r.below(n)),
            };
            let mut c = r.range(0, hi);
            if p[u] == s && p[v] != s {
                c = c.min(30000 - out_s);
                out_s += c;
            }
            new.push((p[u], p[v], c));
        }
        b.op("edges", vec![V::A(new.iter().map(|e| is([e.0 as i64, e.1 as i64, e.2])).collect())]);
        es.extend(&new);
        f.resize(es.len(), 0);
        // shortest augmenting paths over the edge list
        let side = loop {
            let mut at = vec![vec![]; n];
            for (k, e) in es.iter().enumerate() {
                if e.0 != e.1 {
                    at[e.0].push(k);
                    at[e.1].push(k);
                }
            }
            let mut pred = vec![usize::MAX; n];
            let mut seen = vec![false; n];
            seen[s] = true;
            let mut q = std::collections::VecDeque::from([s]);
            while let Some(u) = q.pop_front() {
                for &k in &at[u] {
                    let e = es[k];
                    let (v, room) = if e.0 == u { (e.1, e.2 - f[k]) } else { (e.0, f[k]) };
                    if room > 0 && !seen[v] {
                        seen[v] = true;
                        pred[v] = k;
                        q.push_back(v);
                    }
                }
            }
            if !seen[t] {
                break seen;
            }
            let step = |v: usize| {
                let k = pred[v];
                if es[k].1 == v { (k, es[k].0, es[k].2 - f[k], 1) } else { (k, es[k].1, f[k], -1) }
            };
            let (mut v, mut by) = (t, i64::MAX);
            while v != s {
                let (_, u, room, _) = step(v);
                by = by.min(room);
                v = u;
            }
            let mut v = t;
            let mut ch = vec![];
            while v != s {
                let (k, u, _, sg) = step(v);
                ch.push((k, sg * by));
                v = u;
            }
            for (k, d) in ch {
                f[k] += d;
            }
        };
        b.op("flow_proved", vec![i(s), i(t), is(f.clone()), is((0..n).filter(|&v| side[v]))]);
    }
    b.script(obj(&[("n", i(n))]))
}

impl Component for Flow {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(FS { d: FM::Empty, k: 1 })
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        let (op, a) = &s.ops[k];
        match op.as_str() {
            // again, when it was already done
            "flow" => k > 0 && s.ops[k - 1].0 == *op && s.ops[k - 1].1 == *a,
            _ => false,
        }
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        if idx % 1600 == 33 && !self.invalid {
            let mut b = B::new();
            for n in [2 + r.below(600), *r.pick(&[65536usize, 66000, 100000]) + r.below(3)] {
                let caps: Vec<i64> = (0..1 + r.below(30)).map(|_| (r.range(-50, 1000)).max(0) + r.range(0, 1)).collect();
                b.op("chain", vec![i(n), is(caps), i(r.below(2))]);
            }
            return b.script(obj(&[("n", i(0))]));
        }
        if (idx % 1600 == 34 || idx % 50 == 35) && !self.invalid {
            let mut b = B::new();
            let large = idx % 50 != 35;
            for cancel in [true, large && r.chance(1, 2)] {
                let m = if cancel { 6 } else { r.range(4, 6) as usize };
                let mut es: Vec<[i64; 3]> = if cancel {
                    // the second shortest way has to take back what the shortest one used
                    [[0, 2], [0, 3], [2, 4], [2, 5], [3, 4], [4, 1], [5, 1]].iter().map(|&[u, v]| [u, v, 1 + r.below(2) as i64]).collect()
                } else {
                    (0..r.range(5, 12)).map(|_| [r.below(m) as i64, r.below(m) as i64, r.range(0, 3)]).collect()
                };
                if cancel && large {
                    es.iter_mut().for_each(|e| e[2] = 1);
                } else {
                    r.shuffle(&mut es);
                }
                let k = if large { (66000 + r.below(30000)) / (m - 2) } else { 1 + r.below(20) };
                b.op("copies", vec![i(k), i(m), V::A(es.iter().map(|e| is(e.to_vec())).collect()), i(r.below(1000))]);
            }
            return b.script(obj(&[("n", i(0))]));
        }
        if idx % 200 == 9 && !self.invalid {
            return large_flow(r);
        }
        if idx % 4 == 1 && !self.invalid {
            return guided(r, thorough);
        }
        let big = idx % 25 == 3;
        let n = if big { r.size(9, if thorough { 26 } else { 18 }) } else { r.size(2, 7) };
        let ty = r.below(11);
        // every capacity (and so every total) must fit the type
        let top: i64 = match ty {
            0 => 127,
            1 => 255,
            2 => 32767 / 7,
            3 => 32767,
            4 => 65535,
            _ => 1_000_000,
        };
        let mut b = B::new();
        b.o("new", &[ty, n]);
        let p = r.perm(n);
        let (s, t) = (p[0], p[n - 1]);
        let hi = *r.pick(&[1i64, 2, 5, top / 2]);
        let style = r.below(4);
        let steps = 1 + r.below(if big { 5 * n } else { 4 * n });
        let often = *r.pick(&[2, 6, 1000]);
        // what leaves s must fit the type; infinite edges never leave s
        let mut out_s = 0i64;
        for k in 0..steps {
            let (u, v) = match style {
                // layered forward edges with some backward ones
                0 => {
                    let x = r.below(n - 1);
                    let y = (x + 1 + r.below(2)).min(n - 1);
                    if r.chance(1, 5) { (y, x) } else { (x, y) }
                }
                1 => (r.below(n), r.below(n)),
                // chain with chords
                2 => if k < n - 1 { (k, k + 1) } else { (r.below(n), r.below(n)) },
                // complete bipartite like middle
                _ => match r.below(3) {
                    0 => (0, 1 + r.below(n - 1)),
                    1 => (r.below(n), n - 1),
                    _ => (r.below(n), r.below(n)),
                },
            };
            let (u, v) = (p[u], p[v]);
            let mut c = match r.below(5) {
                0 => hi,
                1 => r.range(0, 1),
                _ => r.range(0, hi),
            };
            if u == s && v != s {
                c = c.min(top - out_s);
                out_s += c;
            } else if r.chance(1, 10) {
                c = -1;
            }
            b.op("edge", vec![i(u), i(v), i(c)]);
            if r.below(often) == 0 {
                b.o("flow", &[s, t]);
            }
            if self.invalid {
                let out = r.beyond(n);
                match r.below(8) {
                    0 => b.op("edge", vec![i(out), i(v), i(1)]),
                    1 => b.op("edge", vec![i(s), i(out), i(1)]),
                    2 => b.op("edge", vec![i(u), i(out), i(1)]),
                    3 => {
                        let o2 = r.beyond(n);
                        b.op("edge", vec![i(out), i(o2), i(1)])
                    }
                    4 => b.op("flow", vec![i(s), i(out)]),
                    5 => b.op("flow", vec![i(out), i(t)]),
                    _ => {}
                }
            }
        }
        b.o("flow", &[s, t]);
        b.o("flow", &[s, t]);
        b.script(obj(&[("n", i(n))]))
    }
}

// ---------------------------------------------------------------- strongly connected components
pub struct Scc;
struct SM;
impl Machine for SM {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        match op {
            "scc" => {
                let g: Vec<Vec<usize>> = a[0].arr().iter().map(|x| x.usizes()).collect();
                let (c, col) = scc(&g);
                V::A(vec![enc(c), encs(col)])
            }
            "scc_blocks" => {
                let (n, w) = (a[0].u(), a[1].u());
                let g: Vec<Vec<usize>> = (0..n)
                    .map(|v| {
                        let (lo, hi) = (v / w * w, (v / w * w + w).min(n));
                        let mut l = vec![];
                        if hi - lo > 1 {
                            l.push(if v + 1 < hi { v + 1 } else { lo });
                        }
                        if v + 1 == hi && hi < n {
                            l.push(hi);
                        }
                        l
                    })
                    .collect();
                let (c, col) = scc(&g);
                V::A(vec![enc(c), encs(col)])
            }
            _ => panic!("driver: op {}", op),
        }
    }
}
impl Component for Scc {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(SM)
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        let big = idx % 25 == 3;
        if idx % 1000 == 77 {
            // every block size in turn, from single nodes to one cycle through all nodes
            let mut b = B::new();
            let n = *r.pick(&[65537usize, 70000, 100000, 131072]) + r.below(2);
            b.o("scc_blocks", &[n, [n, 1, 256, 2, 255, 3][idx / 1000 % 6]]);
            return b.script(obj(&[("n", i(n))]));
        }
        let large = idx % 400 == 128;
        let n = if large {
            r.range(100, 900) as usize
        } else if big {
            r.size(20, if thorough { 120 } else { 70 })
        } else {
            r.size(0, 9)
        };
        let mut g: Vec<Vec<usize>> = vec![vec![]; n];
        if n > 0 {
            let p = r.perm(n);
            let style = r.below(6);
            let m = match style {
                0 => r.below(n + 1),
                1 => r.below(2 * n + 1),
                2 => n + r.below(n / 2 + 2),
                _ => r.below(3 * n + 1),
            };
            for k in 0..m {
                let (u, v) = match style {
                    // long cycle(s) with chords
                    2 => if k < n { (k, (k + 1) % n) } else { (r.below(n), r.below(n)) },
                    // blocks: cycles chained by bridges
                    3 => {
                        let w = 1 + n / 4;
                        let u = r.below(n);
                        let base = u / w * w;
                        if r.chance(1, 6) { (u, r.below(n).max(u)) } else { (u, (base + r.below(w)).min(n - 1)) }
                    }
                    // mostly acyclic with few back edges
                    4 => {
                        let (x, y) = (r.below(n), r.below(n));
                        if r.chance(1, 10) { (x.max(y), x.min(y)) } else { (x.min(y), x.max(y)) }
                    }
                    // path with back edges
                    5 => if k + 1 < n { (k, k + 1) } else { let x = r.below(n); (x, r.below(x + 1)) },
                    _ => (r.below(n), r.below(n)),
                };
                g[p[u]].push(p[v]);
                if r.chance(1, 15) {
                    g[p[u]].push(p[v]);
                }
            }
            for l in g.iter_mut() {
                if r.chance(1, 2) {
                    r.shuffle(l);
                }
            }
        }
        let mut b = B::new();
        b.op("scc", vec![V::A(g.into_iter().map(is).collect())]);
        b.script(obj(&[("n", i(n))]))
    }
}

// ---------------------------------------------------------------- shortest paths
pub struct Dij;
struct DM;
impl Machine for DM {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        match op {
            // scale exponent, source, adjacency [[v, w], ..]
            "dijkstra" => {
                let k: usize = 1 << a[0].u();
                let g: Vec<Vec<(usize, usize)>> = a[2]
                    .arr()
                    .iter()
                    .map(|x| x.arr().iter().map(|e| (e.arr()[0].u(), e.arr()[1].u() * k)).collect())
                    .collect();
                V::A(dijkstra(&g, a[1].u())
                    .into_iter()
                    .map(|d| match d {
                        None => V::I(-1),
                        Some(d) => quot(d, k as i128),
                    })
                    .collect())
            }
            // scale exponent, vertices, source, cost of one step, cost of two
            "road" => {
                let k: usize = 1 << a[0].u();
                let (n, s, w, x) = (a[1].u(), a[2].u(), a[3].u(), a[4].u());
                let g: Vec<Vec<(usize, usize)>> = (0..n)
                    .map(|v| [(v + 1, w * k), (v + 2, x * k)].into_iter().filter(|e| e.0 < n).collect())
                    .collect();
                V::A(dijkstra(&g, s)
                    .into_iter()
                    .map(|d| match d {
                        None => V::I(-1),
                        Some(d) => quot(d, k as i128),
                    })
                    .collect())
            }
            _ => panic!("driver: op {}", op),
        }
    }
}
fn large_dijkstra(r: &mut Rng) -> Script {
    let mut b = B::new();
    let n = r.range(120, 800) as usize;
    let p = r.perm(n);
    let hi = *r.pick(&[0i64, 1, 3, 20, 1000]);
    let style = r.below(5);
    let mut g: Vec<Vec<V>> = vec![vec![]; n];
    for k in 0..*r.pick(&[2, 4]) * n {
        let (u, v, w) = match style {
            0 => {
                let u = r.below(n);
                let v = (u + 1 + r.below(4)).min(n - 1);
                let d = (v - u) as i64;
                (u, v, if d <= 1 { r.range(0, 1) } else { d * d + r.range(0, 2) })
            }
            1 => if k + 1 < n { (k, k + 1, r.range(0, hi)) } else { (r.below(n), r.below(n), r.range(0, hi * 2)) },
            // one hub reaching everything dearly, cheap local roads
            2 => if k < n { (0, k, r.range(0, 3 * n as i64)) } else { let u = r.below(n); (u, (u + 1 + r.below(9)) % n, r.range(0, hi.min(9))) },
            3 => { let u = r.below(n); (u, (u * 2 + r.below(2)) % n, r.range(0, hi)) }
            _ => (r.below(n), r.below(n), r.range(0, hi)),
        };
        g[p[u]].push(is([p[v] as i64, w]));
    }
    let scale = *r.pick(&[0usize, 0, 31, 33, 44]);
    for s in [p[0], r.below(n)] {
        b.op("dijkstra", vec![i(scale), i(s), V::A(g.iter().map(|x| V::A(x.clone())).collect())]);
    }
    b.script(obj(&[("n", i(n))]))
}
impl Component for Dij {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(DM)
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        if idx % 2000 == 77 {
            let mut b = B::new();
            let n = *r.pick(&[65537usize, 70000, 100000, 131072]) + r.below(2);
            b.o("road", &[*r.pick(&[0, 33]), n, r.below(100), r.below(40), r.below(80)]);
            return b.script(obj(&[("n", i(n))]));
        }
        if idx % 400 == 128 {
            return large_dijkstra(r);
        }
        let big = idx % 25 == 3;
        let n = if big {
            r.size(20, if thorough { 90 } else { 50 })
        } else if idx % 4 == 1 {
            r.size(10, 20)
        } else {
            r.size(1, 9)
        };
        let p = r.perm(n);
        let hi = *r.pick(&[0i64, 1, 3, 20, 1000]);
        let style = r.below(8);
        let mut g: Vec<Vec<V>> = vec![vec![]; n];
        let m = match style {
            0 => r.below(2 * n + 1),
            1 => r.below(4 * n + 1),
            5 => (n * n).min(700),
            6 | 7 => 0,
            _ => 2 * n,
        };
        // every vertex improves all later ones a little: as many outdated queue entries as edges
        if style == 6 {
            for u in 0..n {
                for v in u + 1..n {
                    let d = (v - u) as i64;
                    g[p[u]].push(is([p[v] as i64, if r.chance(1, 9) { r.range(0, 2 * d) } else { d * d }]));
                }
            }
        }
        // a fan of relays, each improving a few targets once more, and a tail far behind them
        if style == 7 && n >= 4 {
            let relays = 1 + r.below(n - 3);
            let targets = 1 + r.below(n - 2 - relays);
            let far = *r.pick(&[2i64, 50, 100000]);
            for k in 1..=relays {
                g[p[0]].push(is([p[k] as i64, k as i64]));
                for x in relays + 1..=relays + targets {
                    g[p[k]].push(is([p[x] as i64, (4 * n - 3 * k) as i64 + r.range(0, 1)]));
                }
            }
            for x in relays + targets + 1..n {
                let from = if r.chance(1, 2) { 0 } else { x - 1 };
                g[p[from]].push(is([p[x] as i64, if from == 0 { far } else { r.range(0, 2) }]));
                g[p[x]].push(is([p[r.below(n)] as i64, r.range(0, 3)]));
            }
        }
        for k in 0..m {
            let (u, v, w) = match style {
                // cheap long way, expensive short cuts: many decreases
                2 => {
                    let u = r.below(n);
                    let v = (u + 1 + r.below(4)).min(n - 1);
                    let d = (v - u) as i64;
                    (u, v, if d <= 1 { r.range(0, 1) } else { d * d + r.range(0, 2) })
                }
                // chain plus random
                3 => if k + 1 < n { (k, k + 1, r.range(0, hi)) } else { (r.below(n), r.below(n), r.range(0, hi * 2)) },
                // two halves, rarely connected
                4 => {
                    let h = n / 2;
                    let u = r.below(n);
                    let v = if u < h { r.below(h) } else { h + r.below(n - h) };
                    if r.chance(1, 20) { (u, r.below(n), r.range(0, hi)) } else { (u, v, r.range(0, hi)) }
                }
                _ => (r.below(n), r.below(n), r.range(0, hi)),
            };
            g[p[u]].push(is([p[v] as i64, w]));
        }
        let mut b = B::new();
        let scale = *r.pick(&[0usize, 0, 31, 33, 44]);
        for s in 0..n.min(4) {
            let s = if n <= 4 { s } else if s == 0 { p[0] } else { r.below(n) };
            b.op("dijkstra", vec![i(scale), i(s), V::A(g.iter().map(|x| V::A(x.clone())).collect())]);
        }
        b.script(obj(&[("n", i(n))]))
    }
}
