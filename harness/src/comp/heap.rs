use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::data_structure::min_heap::MinHeap;
use std::cmp::Ordering;

pub struct C;
/// Ordered by key only, so elements with equal keys stay distinguishable by id.
#[derive(Clone, Debug)]
struct Item {
    key: i64,
    id: i64,
}
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.key == o.key
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> Ordering {
        self.key.cmp(&o.key)
    }
}
struct M(Vec<MinHeap<Item>>);

impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        let h = a[0].u();
        while self.0.len() <= h {
            self.0.push(MinHeap::new());
        }
        let it = |x: &Item| is([x.key, x.id]);
        match op {
            "new" => {
                self.0[h] = MinHeap::new();
                unit()
            }
            "with_capacity" => {
                self.0[h] = MinHeap::with_capacity(a[1].u());
                unit()
            }
            "push" => {
                self.0[h].push(Item { key: a[1].int(), id: a[2].int() });
                unit()
            }
            // many at once
            "pushes" => {
                for x in a[1].arr() {
                    self.0[h].push(Item { key: x.arr()[0].int(), id: x.arr()[1].int() });
                }
                unit()
            }
            "pop" => V::A(self.0[h].pop().iter().map(it).collect()),
            "popkey" => V::A(self.0[h].pop().iter().map(|x| V::I(x.key)).collect()),
            "peek" => V::A(self.0[h].peek().map(it).into_iter().collect()),
            "len" => one(self.0[h].len()),
            "empty" => flag(self.0[h].is_empty()),
            "append" => {
                let g = a[1].u();
                while self.0.len() <= g {
                    self.0.push(MinHeap::new());
                }
                let mut o = std::mem::replace(&mut self.0[g], MinHeap::new());
                self.0[h].append(&mut o);
                self.0[g] = o;
                unit()
            }
            "clear" => {
                self.0[h].clear();
                unit()
            }
            "sorted" => {
                let o = std::mem::replace(&mut self.0[h], MinHeap::new());
                V::A(o.into_sorted_vec().iter().map(it).collect())
            }
            "sortedkeys" => {
                let o = std::mem::replace(&mut self.0[h], MinHeap::new());
                is(o.into_sorted_vec().iter().map(|x| x.key))
            }
            _ => panic!("driver: op {}", op),
        }
    }
}

/// Heaps of more elements than sixteen bits count.
fn vast(r: &mut Rng) -> Script {
    let mut b = B::new();
    let mut id = 0;
    let keys = *r.pick(&[5i64, 70000, 1 << 30]);
    for h in 0..2 {
        b.o("new", &[h]);
        let n = *r.pick(&[40000usize, 65537, 65540, 66000]);
        let up = r.below(3);
        let list = (0..n)
            .map(|k| {
                id += 1;
                let k = k as i64;
                is([if up == 0 { k } else if up == 1 { -k } else { r.range(-keys, keys) }, id])
            })
            .collect();
        b.op("pushes", vec![i(h), V::A(list)]);
        b.o("len", &[h]);
        b.o("peek", &[h]);
    }
    let h = r.below(2);
    b.o("append", &[h, 1 - h]);
    for _ in 0..4 {
        b.o("len", &[h]);
        b.o("pop", &[h]);
        b.op("push", vec![i(h), i(r.range(-keys, keys)), i(-id)]);
        id += 1;
    }
    b.o("sorted", &[h]);
    b.o("len", &[1 - h]);
    b.o("empty", &[h]);
    b.script(obj(&[("hs", i(2))]))
}
impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M(vec![]))
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        matches!(s.ops[k].0.as_str(), "append" | "len" | "peek" | "empty" | "clear")
    }
    fn gen(&self, r: &mut Rng, _t: bool, idx: usize) -> Script {
        let hs = 1 + r.below(3);
        let keys = *r.pick(&[1i64, 2, 4, 50]);
        if idx % 1600 == 78 {
            return vast(r);
        }
        let large = idx % 1600 == 77;
        let keys = if large { *r.pick(&[3i64, 1000, 1000000]) } else { keys };
        let steps = if large { 2600 } else if idx % 25 == 3 { 300 } else { 5 + r.below(60) };
        let mut b = B::new();
        for h in 0..hs {
            if r.chance(1, 3) {
                b.o("with_capacity", &[h, r.below(20)]);
            } else {
                b.o("new", &[h]);
            }
        }
        let mut id = 0;
        if idx % 10 == 6 && hs > 1 {
            // whole heaps appended to one another
            for _ in 0..1 + r.below(3) {
                let most = *r.pick(&[2usize, 8, 40, 40, 130]);
                for h in 0..hs {
                    for _ in 0..r.below(most + 1) {
                        id += 1;
                        b.op("push", vec![i(h), i(r.range(-keys, keys)), i(id)]);
                    }
                }
                let h = r.below(hs);
                let g = (h + 1 + r.below(hs - 1)) % hs;
                b.o("append", &[h, g]);
                b.o("len", &[h]);
                b.o("len", &[g]);
                for _ in 0..r.below(most + 4) {
                    b.o("pop", &[h]);
                }
                if r.chance(1, 3) {
                    b.o("sorted", &[h]);
                }
            }
        }
        for _ in 0..steps {
            let h = r.below(hs);
            let grow = large && r.chance(1, 2);
            match if grow { 0 } else { r.below(24) } {
                20..=23 if large && r.chance(9, 10) => b.o("peek", &[h]),
                0..=9 => {
                    id += 1;
                    b.op("push", vec![i(h), i(r.range(-keys, keys)), i(id)]);
                }
                10..=15 => b.o("pop", &[h]),
                16 | 17 => b.o("peek", &[h]),
                18 => b.o("len", &[h]),
                19 => b.o("empty", &[h]),
                20 | 21 if hs > 1 => {
                    let g = (h + 1 + r.below(hs - 1)) % hs;
                    b.o("append", &[h, g]);
                    if r.chance(1, 2) {
                        b.o("len", &[g]);
                        b.o("empty", &[g]);
                    }
                }
                22 if r.chance(1, 3) => b.o("clear", &[h]),
                23 if r.chance(1, 2) => b.o("sorted", &[h]),
                _ => b.o("peek", &[h]),
            }
        }
        for h in 0..hs {
            b.o("len", &[h]);
            if r.chance(1, 2) {
                b.o("sorted", &[h]);
                b.o("len", &[h]);
            }
            for _ in 0..r.below(12) {
                b.o("pop", &[h]);
            }
        }
        b.script(obj(&[("hs", i(hs))]))
    }
}
