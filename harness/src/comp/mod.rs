use crate::Component;
mod basics;
mod cost;
mod factorial;
mod fenwick;
mod graph;
mod heap;
#[cfg(feature = "internal")]
mod internal;
mod segtree;
mod modular;
mod number;
mod reader;
mod recursion;
mod sparse;
mod strings;
mod tree;
mod union_find;
pub mod wide;

pub fn lookup(name: &str) -> Box<dyn Component + Send> {
    match name {
        "fenwick" => Box::new(fenwick::C { search: false }),
        "fenwick_search" => Box::new(fenwick::C { search: true }),
        "heap" => Box::new(heap::C),
        "sparse" => Box::new(sparse::C { invalid: false }),
        "sparse_inv" => Box::new(sparse::C { invalid: true }),
        "segtree" => Box::new(segtree::C(segtree::Mode::Plain)),
        "lazy" => Box::new(segtree::C(segtree::Mode::Lazy)),
        "search" => Box::new(segtree::C(segtree::Mode::Search)),
        "seg_inv" => Box::new(segtree::C(segtree::Mode::Invalid)),
        "hld" => Box::new(tree::C(tree::Mode::Hld)),
        "hld_inv" => Box::new(tree::C(tree::Mode::HldInvalid)),
        "lift" => Box::new(tree::C(tree::Mode::Lift)),
        "matching" => Box::new(graph::Matching),
        "flow" => Box::new(graph::Flow { invalid: false }),
        "flow_inv" => Box::new(graph::Flow { invalid: true }),
        "scc" => Box::new(graph::Scc),
        "dijkstra" => Box::new(graph::Dij),
        "kmp" => Box::new(strings::Tables("kmp")),
        "z" => Box::new(strings::Tables("z")),
        "aho" => Box::new(strings::Aho { invalid: false }),
        "aho_inv" => Box::new(strings::Aho { invalid: true }),
        "ring" => Box::new(modular::C(modular::Mode::Ring)),
        "convert" => Box::new(modular::C(modular::Mode::Convert)),
        "field" => Box::new(modular::C(modular::Mode::Field)),
        "families" => Box::new(modular::C(modular::Mode::Families)),
        "modulus_inv" => Box::new(modular::C(modular::Mode::Zero)),
        "factorial" => Box::new(factorial::C { invalid: false }),
        "factorial_inv" => Box::new(factorial::C { invalid: true }),
        "divisors" => Box::new(number::Div),
        "congruences" => Box::new(number::Crt),
        "reader" => Box::new(reader::C),
        "recursion" => Box::new(recursion::C),
        "monoids" => Box::new(basics::Monoids),
        "logs" => Box::new(basics::Logs),
        #[cfg(feature = "internal")]
        "internal" => Box::new(internal::C),
        "cost" => Box::new(cost::C),
        "union_find" => Box::new(union_find::C { invalid: false }),
        "union_find_inv" => Box::new(union_find::C { invalid: true }),
        _ => panic!("driver: unknown component {}", name),
    }
}

/// Shorthand for building scripts.
pub struct B {
    pub ops: Vec<crate::Op>,
}
impl B {
    pub fn new() -> B {
        B { ops: vec![] }
    }
    pub fn op(&mut self, name: &str, a: Vec<crate::json::V>) {
        self.ops.push((name.to_string(), crate::json::V::A(a)));
    }
    /// op with plain integer arguments
    pub fn o(&mut self, name: &str, a: &[usize]) {
        self.op(name, a.iter().map(|&x| crate::json::i(x)).collect());
    }
    pub fn script(self, m: crate::json::V) -> crate::Script {
        crate::Script { m, ops: self.ops, exp: vec![] }
    }
}
pub fn obj(kv: &[(&str, crate::json::V)]) -> crate::json::V {
    crate::json::V::O(kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
