use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::misc::recursive_function::*;
use std::cell::RefCell;
use std::rc::Rc;

pub struct C;
/// What the body of the closure follows and reports; shared by reference.
#[derive(Default)]
struct Shared {
    tape: Vec<(bool, Vec<i64>)>, // (call?, arguments or value)
    at: usize,
    log: Vec<V>,
}
type Sh = Rc<RefCell<Shared>>;
fn ints(a: &[i64]) -> V {
    V::A(a.iter().map(|&x| i(x)).collect())
}
fn report(sh: &Sh, count: &mut i64, kind: i64, args: &[i64], val: Option<i64>) {
    let mut e = vec![i(kind), i(*count), ints(args)];
    if let Some(v) = val {
        e.push(i(v));
    }
    *count += 1;
    sh.borrow_mut().log.push(V::A(e));
}
fn fetch(sh: &Sh) -> (bool, Vec<i64>) {
    let mut s = sh.borrow_mut();
    let k = s.at;
    s.at += 1;
    // past the end of the tape: return something no specification accepts
    s.tape.get(k).cloned().unwrap_or((false, vec![-7]))
}
trait Closure {
    fn call(&mut self, a: &[i64]) -> i64;
}

struct W0<F: FnMut(&mut dyn Callable0<i64>) -> i64>(RecursiveFunction0<F, i64>);
impl<F: FnMut(&mut dyn Callable0<i64>) -> i64> Closure for W0<F> {
    fn call(&mut self, v: &[i64]) -> i64 {
        assert!(v.len() == 0, "driver: arity");
        self.0.call()
    }
}
fn make0(sh: Sh) -> Box<dyn Closure> {
    let mut count = 0i64; // owned by the closure
    Box::new(W0(RecursiveFunction0::new(move |me: &mut dyn Callable0<i64>| -> i64 {
        report(&sh, &mut count, 0, &[], None);
        loop {
            let (call, v) = fetch(&sh);
            if call {
                let r = me.call();
                report(&sh, &mut count, 1, &[], Some(r));
            } else {
                report(&sh, &mut count, 2, &[], Some(v[0]));
                return v[0];
            }
        }
    })))
}

struct W1<F: FnMut(&mut dyn Callable<i64, i64>, i64) -> i64>(RecursiveFunction<F, i64, i64>);
impl<F: FnMut(&mut dyn Callable<i64, i64>, i64) -> i64> Closure for W1<F> {
    fn call(&mut self, v: &[i64]) -> i64 {
        assert!(v.len() == 1, "driver: arity");
        self.0.call(v[0])
    }
}
fn make1(sh: Sh) -> Box<dyn Closure> {
    let mut count = 0i64; // owned by the closure
    Box::new(W1(RecursiveFunction::new(move |me: &mut dyn Callable<i64, i64>, x0: i64| -> i64 {
        report(&sh, &mut count, 0, &[x0], None);
        loop {
            let (call, v) = fetch(&sh);
            if call {
                let r = me.call(v[0]);
                report(&sh, &mut count, 1, &[x0], Some(r));
            } else {
                report(&sh, &mut count, 2, &[x0], Some(v[0]));
                return v[0];
            }
        }
    })))
}

struct W2<F: FnMut(&mut dyn Callable2<i64, i64, i64>, i64, i64) -> i64>(RecursiveFunction2<F, i64, i64, i64>);
impl<F: FnMut(&mut dyn Callable2<i64, i64, i64>, i64, i64) -> i64> Closure for W2<F> {
    fn call(&mut self, v: &[i64]) -> i64 {
        assert!(v.len() == 2, "driver: arity");
        self.0.call(v[0], v[1])
    }
}
fn make2(sh: Sh) -> Box<dyn Closure> {
    let mut count = 0i64; // owned by the closure
    Box::new(W2(RecursiveFunction2::new(move |me: &mut dyn Callable2<i64, i64, i64>, x0: i64, x1: i64| -> i64 {
        report(&sh, &mut count, 0, &[x0, x1], None);
        loop {
            let (call, v) = fetch(&sh);
            if call {
                let r = me.call(v[0], v[1]);
                report(&sh, &mut count, 1, &[x0, x1], Some(r));
            } else {
                report(&sh, &mut count, 2, &[x0, x1], Some(v[0]));
                return v[0];
            }
        }
    })))
}

struct W3<F: FnMut(&mut dyn Callable3<i64, i64, i64, i64>, i64, i64, i64) -> i64>(RecursiveFunction3<F, i64, i64, i64, i64>);
impl<F: FnMut(&mut dyn Callable3<i64, i64, i64, i64>, i64, i64, i64) -> i64> Closure for W3<F> {
    fn call(&mut self, v: &[i64]) -> i64 {
        assert!(v.len() == 3, "driver: arity");
        self.0.call(v[0], v[1], v[2])
    }
}
fn make3(sh: Sh) -> Box<dyn Closure> {
    let mut count = 0i64; // owned by the closure
    Box::new(W3(RecursiveFunction3::new(move |me: &mut dyn Callable3<i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64| -> i64 {
        report(&sh, &mut count, 0, &[x0, x1, x2], None);
        loop {
            let (call, v) = fetch(&sh);
            if call {
                let r = me.call(v[0], v[1], v[2]);
                report(&sh, &mut count, 1, &[x0, x1, x2], Some(r));
            } else {
                report(&sh, &mut count, 2, &[x0, x1, x2], Some(v[0]));
                return v[0];
            }
        }
    })))
}

struct W4<F: FnMut(&mut dyn Callable4<i64, i64, i64, i64, i64>, i64, i64, i64, i64) -> i64>(RecursiveFunction4<F, i64, i64, i64, i64, i64>);
impl<F: FnMut(&mut dyn Callable4<i64, i64, i64, i64, i64>, i64, i64, i64, i64) -> i64> Closure for W4<F> {
    fn call(&mut self, v: &[i64]) -> i64 {
        assert!(v.len() == 4, "driver: arity");
        self.0.call(v[0], v[1], v[2], v[3])
    }
}
fn make4(sh: Sh) -> Box<dyn Closure> {
    let mut count = 0i64; // owned by the closure
    Box::new(W4(RecursiveFunction4::new(move |me: &mut dyn Callable4<i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64| -> i64 {
        report(&sh, &mut count, 0, &[x0, x1, x2, x3], None);
        loop {
            let (call, v) = fetch(&sh);
            if call {
                let r = me.call(v[0], v[1], v[2], v[3]);
                report(&sh, &mut count, 1, &[x0, x1, x2, x3], Some(r));
            } else {
                report(&sh, &mut count, 2, &[x0, x1, x2, x3], Some(v[0]));
                return v[0];
            }
        }
    })))
}

struct W5<F: FnMut(&mut dyn Callable5<i64, i64, i64, i64, i64, i64>, i64, i64, i64, i64, i64) -> i64>(RecursiveFunction5<F, i64, i64, i64, i64, i64, i64>);
impl<F: FnMut(&mut dyn Callable5<i64, i64, i64, i64, i64, i64>, i64, i64, i64, i64, i64) -> i64> Closure for W5<F> {
    fn call(&mut self, v: &[i64]) -> i64 {
        assert!(v.len() == 5, "driver: arity");
        self.0.call(v[0], v[1], v[2], v[3], v[4])
    }
}
fn make5(sh: Sh) -> Box<dyn Closure> {
    let mut count = 0i64; // owned by the closure
    Box::new(W5(RecursiveFunction5::new(move |me: &mut dyn Callable5<i64, i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64, x4: i64| -> i64 {
        report(&sh, &mut count, 0, &[x0, x1, x2, x3, x4], None);
        loop {
            let (call, v) = fetch(&sh);
            if call {
                let r = me.call(v[0], v[1], v[2], v[3], v[4]);
                report(&sh, &mut count, 1, &[x0, x1, x2, x3, x4], Some(r));
            } else {
                report(&sh, &mut count, 2, &[x0, x1, x2, x3, x4], Some(v[0]));
                return v[0];
            }
        }
    })))
}

struct W6<F: FnMut(&mut dyn Callable6<i64, i64, i64, i64, i64, i64, i64>, i64, i64, i64, i64, i64, i64) -> i64>(RecursiveFunction6<F, i64, i64, i64, i64, i64, i64, i64>);
impl<F: FnMut(&mut dyn Callable6<i64, i64, i64, i64, i64, i64, i64>, i64, i64, i64, i64, i64, i64) -> i64> Closure for W6<F> {
    fn call(&mut self, v: &[i64]) -> i64 {
        assert!(v.len() == 6, "driver: arity");
        self.0.call(v[0], v[1], v[2], v[3], v[4], v[5])
    }
}
fn make6(sh: Sh) -> Box<dyn Closure> {
    let mut count = 0i64; // owned by the closure
    Box::new(W6(RecursiveFunction6::new(move |me: &mut dyn Callable6<i64, i64, i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64, x4: i64, x5: i64| -> i64 {
        report(&sh, &mut count, 0, &[x0, x1, x2, x3, x4, x5], None);
        loop {
            let (call, v) = fetch(&sh);
            if call {
                let r = me.call(v[0], v[1], v[2], v[3], v[4], v[5]);
                report(&sh, &mut count, 1, &[x0, x1, x2, x3, x4, x5], Some(r));
            } else {
                report(&sh, &mut count, 2, &[x0, x1, x2, x3, x4, x5], Some(v[0]));
                return v[0];
            }
        }
    })))
}

struct W7<F: FnMut(&mut dyn Callable7<i64, i64, i64, i64, i64, i64, i64, i64>, i64, i64, i64, i64, i64, i64, i64) -> i64>(RecursiveFunction7<F, i64, i64, i64, i64, i64, i64, i64, i64>);
impl<F: FnMut(&mut dyn Callable7<i64, i64, i64, i64, i64, i64, i64, i64>, i64, i64, i64, i64, i64, i64, i64) -> i64> Closure for W7<F> {
    fn call(&mut self, v: &[i64]) -> i64 {
        assert!(v.len() == 7, "driver: arity");
        self.0.call(v[0], v[1], v[2], v[3], v[4], v[5], v[6])
    }
}
fn make7(sh: Sh) -> Box<dyn Closure> {
    let mut count = 0i64; // owned by the closure
    Box::new(W7(RecursiveFunction7::new(move |me: &mut dyn Callable7<i64, i64, i64, i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64, x4: i64, x5: i64, x6: i64| -> i64 {
        report(&sh, &mut count, 0, &[x0, x1, x2, x3, x4, x5, x6], None);
        loop {
            let (call, v) = fetch(&sh);
            if call {
                let r = me.call(v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
                report(&sh, &mut count, 1, &[x0, x1, x2, x3, x4, x5, x6], Some(r));
            } else {
                report(&sh, &mut count, 2, &[x0, x1, x2, x3, x4, x5, x6], Some(v[0]));
                return v[0];
            }
        }
    })))
}

struct W8<F: FnMut(&mut dyn Callable8<i64, i64, i64, i64, i64, i64, i64, i64, i64>, i64, i64, i64, i64, i64, i64, i64, i64) -> i64>(RecursiveFunction8<F, i64, i64, i64, i64, i64, i64, i64, i64, i64>);
impl<F: FnMut(&mut dyn Callable8<i64, i64, i64, i64, i64, i64, i64, i64, i64>, i64, i64, i64, i64, i64, i64, i64, i64) -> i64> Closure for W8<F> {
    fn call(&mut self, v: &[i64]) -> i64 {
        assert!(v.len() == 8, "driver: arity");
        self.0.call(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])
    }
}
fn make8(sh: Sh) -> Box<dyn Closure> {
    let mut count = 0i64; // owned by the closure
    Box::new(W8(RecursiveFunction8::new(move |me: &mut dyn Callable8<i64, i64, i64, i64, i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64, x4: i64, x5: i64, x6: i64, x7: i64| -> i64 {
        report(&sh, &mut count, 0, &[x0, x1, x2, x3, x4, x5, x6, x7], None);
        loop {
            let (call, v) = fetch(&sh);
            if call {
                let r = me.call(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
                report(&sh, &mut count, 1, &[x0, x1, x2, x3, x4, x5, x6, x7], Some(r));
            } else {
                report(&sh, &mut count, 2, &[x0, x1, x2, x3, x4, x5, x6, x7], Some(v[0]));
                return v[0];
            }
        }
    })))
}

struct W9<F: FnMut(&mut dyn Callable9<i64, i64, i64, i64, i64, i64, i64, i64, i64, i64>, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> i64>(RecursiveFunction9<F, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64>);
impl<F: FnMut(&mut dyn Callable9<i64, i64, i64, i64, i64, i64, i64, i64, i64, i64>, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> i64> Closure for W9<F> {
    fn call(&mut self, v: &[i64]) -> i64 {
        assert!(v.len() == 9, "driver: arity");
        self.0.call(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8])
    }
}
fn make9(sh: Sh) -> Box<dyn Closure> {
    let mut count = 0i64; // owned by the closure
    Box::new(W9(RecursiveFunction9::new(move |me: &mut dyn Callable9<i64, i64, i64, i64, i64, i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64, x4: i64, x5: i64, x6: i64, x7: i64, x8: i64| -> i64 {
        report(&sh, &mut count, 0, &[x0, x1, x2, x3, x4, x5, x6, x7, x8], None);
        loop {
            let (call, v) = fetch(&sh);
            if call {
                let r = me.call(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
                report(&sh, &mut count, 1, &[x0, x1, x2, x3, x4, x5, x6, x7, x8], Some(r));
            } else {
                report(&sh, &mut count, 2, &[x0, x1, x2, x3, x4, x5, x6, x7, x8], Some(v[0]));
                return v[0];
            }
        }
    })))
}

fn make(n: usize, sh: Sh) -> Box<dyn Closure> {
    match n {
        0 => make0(sh),
        1 => make1(sh),
        2 => make2(sh),
        3 => make3(sh),
        4 => make4(sh),
        5 => make5(sh),
        6 => make6(sh),
        7 => make7(sh),
        8 => make8(sh),
        9 => make9(sh),
        _ => panic!("driver: arity"),
    }
}
/// n + f(n - 1), with the other arguments passed along unchanged
fn deep(arity: usize, depth: i64) -> i64 {
    match arity {
        0 => {
            let mut left = depth;
            let mut f = RecursiveFunction0::new(|me: &mut dyn Callable0<i64>| {
                if left == 0 {
                    return 0;
                }
                let mine = left;
                left -= 1;
                me.call() + mine
            });
            f.call()
        }
        1 => {
            let mut f = RecursiveFunction::new(|me: &mut dyn Callable<i64, i64>, x0: i64| {
                if x0 == 0 { 0 } else {
                    let r = me.call(x0 - 1);
                    if true { r + x0 } else { -1 }
                }
            });
            f.call(depth)
        }
        2 => {
            let mut f = RecursiveFunction2::new(|me: &mut dyn Callable2<i64, i64, i64>, x0: i64, x1: i64| {
                if x0 == 0 { 0 } else {
                    let r = me.call(x0 - 1, x1);
                    if x1 == 1 { r + x0 } else { -1 }
                }
            });
            f.call(depth, 1)
        }
        3 => {
            let mut f = RecursiveFunction3::new(|me: &mut dyn Callable3<i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64| {
                if x0 == 0 { 0 } else {
                    let r = me.call(x0 - 1, x1, x2);
                    if x1 == 1 && x2 == 2 { r + x0 } else { -1 }
                }
            });
            f.call(depth, 1, 2)
        }
        4 => {
            let mut f = RecursiveFunction4::new(|me: &mut dyn Callable4<i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64| {
                if x0 == 0 { 0 } else {
                    let r = me.call(x0 - 1, x1, x2, x3);
                    if x1 == 1 && x2 == 2 && x3 == 3 { r + x0 } else { -1 }
                }
            });
            f.call(depth, 1, 2, 3)
        }
        5 => {
            let mut f = RecursiveFunction5::new(|me: &mut dyn Callable5<i64, i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64, x4: i64| {
                if x0 == 0 { 0 } else {
                    let r = me.call(x0 - 1, x1, x2, x3, x4);
                    if x1 == 1 && x2 == 2 && x3 == 3 && x4 == 4 { r + x0 } else { -1 }
                }
            });
            f.call(depth, 1, 2, 3, 4)
        }
        6 => {
            let mut f = RecursiveFunction6::new(|me: &mut dyn Callable6<i64, i64, i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64, x4: i64, x5: i64| {
                if x0 == 0 { 0 } else {
                    let r = me.call(x0 - 1, x1, x2, x3, x4, x5);
                    if x1 == 1 && x2 == 2 && x3 == 3 && x4 == 4 && x5 == 5 { r + x0 } else { -1 }
                }
            });
            f.call(depth, 1, 2, 3, 4, 5)
        }
        7 => {
            let mut f = RecursiveFunction7::new(|me: &mut dyn Callable7<i64, i64, i64, i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64, x4: i64, x5: i64, x6: i64| {
                if x0 == 0 { 0 } else {
                    let r = me.call(x0 - 1, x1, x2, x3, x4, x5, x6);
                    if x1 == 1 && x2 == 2 && x3 == 3 && x4 == 4 && x5 == 5 && x6 == 6 { r + x0 } else { -1 }
                }
            });
            f.call(depth, 1, 2, 3, 4, 5, 6)
        }
        8 => {
            let mut f = RecursiveFunction8::new(|me: &mut dyn Callable8<i64, i64, i64, i64, i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64, x4: i64, x5: i64, x6: i64, x7: i64| {
                if x0 == 0 { 0 } else {
                    let r = me.call(x0 - 1, x1, x2, x3, x4, x5, x6, x7);
                    if x1 == 1 && x2 == 2 && x3 == 3 && x4 == 4 && x5 == 5 && x6 == 6 && x7 == 7 { r + x0 } else { -1 }
                }
            });
            f.call(depth, 1, 2, 3, 4, 5, 6, 7)
        }
        9 => {
            let mut f = RecursiveFunction9::new(|me: &mut dyn Callable9<i64, i64, i64, i64, i64, i64, i64, i64, i64, i64>, x0: i64, x1: i64, x2: i64, x3: i64, x4: i64, x5: i64, x6: i64, x7: i64, x8: i64| {
                if x0 == 0 { 0 } else {
                    let r = me.call(x0 - 1, x1, x2, x3, x4, x5, x6, x7, x8);
                    if x1 == 1 && x2 == 2 && x3 == 3 && x4 == 4 && x5 == 5 && x6 == 6 && x7 == 7 && x8 == 8 { r + x0 } else { -1 }
                }
            });
            f.call(depth, 1, 2, 3, 4, 5, 6, 7, 8)
        }
        _ => panic!("driver: arity"),
    }
}
struct M {
    f: Option<Box<dyn Closure>>,
    sh: Sh,
}
fn args_of(v: &V) -> Vec<i64> {
    v.arr().iter().map(|x| x.int()).collect()
}
impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        match op {
            "new" => {
                self.sh = Default::default();
                self.f = Some(make(a[0].u(), self.sh.clone()));
                V::A(vec![])
            }
            "call" => {
                {
                    let mut s = self.sh.borrow_mut();
                    s.at = 0;
                    s.log.clear();
                    s.tape = a[1]
                        .arr()
                        .iter()
                        .map(|x| {
                            let x = x.arr();
                            if x[0].int() == 1 { (true, args_of(&x[1])) } else { (false, vec![x[1].int()]) }
                        })
                        .collect();
                }
                let v = self.f.as_mut().expect("driver: new").call(&args_of(&a[0]));
                let log = std::mem::take(&mut self.sh.borrow_mut().log);
                V::A(vec![V::A(log), V::A(vec![i(v)])])
            }
            "deep" => V::A(vec![i(deep(a[0].u(), a[1].int()))]),
            _ => panic!("driver: op {}", op),
        }
    }
}
impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M { f: None, sh: Default::default() })
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        let mut b = B::new();
        let arity = idx % 10;
        b.o("new", &[arity]);
        for _ in 0..1 + r.below(3) {
            let some = |r: &mut Rng| ints(&(0..arity).map(|_| r.range(-9, 99)).collect::<Vec<_>>());
            let size = if r.chance(1, 8) { r.below(120) } else { r.below(16) };
            let deepening = 1 + r.below(4) as u32;
            let mut tape = vec![];
            let (mut open, mut calls) = (1, 0);
            while open > 0 {
                if calls < size && (r.chance(deepening, 5) || open == 1) {
                    tape.push(V::A(vec![i(1), some(r)]));
                    open += 1;
                    calls += 1;
                } else {
                    tape.push(V::A(vec![i(0), i(r.range(-99, 999))]));
                    open -= 1;
                }
            }
            let first = some(r);
            b.op("call", vec![first, V::A(tape)]);
        }
        if idx < 10 || r.chance(1, 10) {
            let depth = if thorough || idx < 10 { 20000 } else { r.below(5000) };
            b.o("deep", &[arity, depth]);
        }
        b.script(obj(&[("k", i(0))]))
    }
}
