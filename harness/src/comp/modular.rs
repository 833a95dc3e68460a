use super::{obj, wide, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::misc::modint::*;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicPtr, Ordering};
use std::thread::LocalKey;

// ---------------------------------------------------------------- families
macro_rules! statics {
    ($($name:ident, $value:expr, $prime:expr, $k:expr;)*) => {
        $(
            #[derive(Copy, Clone, Eq, PartialEq)]
            pub enum $name {}
            impl Modulus for $name {
                const VALUE: u32 = $value;
                const HINT_VALUE_IS_PRIME: bool = $prime;
                fn butterfly_cache() -> &'static LocalKey<RefCell<Option<ButterflyCache<Self>>>> {
                    thread_local! { static C: RefCell<Option<ButterflyCache<$name>>> = RefCell::default(); }
                    &C
                }
            }
        )*
        pub const STATICS: &[(u32, bool)] = &[$(($value, $prime)),*, (1_000_000_007, true), (998_244_353, true)];
        pub struct Statics;
        impl Statics {
            pub fn table(k: usize, n: usize) -> Box<dyn super::factorial::Table> {
                use rust_cp::math::factorial::Factorial;
                match k {
                    $($k => Box::new(Factorial::<$name>::new(n)),)*
                    k if k == STATICS.len() - 2 => Box::new(Factorial::<Mod1000000007>::new(n)),
                    k if k == STATICS.len() - 1 => Box::new(Factorial::<Mod998244353>::new(n)),
                    _ => panic!("driver: static family"),
                }
            }
        }
        fn static_family(k: usize) -> Box<dyn Family + Send> {
            match k {
                $($k => Box::new(Fam::<StaticModInt<$name>>::new()),)*
                k if k == STATICS.len() - 2 => Box::new(Fam::<ModInt1000000007>::new()),
                k if k == STATICS.len() - 1 => Box::new(Fam::<ModInt998244353>::new()),
                _ => panic!("driver: static family"),
            }
        }
    };
}
statics! {
    M1, 1, false, 0; M2, 2, true, 1; M3, 3, true, 2; M4, 4, false, 3; M5, 5, true, 4; M6, 6, false, 5;
    M7, 7, false, 6; M8, 8, false, 7; M9, 9, false, 8; M10, 10, false, 9; M11, 11, true, 10; M12, 12, false, 11;
    M13, 13, true, 12; M16, 16, false, 13; M101, 101, true, 14; M255, 255, false, 15; M256, 256, false, 16;
    M257, 257, true, 17; M46341, 46341, false, 18; M65536, 65536, false, 19; M65537, 65537, true, 20;
    MSq, 2147117569, false, 21; M31, 2147483648, false, 22; MMers, 2147483647, true, 23; MMersC, 2147483647, false, 24;
    M31m2, 2147483646, false, 25; M30, 1073741824, false, 26; MBigP, 2147483629, true, 27; M9C, 1000000006, false, 28;
    MHcn, 2095133040, false, 29;
}

static TABLE: [AtomicPtr<Barrett>; 4] = [const { AtomicPtr::new(std::ptr::null_mut()) }; 4];
#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Dyn<const K: usize>;
impl<const K: usize> Id for Dyn<K> {
    fn companion_barrett() -> &'static Barrett {
        unsafe { &*TABLE[K].load(Ordering::SeqCst) }
    }
}
/// A family of which no operation has been used yet.
fn renew(k: usize) {
    TABLE[k].store(Box::leak(Box::new(Barrett::default())), Ordering::SeqCst);
}

pub trait Family {
    fn exec(&mut self, op: &str, a: &[V]) -> V;
}
struct Fam<T> {
    regs: Vec<Option<T>>,
}
impl<T> Fam<T> {
    fn new() -> Self {
        Fam { regs: (0..6).map(|_| None).collect() }
    }
}
fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Calls $body with $x bound to the wide integer as a value of the type numbered $ty.
macro_rules! with_type {
    ($ty:expr, $w:expr, $x:ident => $body:expr) => {{
        let (neg, mag) = $w;
        macro_rules! go {
            ($t:ty) => {{
                let $x: $t = if neg { (mag as i128).wrapping_neg() as $t } else { mag as $t };
                $body
            }};
        }
        match $ty {
            0 => go!(i8),
            1 => go!(i16),
            2 => go!(i32),
            3 => go!(i64),
            4 => go!(i128),
            5 => go!(isize),
            6 => go!(u8),
            7 => go!(u16),
            8 => go!(u32),
            9 => go!(u64),
            10 => go!(u128),
            11 => go!(usize),
            _ => panic!("driver: type"),
        }
    }};
}

macro_rules! family {
    ($ty:ty, $id:ident : $bound:ident, $set:expr, $fresh:expr) => {
        impl<$id: $bound> Family for Fam<$ty> {
            fn exec(&mut self, op: &str, a: &[V]) -> V {
                type T<$id> = $ty;
                let g = |s: &Self, k: usize| -> $ty { s.regs[a[k].u()].expect("driver: empty register") };
                let val: $ty = match op {
                    "static" | "fresh" | "modulus" => {
                        let m = if op == "static" { <T<$id> as ModIntBase>::modulus() } else { T::<$id>::modulus() };
                        return one(m as i64 - 1);
                    }
                    "set" => {
                        let m = (a[1].int() + 1) as u32;
                        self.regs.iter_mut().for_each(|x| *x = None);
                        let f: fn(u32) = $set;
                        if a[2].u() == 1 {
                            // from another thread: the modulus belongs to the family, not to a thread
                            if std::thread::spawn(move || f(m)).join().is_err() {
                                panic!("refused");
                            }
                        } else {
                            f(m);
                        }
                        return unit();
                    }
                    "zero" => Default::default(),
                    "raw" => {
                        if a[3].u() == 0 { T::<$id>::raw(a[2].u() as u32) } else { <T<$id> as ModIntBase>::raw(a[2].u() as u32) }
                    }
                    "new" => with_type!(a[2].u(), wide::get(&a[3]), x => match a[4].u() {
                        0 => T::<$id>::new(x),
                        1 => <T<$id> as ModIntBase>::new(x),
                        2 => T::<$id>::from(x),
                        _ => x.into(),
                    }),
                    "parse" => {
                        let (neg, mag) = wide::get(&a[2]);
                        let t = format!("{}{}", if neg { "-" } else { "" }, mag);
                        t.parse::<$ty>().ok().unwrap()
                    }
                    "text" => {
                        let t: String = a[2].ints().iter().map(|&c| char::from_u32(c as u32).expect("driver: char")).collect();
                        t.parse::<$ty>().ok().unwrap()
                    }
                    "add" | "sub" | "mul" | "div" => {
                        let (x, y) = (g(self, 2), g(self, 3));
                        macro_rules! forms {
                            ($o:tt, $oa:tt) => {
                                match a[4].u() {
                                    0 => x $o y,
                                    1 => x $o &y,
                                    2 => &x $o y,
                                    3 => &x $o &y,
                                    4 => { let mut z = x; z $oa y; z }
                                    _ => { let mut z = x; z $oa &y; z }
                                }
                            };
                        }
                        match op {
                            "add" => forms!(+, +=),
                            "sub" => forms!(-, -=),
                            "mul" => forms!(*, *=),
                            _ => forms!(/, /=),
                        }
                    }
                    "addp" | "subp" | "mulp" | "divp" => {
                        let x = g(self, 2);
                        with_type!(a[3].u(), wide::get(&a[4]), y => {
                            macro_rules! forms {
                                ($o:tt, $oa:tt) => {
                                    if a[5].u() == 0 { x $o y } else { let mut z = x; z $oa y; z }
                                };
                            }
                            match op {
                                "addp" => forms!(+, +=),
                                "subp" => forms!(-, -=),
                                "mulp" => forms!(*, *=),
                                _ => forms!(/, /=),
                            }
                        })
                    }
                    "neg" => if a[3].u() == 0 { -g(self, 2) } else { -&g(self, 2) },
                    "inv" => if a[3].u() == 0 { g(self, 2).inv() } else { <T<$id> as ModIntBase>::inv(g(self, 2)) },
                    "pow" => {
                        let n = wide::get_nat(&a[3]) as u64;
                        if a[4].u() == 0 { g(self, 2).pow(n) } else { <T<$id> as ModIntBase>::pow(g(self, 2), n) }
                    }
                    "sum" | "prod" => {
                        let xs: Vec<$ty> = a[2].usizes().into_iter().map(|k| self.regs[k].expect("driver: empty register")).collect();
                        match (op, a[3].u()) {
                            ("sum", 0) => xs.into_iter().sum(),
                            ("sum", _) => xs.iter().sum(),
                            (_, 0) => xs.into_iter().product(),
                            _ => xs.iter().product(),
                        }
                    }
                    "eq" => {
                        let (x, y) = (g(self, 1), g(self, 2));
                        assert!((x == y) != (x != y), "driver: == and != agree");
                        return is([
                            (x == y) as i64,
                            (hash_of(&x) == hash_of(&y)) as i64,
                            (format!("{}", x) == format!("{}", y)) as i64,
                            (format!("{:?}", x) == format!("{:?}", y)) as i64,
                        ]);
                    }
                    "show" => {
                        let x = g(self, 1);
                        let t = format!("{}", x);
                        let v: i128 = t.parse().unwrap_or(-1);
                        return V::A(vec![enc(v), i((t == v.to_string() && t == x.to_string()) as i64)]);
                    }
                    _ => panic!("driver: op {}", op),
                };
                self.regs[a[1].u()] = Some(val);
                let (v, w) = (val.val(), <T<$id> as ModIntBase>::val(val));
                if v == w { one(v) } else { encs([v, w]) }
            }
        }
    };
}
family!(StaticModInt<M>, M: Modulus, |_| panic!("driver: static modulus"), ());
family!(DynamicModInt<I>, I: Id, DynamicModInt::<I>::set_modulus, ());

// ---------------------------------------------------------------- machine
struct Mach {
    fams: Vec<Option<Box<dyn Family + Send>>>,
    calls: usize,
    /// every so many calls one is made on a thread of its own: families belong to the process
    every: usize,
}
impl Machine for Mach {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        let f = a[0].u();
        if op == "static" {
            // a: [family, mm, which]
            self.fams[f] = Some(static_family(a[2].u()));
        } else if op == "fresh" && f < 4 {
            renew(f);
        }
        if f < 4 && self.fams[f].is_none() {
            renew(f);
        }
        let slot = &mut self.fams[f];
        if slot.is_none() {
            *slot = Some(match f {
                0 => Box::new(Fam::<DynamicModInt<Dyn<0>>>::new()) as Box<dyn Family + Send>,
                1 => Box::new(Fam::<DynamicModInt<Dyn<1>>>::new()),
                2 => Box::new(Fam::<DynamicModInt<Dyn<2>>>::new()),
                3 => Box::new(Fam::<DynamicModInt<Dyn<3>>>::new()),
                _ => Box::new(Fam::<ModInt>::new()),
            });
        }
        let fam = slot.as_mut().unwrap();
        self.calls += 1;
        if self.calls % self.every == 0 {
            let r = std::thread::scope(|s| s.spawn(|| fam.exec(op, a)).join());
            return r.unwrap_or_else(|p| std::panic::resume_unwind(p));
        }
        fam.exec(op, a)
    }
}

// ---------------------------------------------------------------- histories
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Ring,
    Convert,
    Field,
    Families,
    Zero,
}
pub struct C(pub Mode);

pub fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}
pub fn some_modulus(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 1 + r.below(12) as u32,
        1 => 1u32 << r.below(32),
        2 => ((1u64 << (1 + r.below(31))) + r.below(3) as u64 - 1).min(1 << 31) as u32,
        3 => (1u32 << 31) - r.below(40) as u32,
        4 => *r.pick(&[998_244_353, 1_000_000_007, 2_147_483_647, 2_147_117_569, 2_095_133_040, 46_341, 65_536, 65_537]),
        5 => 1 + r.below(300) as u32,
        6 => 1 + r.below(70000) as u32,
        _ => 1 + (r.next() % (1 << 31)) as u32,
    }
}
/// A residue below m, extremes preferred.
fn some_value(r: &mut Rng, m: u32) -> u32 {
    let m = m as u64;
    (match r.below(6) {
        0 => 0,
        1 => 1 % m,
        2 => m - 1,
        3 => (m / 2 + r.below(2) as u64) % m,
        4 => (m - 1).saturating_sub(r.below(10) as u64),
        _ => r.next() % m,
    }) as u32
}
/// A value of the type numbered ty: its extremes, values around multiples of m, random magnitudes.
pub fn some_wide(r: &mut Rng, ty: usize, m: u32) -> (bool, u128) {
    let bits = [8, 16, 32, 64, 128, 64, 8, 16, 32, 64, 128, 64][ty];
    let signed = ty < 6;
    let maxp: u128 = if signed { (1u128 << (bits - 1)) - 1 } else if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let m = m as u128;
    let rnd = ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128);
    let mag = match r.below(7) {
        0 => maxp.saturating_sub(r.below(3) as u128),
        1 => r.below(3) as u128,
        2 => m.wrapping_add(r.below(3) as u128).wrapping_sub(1),
        3 => (rnd / m * m).wrapping_add(r.below(3) as u128).wrapping_sub(1),
        4 => {
            // around powers of two
            (1u128 << r.below(bits)).wrapping_add(r.below(3) as u128).wrapping_sub(1)
        }
        5 => maxp / m * m,
        _ => rnd,
    };
    if signed && r.chance(1, 2) {
        // maxp + 1 is the magnitude of the minimum
        let mag = if r.chance(1, 4) { maxp + 1 - r.below(2) as u128 } else { mag % (maxp + 2) };
        (mag != 0, mag)
    } else {
        (false, if mag > maxp { if maxp == u128::MAX { mag } else { mag % (maxp + 1) } } else { mag })
    }
}
struct G<'a> {
    r: &'a mut Rng,
    b: B,
    live: Vec<Vec<bool>>,
    mods: Vec<u32>,
}
impl<'a> G<'a> {
    fn dst(&mut self, f: usize) -> usize {
        let d = self.r.below(6);
        self.live[f][d] = true;
        d
    }
    fn src(&mut self, f: usize) -> Option<usize> {
        let l: Vec<usize> = (0..6).filter(|&k| self.live[f][k]).collect();
        if l.is_empty() { None } else { Some(*self.r.pick(&l)) }
    }
    fn open_static(&mut self, f: usize, which: usize) {
        self.mods[f] = STATICS[which].0;
        self.b.op("static", vec![i(f), i(STATICS[which].0 as i64 - 1), i(which)]);
    }
    fn set(&mut self, f: usize, m: u32) {
        self.mods[f] = m;
        self.live[f] = vec![false; 6];
        let t = self.r.chance(1, 12) as i64;
        self.b.op("set", vec![i(f), i(m as i64 - 1), i(t)]);
    }
    fn fresh_value(&mut self, f: usize, mode: Mode) {
        let m = self.mods[f];
        let d = self.dst(f);
        if mode == Mode::Convert && self.r.chance(1, 6) {
            let t = some_text(self.r);
            self.b.op("text", vec![i(f), i(d), is(t.chars().map(|c| c as u32 as i64))]);
            return;
        }
        match self.r.below(if mode == Mode::Convert { 12 } else { 6 }) {
            0 => self.b.o("zero", &[f, d]),
            1 | 2 => {
                let v = some_value(self.r, m);
                let k = self.r.below(2);
                self.b.o("raw", &[f, d, v as usize, k]);
            }
            3 => {
                let w = if self.r.chance(1, 3) {
                    *self.r.pick(&[(true, 1u128 << 63), (false, (1 << 63) - 1), (true, (1 << 63) - 1), (true, 1), (false, 0)])
                } else {
                    some_wide(self.r, 3, m)
                };
                self.b.op("parse", vec![i(f), i(d), wide::put(w)]);
            }
            _ => {
                let ty = self.r.below(12);
                let w = some_wide(self.r, ty, m);
                let k = self.r.below(4);
                self.b.op("new", vec![i(f), i(d), i(ty), wide::put(w), i(k)]);
            }
        }
    }
    fn step(&mut self, f: usize, mode: Mode) {
        let m = self.mods[f];
        let Some(x) = self.src(f) else { return self.fresh_value(f, mode) };
        let y = self.src(f).unwrap();
        let roll = self.r.below(24);
        match (mode, roll) {
            (_, 0..=3) => self.fresh_value(f, mode),
            (_, 4) => self.b.o("eq", &[f, x, y]),
            (_, 5) => self.b.o("show", &[f, x]),
            (Mode::Convert, 6..=14) | (_, 6..=7) => {
                let ty = self.r.below(12);
                let w = some_wide(self.r, ty, m);
                let mut op = *self.r.pick(&["addp", "subp", "mulp", "divp"]);
                let res = {
                    let v = (w.1 % m as u128) as u64;
                    if w.0 { (m as u64 - v) % m as u64 } else { v }
                };
                let unit = gcd(res, m as u64) == 1;
                if op == "divp" && !unit && mode != Mode::Field {
                    op = "mulp";
                }
                let d = if op == "divp" && !unit { 0 } else { self.dst(f) };
                let k = self.r.below(2);
                self.b.op(op, vec![i(f), i(d), i(x), i(ty), wide::put(w), i(k)]);
            }
            (Mode::Field, 8..=13) | (Mode::Families, 8..=9) | (_, 8) => {
                let n: u64 = match self.r.below(6) {
                    0 => self.r.below(3) as u64,
                    1 => u64::MAX - self.r.below(3) as u64,
                    2 => (1u64 << self.r.below(64)).wrapping_sub(self.r.below(2) as u64),
                    3 => m as u64 - 1 + self.r.below(3) as u64,
                    4 => self.r.below(100) as u64,
                    _ => self.r.next() >> self.r.below(64),
                };
                let d = self.dst(f);
                let k = self.r.below(2);
                self.b.op("pow", vec![i(f), i(d), i(x), wide::nat(n as u128), i(k)]);
            }
            (Mode::Field, 14..=17) | (Mode::Families, 10) => {
                // the destination is not written when the value is not invertible: register 5 is scratch
                let k = self.r.below(2);
                self.b.o("inv", &[f, 5, x, k]);
                self.live[f][5] = false;
            }
            (Mode::Field, 18..=21) | (Mode::Families, 11) => {
                let k = self.r.below(6);
                self.b.o("div", &[f, 5, x, y, k]);
                self.live[f][5] = false;
            }
            (Mode::Families, 12..=13) => self.b.o("modulus", &[f]),
            (_, 9) => {
                let k = self.r.below(2);
                let d = self.dst(f);
                self.b.o("neg", &[f, d, x, k]);
            }
            (_, 10..=12) => {
                let n = self.r.below(6);
                let xs: Vec<usize> = (0..n).map(|_| self.src(f).unwrap()).collect();
                let d = self.dst(f);
                let k = self.r.below(2);
                let op = if self.r.chance(1, 2) { "sum" } else { "prod" };
                self.b.op(op, vec![i(f), i(d), is(xs), i(k)]);
            }
            _ => {
                let op = *self.r.pick(&["add", "sub", "mul", "mul"]);
                let d = self.dst(f);
                let k = self.r.below(6);
                self.b.o(op, &[f, d, x, y, k]);
            }
        }
        // a register written by an operation that may be refused must not be read before it is rewritten:
        // `live` above tracks exactly the registers known to hold a value
    }
}
impl Component for C {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(Mach { fams: (0..5).map(|_| None).collect(), calls: 0, every: if self.0 == Mode::Families { 3 } else { 13 } })
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        matches!(s.ops[k].0.as_str(), "set" | "eq" | "show" | "modulus")
    }
    fn gen(&self, r: &mut Rng, _thorough: bool, idx: usize) -> Script {
        let mode = self.0;
        let mut g = G { r, b: B::new(), live: vec![vec![false; 6]; 5], mods: vec![0; 5] };
        match mode {
            Mode::Ring | Mode::Convert | Mode::Field => {
                // one static family at 3, one dynamic family elsewhere
                let which = g.r.below(STATICS.len());
                g.open_static(3, which);
                let f = *g.r.pick(&[0, 1, 2, 4]);
                let m = some_modulus(g.r);
                g.set(f, m);
                for _ in 0..5 {
                    g.fresh_value(3, mode);
                    g.fresh_value(f, mode);
                }
                for _ in 0..24 {
                    let h = if g.r.chance(1, 2) { 3 } else { f };
                    g.step(h, mode);
                }
            }
            Mode::Families | Mode::Zero => {
                let which = g.r.below(STATICS.len());
                g.open_static(3, which);
                let mut ready = vec![false; 5];
                ready[3] = true;
                if idx == 0 {
                    // the very first use of the library's own family in this process
                    g.b.o("fresh", &[4]);
                    g.mods[4] = 998_244_353;
                    ready[4] = true;
                }
                for _ in 0..36 {
                    let f = g.r.below(5);
                    if !ready[f] {
                        if f < 4 && g.r.chance(1, 2) {
                            g.b.o("fresh", &[f]);
                            g.mods[f] = 998_244_353;
                        } else {
                            let m = some_modulus(g.r);
                            g.set(f, m);
                        }
                        ready[f] = true;
                    } else if mode == Mode::Zero && f != 3 && g.r.chance(1, 4) {
                        g.live[f] = vec![false; 6];
                        g.b.op("set", vec![i(f), i(-1), i(0)]);
                    } else if f != 3 && g.r.chance(1, 5) {
                        let m = if g.r.chance(1, 6) { g.mods[g.r.below(5)].max(1) } else { some_modulus(g.r) };
                        g.set(f, m);
                    } else {
                        g.step(f, mode);
                    }
                }
            }
        }
        g.b.script(obj(&[("k", i(0))]))
    }
}

/// Decimal texts around the ends of the word types, long ones, signed and padded ones, and texts that are no numbers.
fn some_text(r: &mut Rng) -> String {
    let edge = *r.pick(&[0u128, 10, 1 << 31, 1 << 32, 1 << 62, 1 << 63, 1 << 64, 1 << 127, 3 << 63, 5 << 64]);
    let mag = match r.below(5) {
        0 => (((r.next() as u128) << 64) | r.next() as u128) >> r.below(128),
        1 => r.next() as u128,
        _ => edge.wrapping_add(r.below(6) as u128).wrapping_sub(3) & (u128::MAX >> 1),
    };
    let mut s = mag.to_string();
    if r.chance(1, 8) {
        s.insert_str(0, &"0".repeat(1 + r.below(30)));
    }
    if r.chance(1, 12) {
        s += &r.below(1000).to_string();
        s += &mag.to_string();
    }
    match r.below(6) {
        0 => s.insert(0, '+'),
        1 | 2 => s.insert(0, '-'),
        _ => {}
    }
    if r.chance(1, 6) {
        let at = r.below(s.len() + 1);
        s.insert(at, *r.pick(&['-', '+', ' ', '_', 'x', '.', 'e', '\u{661}', '\u{200b}', '\n']));
    }
    match r.below(40) {
        0 => String::new(),
        1 => "-".to_string(),
        2 => "+".to_string(),
        3 => "-0".to_string(),
        _ => s,
    }
}
