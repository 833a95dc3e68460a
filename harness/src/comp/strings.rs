use super::{obj, B};
use crate::{json::*, rng::Rng, Component, Machine, Script};
use rust_cp::string::{aho_corasick::AhoCorasick, kmp::kmp, z_algorithm::z_function};

pub struct Tables(pub &'static str);
struct M;
impl Machine for M {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        let s = a[0].ints();
        // the same word as symbols of several types: the answer must not depend on it
        let bytes: Option<Vec<u8>> = s.iter().map(|&x| u8::try_from(x).ok()).collect();
        let texts: Vec<String> = s.iter().map(|x| format!("symbol {}", x)).collect();
        let (r, others): (Vec<usize>, Vec<Vec<usize>>) = match op {
            "kmp" => (kmp(&s), vec![kmp(&texts)].into_iter().chain(bytes.map(|b| kmp(&b))).collect()),
            "z" => (z_function(&s), vec![z_function(&texts)].into_iter().chain(bytes.map(|b| z_function(&b))).collect()),
            _ => panic!("driver: op {}", op),
        };
        for o in others {
            if o != r {
                return encs(o.into_iter().chain(r)); // an answer no specification accepts
            }
        }
        encs(r)
    }
}
/// Words of many shapes: random, periodic, nearly periodic, Fibonacci, Thue-Morse, de Bruijn-like, runs.
pub fn word(r: &mut Rng, n: usize, k: i64) -> Vec<i64> {
    let shape = r.below(10);
    shaped_word(r, n, k, shape)
}
fn shaped_word(r: &mut Rng, n: usize, k: i64, shape: usize) -> Vec<i64> {
    let mut s: Vec<i64> = vec![];
    match shape {
        0 | 1 => s = (0..n).map(|_| r.range(0, k - 1)).collect(),
        2 | 3 => {
            let p = 1 + r.below(n.max(1)).min(if r.chance(1, 2) { 4 } else { n });
            let base: Vec<i64> = (0..p).map(|_| r.range(0, k - 1)).collect();
            s = (0..n).map(|i| base[i % p]).collect();
            if n > 0 && r.chance(1, 2) {
                let j = r.below(n);
                s[j] = r.range(0, k - 1);
            }
        }
        4 => {
            let (mut a, mut b) = (vec![0], vec![0, 1 % k]);
            while b.len() < n {
                let c = [b.clone(), a].concat();
                a = b;
                b = c;
            }
            s = b[..n].to_vec();
        }
        5 => s = (0..n).map(|i| (i.count_ones() as i64) % 2 % k).collect(),
        6 => {
            // a prefix repeated with gaps
            let p = 1 + r.below(n.max(1));
            let base: Vec<i64> = (0..p).map(|_| r.range(0, k - 1)).collect();
            while s.len() < n {
                let take = 1 + r.below(p);
                s.extend(&base[..take]);
                if r.chance(1, 3) {
                    s.push(r.range(0, k - 1));
                }
            }
            s.truncate(n);
        }
        7 => {
            // ruler word abacabadabacaba...
            s = (0..n).map(|i| ((i + 1).trailing_zeros() as i64).min(k - 1)).collect();
        }
        9 => {
            // a short word repeated, broken once by a letter, then continued or started over
            let p = 2 + r.below(5);
            let mut base: Vec<i64> = (0..p).map(|_| r.range(0, k - 1)).collect();
            if r.chance(2, 3) {
                base[p - 1] = base[0]; // so that shorter borders exist inside it
            }
            let stop = n / 2 + r.below(n / 2 + 1);
            let again = r.chance(1, 2);
            while s.len() < n {
                let i = s.len();
                s.push(match i.cmp(&stop) {
                    std::cmp::Ordering::Less => base[i % p],
                    std::cmp::Ordering::Equal => *r.pick(&base),
                    _ if again => s[i - stop - 1],
                    _ => base[i % p],
                });
            }
        }
        _ => {
            while s.len() < n {
                let c = r.range(0, k - 1);
                let run = 1 + r.below(8);
                s.extend(std::iter::repeat(c).take(run));
            }
            s.truncate(n);
        }
    }
    s
}
impl Component for Tables {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(M)
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        s.ops[k].1.to_text().len() < 300
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        let mut b = B::new();
        let big = idx % 20 == 3;
        if idx % 200 == 5 {
            // long words; very long ones only of shapes whose borders stay short on average
            let n = if idx % 1600 == 5 {
                *r.pick(&[65537usize, 70000, 131073, 140000])
            } else {
                r.range(200, 1500) as usize
            };
            let k = *r.pick(&[2, 2, 3, 26, 1000]);
            let shape = if n > 2000 { *r.pick(&[0, 4, 5, 7]) } else { r.below(10) };
            b.op(self.0, vec![is(shaped_word(r, n, k, shape))]);
            return b.script(i(0));
        }
        if idx % 1600 == 6 {
            // a very long power, broken once or twice: borders and windows of great length
            let n = *r.pick(&[131073usize, 140000]);
            let k = *r.pick(&[2, 3, 26]);
            let p = 20 + r.below(400);
            let base: Vec<i64> = (0..p).map(|_| r.range(0, k - 1)).collect();
            let mut s: Vec<i64> = (0..n).map(|i| base[i % p]).collect();
            let back = n - 1 - r.below(n / 8);
            let at = *r.pick(&[n / 2 - 5, 65540, n - 20, back]);
            s[at] = *r.pick(&base);
            if r.chance(1, 2) {
                s[n - 1 - r.below(500)] = *r.pick(&base);
            }
            b.op(self.0, vec![is(s)]);
            return b.script(i(0));
        }
        if idx % 10 == 7 {
            // long falls through the borders of a broken power
            let n = r.range(60, 200) as usize;
            let k = *r.pick(&[2, 2, 3, 26]);
            b.op(self.0, vec![is(shaped_word(r, n, k, 9))]);
        }
        for _ in 0..if big { 1 } else { 4 } {
            let n = if big { r.size(60, if thorough { 240 } else { 120 }) } else { r.size(0, 40) };
            let k = *r.pick(&[1, 2, 2, 2, 3, 5, 26, 1000]);
            b.op(self.0, vec![is(word(r, n, k))]);
        }
        b.script(i(0))
    }
}

// ---------------------------------------------------------------- Aho-Corasick
pub struct Aho {
    pub invalid: bool,
}
trait Auto {
    fn find(&self, t: &[u8]) -> Vec<Option<usize>>;
    fn all(&self, t: &[u8]) -> Vec<Vec<usize>>;
    fn cnt(&self, t: &[u8]) -> Vec<usize>;
    fn insert(&mut self, s: &[u8], k: usize);
    fn build(&mut self);
}
impl<const O: u8, const N: usize> Auto for AhoCorasick<O, N> {
    fn find(&self, t: &[u8]) -> Vec<Option<usize>> {
        AhoCorasick::find(self, t)
    }
    fn all(&self, t: &[u8]) -> Vec<Vec<usize>> {
        self.find_all(t)
    }
    fn cnt(&self, t: &[u8]) -> Vec<usize> {
        self.find_cnt(t)
    }
    fn insert(&mut self, s: &[u8], k: usize) {
        AhoCorasick::insert(self, s, k)
    }
    fn build(&mut self) {
        AhoCorasick::build(self)
    }
}
/// (offset, size) of the alphabets instantiated
const ALPHABETS: [(u8, usize); 7] = [(b'a', 26), (b'a', 2), (b'0', 10), (0, 256), (b'A', 58), (b'x', 1), (250, 6)];
struct AM {
    offset: u8,
    auto: Option<Box<dyn Auto>>,
}
impl AM {
    fn word(&self, v: &V) -> Vec<u8> {
        v.ints().into_iter().map(|x| self.offset.wrapping_add(x as u8)).collect()
    }
}
fn make(alpha: usize, n: usize, from: Option<&[&[u8]]>) -> Box<dyn Auto> {
    macro_rules! mk {
        ($o:expr, $n:expr) => {
            match from {
                Some(p) => Box::new(AhoCorasick::<$o, $n>::from(p)),
                None => Box::new(AhoCorasick::<$o, $n>::new(n)),
            }
        };
    }
    match alpha {
        0 => mk!(b'a', 26),
        1 => mk!(b'a', 2),
        2 => mk!(b'0', 10),
        3 => mk!(0, 256),
        4 => mk!(b'A', 58),
        5 => mk!(b'x', 1),
        6 => mk!(250, 6),
        _ => panic!("driver: alphabet"),
    }
}
impl Machine for AM {
    fn exec(&mut self, op: &str, a: &[V]) -> V {
        match op {
            "from" => {
                let alpha = a[0].u();
                self.offset = ALPHABETS[alpha].0;
                let p: Vec<Vec<u8>> = a[1].arr().iter().map(|x| self.word(x)).collect();
                let refs: Vec<&[u8]> = p.iter().map(|x| &x[..]).collect();
                self.auto = Some(make(alpha, 0, Some(&refs)));
                unit()
            }
            "new" => {
                self.offset = ALPHABETS[a[0].u()].0;
                self.auto = Some(make(a[0].u(), a[1].u(), None));
                unit()
            }
            "insert" => {
                let w = self.word(&a[0]);
                self.auto.as_mut().unwrap().insert(&w, a[1].u());
                unit()
            }
            "build" => {
                self.auto.as_mut().unwrap().build();
                unit()
            }
            _ => {
                let t = self.word(&a[0]);
                let x = self.auto.as_ref().unwrap();
                match op {
                    // 0 stands for "none", k + 1 for pattern k
                    "find" => encs(x.find(&t).into_iter().map(|o| o.map_or(0, |k| k as i128 + 1))),
                    "all" => V::A(x.all(&t).into_iter().map(encs).collect()),
                    "cnt" => encs(x.cnt(&t)),
                    _ => panic!("driver: op {}", op),
                }
            }
        }
    }
}
impl Component for Aho {
    fn make(&self, _m: &V) -> Box<dyn Machine> {
        Box::new(AM { offset: 0, auto: None })
    }
    fn again(&self, s: &Script, k: usize) -> bool {
        !matches!(s.ops[k].0.as_str(), "new" | "from" | "insert" | "build")
    }
    fn gen(&self, r: &mut Rng, thorough: bool, idx: usize) -> Script {
        let alpha = r.below(ALPHABETS.len());
        let size = ALPHABETS[alpha].1 as i64;
        // a few symbols of the alphabet, first and last among them
        let used: Vec<i64> = match r.below(4) {
            0 => vec![0, size - 1],
            1 => vec![0, 1.min(size - 1)],
            2 => vec![size - 1, size / 2, 0],
            _ => (0..4).map(|_| r.range(0, size - 1)).collect(),
        };
        let big = idx % 25 == 4;
        let large = idx % 400 == 54;
        let vast = idx % 1000 == 77;
        let np = if vast { 40 + r.below(60) } else if large { 20 + r.below(100) } else if big { 20 } else { 1 + r.below(7) };
        let maxl = if vast { 12 } else if large { 40 } else if big { 12 } else { 1 + r.below(5) };
        let k = used.len() as i64;
        let mut pats: Vec<Vec<i64>> = vec![];
        // long fillers first, so that everything after them lies far into the tables
        let fillers = if vast { 1 + r.below(3) } else { 0 };
        for j in 0..np {
            let w: Vec<i64> = if j < fillers {
                (0..*r.pick(&[32768, 65530, 66000])).map(|_| used[r.below(used.len())]).collect()
            } else if pats.len() > fillers && r.chance(1, 2) {
                // related to an earlier pattern: prefix, suffix, infix, extension, repetition
                let p = pats[fillers + r.below(pats.len() - fillers)].clone();
                let x = r.below(p.len());
                match r.below(5) {
                    0 => p[..=x].to_vec(),
                    1 => p[x..].to_vec(),
                    2 => [p.clone(), vec![used[r.below(used.len())]]].concat(),
                    3 => [vec![used[r.below(used.len())]], p].concat(),
                    _ => p,
                }
            } else {
                let n = 1 + r.below(maxl);
                word(r, n, k).into_iter().map(|x| used[x as usize]).collect()
            };
            pats.push(w);
        }
        let mut b = B::new();
        let vp = |p: &[Vec<i64>]| V::A(p.iter().map(|w| is(w.iter().copied())).collect());
        if self.invalid && r.chance(1, 3) {
            // an empty pattern somewhere in the list: refused, and the next automaton is unaffected
            let mut p = pats.clone();
            p.insert(r.below(np + 1), vec![]);
            b.op("from", vec![i(alpha), vp(&p)]);
        }
        if r.chance(1, 2) && !self.invalid {
            b.op("from", vec![i(alpha), vp(&pats)]);
        } else {
            b.op("new", vec![i(alpha), i(np)]);
            for k in if vast { (0..np).collect() } else { r.perm(np) } {
                if self.invalid && r.chance(1, 3) {
                    b.op("insert", vec![is(Vec::<i64>::new()), i(k)]);
                }
                if r.chance(1, 20) {
                    continue; // an index without a pattern
                }
                b.op("insert", vec![is(pats[k].iter().copied()), i(k)]);
            }
            b.op("build", vec![]);
        }
        for _ in 0..if large || vast { 1 } else { 4 } {
            let n = if vast { 400 } else if large { 100 + r.below(900) } else { r.size(0, if big { if thorough { 120 } else { 60 } } else { 24 }) };
            let mut t: Vec<i64> = vec![];
            if r.chance(1, 2) {
                t = word(r, n, k).into_iter().map(|x| used[x as usize]).collect();
            } else {
                while t.len() < n {
                    let p = &pats[fillers + r.below(np - fillers)];
                    let x = 1 + r.below(p.len());
                    t.extend(if r.chance(1, 2) { &p[..] } else { &p[..x] });
                    if r.chance(1, 4) {
                        t.push(used[r.below(used.len())]);
                    }
                }
                t.truncate(n.max(1));
            }
            let t = is(t);
            for op in ["find", "all", "cnt"] {
                b.op(op, vec![t.clone()]);
            }
        }
        b.script(obj(&[("alpha", i(alpha))]))
    }
}
