//! Conformance driver: executes scripts of public-API calls of rust-cp and records
//! one event per call (the call's return is the linearization point).
//!
//!   drv record COMP OUT  --seed S --tier quick|thorough --n N [--careful F]
//!       generate N random scripts for COMP, execute them, write one episode per line
//!   drv fill   COMP IN OUT [--careful F]
//!       execute the scripts of IN (results, if any, ignored), write the observed episodes
//!   drv replay COMP IN OUT [--careful F]
//!       execute the scripts of IN and compare every result with the one the specification gave;
//!       write the first few differing episodes to OUT
//!
//! An episode is {"m":meta,"ev":[{"op":..,"a":[..],"r":[..],"st":"ok|panic|hang"},..]}.
mod comp;
mod json;
mod rng;
use json::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Op = (String, V);
pub struct Script {
    pub m: V,
    pub ops: Vec<Op>,
    pub exp: Vec<V>,
}
/// The object(s) under test. `exec` may panic: that is recorded as data.
pub trait Machine {
    fn exec(&mut self, op: &str, a: &[V]) -> V;
}
pub trait Component {
    fn gen(&self, r: &mut rng::Rng, thorough: bool, idx: usize) -> Script;
    fn make(&self, m: &V) -> Box<dyn Machine>;
    /// Whether repeating operation k of the script on the spot changes, by the specification,
    /// neither the state nor the result.
    fn again(&self, _s: &Script, _k: usize) -> bool {
        false
    }
}
/// Repeat some of the repeatable operations many times ("op#times"): state that only counts or
/// stamps requests must not show.
fn insist(c: &dyn Component, r: &mut rng::Rng, s: &mut Script) {
    let may: Vec<usize> = (0..s.ops.len()).filter(|&k| c.again(s, k)).collect();
    if may.is_empty() {
        return;
    }
    for _ in 0..1 + r.below(4) {
        let k = *r.pick(&may);
        if !s.ops[k].0.contains('#') {
            let t = match r.below(8) {
                0 => 2 + r.below(20),
                1 => 65534 + r.below(6),
                _ => 250 + r.below(12),
            };
            s.ops[k].0 += &format!("#{}", t);
        }
    }
}
fn times(op: &str) -> (&str, usize) {
    match op.split_once('#') {
        Some((o, t)) => (o, t.parse().unwrap()),
        None => (op, 1),
    }
}

const OP_LIMIT: Duration = Duration::from_secs(40);

static TICK: AtomicU64 = AtomicU64::new(0); // bumped at every op start and end
static BUSY: AtomicBool = AtomicBool::new(false);
static DONE: Mutex<Vec<String>> = Mutex::new(vec![]); // finished episodes (JSON text)
static PART: Mutex<(V, Vec<V>, Option<(String, V)>)> = Mutex::new((V::I(0), vec![], None));

const REPEAT_LIMIT: Duration = Duration::from_millis(400);

fn event(op: &str, a: &V, r: V, st: &str) -> V {
    let (op, t) = times(op);
    let mut e = vec![
        ("op".into(), V::S(op.into())),
        ("a".into(), a.clone()),
        ("r".into(), r),
        ("st".into(), V::S(st.into())),
    ];
    if t > 1 {
        e.push(("times".into(), i(t)));
    }
    V::O(e)
}
fn episode(m: &V, ev: Vec<V>) -> V {
    V::O(vec![("m".into(), m.clone()), ("ev".into(), V::A(ev))])
}

fn script_of(v: &V) -> Script {
    let mut ops = vec![];
    let mut exp = vec![];
    for e in v.get("ev").expect("driver: no ev").arr() {
        let suffix = e.get("times").map(|t| format!("#{}", t.int())).unwrap_or_default();
        ops.push((e.get("op").unwrap().str().to_string() + &suffix, e.get("a").unwrap().clone()));
        exp.push(match e.get("st") {
            Some(V::S(s)) if s == "panic" => V::S("panic".into()),
            _ => e.get("r").cloned().unwrap_or(V::A(vec![])),
        });
    }
    Script { m: v.get("m").cloned().unwrap_or(V::I(0)), ops, exp }
}

fn run(c: &dyn Component, s: &Script, careful: &mut Option<std::fs::File>) -> Vec<V> {
    *PART.lock().unwrap() = (s.m.clone(), vec![], None);
    if let Some(f) = careful {
        f.set_len(0).unwrap();
        use std::io::Seek;
        f.rewind().unwrap();
        writeln!(f, "{}", s.m.to_text()).unwrap();
    }
    let mut mach = c.make(&s.m);
    for (op, a) in &s.ops {
        if let Some(f) = careful {
            writeln!(f, "{}", event(op, a, unit(), "crash").to_text()).unwrap();
        }
        PART.lock().unwrap().2 = Some((op.clone(), a.clone()));
        TICK.fetch_add(1, Ordering::SeqCst);
        BUSY.store(true, Ordering::SeqCst);
        let (name, reps) = times(op);
        let mut res = catch_unwind(AssertUnwindSafe(|| mach.exec(name, a.arr())));
        let (start, mut differs) = (Instant::now(), false);
        for _ in 1..reps {
            let again = catch_unwind(AssertUnwindSafe(|| mach.exec(name, a.arr())));
            differs = match (&res, &again) {
                (Ok(x), Ok(y)) => x != y,
                (Err(_), Err(_)) => false,
                _ => true,
            };
            res = again;
            if differs || start.elapsed() > REPEAT_LIMIT {
                break;
            }
        }
        BUSY.store(false, Ordering::SeqCst);
        TICK.fetch_add(1, Ordering::SeqCst);
        let e = match res {
            // the last answer, and that it was not the one before
            Ok(r) if differs => event(op, a, r, "differs"),
            Ok(r) => event(op, a, r, "ok"),
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                if msg.starts_with("driver:") {
                    // after a refused call the rest of the history may have nothing to work on:
                    // what was observed so far is the history to judge
                    if PART.lock().unwrap().1.iter().any(|e| e.get("st").unwrap().str() == "panic") {
                        break;
                    }
                    eprintln!("driver error in {} {}: {}", op, a.to_text(), msg);
                    std::process::exit(2);
                }
                event(op, a, unit(), if differs { "differs" } else { "panic" })
            }
        };
        if let Some(f) = careful {
            writeln!(f, "{}", e.to_text()).unwrap();
        }
        let mut p = PART.lock().unwrap();
        p.1.push(e);
        p.2 = None;
    }
    std::mem::take(&mut PART.lock().unwrap().1)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|x| x == k).map(|i| args[i + 1].clone());
    let mode = args[1].clone();
    let name = args[2].clone();
    let seed: u64 = opt("--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
    let n: usize = opt("--n").map(|x| x.parse().unwrap()).unwrap_or(10);
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let mut careful = opt("--careful").map(|f| std::fs::File::create(f).unwrap());
    let out = if mode == "record" { args[3].clone() } else { args[4].clone() };
    let inp = args[3].clone();
    std::panic::set_hook(Box::new(|_| {}));
    let out2 = out.clone();
    let mode2 = mode.clone();
    let worker = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let c = comp::lookup(&name);
                let mut bad = 0;
                let mut evs = 0usize;
                let mut eps = 0usize;
                let mut ops = std::collections::BTreeMap::<String, usize>::new();
                let mut handle = |s: &Script, evs: &mut usize| {
                    let ev = run(&*c, s, &mut careful);
                    *evs += ev.len();
                    for (op, _) in &s.ops {
                        *ops.entry(times(op).0.to_string()).or_default() += 1;
                    }
                    ev
                };
                match mode.as_str() {
                    "record" => {
                        for k in 0..n {
                            let mut r = rng::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
                            let mut s = c.gen(&mut r, thorough, k);
                            if k % 16 == 11 {
                                insist(&*c, &mut r, &mut s);
                            }
                            let ev = handle(&s, &mut evs);
                            eps += 1;
                            DONE.lock().unwrap().push(episode(&s.m, ev).to_text());
                        }
                    }
                    _ => {
                        let f = std::io::BufReader::new(std::fs::File::open(&inp).expect("driver: open"));
                        for line in f.lines() {
                            let line = line.unwrap();
                            if line.is_empty() {
                                continue;
                            }
                            let s = script_of(&parse(&line));
                            let ev = handle(&s, &mut evs);
                            eps += 1;
                            if mode == "fill" {
                                DONE.lock().unwrap().push(episode(&s.m, ev).to_text());
                                continue;
                            }
                            let k = (0..ev.len()).find(|&k| {
                                let st = ev[k].get("st").unwrap().str();
                                match &s.exp[k] {
                                    V::S(_) => st != "panic",
                                    x => st != "ok" || ev[k].get("r").unwrap() != x,
                                }
                            });
                            if let Some(k) = k {
                                bad += 1;
                                if bad <= 3 {
                                    let mut o = episode(&s.m, ev[..=k].to_vec());
                                    if let V::O(m) = &mut o {
                                        m.push(("step".into(), i(k + 1)));
                                        m.push(("expected".into(), s.exp[k].clone()));
                                    }
                                    DONE.lock().unwrap().push(o.to_text());
                                }
                            }
                        }
                    }
                }
                let ops: Vec<(String, V)> = ops.into_iter().map(|(k, v)| (k, i(v))).collect();
                println!(
                    "{}",
                    V::O(vec![
                        ("episodes".into(), i(eps)),
                        ("events".into(), i(evs)),
                        ("bad".into(), i(bad)),
                        ("ops".into(), V::O(ops)),
                    ])
                    .to_text()
                );
            }));
            if let Err(p) = r {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                eprintln!("driver error: {}", msg);
                std::process::exit(2);
            }
        })
        .unwrap();
    let mut last = (TICK.load(Ordering::SeqCst), Instant::now());
    let mut hang = false;
    while !worker.is_finished() {
        std::thread::sleep(Duration::from_millis(5));
        let t = TICK.load(Ordering::SeqCst);
        if t != last.0 || !BUSY.load(Ordering::SeqCst) {
            last = (t, Instant::now());
        } else if last.1.elapsed() > OP_LIMIT {
            hang = true;
            break;
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out2).unwrap());
    if hang {
        // the call never returned: report the episode so far, ending in the hung call
        let (m, mut ev, cur) = PART.lock().unwrap().clone();
        let (op, a) = cur.unwrap();
        ev.push(event(&op, &a, unit(), "hang"));
        let k = ev.len();
        let mut o = episode(&m, ev);
        if let V::O(m) = &mut o {
            m.push(("step".into(), i(k)));
        }
        writeln!(f, "{}", o.to_text()).unwrap();
        f.flush().unwrap();
        println!("{{\"episodes\":1,\"events\":{},\"bad\":1,\"hang\":1,\"ops\":{{}},\"mode\":\"{}\"}}", k, mode2);
        std::process::exit(3);
    }
    for l in DONE.lock().unwrap().iter() {
        writeln!(f, "{}", l).unwrap();
    }
    f.flush().unwrap();
}
