//! Wide integers for TLC: [negative?, [base-4096 digits, least significant first]].
use crate::json::*;
pub fn nat(mut x: u128) -> V {
    let mut d = vec![];
    while x > 0 {
        d.push(i((x & 4095) as i64));
        x >>= 12;
    }
    V::A(d)
}
pub fn put(w: (bool, u128)) -> V {
    V::A(vec![i(w.0 as i64), nat(w.1)])
}
pub fn put_i(x: i128) -> V {
    put((x < 0, x.unsigned_abs()))
}
pub fn get_nat(v: &V) -> u128 {
    v.ints().iter().rev().fold(0u128, |a, &d| (a << 12) | d as u128)
}
pub fn get(v: &V) -> (bool, u128) {
    let a = v.arr();
    (a[0].int() == 1, get_nat(&a[1]))
}
pub fn get_i(v: &V) -> i128 {
    let (n, m) = get(v);
    if n { (m as i128).wrapping_neg() } else { m as i128 }
}
