//! Sums and products over all lanes.
use faster::*;
use faster::vecs::Packed;
use mc::{el::*, lane::*, rt::*};
/// Is the sum exact in any order of summation? Small multiples of a common unit.
fn plain<S: El>(x: &[u64]) -> bool {
    x.iter().all(|b| { let v = flt::<S>(*b); v.is_finite() && (v * 4.0).fract() == 0.0 && v.abs() <= 65536.0 })
}
fn total<S: El>(x: &[Vec<u64>]) -> (Vec<E>, bool) {
    let x = &x[0];
    if S::FLOAT {
        let s: f64 = x.iter().map(|b| flt::<S>(*b)).sum();
        return (vec![if !plain::<S>(x) { if x.iter().any(|b| flt::<S>(*b).is_nan()) { E::Nan } else { E::Any } } else if s == 0.0 { E::Two(fbits::<S>(0.0), fbits::<S>(-0.0)) } else { fe::<S>(s) }], false)
    }
    let s: i128 = x.iter().map(|b| int::<S>(*b)).sum();
    // a partial sum may leave the range
    let (p, n): (i128, i128) = (x.iter().map(|b| int::<S>(*b).max(0)).sum(), x.iter().map(|b| int::<S>(*b).min(0)).sum());
    (vec![E::B(wrap::<S>(s))], cfg!(debug_assertions) && !(fits::<S>(p) && fits::<S>(n)))
}
fn product<S: El>(x: &[Vec<u64>]) -> (Vec<E>, bool) {
    let x = &x[0];
    if S::FLOAT {
        let p: f64 = x.iter().map(|b| flt::<S>(*b)).product();
        // exact only for a few small powers of two
        let big: f64 = x.iter().map(|b| { let v = flt::<S>(*b).abs(); if v > 1.0 { v.log2() } else { 0.0 } }).sum();
        let ok = x.iter().all(|b| { let v = flt::<S>(*b).abs(); v >= 1.0 && v <= 4096.0 && v.fract() == 0.0 }) && big <= if S::BITS == 32 { 20.0 } else { 48.0 };
        if x.iter().any(|b| flt::<S>(*b).is_nan()) { return (vec![E::Nan], false) }
        return (vec![if ok { fe::<S>(p) } else { E::Any }], false)
    }
    let mut p: u64 = 1;
    let mut bits = 0.0f64;
    let mut zero = false;
    for b in x { p = p.wrapping_mul(int::<S>(*b) as u64); let a = int::<S>(*b).abs() as f64; if a == 0.0 { zero = true } else { bits += a.log2() } }
    let _ = zero;
    (vec![E::B(p & mask::<S>())], cfg!(debug_assertions) && bits > S::BITS as f64 - 1.01 - S::SIGNED as u32 as f64)
}
fn upcast<S: El>(x: &[Vec<u64>]) -> (Vec<E>, bool) {
    let x = &x[0];
    if S::FLOAT {
        // whole numbers well inside the range only
        let ok = x.iter().all(|b| { let v = flt::<S>(*b); v.is_finite() && v.fract() == 0.0 && v.abs() < 1e9 }) && (S::BITS == 64 || x.iter().map(|b| flt::<S>(*b).abs()).sum::<f64>() < 16777216.0);
        let s: f64 = x.iter().map(|b| flt::<S>(*b)).sum();
        return (vec![if ok { E::B(s as i64 as u64) } else { E::Any }], !ok)
    }
    // 64-bit elements are reinterpreted
    let s: i128 = x.iter().map(|b| int::<S>(*b)).sum();
    let any = S::BITS == 64;
    let (p, n): (i128, i128) = (x.iter().map(|b| (int::<S>(*b) as i64 as i128).max(0)).sum(), x.iter().map(|b| (int::<S>(*b) as i64 as i128).min(0)).sum());
    (vec![E::B(s as i64 as u64)], any && cfg!(debug_assertions) && !(p <= i64::max_value() as i128 && n >= i64::min_value() as i128))
}
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    const S: &[G] = &[G::Tags, G::OneHot, G::Slide, G::Neigh];
    macro_rules! su { ($t:ident, $v:ident) => {
        op::<$v, _, _>(&mut c, concat!("sum/", stringify!($v)), 1, S, $t::BITS, |v, o| o.push(Sum::sum(&v[0]).bits()), |x| total::<$t>(x));
        op::<$v, _, _>(&mut c, concat!("sum_upcast/", stringify!($v)), 1, S, 64, |v, o| o.push(UpcastSum::sum_upcast(&v[0]) as u64), |x| upcast::<$t>(x));
        op::<$v, _, _>(&mut c, concat!("product/", stringify!($v)), 1, S, $t::BITS, |v, o| o.push(Packed::product(&v[0]).bits()), |x| product::<$t>(x));
        // products of ones and a few other numbers, which do not overflow
        op::<$v, _, _>(&mut c, concat!("product-small/", stringify!($v)), 1, &[G::OneHot, G::Slide], $t::BITS, |v, o| {
            let l: Vec<$t> = lanes(&v[0]).iter().map(|x| small(*x)).collect();
            o.push(Packed::product(&vec_of::<$v>(&l)).bits())
        }, |x| product::<$t>(&[x[0].iter().map(|b| small($t::of(*b)).bits()).collect()]));
    } }
    mc::ints!(su);
    mc::floats!(su);
    c.finish()
}
/// Mostly 1, sometimes 2 or 3.
fn small<S: El>(x: S) -> S {
    let k = match x.bits().wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 59 { 0 => 2, 1 => 3, _ => 1 };
    S::tag_int(k)
}
