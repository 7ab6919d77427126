//! Rounding, square root, reciprocal estimates.
use faster::*;
use mc::{el::*, lane::*, rt::*};
fn map1(x: &[Vec<u64>], f: impl Fn(u64) -> E) -> (Vec<E>, bool) { (x[0].iter().map(|b| f(*b)).collect(), false) }
/// Results that are zero may have either sign only where the operand's sign is lost by
/// neither mode; the sign of the operand is kept.
fn round<S: El>(b: u64) -> E {
    let v = flt::<S>(b);
    if v.is_nan() { return E::Nan }
    if v.is_infinite() || v.fract() == 0.0 { return E::B(b) }
    if v.fract().abs() == 0.5 { return E::Two(fbits::<S>(v.floor()), fbits::<S>(v.ceil())) }
    let r = if v.fract().abs() < 0.5 { v.trunc() } else if v > 0.0 { v.ceil() } else { v.floor() };
    E::B(fbits::<S>(r) | (b & 1 << (S::BITS - 1)))
}
fn unary<S: El>(b: u64, f: fn(f64) -> f64) -> E {
    let v = flt::<S>(b);
    if v.is_nan() { return E::Nan }
    E::B(fbits::<S>(f(v)))
}
fn near<S: El>(b: u64, f: fn(f64) -> f64) -> E {
    let v = flt::<S>(b);
    let r = f(v);
    let lim = if S::BITS == 32 { 1e30 } else { 1e30 };
    if v.is_nan() || r.is_nan() || v.abs() > lim || v.abs() < 1.0 / lim { E::Any } else { E::Near(r, 1e-3) }
}
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    const A: &[G] = &[G::Tags, G::OneHot, G::Slide, G::Neigh];
    macro_rules! ro { ($($t:ident $v:ident)*) => {$(
        op::<$v, _, _>(&mut c, concat!("round/", stringify!($v)), 1, A, $t::BITS, |v, o| put(o, Round::round(&v[0])), |x| map1(x, round::<$t>));
        op::<$v, _, _>(&mut c, concat!("floor/", stringify!($v)), 1, A, $t::BITS, |v, o| put(o, Round::floor(&v[0])), |x| map1(x, |b| unary::<$t>(b, f64::floor)));
        op::<$v, _, _>(&mut c, concat!("ceil/", stringify!($v)), 1, A, $t::BITS, |v, o| put(o, Round::ceil(&v[0])), |x| map1(x, |b| unary::<$t>(b, f64::ceil)));
        op::<$v, _, _>(&mut c, concat!("trunc/", stringify!($v)), 1, A, $t::BITS, |v, o| put(o, Round::trunc(&v[0])), |x| map1(x, |b| unary::<$t>(b, f64::trunc)));
        op::<$v, _, _>(&mut c, concat!("sqrt/", stringify!($v)), 1, A, $t::BITS, |v, o| put(o, faster::intrin::sqrt::Sqrt::sqrt(&v[0])), |x| map1(x, |b| unary::<$t>(b, f64::sqrt)));
    )*} }
    ro!(f32 f32x4 f32 f32x8 f64 f64x2 f64 f64x4);
    macro_rules! re { ($($t:ident $v:ident)*) => {$(
        op::<$v, _, _>(&mut c, concat!("recip/", stringify!($v)), 1, A, $t::BITS, |v, o| put(o, Recip::recip(&v[0])), |x| map1(x, |b| near::<$t>(b, |x| 1.0 / x)));
        op::<$v, _, _>(&mut c, concat!("rsqrt/", stringify!($v)), 1, A, $t::BITS, |v, o| put(o, Rsqrt::rsqrt(&v[0])), |x| map1(x, |b| near::<$t>(b, |x| 1.0 / x.sqrt())));
    )*} }
    re!(f32 f32x4 f32 f32x8);
    macro_rules! sc { ($($t:ident $v:ident)*) => {$(
        op::<$v, _, _>(&mut c, concat!("rsqrt/", stringify!($t)), 1, &[G::Slide], $t::BITS, |v, o| for x in lanes(&v[0]) { o.push(Rsqrt::rsqrt(x).bits()) }, |x| map1(x, |b| near::<$t>(b, |x| 1.0 / x.sqrt())));
    )*} }
    sc!(f32 f32x4 f64 f64x2);
    c.finish()
}
