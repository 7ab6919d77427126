//! Lane-wise comparison, minimum, maximum and absolute value.
use faster::*;
use mc::{el::*, lane::*, rt::*};
fn fcmp<S: El>(a: u64, b: u64, max: bool) -> E {
    let (x, y) = (flt::<S>(a), flt::<S>(b));
    // which operand comes out for NaN, and which zero, is not specified
    if x.is_nan() || y.is_nan() { return if x.is_nan() && y.is_nan() { E::Nan } else { E::Any } }
    if x == y { return E::Two(a, b) }
    E::B(if (x > y) == max { a } else { b })
}
fn cmp<S: El>(a: u64, b: u64, max: bool) -> E {
    if S::FLOAT { return fcmp::<S>(a, b, max) }
    E::B(if (int::<S>(a) > int::<S>(b)) == max { a } else { b })
}
fn each(x: &[Vec<u64>], f: impl Fn(u64, u64) -> E) -> (Vec<E>, bool) { ((0..x[0].len()).map(|i| f(x[0][i], x[1][i])).collect(), false) }
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    macro_rules! cm { ($($t:ident $v:ident)*) => {$(
        op::<$v, _, _>(&mut c, concat!("min/", stringify!($v)), 2, ALL2, $t::BITS, |v, o| put(o, Cmp::min(&v[0], v[1])), |x| each(x, |a, b| cmp::<$t>(a, b, false)));
        op::<$v, _, _>(&mut c, concat!("max/", stringify!($v)), 2, ALL2, $t::BITS, |v, o| put(o, Cmp::max(&v[0], v[1])), |x| each(x, |a, b| cmp::<$t>(a, b, true)));
    )*} }
    cm!(u8 u8x16 i8 i8x16 u16 u16x8 i16 i16x8 u32 u32x4 i32 i32x4 f32 f32x4 f64 f64x2
        u8 u8x32 i8 i8x32 u16 u16x16 i16 i16x16 u32 u32x8 i32 i32x8 f32 f32x8 f64 f64x4);
    macro_rules! eq { ($($t:ident $v:ident)*) => {$(
        op::<$v, _, _>(&mut c, concat!("eq_mask/", stringify!($v)), 2, ALL2, $t::BITS, |v, o| put(o, faster::Eq::eq_mask(&v[0], v[1])),
            |x| each(x, |a, b| E::B(if $t::of(a) == $t::of(b) { mask::<$t>() } else { 0 })));
        op::<$v, _, _>(&mut c, concat!("ne_mask/", stringify!($v)), 2, ALL2, $t::BITS, |v, o| put(o, faster::Eq::ne_mask(&v[0], v[1])),
            |x| each(x, |a, b| E::B(if $t::of(a) == $t::of(b) { 0 } else { mask::<$t>() })));
    )*} }
    eq!(u8 u8x16 i8 i8x16 u16 u16x8 i16 i16x8 u32 u32x4 i32 i32x4 f32 f32x4 f64 f64x2 u64 u64x2 i64 i64x2
        u8 u8x32 i8 i8x32 u16 u16x16 i16 i16x16 u32 u32x8 i32 i32x8 f32 f32x8 f64 f64x4 u64 u64x4 i64 i64x4);
    macro_rules! ab { ($($t:ident $v:ident)*) => {$(
        op::<$v, _, _>(&mut c, concat!("abs/", stringify!($v)), 1, ALL1, $t::BITS, |v, o| put(o, Abs::abs(&v[0])), |x| (x[0].iter().map(|a| {
            if $t::FLOAT { if flt::<$t>(*a).is_nan() { E::Nan } else { E::B(a & (mask::<$t>() >> 1)) } } else { E::B(wrap::<$t>(int::<$t>(*a).abs())) }
        }).collect(), false));
    )*} }
    ab!(f32 f32x4 f64 f64x2 f32 f32x8 f64 f64x4 i8 i8x16 i16 i16x8 i32 i32x4 i8 i8x32 i16 i16x16 i32 i32x8 i64 i64x2 i64 i64x4 i64 i64x8);
    c.finish()
}
