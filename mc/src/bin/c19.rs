//! Widening and saturating narrowing.
use faster::*;
use mc::{el::*, lane::*, rt::*};
fn conv<S: El, T: El>(b: u64) -> E {
    if S::FLOAT {
        let v = flt::<S>(b);
        if v.is_nan() { return E::Nan }
        // beyond the range of f32: not specified
        if T::BITS < S::BITS && v.is_finite() && !(v as f32).is_finite() { return E::Any }
        return E::B(fbits::<T>(v))
    }
    if T::FLOAT { return E::B(fbits::<T>(int::<S>(b) as f64)) }
    E::B(sat::<T>(int::<S>(b)))
}
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    macro_rules! up { ($($t:ident $v:ident $u:ident $w:ident)*) => {$(
        op::<$v, _, _>(&mut c, concat!("upcast/", stringify!($v), "->", stringify!($w)), 1, ALL1, $u::BITS, |v, o| { let r: ($w, $w) = Upcast::<$w>::upcast(v[0]); put(o, r.0); put(o, r.1) },
            |x| (x[0].iter().map(|b| conv::<$t, $u>(*b)).collect(), false));
    )*} }
    up!(u8 u8x16 u16 u16x8 i8 i8x16 i16 i16x8 u16 u16x8 u32 u32x4 i16 i16x8 i32 i32x4 f32 f32x4 f64 f64x2 i32 i32x4 f64 f64x2 i32 i32x4 i64 i64x2 u32 u32x4 u64 u64x2
        u8 u8x32 u16 u16x16 i8 i8x32 i16 i16x16 u16 u16x16 u32 u32x8 i16 i16x16 i32 i32x8 f32 f32x8 f64 f64x4 i32 i32x8 f64 f64x4 i32 i32x8 i64 i64x4 u32 u32x8 u64 u64x4
        f32 f32x16 f64 f64x8 i32 i32x16 f64 f64x8 i32 i32x16 i64 i64x8 u32 u32x16 u64 u64x8);
    macro_rules! down { ($($t:ident $v:ident $u:ident $w:ident)*) => {$(
        op::<$v, _, _>(&mut c, concat!("downcast/", stringify!($v), "->", stringify!($w)), 2, &[G::Tags, G::OneHot, G::Slide, G::Pairs], $u::BITS, |v, o| put(o, Downcast::<$w>::saturating_downcast(v[0], v[1])),
            |x| (x[0].iter().chain(x[1].iter()).map(|b| conv::<$t, $u>(*b)).collect(), false));
    )*} }
    down!(i32 i32x4 i16 i16x8 i64 i64x2 i32 i32x4 u64 u64x2 u32 u32x4 f64 f64x2 f32 f32x4 i16 i16x8 i8 i8x16 u32 u32x4 u16 u16x8 u16 u16x8 u8 u8x16
          i32 i32x8 i16 i16x16 i64 i64x4 i32 i32x8 u64 u64x4 u32 u32x8 f64 f64x4 f32 f32x8 i16 i16x16 i8 i8x32 u32 u32x8 u16 u16x16 u16 u16x16 u8 u8x32);
    c.finish()
}
