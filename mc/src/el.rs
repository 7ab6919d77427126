//! Scalar element types and vector <-> lanes conversion that do not go through
//! the library.
use faster::vecs::{Packable, Packed};
use std::fmt::Debug;

pub trait El: Packable + Copy + Debug + PartialEq + Default + 'static {
    const NAME: &'static str;
    const BITS: u32;
    const FLOAT: bool;
    const SIGNED: bool;
    fn bits(self) -> u64;
    fn of(b: u64) -> Self;
    /// Distinct, exactly representable values for small `i` (< 256), in two colourings; the third (2) is of few values.
    fn tag(i: usize, color: usize) -> Self;
    fn tag_int(i: u8) -> Self;
}
/// The third colouring: runs of equal elements, the first of which, like most of
/// the lanes that serve as defaults, are zero.
fn runs(i: usize) -> u64 { [0, 85, 0, 127][i / 40 % 4] }
macro_rules! el_int { ($($t:ident $u:ident $s:expr),*) => {$(
    impl El for $t {
        const NAME: &'static str = stringify!($t);
        const BITS: u32 = std::mem::size_of::<$t>() as u32 * 8;
        const FLOAT: bool = false;
        const SIGNED: bool = $s;
        #[inline(always)] fn bits(self) -> u64 { self as $u as u64 }
        #[inline(always)] fn of(b: u64) -> Self { b as $u as $t }
        fn tag_int(i: u8) -> Self { i as $t }
        fn tag(i: usize, color: usize) -> Self {
            if color >= 2 { return runs(i) as $u as $t }
            // every byte of the value identifies i
            let mut b = 0u64;
            for k in 0..8 { b |= (((i + 1 + 61 * k + 89 * (i >> 8)) & 0xff) as u64) << (8 * k) }
            let b = b as $u;
            (if color == 0 { b } else { !b }) as $t
        }
    })*}}
el_int!(u8 u8 false, i8 u8 true, u16 u16 false, i16 u16 true, u32 u32 false, i32 u32 true, u64 u64 false, i64 u64 true);
impl El for f32 {
    const NAME: &'static str = "f32"; const BITS: u32 = 32; const FLOAT: bool = true; const SIGNED: bool = true;
    #[inline(always)] fn bits(self) -> u64 { self.to_bits() as u64 }
    #[inline(always)] fn of(b: u64) -> Self { f32::from_bits(b as u32) }
    fn tag_int(i: u8) -> Self { i as f32 }
    fn tag(i: usize, color: usize) -> Self { if color >= 2 { return runs(i) as f32 } let v = i as f32 + 1.0; if color == 0 { v } else { -v } }
}
impl El for f64 {
    const NAME: &'static str = "f64"; const BITS: u32 = 64; const FLOAT: bool = true; const SIGNED: bool = true;
    #[inline(always)] fn bits(self) -> u64 { self.to_bits() }
    #[inline(always)] fn of(b: u64) -> Self { f64::from_bits(b) }
    fn tag_int(i: u8) -> Self { i as f64 }
    fn tag(i: usize, color: usize) -> Self { if color >= 2 { return runs(i) as f64 } let v = i as f64 + 1.0; if color == 0 { v } else { -v } }
}

/// The lanes of a vector, read from memory.
#[inline(always)]
pub fn lanes<V: Packed>(v: &V) -> &[V::Scalar] {
    unsafe { std::slice::from_raw_parts(v as *const V as *const V::Scalar, V::WIDTH) }
}
/// A vector made from lanes, through memory.
#[inline(always)]
pub fn vec_of<V: Packed>(l: &[V::Scalar]) -> V {
    assert!(l.len() == V::WIDTH && std::mem::size_of::<V>() == V::WIDTH * std::mem::size_of::<V::Scalar>());
    unsafe { std::ptr::read_unaligned(l.as_ptr() as *const V) }
}
pub fn vec_tag<V: Packed>(base: usize, color: usize) -> V where V::Scalar: El {
    let l: Vec<V::Scalar> = (0..V::WIDTH).map(|i| V::Scalar::tag(base + i, color)).collect();
    vec_of(&l)
}
pub fn bitv<S: El>(s: &[S]) -> Vec<u64> { s.iter().map(|x| x.bits()).collect() }

#[macro_export]
macro_rules! for_all_el {
    ($m:ident, $($a:tt)*) => {
        $m!(u8, u8s, $($a)*); $m!(i8, i8s, $($a)*); $m!(u16, u16s, $($a)*); $m!(i16, i16s, $($a)*);
        $m!(u32, u32s, $($a)*); $m!(i32, i32s, $($a)*); $m!(f32, f32s, $($a)*);
        $m!(u64, u64s, $($a)*); $m!(i64, i64s, $($a)*); $m!(f64, f64s, $($a)*);
    }
}
/// `$m!(u8, u8s, 0|1)`: 1 for the types on which every kind of stream is explored.
#[macro_export]
macro_rules! el_some {
    ($m:ident) => {
        $m!(u8, u8s, 1); $m!(i8, i8s, 0); $m!(u16, u16s, 0); $m!(i16, i16s, 1);
        $m!(u32, u32s, 0); $m!(i32, i32s, 0); $m!(f32, f32s, 1);
        $m!(u64, u64s, 1); $m!(i64, i64s, 0); $m!(f64, f64s, 0);
    }
}
#[macro_export]
macro_rules! when { (1 { $($t:tt)* }) => { $($t)* }; (0 { $($t:tt)* }) => {}; }
