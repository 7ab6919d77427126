//! Destriding.
use faster::*;
use mc::{el::*, lane::*, rt::*};
fn deal(x: &[Vec<u64>], n: usize) -> (Vec<E>, bool) {
    let all: Vec<u64> = x.iter().flatten().cloned().collect();
    ((0..n).flat_map(|k| all.iter().skip(k).step_by(n).map(|b| E::B(*b)).collect::<Vec<_>>()).collect(), false)
}
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    const A: &[G] = &[G::Tags, G::OneHot, G::Slide, G::Neigh];
    macro_rules! de { ($($t:ident $v:ident)*) => {$(
        op::<$v, _, _>(&mut c, concat!("destride_two/", stringify!($v)), 2, A, $t::BITS, |v, o| { let r = Destride::destride_two(v[0], v[1]); put(o, r.0); put(o, r.1) }, |x| deal(x, 2));
        op::<$v, _, _>(&mut c, concat!("destride_four/", stringify!($v)), 4, A, $t::BITS, |v, o| { let r = Destride::destride_four(v[0], v[1], v[2], v[3]); put(o, r.0); put(o, r.1); put(o, r.2); put(o, r.3) }, |x| deal(x, 4));
    )*} }
    de!(u8 u8x16 u8 u8x32 i8 i8x16 i8 i8x32 u16 u16x16 u16 u16x8 i16 i16x16 i16 i16x8 u32 u32x8 u32 u32x4 i32 i32x8 i32 i32x4);
    c.finish()
}
