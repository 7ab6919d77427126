//! Saturating addition and subtraction, lane-wise and horizontal.
use faster::*;
use mc::{el::*, lane::*, rt::*};
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    macro_rules! ad { ($($t:ident $v:ident)*) => {$(
        op::<$v, _, _>(&mut c, concat!("saturating_add/", stringify!($v)), 2, ALL2, $t::BITS, |v, o| put(o, SaturatingAdd::saturating_add(&v[0], v[1])),
            |x| ((0..x[0].len()).map(|i| E::B(sat::<$t>(int::<$t>(x[0][i]) + int::<$t>(x[1][i])))).collect(), false));
        op::<$v, _, _>(&mut c, concat!("saturating_sub/", stringify!($v)), 2, ALL2, $t::BITS, |v, o| put(o, SaturatingSub::saturating_sub(&v[0], v[1])),
            |x| ((0..x[0].len()).map(|i| E::B(sat::<$t>(int::<$t>(x[0][i]) - int::<$t>(x[1][i])))).collect(), false));
    )*} }
    ad!(u8 u8x16 i8 i8x16 u16 u16x8 i16 i16x8 u8 u8x32 i8 i8x32 u16 u16x16 i16 i16x16);
    const H: &[G] = &[G::Tags, G::OneHot, G::Slide, G::Neigh];
    fn h<S: El>(x: &[Vec<u64>], sign: i128) -> (Vec<E>, bool) {
        ((0..x[0].len()).map(|i| { let s = &x[i & 1]; let j = i & !1; E::B(sat::<S>(int::<S>(s[j]) + sign * int::<S>(s[j + 1]))) }).collect(), false)
    }
    macro_rules! ho { ($t:ident, $v:ident) => {
        op::<$v, _, _>(&mut c, concat!("saturating_hadd/", stringify!($v)), 2, H, $t::BITS, |v, o| put(o, SaturatingHAdd::saturating_hadd(&v[0], v[1])), |x| h::<$t>(x, 1));
        op::<$v, _, _>(&mut c, concat!("saturating_hsub/", stringify!($v)), 2, H, $t::BITS, |v, o| put(o, SaturatingHSub::saturating_hsub(&v[0], v[1])), |x| h::<$t>(x, -1));
    } }
    mc::ints!(ho);
    c.finish()
}
