//! Horizontal addition and subtraction.
use faster::*;
use mc::{el::*, lane::*, rt::*};
fn h<S: El>(x: &[Vec<u64>], sub: bool) -> (Vec<E>, bool) {
    let mut over = false;
    let e = (0..x[0].len()).map(|i| {
        let (a, b) = { let s = &x[i & 1]; let j = i & !1; (s[j], s[j + 1]) };
        if S::FLOAT {
            let (a, b) = (flt::<S>(a), flt::<S>(b));
            let r = if sub { a - b } else { a + b };
            if r == 0.0 { E::Two(fbits::<S>(0.0), fbits::<S>(r)) } else { fe::<S>(r) }
        } else {
            let r = int::<S>(a) + if sub { -int::<S>(b) } else { int::<S>(b) };
            // the scalar fallbacks panic when checked for overflow
            over |= !fits::<S>(r);
            E::B(wrap::<S>(r))
        }
    }).collect();
    (e, over && cfg!(debug_assertions))
}
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    const H: &[G] = &[G::Tags, G::OneHot, G::Slide, G::Neigh];
    macro_rules! ho { ($t:ident, $v:ident) => {
        op::<$v, _, _>(&mut c, concat!("hadd/", stringify!($v)), 2, H, $t::BITS, |v, o| put(o, HAdd::hadd(&v[0], v[1])), |x| h::<$t>(x, false));
        op::<$v, _, _>(&mut c, concat!("hsub/", stringify!($v)), 2, H, $t::BITS, |v, o| put(o, HSub::hsub(&v[0], v[1])), |x| h::<$t>(x, true));
    } }
    mc::ints!(ho);
    mc::floats!(ho);
    c.finish()
}
