//! Byte order and reinterpretation.
#![allow(unused_unsafe)]
use faster::*;
use mc::{el::*, lane::*, rt::*};
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    macro_rules! en { ($t:ident, $v:ident) => {
        let n = $t::BITS / 8;
        let sw = |x: &[Vec<u64>]| (x[0].iter().map(|b| E::B((0..n).fold(0u64, |a, k| a | (b >> (8 * k) & 0xff) << (8 * (n - 1 - k))))).collect::<Vec<_>>(), false);
        let id = |x: &[Vec<u64>]| (x[0].iter().map(|b| E::B(*b)).collect::<Vec<_>>(), false);
        op::<$v, _, _>(&mut c, concat!("swap_bytes/", stringify!($v)), 1, ALL1, $t::BITS, |v, o| put(o, Reendianize::swap_bytes(&v[0])), sw);
        let light: &[G] = if c.thorough() { ALL1 } else { &[G::Tags, G::OneHot] };
        op::<$v, _, _>(&mut c, concat!("to_be/", stringify!($v)), 1, light, $t::BITS, |v, o| put(o, Reendianize::to_be(&v[0])), sw);
        op::<$v, _, _>(&mut c, concat!("from_be/", stringify!($v)), 1, light, $t::BITS, |v, o| put(o, Reendianize::from_be(&v[0])), sw);
        op::<$v, _, _>(&mut c, concat!("to_le/", stringify!($v)), 1, light, $t::BITS, |v, o| put(o, Reendianize::to_le(&v[0])), id);
        op::<$v, _, _>(&mut c, concat!("from_le/", stringify!($v)), 1, light, $t::BITS, |v, o| put(o, Reendianize::from_le(&v[0])), id);
        op::<$v, _, _>(&mut c, concat!("be-round-trip/", stringify!($v)), 1, light, $t::BITS, |v, o| put(o, Reendianize::from_be(&Reendianize::to_be(&v[0]))), id);
    } }
    mc::ints!(en);
    let gens: &[G] = if c.thorough() { ALL1 } else { &[G::Tags, G::OneHot] };
    fn bytes(x: &[u64], bits: u32) -> Vec<u8> { x.iter().flat_map(|b| { let b = *b; (0..bits / 8).map(move |k| (b >> (8 * k)) as u8) }).collect() }
    fn regroup(x: &[u8], bits: u32) -> Vec<E> {
        x.chunks((bits / 8) as usize).map(|c| E::B(c.iter().enumerate().fold(0u64, |a, (k, b)| a | (*b as u64) << (8 * k)))).collect()
    }
    macro_rules! be { ($t:ident, $v:ident) => {
        be!(@ gens $t $v u8 be_u8s, i8 be_i8s, u16 be_u16s, i16 be_i16s, u32 be_u32s, i32 be_i32s, u64 be_u64s, i64 be_i64s, f32 be_f32s_unchecked, f64 be_f64s_unchecked);
    }; (@ $gens:ident $t:ident $v:ident $($u:ident $f:ident),*) => {$(
        op::<$v, _, _>(&mut c, concat!(stringify!($v), "/", stringify!($f)), 1, $gens, $u::BITS, |v, o| {
            let r = unsafe { Transmute::$f(&v[0]) };
            assert!(std::mem::size_of_val(&r) == std::mem::size_of::<$v>());
            let l: &[$u] = lanes(&r);
            for x in l { o.push(x.bits()) }
        }, |x| (regroup(&bytes(&x[0], $t::BITS), $u::BITS), false));
    )*} }
    mc::ints!(be);
    mc::floats!(be);
    c.finish()
}
