//! Merges of two vectors.
use faster::*;
use faster::vecs::Packed;
use mc::{el::*, lane::*, rt::*};
fn pick(x: &[Vec<u64>], first: impl Fn(usize, usize) -> bool) -> (Vec<E>, bool) { let w = x[0].len(); ((0..w).map(|i| E::B(if first(i, w) { x[0][i] } else { x[1][i] })).collect(), false) }
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    use faster::arch::current::vecs::*;
    macro_rules! me { ($t:ident, $v:ident) => {
        let full: &[G] = if $t::BITS == 8 || th { &[G::Tags, G::OneHot, G::Slide] } else { &[G::Tags, G::OneHot] };
        op::<$v, _, _>(&mut c, concat!("merge_halves/", stringify!($v)), 2, full, $t::BITS, |v, o| put(o, Merge::merge_halves(&v[0], v[1])), |x| pick(x, |i, w| i < w / 2));
        op::<$v, _, _>(&mut c, concat!("merge_interleaved/", stringify!($v)), 2, full, $t::BITS, |v, o| put(o, Merge::merge_interleaved(&v[0], v[1])), |x| pick(x, |i, _| i % 2 == 0));
        for off in 0..=$v::WIDTH {
            if stepping() && !th && ![0, 1, $v::WIDTH / 2, $v::WIDTH].contains(&off) { continue }
            let name = format!("merge_partitioned@{}/{}", off, stringify!($v));
            let a: &[G] = if th || $v::WIDTH < 8 || off == 0 || off == $v::WIDTH || off == 5 || off == $v::WIDTH / 2 { full } else { &[G::Tags] };
            op::<$v, _, _>(&mut c, &name, 2, a, $t::BITS, |v, o| put(o, Merge::merge_partitioned(&v[0], v[1], off)), |x| pick(x, |i, _| i < off));
        }
        // an offset beyond the width
        {
            let site = concat!("merge_partitioned-beyond/", stringify!($v));
            if c.mine() && c.want_site(site) {
                let (a, b) = (vec_tag::<$v>(0, 0), vec_tag::<$v>(7, 1));
                for off in ($v::WIDTH + 1..=$v::WIDTH * 2 + 1).chain(vec![127, 128, 255, 256, 1 << 16, 1 << 32, usize::max_value() / 2 + 1, usize::max_value() - 1, usize::max_value()]).filter(|o| *o > $v::WIDTH) {
                    cur(site, &[off as u64]);
                    c.states += 1; c.transitions += 1; c.traces += 1;
                    c.site(site, 1);
                    if let Ok(r) = lane(|| Merge::merge_partitioned(&a, b, off)) { c.fail(site, || format!("{}", off), || format!("accepted: {:x?}", bitv(lanes(&r)))) }
                }
            }
        }
    } }
    mc::ints!(me);
    mc::floats!(me);
    c.finish()
}
