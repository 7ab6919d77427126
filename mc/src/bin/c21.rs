//! Population count.
use faster::*;
use mc::{el::*, lane::*, rt::*};
fn ones(x: &[Vec<u64>]) -> u64 { x[0].iter().map(|b| b.count_ones() as u64).sum() }
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    macro_rules! pc { ($t:ident, $v:ident) => {
        op::<$v, _, _>(&mut c, concat!("count_ones/", stringify!($v)), 1, &[G::Tags, G::OneHot, G::Slide, G::Neigh], 64, |v, o| o.push(Popcnt::count_ones(&v[0]) as u64), |x| (vec![E::B(ones(x))], false));
        op::<$v, _, _>(&mut c, concat!("count_zeroes/", stringify!($v)), 1, &[G::Tags, G::OneHot, G::Slide], 64, |v, o| o.push(Popcnt::count_zeroes(&v[0]) as u64),
            |x| (vec![E::B((x[0].len() as u64 * $t::BITS as u64) - ones(x))], false));
    } }
    mc::ints!(pc);
    // every pair of bits of the vector, and every pair of clear bits
    macro_rules! bits { ($t:ident, $v:ident) => {{
        let site = concat!("pairs of bits/", stringify!($v));
        if c.want_site(site) {
            let n = std::mem::size_of::<$v>() * 8;
            let before = c.traces;
            for i in 0..n {
                if c.only.is_none() && i % c.shards != c.shard { continue }
                for j in i..n { for inv in 0..2u8 {
                    if !c.want_case(|| format!("{} {} {}", i, j, inv)) { continue }
                    let mut b = [0u8; 64];
                    b[i / 8] |= 1 << (i % 8);
                    b[j / 8] |= 1 << (j % 8);
                    let k = if i == j { 1 } else { 2 };
                    let k = if inv == 1 { for x in b.iter_mut() { *x = !*x } n - k } else { k };
                    let v: $v = unsafe { std::ptr::read_unaligned(b.as_ptr() as *const $v) };
                    cur(site, &[i as u64, j as u64, inv as u64]);
                    let g = lane(|| (Popcnt::count_ones(&v), Popcnt::count_zeroes(&v)));
                    c.states += 1; c.transitions += 2; c.traces += 1;
                    if g != Ok((k, n - k)) { c.fail(site, || format!("{} {} {}", i, j, inv), || format!("{:?} instead of {:?}", g, (k, n - k))) }
                } }
            }
            let d = c.traces - before;
            c.site(site, d);
        }
    }} }
    mc::ints!(bits);
    c.finish()
}
