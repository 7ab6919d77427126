//! Patterned vectors and masks.
use faster::*;
use faster::vecs::{Packed, Pattern};
use mc::{el::*, lane::*, rt::*};
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    use faster::arch::current::vecs::*;
    // the operands are (hi, lo), the first two lanes of a state of two scalars
    fn two<V, F, P>(c: &mut Ctx, name: &str, full: bool, f: F, first: P) where V: Packed, V::Scalar: El, F: Fn(V::Scalar, V::Scalar) -> V, P: Fn(usize, usize) -> bool {
        if !c.want_site(name) { return }
        let site = sub::<V::Scalar>(name);
        let a = alpha::<V::Scalar>(c);
        let vals = if full { &a.pairs } else { &a.hot };
        let before = c.traces;
        for (i, x) in vals.iter().enumerate() {
            if c.only.is_none() && i % c.shards != c.shard { continue }
            for (j, y) in vals.iter().enumerate() {
                if !c.want_case(|| format!("{} {}", i, j)) { continue }
                cur(site, &[i as u64, j as u64]);
                c.states += 1; c.transitions += 1; c.traces += 1;
                let r = lane(|| f(V::Scalar::of(*x), V::Scalar::of(*y)));
                let ok = match &r { Ok(v) => lanes(v).iter().enumerate().all(|(k, l)| l.bits() == if first(k, V::WIDTH) { *x } else { *y }), Err(_) => false };
                if !ok { c.fail(site, || format!("{} {}", i, j), || format!("hi {:x} lo {:x}: {:x?}", x, y, r.map(|v| bitv(lanes(&v))))) }
                else if i == 0 && j == 7 { c.sample(|| format!("{} {:x} {:x}: {:x?}", site, x, y, r.map(|v| bitv(lanes(&v)).into_iter().take(4).collect::<Vec<_>>()))) }
                else if (i + j) % 7 == 0 { c.outcome(hash64(vec![*x, *y].into_iter())) }
            }
        }
        let d = c.traces - before;
        c.site(site, d);
    }
    macro_rules! one { ($name:expr, $v:ident, $f:expr, $want:expr) => {{
        let site = concat!($name, "/", stringify!($v));
        if c.mine() && c.want_site(site) {
            cur(site, &[]);
            c.states += 1; c.transitions += 1; c.traces += 1;
            c.site(site, 1);
            let r: Result<$v, _> = lane($f);
            let want: Vec<u64> = vec![$want; $v::WIDTH];
            match r { Ok(ref v) if bitv(lanes(v)) == want => {}, r => c.fail(site, || String::new(), || format!("{:x?}", r.map(|v| bitv(lanes(&v))))) }
        }
    }} }
    macro_rules! pa { ($t:ident, $v:ident) => {
        two::<$v, _, _>(&mut c, concat!("halfs/", stringify!($v)), true, |a, b| Pattern::halfs(a, b), |i, w| i < w / 2);
        two::<$v, _, _>(&mut c, concat!("interleave/", stringify!($v)), true, |a, b| Pattern::interleave(a, b), |i, _| i % 2 == 0);
        for off in 0..=$v::WIDTH {
            two::<$v, _, _>(&mut c, &format!("partition@{}/{}", off, stringify!($v)), th && $t::BITS < 32, |a, b| Pattern::partition(a, b, off), |i, _| i < off);
        }
        one!("zeroes", $v, || Pattern::zeroes(), 0);
        one!("ones", $v, || Pattern::ones(), mask::<$t>());
        {
            let site = concat!("partition_mask/", stringify!($v));
            if c.mine() && c.want_site(site) {
                for off in (0..=$v::WIDTH * 2 + 1).chain(vec![127, 128, 255, 256, 1 << 16, 1 << 32, usize::max_value() / 2 + 1, usize::max_value() - 63, usize::max_value() - 1, usize::max_value()]) {
                    if !c.want_case(|| format!("{}", off)) { continue }
                    cur(site, &[off as u64]);
                    c.states += 1; c.transitions += 1; c.traces += 1;
                    c.site(site, 1);
                    let r: Result<$v, _> = lane(|| Pattern::partition_mask(off));
                    let ok = match &r { Ok(v) => off <= $v::WIDTH && lanes(v).iter().enumerate().all(|(k, l)| l.bits() == if k < off { 0 } else { mask::<$t>() }), Err(_) => off > $v::WIDTH };
                    if !ok { c.fail(site, || format!("{}", off), || format!("offset {}: {:x?}", off, r.map(|v| bitv(lanes(&v))))) }
                    let site2 = concat!("partition-beyond/", stringify!($v));
                    if off > $v::WIDTH {
                        c.site(site2, 1);
                        c.transitions += 1;
                        let r: Result<$v, _> = lane(|| Pattern::partition($t::tag(3, 0), $t::tag(9, 0), off));
                        if let Ok(v) = r { c.fail(site2, || format!("{}", off), || format!("offset {} accepted: {:x?}", off, bitv(lanes(&v)))) }
                    }
                }
            }
        }
    } }
    mc::ints!(pa);
    mc::floats!(pa);
    c.finish()
}
