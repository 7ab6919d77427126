//! Loading, storing and editing lanes.
use faster::*;
use faster::vecs::{Packable, Packed};
use mc::{el::*, lane::*, rt::*};
use std::cell::RefCell;
thread_local!(static BUF: RefCell<GBuf> = RefCell::new(GBuf::new(600_000)));
fn vec_type<V: Packed>(c: &mut Ctx, name: &'static str) where V::Scalar: El + Packable {
    let w = V::WIDTH;
    let site = |op: &str| -> &'static str { sub::<V::Scalar>(&format!("{}/{}", op, name)) };
    // width and size
    {
        let s = site("width");
        if c.mine() && c.want_site(s) {
            cur(s, &[]);
            c.states += 1; c.transitions += 1; c.traces += 1; c.site(s, 1);
            let g = lane(|| vec_tag::<V>(0, 0).width());
            if g != Ok(w) || w * <V::Scalar as Packable>::SIZE != std::mem::size_of::<V>() || <V::Scalar as Packable>::SIZE != std::mem::size_of::<V::Scalar>() {
                c.fail(s, String::new, || format!("width {:?}, WIDTH {}, {} bytes", g, w, std::mem::size_of::<V>()))
            }
        }
    }
    // load and store at every offset of every length, flush against either end of the memory
    let tops = if c.thorough() { 3 * w + 1 } else { 2 * w + 2 };
    for (op, which) in &[("load", 0), ("load_unchecked", 1), ("store", 2), ("store_unchecked", 3)] {
        let s = site(op);
        if !(c.mine() && c.want_site(s)) { continue }
        let before = c.traces;
        let mut places: Vec<(usize, usize)> = vec![];
        for n in 0..=tops { for off in 0..=n + 2 { places.push((n, off)) } }
        // far from the start, around every place where an offset of 8, 12 or 16 bits would turn over
        for n in &[300usize, 4200, 66000] {
            for m in &[w, 127, 128, 255, 256, 4095, 4096, 32768, 65535, 65536, n - w, n - 1, *n] { for d in 0..3 {
                let off = m + d - 1;
                if off <= n + 1 && off * 20 > *n && !places.contains(&(*n, off)) { places.push((*n, off)) }
            } }
        }
        if stepping() { places.retain(|p| p.0 <= w + 1 && p.1 < 2) }
        for (n, off) in places { for hi in 0..2usize { for color in 0..2usize {
            if n > 5000 && hi + color != 1 { continue }
            let fits = off + w <= n;
            if !fits && which & 1 == 1 { continue }
            let case = || format!("n={} off={} hi={} color={}", n, off, hi, color);
            if !c.want_case(case) { continue }
            cur(s, &[n as u64, off as u64, hi as u64, color as u64]);
            c.states += 1; c.transitions += 1; c.traces += 1;
            let r = BUF.with(|b| -> Result<u64, String> {
                let mut b = b.borrow_mut();
                b.arm::<V::Scalar>(n, hi == 1);
                let mem: &'static mut [V::Scalar] = b.place(n, hi == 1);
                for (i, x) in mem.iter_mut().enumerate() { *x = V::Scalar::tag(i % 200, color) }
                let was = bitv(mem);
                let v = vec_tag::<V>(40, 1 - color);
                let got = match which {
                    0 => lane(|| V::load(mem, off)).map(|v| bitv(lanes(&v))),
                    1 => lane(|| unsafe { V::load_unchecked(mem, off) }).map(|v| bitv(lanes(&v))),
                    2 => lane(|| v.store(mem, off)).map(|_| vec![]),
                    _ => lane(|| unsafe { v.store_unchecked(mem, off) }).map(|_| vec![]),
                };
                let now = bitv(b.place::<V::Scalar>(n, hi == 1));
                if !b.intact::<V::Scalar>(n, hi == 1) { return Err("wrote outside the slice".into()) }
                let mut want = was.clone();
                if *which >= 2 && fits { for i in 0..w { want[off + i] = lanes(&v)[i].bits() } }
                if now != want { return Err(format!("memory {:x?} instead of {:x?}", now, want)) }
                match got {
                    Err(_) if !fits => Ok(1),
                    Err(_) => Err("panicked".into()),
                    Ok(_) if !fits => Err("accepted an offset out of bounds".into()),
                    Ok(l) => if *which < 2 && l[..] != was[off..off + w] { Err(format!("lanes {:x?} instead of {:x?}", l, &was[off..off + w])) } else { Ok(hash64(l.into_iter().chain(now))) },
                }
            });
            match r { Ok(h) => { if off % 3 == 0 { c.outcome(h) } if off == 1 && n == w + 1 { c.sample(|| format!("{} {}", s, case())) } } Err(e) => c.fail(s, case, || e.chars().take(600).collect()) }
        } } }
        let d = c.traces - before;
        c.site(s, d);
    }
    // lanes of a vector
    let a = alpha::<V::Scalar>(c);
    for (op, which) in &[("extract", 0), ("extract_unchecked", 1), ("replace", 2), ("replace_unchecked", 3)] {
        let s = site(op);
        if !(c.mine() && c.want_site(s)) { continue }
        let before = c.traces;
        let beyond = [w, w + 1, 2 * w, 255, 256, usize::max_value() / 2, usize::max_value()];
        for idx in (0..w).chain(beyond.iter().cloned()) { for color in 0..2usize {
            if idx >= w && which & 1 == 1 { continue }
            for (k, x) in a.hot.iter().enumerate() {
                if *which < 2 && k > 0 && idx >= w { break }
                let case = || format!("idx={} color={} {:x}", idx, color, x);
                if !c.want_case(case) { continue }
                cur(s, &[idx as u64, color as u64, *x]);
                c.states += 1; c.transitions += 1; c.traces += 1;
                let mut l: Vec<V::Scalar> = (0..w).map(|i| V::Scalar::tag(i, color)).collect();
                if *which < 2 && idx < w { l[idx] = V::Scalar::of(*x) }
                let v: V = vec_of(&l);
                let mut v2 = v;
                let e = V::Scalar::of(*x);
                let r = match which {
                    0 => lane(|| v.extract(idx)).map(|x| vec![x.bits()]),
                    1 => lane(|| unsafe { v.extract_unchecked(idx) }).map(|x| vec![x.bits()]),
                    2 => lane(|| v2.replace(idx, e)).map(|v| bitv(lanes(&v))),
                    _ => lane(|| unsafe { v2.replace_unchecked(idx, e) }).map(|v| bitv(lanes(&v))),
                };
                let want = if idx >= w { None } else if *which < 2 { Some(vec![*x]) } else { let mut w = bitv(&l); w[idx] = *x; Some(w) };
                if r.as_ref().ok() != want.as_ref() { c.fail(s, case, || format!("{:x?} instead of {:x?}", r, want)) }
                else if k == 1 { c.outcome(hash64(want.into_iter().flatten())) }
            }
        } }
        let d = c.traces - before;
        c.site(s, d);
    }
    // splat, default, coalesce
    {
        let s = site("splat");
        if c.mine() && c.want_site(s) {
            for x in a.slide.iter().chain(a.pairs.iter()) {
                if !c.want_case(|| format!("{:x}", x)) { continue }
                cur(s, &[*x]);
                c.states += 1; c.transitions += 3; c.traces += 1; c.site(s, 1);
                let e = V::Scalar::of(*x);
                let same: V = vec_of(&vec![e; w]);
                let nan = V::Scalar::FLOAT && flt::<V::Scalar>(*x).is_nan();
                let r = lane(|| (V::splat(e), V::default(), if nan { e } else { same.coalesce() }));
                match r {
                    Ok((v, d, co)) => {
                        if lanes(&v).iter().any(|l| l.bits() != *x) { c.fail(s, || format!("{:x}", x), || format!("splat: {:x?}", bitv(lanes(&v)))) }
                        if lanes(&d).iter().any(|l| l.bits() != 0) { c.fail(s, || format!("{:x}", x), || format!("default: {:x?}", bitv(lanes(&d)))) }
                        if co.bits() != *x { c.fail(s, || format!("{:x}", x), || format!("coalesce: {:x}", co.bits())) }
                    }
                    Err(_) => c.fail(s, || format!("{:x}", x), || "panicked".into()),
                }
            }
        }
    }
    op::<V, _, _>(c, &format!("scalar_reduce/{}", name), 1, &[G::Tags, G::OneHot, G::Slide], V::Scalar::BITS, |v, o| { let mut k = 0usize; let n = v[0].scalar_reduce(0usize, |acc, x| { assert!(acc == k); k += 1; o.push(x.bits()); acc + 1 }); assert!(n == k) },
        |x| (x[0].iter().map(|b| E::B(*b)).collect(), false));
}
/// The constructors named after the vectors.
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    macro_rules! vt { ($t:ident, $v:ident) => { vec_type::<$v>(&mut c, stringify!($v)); } }
    mc::ints!(vt);
    mc::floats!(vt);
    macro_rules! ct { ($t:ident, $v:ident,) => {{
        let site = concat!("constructor/", stringify!($v));
        if c.mine() && c.want_site(site) {
            let a = alpha::<$t>(&c);
            for x in a.pairs.iter() {
                cur(site, &[*x]);
                c.states += 1; c.transitions += 1; c.traces += 1; c.site(site, 1);
                let r = lane(|| $v($t::of(*x)));
                match r { Ok(ref v) if lanes(v).iter().all(|l| l.bits() == *x) => {}, r => c.fail(site, || format!("{:x}", x), || format!("{:x?}", r.map(|v| bitv(lanes(&v))))) }
            }
        }
    }} }
    mc::for_all_el!(ct,);
    c.finish()
}
