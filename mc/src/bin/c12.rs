//! Memory confinement of the safe interface: every state with an offset, a
//! position, an advance or a length near a boundary, up to the largest integers,
//! run between guard pages, in debug and in release builds.
use faster::*;
use faster::iters::{SIMDArrayMut, SIMDSized};
use faster::vecs::{Packable, Packed, Pattern};
use faster::intrin::merge::Merge;
use mc::{el::*, lane::*, rt::*, stream::*};
use std::rc::Rc;
const MAX: usize = usize::max_value();

/// 0..=n+w+2 and everything near the places where products and sums overflow.
fn edges(n: usize, w: usize, scale: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=n + w + 2).collect();
    far(&mut v, w, scale);
    v
}
fn far(v: &mut Vec<usize>, w: usize, scale: usize) {
    for k in (0..w + 3).filter(|k| w < 8 || *k < 3 || *k > w - 2) { v.push(MAX - k) }
    for s in vec![2, 4, 8, 16, 32, scale, scale * w] {
        if s == 0 { continue }
        // s * x is just below or above a multiple of 2^64
        let q = (((1u128 << 64) + s as u128 - 1) / s as u128) as usize;
        for k in 0..4usize { v.push(q.wrapping_add(k)); v.push(q.wrapping_sub(k)); v.push((q / 2).wrapping_add(k)); v.push(q.wrapping_mul(3).wrapping_sub(k)) }
    }
    if scale & 1 == 1 && scale > 1 {
        // scale * x is 1, 2, ... modulo 2^64
        let mut inv = scale;
        for _ in 0..6 { inv = inv.wrapping_mul(2usize.wrapping_sub(scale.wrapping_mul(inv))) }
        for k in 1..=2 * scale { v.push(inv.wrapping_mul(k)); v.push(inv.wrapping_mul(k).wrapping_neg()) }
    } else if scale > 1 {
        // scale * x is 0 modulo 2^64: also x = odd multiples and neighbours
        let tz = scale.trailing_zeros();
        let odd = scale >> tz;
        let mut inv = odd;
        for _ in 0..6 { inv = inv.wrapping_mul(2usize.wrapping_sub(odd.wrapping_mul(inv))) }
        for k in 1..=4 { let x = inv.wrapping_mul(k); for h in 0..(1usize << tz) { v.push((x & (MAX >> tz)) | h << (64 - tz)) } }
    }
    for k in &[31, 32, 33, 48, 62, 63] { for d in 0..3 { v.push((1usize << k) + d); v.push((1usize << k) - d) } }
    v.sort(); v.dedup();
}
fn one(c: &mut Ctx, site: &'static str, nums: &[u64], f: impl FnOnce() -> Result<u64, String>) {
    let case = || nums.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    if !c.want_case(case) { return }
    cur(site, nums);
    cur_ops("");
    c.states += 1; c.transitions += 1; c.traces += 1;
    c.site(site, 1);
    match f() {
        Ok(h) => { if nums[0] == 3 { c.outcome(h); c.sample(|| format!("{} {}: ok", site, case())) } }
        Err(e) => c.fail(site, case, || e),
    }
}
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
fn lens(c: &Ctx, w: usize) -> Vec<usize> { let t = c.thorough(); (0..=2 * w + 2).filter(|n| t || w < 8 || *n < 3 || n % w < 2 || n % w == w - 1).collect() }

/// Random access through the checked functions.
fn array<I, S, V>(c: &mut Ctx, k: Kind<I>) where I: SIMDArray<Scalar = S, Vector = V> + 'static, S: El + Packable, V: Packed<Scalar = S> {
    let w = V::WIDTH;
    for &(op, which) in &[("load", 0), ("load_scalar", 1)] {
        let site = leak(format!("{}/{}/{}", op, k.name, S::NAME));
        if !(c.mine() && c.want_site(site)) { continue }
        let scale = k.arg.max(1) * std::mem::size_of::<S>();
        let mut ls = lens(c, w);
        if k.arg > 1 { ls = ls.iter().flat_map(|n| vec![n * k.arg, n * k.arg + k.arg - 1]).collect() }
        for n in ls { for hi in 0..2u64 { 
            let mut e = edges((k.count)(n, k.arg), w, scale);
            if k.arg > 1 { far(&mut e, w, k.arg) }
            for off in e {
                one(c, site, &[n as u64, hi, off as u64], || {
                    let (it, m) = (k.mk)(n, hi == 1, 0)?;
                    let len = m.n();
                    let need = if which == 0 { w } else { 1 };
                    let ok = off as u128 + need as u128 <= len as u128;
                    let r = lib(move || { let r = if which == 0 { bitv(lanes(&it.load(off))) } else { vec![it.load_scalar(off).bits()] }; drop(it); r });
                    // a stride is a view: past its own end there may be more of the sequence
                    let view = k.arg > 1;
                    match r {
                        Ok(l) => if ok { same("loaded", &l[..], &m.s[off..off + need])? } else if !view { return Err(format!("loaded {:x?} from offset {} of {}", l, off, len)) },
                        Err(_) => if ok { return Err("refused a load within bounds".into()) },
                    }
                    if let Some(a) = &k.after { a(n, hi == 1)? }
                    Ok(off as u64)
                })
            }
        } }
    }
}
/// Storing through the checked functions.
fn stores<S, V>(c: &mut Ctx) where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let w = V::WIDTH;
    for &(op, which) in &[("store/slice", 0), ("store_scalar/slice", 1)] {
        let site = leak(format!("{}/{}", op, S::NAME));
        if !(c.mine() && c.want_site(site)) { continue }
        for n in lens(c, w) { for hi in 0..2u64 { for off in edges(n, w, std::mem::size_of::<S>()) {
            one(c, site, &[n as u64, hi, off as u64], || {
                let (s, _, _) = model::<S, V>(n, 0);
                let v: V = vec_tag(100, 1);
                let mut p = place(0, hi == 1, &s);
                let at = p.as_ptr();
                let need = if which == 0 { w } else { 1 };
                let ok = off as u128 + need as u128 <= n as u128;
                let r = lib(|| if which == 0 { SIMDArrayMut::store(&mut p, v, off) } else { SIMDArrayMut::store_scalar(&mut p, S::tag(100, 1), off) });
                if r.is_ok() != ok { return Err(format!("store at offset {} of {}: {:?}", off, n, r)) }
                if !buf(0).borrow().intact::<S>(n, hi == 1) { return Err("wrote outside the slice".into()) }
                let now = bitv(unsafe { std::slice::from_raw_parts(at, n) });
                let mut want = bitv(&s);
                if ok { for i in 0..need { want[off + i] = S::tag(100 + i, 1).bits() } }
                same("slice", now, want)?;
                Ok(off as u64)
            })
        } } }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum T { Next, End, Reduce, Collect, CollectAll, Fill0, FillW, FillAll0, Unroll, Len, Word }
const TERMS: &[T] = &[T::Next, T::End, T::Reduce, T::Collect, T::CollectAll, T::Fill0, T::FillW, T::FillAll0, T::Unroll, T::Len, T::Word];

/// A stream moved anywhere still delivers just what is left.
fn moves<I, S, V>(c: &mut Ctx, k: Kind<I>, set: Option<fn(&mut I, usize)>) where I: SIMDIterator<Scalar = S, Vector = V> + 'static, S: El + Packable, V: Packed<Scalar = S> {
    let w = V::WIDTH;
    let scale = k.arg.max(1);
    let th = c.thorough();
    for &t in TERMS {
        let site = leak(format!("moves-{:?}/{}{}/{}", t, k.name, if set.is_some() { "@field" } else { "" }, S::NAME));
        if !(c.mine() && c.want_site(site)) { continue }
        let mut ls: Vec<usize> = vec![0, 1, w - 1, w, w + 1, 2 * w, 3 * w + 1];
        if k.arg > 1 { ls = ls.iter().flat_map(|n| vec![n * k.arg, n * k.arg + k.arg - 1]).collect() }
        for n in ls {
            let mut e = edges((k.count)(n, k.arg), w, scale);
            if k.clamps { e.retain(|x| *x < 1 << 20) }
            if !th && w >= 16 { let cn = (k.count)(n, k.arg); e.retain(|x| *x > cn + w + 2 || *x < 2 || x % w < 2 || *x + 1 == cn || *x == cn || *x == cn + 1) }
            // a second movement on top of the first
            let again: Vec<usize> = if t == T::Reduce || t == T::Collect { vec![0, 1, w, MAX, MAX - w + 1, MAX / scale, MAX / 2 + 1] } else { vec![0] };
            for &a in &e { for &b in &again { for hi in 0..2u64 {
                if k.clamps && b > 1 << 20 { continue }
                if !th && b != 0 && (hi == 0 || k.arg > 4 && b < MAX / 16) { continue }
                one(c, site, &[n as u64, hi, a as u64, b as u64], || {
                    let (it, m) = (k.mk)(n, hi == 1, 0)?;
                    let mut m = m;
                    let sum = a as u128 + b as u128;
                    // overflow checks may refuse what cannot be represented
                    let may = sum.saturating_mul(scale.max(2) as u128) + (4 * w * scale) as u128 >= 1 << 64;
                    m.pos = sum.min(m.n() as u128) as usize;
                    let r = lib(move || {
                        let mut it = it;
                        match set { Some(f) => f(&mut it, a), None => it.advance(a) }
                        if b > 0 { it.advance(b) }
                        let mut out: Vec<Vec<u64>> = vec![];
                        match t {
                            T::Next => if let Some(v) = it.next() { out.push(vb(&v)) },
                            T::End => if let Some((v, n)) = it.end() { out.push(vb(&v)); out.push(vec![n as u64]) },
                            T::Reduce => out = it.simd_reduce(vec![], |mut a: Vec<Vec<u64>>, v| { a.push(vb(&v)); a }),
                            T::Collect => out.push(bitv(&it.scalar_collect())),
                            T::CollectAll => out.push(bitv(&it.scalar_collect_all())),
                            T::Fill0 | T::FillAll0 => {
                                let d = place::<S>(DST, true, &[]);
                                if t == T::Fill0 { it.scalar_fill(d); } else { it.scalar_fill_all(d); }
                            }
                            T::FillW => {
                                let d = place::<S>(DST, true, &vec![S::of(1); w]);
                                out.push(bitv(it.scalar_fill(d)));
                            }
                            T::Unroll => { for ch in it.unroll(2) { for v in ch { out.push(vb(v)) } } }
                            T::Len => out.push(vec![it.len() as u64, it.size_hint().0 as u64]),
                            // past the end, and once more
                            T::Word => { it.next(); it.advance(w); it.end(); it.advance(1); it.next(); it.end(); it.advance(a); it.finalize(); it.finalize(); while let Some(v) = it.next() { out.push(vb(&v)) } if let Some((v, _)) = it.end() { out.push(vb(&v)) } }
                        }
                        out
                    });
                    if !dst().borrow().intact::<S>(if t == T::FillW { w } else { 0 }, true) && (t == T::FillW || t == T::Fill0 || t == T::FillAll0) { return Err("wrote outside the destination".into()) }
                    if let Some(f) = &k.after { f(n, hi == 1)? }
                    let want: Vec<Vec<u64>> = match t {
                        T::Next => m.clone().next().into_iter().collect(),
                        T::End => m.clone().end().map(|(v, n)| vec![v, vec![n as u64]]).unwrap_or_default(),
                        T::Reduce => m.clone().all(),
                        T::Collect => vec![m.rest()],
                        T::CollectAll => vec![m.clone().all().concat()],
                        T::Fill0 | T::FillAll0 => if m.rem() > 0 { return if r.is_err() { Ok(1) } else { Err("filled an empty slice".into()) } } else { vec![] },
                        T::FillW => if m.rem() > w { return if r.is_err() { Ok(1) } else { Err("filled too short a slice".into()) } } else { let mut v = m.rest(); v.resize(w, S::of(1).bits()); vec![v] },
                        T::Unroll => { let mut m = m.clone(); let mut v = vec![]; while let Some(x) = m.next() { v.push(x) } v }
                        T::Len => vec![vec![(m.rem() / w) as u64; 2]],
                        T::Word => {
                            let n = m.n();
                            let adv = |m: &mut M, k: usize| m.pos = (m.pos as u128 + k as u128).min(n as u128) as usize;
                            let _ = m.next(); adv(&mut m, w); m.end(); adv(&mut m, 1); let _ = m.next(); m.end(); adv(&mut m, a); m.pos = n; m.all()
                        }
                    };
                    match r {
                        Ok(o) => same("delivered", o, want)?,
                        Err(_) if may => {}
                        Err(e) => return Err(format!("panicked: {}", e)),
                    }
                    Ok(a as u64)
                })
            } } }
        }
    }
}
/// The same for mapping in place.
fn for_each<S, V>(c: &mut Ctx, f: &From2<S, V>) where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let w = V::WIDTH;
    let site = leak(format!("moves-for_each/mut/{}", S::NAME));
    if !(c.mine() && c.want_site(site)) { return }
    let f = f.mu;
    for n in lens(c, w) { for a in edges(n, w, std::mem::size_of::<S>()) { for &b in &[0, 1, w, MAX, MAX - w + 1] { for hi in 0..2u64 { for field in 0..2u64 {
        if !c.thorough() && b != 0 && hi == 0 { continue }
        one(c, site, &[n as u64, hi, a as u64, b as u64, field], || {
            let (s, d, m) = model::<S, V>(n, 0);
            let p = place(0, hi == 1, &s);
            let at = p.as_ptr();
            let sum = a as u128 + b as u128;
            let pos = sum.min(n as u128) as usize;
            let r = lib(move || {
                let mut it = f(p, d);
                if field == 1 { it.position = a } else { it.advance(a) }
                if b > 0 { it.advance(b) }
                it.simd_for_each(|v| *v = flip(*v));
                it.simd_for_each(|v| *v = flip(*v));
            });
            if !buf(0).borrow().intact::<S>(n, hi == 1) { return Err("wrote outside the slice".into()) }
            let now = bitv(unsafe { std::slice::from_raw_parts(at, n) });
            let want: Vec<u64> = m.s.iter().enumerate().map(|(i, b)| if i >= pos && r.is_ok() { b ^ xmask::<S>() } else { *b }).collect();
            if let Err(e) = r { if sum + (4 * w) as u128 <= MAX as u128 { return Err(format!("panicked: {}", e)) } }
            same("slice", now, want)?;
            Ok(a as u64)
        })
    } } } } }
}
/// Scalars from anywhere, then vectors again.
fn unpacked<I, S, V>(c: &mut Ctx, k: Kind<I>) where I: SIMDIterator<Scalar = S, Vector = V> + SIMDArray + 'static, S: El + Packable, V: Packed<Scalar = S> {
    let w = V::WIDTH;
    let scale = k.arg.max(1);
    let site = leak(format!("moves-unpack/{}/{}", k.name, S::NAME));
    if !(c.mine() && c.want_site(site)) { return }
    for n in vec![0, 1, w, w + 1, 2 * w + 1].into_iter().flat_map(|n| if scale > 1 { vec![n * scale, n * scale + scale - 1] } else { vec![n] }) {
        for a in edges((k.count)(n, k.arg), w, scale) { for hi in 0..2u64 {
            one(c, site, &[n as u64, hi, a as u64], || {
                let (it, m) = (k.mk)(n, hi == 1, 0)?;
                let pos = a.min(m.n());
                let r = lib(move || {
                    let mut it = it;
                    it.advance(a);
                    let mut u = it.unpack();
                    let mut v = vec![];
                    while let Some(x) = u.next() { v.push(x.bits()); if v.len() > 1 << 16 { break } }
                    let mut p = u.pack();
                    (v, p.next().is_some() || p.end().is_some())
                });
                if let Some(f) = &k.after { f(n, hi == 1)? }
                match r {
                    Ok(r) => same("scalars, then vectors", r, (m.s[pos..].to_vec(), false))?,
                    Err(e) => if (a as u128).saturating_mul(scale.max(2) as u128) + (4 * w * scale) as u128 <= MAX as u128 { return Err(format!("panicked: {}", e)) },
                }
                Ok(a as u64)
            })
        } }
    }
}
/// Zips and pairs moved anywhere.
fn zipped<S, V, Z>(c: &mut Ctx, name: &str, per: usize, mk: fn(&'static &'static [S], V) -> Z) where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static, Z: SIMDZippedIterator<Vectors = (V, V)> {
    let w = V::WIDTH;
    for t in 0..4 {
        let site = leak(format!("zmoves-{}/{}/{}", ["next", "end", "reduce", "collect"][t], name, S::NAME));
        if !(c.mine() && c.want_site(site)) { continue }
        for n in vec![0, 1, w - 1, w, w + 1, 2 * w + 1].into_iter().flat_map(|n| if per > 1 { vec![n * per, n * per + per - 1] } else { vec![n] }) {
            let len = n / per;
            let th = c.thorough();
            for a in edges(len, w, per) { for &b in &[0, 1, MAX, MAX / 2 + 1] { for hi in 0..2u64 {
                if !th && (w >= 16 && a < len + w && a % w > 2 && a + 2 < len || b != 0 && hi == 0) { continue }
                one(c, site, &[n as u64, hi, a as u64, b as u64], || {
                    let (s, d, _) = model::<S, V>(n, 0);
                    let bx = Box::into_raw(Box::new(&*place(0, hi == 1, &s)));
                    let sum = a as u128 + b as u128;
                    let rem = len - sum.min(len as u128) as usize;
                    let r = lib(|| {
                        let mut z = mk(unsafe { &*bx }, d);
                        z.advance(a);
                        if b > 0 { z.advance(b) }
                        match t {
                            0 => z.next().is_some() as usize,
                            1 => z.end().is_some() as usize,
                            2 => z.simd_reduce(0, |k, _| k + 1),
                            _ => SIMDZippedIterator::simd_map(z, |(x, y)| { let _ = y; x }).scalar_collect().len(),
                        }
                    });
                    unsafe { drop(Box::from_raw(bx)) };
                    unchanged::<S>(0, n, hi == 1)?;
                    let want = match t { 0 => (rem >= w) as usize, 1 => (rem > 0) as usize, 2 => (rem + w - 1) / w, _ => rem };
                    match r {
                        Ok(k) => same("delivered", k, want)?,
                        Err(e) => if sum.saturating_mul(per.max(2) as u128) + (4 * w * per) as u128 <= MAX as u128 { return Err(format!("panicked: {}", e)) },
                    }
                    Ok(a as u64)
                })
            } } }
        }
    }
}
/// An iterator whose length is a lie, packed into vectors.
struct Liar<S> { left: usize, asked: std::cell::Cell<usize>, say: (usize, usize), x: std::marker::PhantomData<S> }
impl<S: El> Iterator for Liar<S> {
    type Item = S;
    fn next(&mut self) -> Option<S> { if self.left == 0 { None } else { self.left -= 1; Some(S::tag(self.left % 200, 0)) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.len(), Some(self.len())) }
}
impl<S: El> ExactSizeIterator for Liar<S> {
    fn len(&self) -> usize { let k = self.asked.get(); self.asked.set(k + 1); tick(); if k == 0 { self.say.0 } else { self.say.1 } }
}
fn liars<S, V>(c: &mut Ctx) where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let w = V::WIDTH;
    for t in 0..7u64 {
        let site = leak(format!("untrusted-length-{}/{}", ["next", "end", "collect", "collect_all", "fill", "fill_all", "map+collect"][t as usize], S::NAME));
        if !(c.mine() && c.want_site(site)) { continue }
        // (bytes cannot ask for too much to be refused: allocation fails and aborts)
        let big = if S::BITS == 8 { 7 } else { MAX / 2 + 1 };
        let says = [0, 1, w - 1, w, 2 * w, 3 * w + 1, MAX, MAX - w + 1, big];
        for &left in &[0, 1, w - 1, w, 2 * w + 1, 5 * w] { for &s0 in &says { for &s1 in &says {
            one(c, site, &[left as u64, s0 as u64, s1 as u64], || {
                let d: V = vec_tag(170, 0);
                let room = (left + 7) / 2;
                let r = lib(|| {
                    let mut it: SIMDAdapter<_, V> = SIMDAdapter { iter: Liar::<S> { left, asked: Default::default(), say: (s0, s1), x: Default::default() }, scratch: d, default: d, position: 0 };
                    let touch = |v: Vec<S>| { if v.len() > v.capacity() { return 1 << 60 } v.iter().fold(0u64, |a, x| a ^ x.bits()); v.len() };
                    match t {
                        0 => { let mut k = 0; while let Some(_) = it.next() { k += 1 } k }
                        1 => { let mut k = 0; for _ in 0..64 { if it.end().is_some() { k += 1 } } k }
                        2 => touch(it.scalar_collect()),
                        3 => touch(it.scalar_collect_all()),
                        4 => { let p = place::<S>(DST, true, &vec![S::of(1); room]); it.scalar_fill(p).len() }
                        5 => { let p = place::<S>(DST, true, &vec![S::of(1); room]); it.scalar_fill_all(p).len() }
                        _ => touch(it.simd_map(|v: V| flip(v)).scalar_collect()),
                    }
                });
                if (t == 4 || t == 5) && !dst().borrow().intact::<S>(room, true) { return Err("wrote outside the destination".into()) }
                if let Ok(k) = r { if k >= 1 << 60 { return Err("collected vector longer than its memory".into()) } if (t == 2 || t == 3 || t == 6) && k > left + w { return Err(format!("{} elements from {}", k, left)) } }
                Ok(left as u64)
            })
        } } }
    }
}
/// Maps to vectors of any other size: everything stays in its place.
fn resized<S, V, U>(c: &mut Ctx, f: &From2<S, V>, uname: &str) where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static, U: Packed + 'static, U::Scalar: El + Packable {
    let (w, u) = (V::WIDTH, U::WIDTH);
    let from = f.slice;
    for t in 0..5u64 {
        let site = leak(format!("resized-{}/{}->{}", ["collect", "collect_all", "fill", "fill_all", "map+collect"][t as usize], S::NAME, uname));
        if !(c.mine() && c.want_site(site)) { continue }
        for n in 0..=2 * w + 1 { for hi in 0..2u64 {
            one(c, site, &[n as u64, hi], || {
                let (s, d, _) = model::<S, V>(n, 0);
                let p: &'static [S] = place(0, hi == 1, &s);
                let out: U = vec_tag(3, 0);
                let room = (n * u + w - 1) / w;
                let r = lib(|| {
                    let mut it = from(p, d).simd_map(move |_| out);
                    let touch = |v: Vec<U::Scalar>| { v.iter().fold(0u64, |a, x| a ^ x.bits()); (v.len(), v.capacity()) };
                    match t {
                        0 => touch(it.scalar_collect()),
                        1 => touch(it.scalar_collect_all()),
                        2 => { let p = place::<U::Scalar>(DST, true, &vec![U::Scalar::of(1); room]); (it.scalar_fill(p).len(), 0) }
                        3 => { let p = place::<U::Scalar>(DST, true, &vec![U::Scalar::of(1); room]); (it.scalar_fill_all(p).len(), 0) }
                        _ => touch(it.simd_map(move |_| out).scalar_collect()),
                    }
                });
                unchanged::<S>(0, n, hi == 1)?;
                if (t == 2 || t == 3) && !dst().borrow().intact::<U::Scalar>(room, true) { return Err("wrote outside the destination".into()) }
                if t == 2 || t == 3 { return Ok(n as u64) }
                let (len, cap) = r?;
                if len > cap { return Err("collected vector longer than its memory".into()) }
                if len > (n + w - 1) / w * u { return Err(format!("{} elements from {} vectors of {}", len, (n + w - 1) / w, u)) }
                Ok(n as u64)
            })
        } }
    }
}
/// Lanes of vectors by index, and vectors made or merged at an offset.
fn vector<V>(c: &mut Ctx, name: &str) where V: Packed + Pattern + Merge + PartialEq, V::Scalar: El + Packable {
    let w = V::WIDTH;
    for t in 0..7u64 {
        let site = leak(format!("{}/{}", ["extract", "replace", "load", "store", "partition", "partition_mask", "merge_partitioned"][t as usize], name));
        if !(c.mine() && c.want_site(site)) { continue }
        let n = 2 * w;
        for idx in edges(n, w, std::mem::size_of::<V::Scalar>()) { for hi in 0..2u64 {
            one(c, site, &[idx as u64, hi], || {
                let v: V = vec_tag(0, 0);
                let o: V = vec_tag(100, 0);
                let s: Vec<V::Scalar> = (0..n).map(|i| V::Scalar::tag(i, 0)).collect();
                let p = place(0, hi == 1, &s);
                let at = p.as_ptr();
                let x = V::Scalar::tag(77, 0);
                let r = lane(|| match t {
                    0 => V::splat(v.extract(idx)),
                    1 => { let mut v = v; v.replace(idx, x) }
                    2 => V::load(p, idx),
                    3 => { v.store(p, idx); v }
                    4 => V::partition(x, x, idx),
                    5 => V::partition_mask(idx),
                    _ => v.merge_partitioned(o, idx),
                });
                let ok = match t { 0 | 1 => idx < w, 2 | 3 => idx <= n - w, _ => idx <= w };
                if r.is_ok() != ok { return Err(format!("{:?}", r)) }
                if !buf(0).borrow().intact::<V::Scalar>(n, hi == 1) { return Err("wrote outside the slice".into()) }
                if !(t == 3 && ok) { same("slice", bitv(unsafe { std::slice::from_raw_parts(at, n) }), bitv(&s))? }
                Ok(idx as u64)
            })
        } }
    }
}
fn main() {
    let mut c = Ctx::from_args();
    use faster::arch::current::vecs::*;
    macro_rules! ty { ($t:ident, $v:ident, $all:tt) => {{
        let f: From2<$t, $v> = mc::from2!();
        array(&mut c, k_slice(&f));
        array(&mut c, k_vec(&f));
        stores::<$t, $v>(&mut c);
        mc::when!($all {
            array(&mut c, k_mut(&f));
            array(&mut c, k_stride::<$t, $v>(2, 1));
            array(&mut c, k_stride::<$t, $v>(3, 2));
            array(&mut c, k_stride::<$t, $v>(9, 4));
            array(&mut c, k_nested::<$t, $v>(2, 3));
            moves(&mut c, k_slice(&f), None);
            moves(&mut c, k_slice(&f), Some(|i, a| i.position = a));
            moves(&mut c, k_vec(&f), None);
            moves(&mut c, k_map(&f), None);
            moves(&mut c, k_zipmap(&f), None);
            moves(&mut c, k_adapter::<$t, $v>(), None);
            moves(&mut c, k_stride::<$t, $v>(2, 1), None);
            moves(&mut c, k_stride::<$t, $v>(3, 2), None);
            moves(&mut c, k_stride::<$t, $v>(4, 3), None);
            moves(&mut c, k_stride::<$t, $v>(7, 6), None);
            moves(&mut c, k_stride::<$t, $v>(9, 8), None);
            moves(&mut c, k_nested::<$t, $v>(2, 3), None);
            for_each(&mut c, &f);
            unpacked(&mut c, k_slice(&f));
            unpacked(&mut c, k_vec(&f));
            unpacked(&mut c, k_stride::<$t, $v>(3, 2));
            zipped::<$t, $v, _>(&mut c, "slices", 1, |s, d| (s.simd_iter(d), s.simd_iter(d)).zip());
            zipped::<$t, $v, _>(&mut c, "strides", 3, |s, d| { let (a, _, b) = s.stride_three((d, d, d)); (a, b).zip() });
            liars::<$t, $v>(&mut c);
            resized::<$t, $v, u8x16>(&mut c, &f, "u8x16");
            resized::<$t, $v, u8x64>(&mut c, &f, "u8x64");
            resized::<$t, $v, f64x2>(&mut c, &f, "f64x2");
            resized::<$t, $v, i16x32>(&mut c, &f, "i16x32");
        });
    }} }
    ty!(u8, u8s, 1); ty!(i8, i8s, 0); ty!(u16, u16s, 0); ty!(i16, i16s, 0); ty!(u32, u32s, 0); ty!(i32, i32s, 0); ty!(f32, f32s, 1); ty!(u64, u64s, 1); ty!(i64, i64s, 0); ty!(f64, f64s, 0);
    zipped::<u8, u8s, _>(&mut c, "pairs", 2, |s, d| s.simd_iter(d).stride_zip());
    zipped::<i16, i16s, _>(&mut c, "pairs", 2, |s, d| s.simd_iter(d).stride_zip());
    zipped::<u32, u32s, _>(&mut c, "pairs", 2, |s, d| s.simd_iter(d).stride_zip());
    macro_rules! vt { ($t:ident, $v:ident) => { vector::<$v>(&mut c, stringify!($v)); } }
    mc::ints!(vt);
    mc::floats!(vt);
    c.finish()
}
