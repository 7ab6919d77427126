//! Maps whose vectors are wider or narrower in elements than their source.
#![allow(unused_unsafe)]
use faster::*;
use faster::vecs::{Packable, Packed};
use mc::{el::*, rt::*, stream::*};
/// Reinterpret the vectors of a stream of S as vectors of T.
fn run<S, V, T, U>(c: &mut Ctx, name: &str, back: bool, f: &From2<S, V>, be: fn(V) -> U, eb: fn(U) -> V)
where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static, T: El + Packable<Vector = U>, U: Packed<Scalar = T> + 'static {
    if !c.mine() { return }
    let site: &'static str = Box::leak(format!("{}/{}", name, if back { "there+back" } else { "there" }).into_boxed_str());
    if !c.want_site(site) { return }
    let w = V::WIDTH;
    let top = if c.thorough() { 6 * w + 5 } else { 3 * w + 3 };
    let before = c.traces;
    let from = f.slice;
    for n in 0..=top { for hi in 0..2usize { for mode in 0..3usize {
        // what part of an element is worth is not specified
        if n * S::BITS as usize % T::BITS as usize != 0 { continue }
        let case = || format!("n={} hi={} mode={}", n, hi, mode);
        if !c.want_case(case) { continue }
        cur(site, &[n as u64, hi as u64, mode as u64]);
        c.states += 1; c.transitions += 1; c.traces += 1;
        let r = (|| -> Result<u64, String> {
            let (s, d, _) = model::<S, V>(n, hi);
            let bytes: Vec<u8> = s.iter().flat_map(|x| { let b = x.bits(); (0..S::BITS / 8).map(move |k| (b >> (8 * k)) as u8) }).collect();
            let src: &'static [S] = place(0, hi == 1, &s);
            let calls = std::cell::RefCell::new(vec![]);
            let k = &calls;
            let got: Vec<u8> = if back {
                let out = match mode {
                    0 => bitv(&lib(|| from(src, d).simd_map(|v| { k.borrow_mut().push(v); be(v) }).simd_map(eb).scalar_collect())?),
                    1 => bitv(&lib(|| from(src, d).simd_map(be).simd_map(|v| eb(v)).simd_map(|v| { k.borrow_mut().push(v); flip(flip(v)) }).scalar_collect())?),
                    _ => {
                        let b: Vec<S> = vec![S::of(0x5a); n];
                        let o = place(DST, true, &b);
                        let p = o.as_ptr();
                        lib(|| { from(src, d).simd_map(|v| { k.borrow_mut().push(v); be(v) }).simd_map(eb).scalar_fill(o); })?;
                        if !dst().borrow().intact::<S>(n, true) { return Err("wrote outside the destination".into()) }
                        bitv(unsafe { std::slice::from_raw_parts(p, n) })
                    }
                };
                out.iter().flat_map(|b| (0..S::BITS / 8).map(move |k| (b >> (8 * k)) as u8)).collect()
            } else {
                let m = n * S::BITS as usize / T::BITS as usize;
                let out = match mode {
                    0 => bitv(&lib(|| from(src, d).simd_map(|v| { k.borrow_mut().push(v); be(v) }).scalar_collect())?),
                    1 => bitv(&lib(|| from(src, d).simd_map(|v| { k.borrow_mut().push(v); flip(v) }).simd_map(|v| be(flip(v))).scalar_collect())?),
                    _ => {
                        let b: Vec<T> = vec![T::of(0x5a); m];
                        let o = place(DST, true, &b);
                        let p = o.as_ptr();
                        lib(|| { from(src, d).simd_map(|v| { k.borrow_mut().push(v); be(v) }).scalar_fill(o); })?;
                        if !dst().borrow().intact::<T>(m, true) { return Err("wrote outside the destination".into()) }
                        bitv(unsafe { std::slice::from_raw_parts(p, m) })
                    }
                };
                out.iter().flat_map(|b| (0..T::BITS / 8).map(move |k| (b >> (8 * k)) as u8)).collect()
            };
            same("bytes", &got[..], &bytes[..])?;
            same("closure calls", calls.borrow().len(), (n + w - 1) / w)?;
            unchanged::<S>(0, n, hi == 1)?;
            Ok(hash64(got.iter().map(|b| *b as u64)))
        })();
        match r {
            Ok(h) => { c.outcome(h); if n % 5 == 3 { c.sample(|| format!("{} {}: ok", site, case())) } }
            Err(e) => c.fail(site, case, || e),
        }
    } } }
    let k = c.traces - before;
    c.site(site, k);
}
/// Maps to vectors of any other size: lane j of a result comes from the lane of
/// the source at the same relative place.
fn resize<S, V, U>(c: &mut Ctx, name: &str, f: &From2<S, V>)
where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static, U: Packed + 'static, U::Scalar: El + Packable {
    if !c.mine() { return }
    let site: &'static str = Box::leak(format!("resize/{}", name).into_boxed_str());
    if !c.want_site(site) { return }
    let (w, wu) = (V::WIDTH, U::WIDTH);
    let top = if c.thorough() { 5 * w + 3 } else { 2 * w + 3 };
    let before = c.traces;
    // distinct small numbers, exact in every type
    let val = |b: u64, j: usize| -> U::Scalar { U::Scalar::tag(((b & 0x3f) as usize * 3 + j % (wu / w).max(1)) % 250, 0) };
    let small = |i: usize, k: usize| -> S { S::tag((i * 5 + 7 * k) % 120, 0) };
    let conv = |v: &V| -> U { let l = lanes(v); let o: Vec<U::Scalar> = (0..wu).map(|j| val(l[j * w / wu].bits().wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 57, j)).collect(); vec_of(&o) };
    let zipc = |a: &V, b: &V| -> U { let (x, y) = (conv(a), conv(b)); let o: Vec<U::Scalar> = (0..wu).map(|j| if j % 2 == 0 { lanes(&x)[j] } else { lanes(&y)[j] }).collect(); vec_of(&o) };
    for n in 0..=top { for mode in 0..5usize { for start in 0..2usize {
        let start = start * (n % (w + 3));
        let r = n - start;
        if r * wu % w != 0 { continue }
        // which lane of a pair is taken depends on the grouping
        if mode == 4 && (wu < 2 || r % w * wu / w % 2 != 0) { continue }
        let case = || format!("n={} mode={} start={}", n, mode, start);
        if !c.want_case(case) { continue }
        cur(site, &[n as u64, mode as u64, start as u64]);
        c.states += 1; c.transitions += 1; c.traces += 1;
        let (s, t): (Vec<S>, Vec<S>) = ((0..n).map(|i| small(i, 0)).collect(), (0..n).map(|i| small(i, 1)).collect());
        let h = |x: S| x.bits().wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 57;
        let m = r * wu / w;
        let want: Vec<u64> = (0..m).map(|k| {
            // lane of the result within its vector; a remainder sits at the end
            let j = if k < r / w * wu { k % wu } else { wu - (m - k) };
            let i = start + k * w / wu;
            val(h(if mode == 4 && j % 2 == 1 { t[i] } else { s[i] }), j).bits()
        }).collect();
        let (a, b): (&'static [S], &'static [S]) = (place(0, true, &s), place(1, true, &t));
        let d: V = vec_tag(121, 0);
        let from = |x: &'static [S]| { let mut i = (f.slice)(x, d); i.advance(start); i };
        let got: Result<Vec<u64>, String> = match mode {
            0 => lib(|| from(a).simd_map(|v| conv(&v)).scalar_collect()).map(|v: Vec<U::Scalar>| bitv(&v)),
            1 => {
                let fill: Vec<U::Scalar> = vec![U::Scalar::of(0x5a); m];
                let o = place(DST, true, &fill);
                let p = o.as_ptr();
                lib(|| { from(a).simd_map(|v| conv(&v)).scalar_fill(o); }).map(|_| bitv(unsafe { std::slice::from_raw_parts(p, m) }))
            }
            2 => lib(|| { let mut g = vec![]; let mut it = from(a).simd_map(|v| conv(&v)); while let Some(v) = it.next() { g.extend(bitv(lanes(&v))) } if let Some((v, e)) = it.end() { g.extend(bitv(&lanes(&v)[e..])) } g }),
            3 => lib(|| (from(a), from(b)).zip().simd_map(|(v, _)| conv(&v)).scalar_collect()).map(|v: Vec<U::Scalar>| bitv(&v)),
            _ => lib(|| (from(a), from(b)).zip().simd_map(|(x, y)| zipc(&x, &y)).scalar_collect()).map(|v: Vec<U::Scalar>| bitv(&v)),
        };
        let r = got.and_then(|g| { same("elements", &g, &want)?; if bitv(a) != bitv(&s) || bitv(b) != bitv(&t) { return Err("the source was modified".into()) } if mode == 1 && !dst().borrow().intact::<U::Scalar>(m, true) { return Err("wrote outside the destination".into()) } Ok(hash64(g.into_iter())) });
        match r { Ok(h) => { c.outcome(h); if n == w + 1 { c.sample(|| format!("{} {}: ok", site, case())) } } Err(e) => c.fail(site, case, || e) }
    } } }
    let k = c.traces - before;
    c.site(site, k);
}
fn main() {
    let mut c = Ctx::from_args();
    macro_rules! one { ($s:ident $sv:ident $t:ident $tv:ident $be:ident $eb:ident) => {{
        let f: From2<$s, $sv> = mc::from2!();
        run::<$s, $sv, $t, $tv>(&mut c, concat!(stringify!($s), "->", stringify!($t)), false, &f, |v| unsafe { v.$be() }, |v| unsafe { v.$eb() });
        run::<$s, $sv, $t, $tv>(&mut c, concat!(stringify!($s), "->", stringify!($t)), true, &f, |v| unsafe { v.$be() }, |v| unsafe { v.$eb() });
    }} }
    one!(i64 i64s u32 u32s be_u32s be_i64s); one!(i64 i64s u16 u16s be_u16s be_i64s); one!(i64 i64s u8 u8s be_u8s be_i64s);
    one!(u64 u64s i8 i8s be_i8s be_u64s); one!(u64 u64s f32 f32s be_f32s_unchecked be_u64s); one!(f64 f64s u16 u16s be_u16s be_f64s_unchecked);
    one!(u32 u32s u16 u16s be_u16s be_u32s); one!(i32 i32s i8 i8s be_i8s be_i32s); one!(f32 f32s u8 u8s be_u8s be_f32s_unchecked);
    one!(u16 u16s u8 u8s be_u8s be_u16s); one!(i16 i16s i8 i8s be_i8s be_i16s);
    one!(u8 u8s u16 u16s be_u16s be_u8s); one!(u8 u8s u64 u64s be_u64s be_u8s); one!(u16 u16s u32 u32s be_u32s be_u16s); one!(u32 u32s i64 i64s be_i64s be_u32s);
    one!(i8 i8s i32 i32s be_i32s be_i8s); one!(i32 i32s f64 f64s be_f64s_unchecked be_i32s);
    one!(u8 u8s i8 i8s be_i8s be_u8s); one!(f32 f32s u32 u32s be_u32s be_f32s_unchecked);
    use faster::arch::current::vecs::*;
    macro_rules! rs { ($($s:ident $v:ident: $($u:ident)*;)*) => {$({ let f: From2<$s, $v> = mc::from2!(); $( resize::<$s, $v, $u>(&mut c, concat!(stringify!($s), "->", stringify!($u)), &f); )* })*} }
    rs! {
        u8 u8s: u8x16 u8x32 u8x64 i16x8 i16x16 u16x32 i32x4 u32x16 f32x8 f32x16 u64x4 f64x8;
        i16 i16s: u8x16 i8x32 u8x64 i16x8 u16x16 i16x32 f32x4 i32x8 u32x16 u64x2 i64x8 f64x4;
        u32 u32s: u8x16 u8x32 i8x64 u16x8 i16x16 i16x32 u32x4 f32x8 i32x16 f64x2 u64x4 f64x8;
        f32 f32s: u8x16 i8x64 i16x8 u16x16 f32x4 i32x8 f32x16 u64x2 f64x4 f64x8;
        f64 f64s: u8x16 u8x64 i16x16 f32x4 f32x8 u32x16 f64x2 i64x4 u64x8;
        i64 i64s: i8x32 u16x8 i32x4 i64x2 f64x4 i64x8;
    }
    c.finish()
}
