//! Whole programs over vectors of the target's native width: what they deliver
//! must not depend on the target. Every word of operations within the bounds is
//! run at every length through every source and sink; the results are compared
//! between targets by check.py.
#![allow(unused_unsafe)]
use faster::*;
use faster::vecs::{Packable, Packed};
use mc::{el::*, lane::*, rt::*, stream::*};
/// Name, how many neighbouring elements it combines, operation.
type Un<V> = (&'static str, usize, fn(V) -> V);
type Bi<V> = (&'static str, usize, fn(V, V) -> V);
/// The elements of the programs' input: boundary values, no NaN, nothing half way between whole numbers.
fn data<S: El>(n: usize, color: usize) -> Vec<S> {
    let a: Vec<u64> = alphabet::<S>(false).into_iter().filter(|b| !S::FLOAT || { let v = flt::<S>(*b); !v.is_nan() && v.fract().abs() != 0.5 && v.abs() < 1e18 && (v == 0.0 || v.abs() > 1e-18) }).collect();
    (0..n).map(|i| S::of(a[(i * [7, 11, 5][color] + 13 * color + i / 3) % a.len()])).collect()
}
/// Not a number is one value, whatever its payload; the two zeros count as one.
fn canon<S: El>(b: u64) -> u64 {
    if S::FLOAT { let v = flt::<S>(b); if v.is_nan() { return !0 } if v == 0.0 { return 0 } }
    b
}
fn hashv<S: El>(s: &[S]) -> u64 { hash64(std::iter::once(s.len() as u64).chain(s.iter().map(|x| canon::<S>(x.bits())))) }
struct P<'a, S: El + Packable<Vector = V> + 'static, V: Packed<Scalar = S> + 'static> { un: &'a [Un<V>], bi: &'a [Bi<V>], from: From2<S, V>, zero: V, total: fn(V, V) -> i128, lens: Vec<usize> }
fn inc<V: Packed + std::ops::Add<Output = V>>(v: V) -> V where V::Scalar: El { v + V::splat(V::Scalar::tag_int(1)) }
fn st<S>(s: &[S]) -> &'static [S] { unsafe { std::slice::from_raw_parts(s.as_ptr(), s.len()) } }
fn words<V>(un: &[Un<V>], depth: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    let mut last = r.clone();
    for _ in 0..depth {
        let mut nx = vec![];
        for w in &last { for o in 0..un.len() { let mut x: Vec<usize> = w.clone(); x.push(o); nx.push(x) } }
        r.extend(nx.iter().cloned());
        last = nx;
    }
    r
}
fn go<S, V>(c: &mut Ctx, p: &P<S, V>)
where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static + Copy {
    let depth = if c.light { 2 } else { 3 };
    let sinks: &[&str] = &["slice.map.collect", "slice.map.map.collect", "vec.map.fill", "slice.advance.map.collect", "mut.for_each", "zip.map.collect", "zip.reduce", "zip.do_each", "stride_two.zip.map.collect", "stride_three.zip.map.collect", "stride(4).map.collect"];
    for sink in sinks {
        if !c.mine() { continue }
        let site: &'static str = Box::leak(format!("{}/{}", S::NAME, sink).into_boxed_str());
        if !c.want_site(site) { continue }
        run(c, p, site, sink, &words(p.un, depth));
    }
}
fn run<S, V>(c: &mut Ctx, p: &P<S, V>, site: &'static str, sink: &str, words: &[Vec<usize>])
where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static + Copy {
    let (before, th) = (c.traces, c.thorough());
    for n in &p.lens {
        let n = *n;
        let case = format!("n={}", n);
        if !c.want_case(|| case.clone()) { continue }
        let mut dig = 0u64;
        for color in 0..2usize {
            let (s0, t0) = (data::<S>(n, color), data::<S>(n, 2));
            let (s, t) = (st(&s0), st(&t0));
            let m0: Vec<S> = vec![S::of(if S::FLOAT { S::tag_int(1).bits() } else { mask::<S>() }); n];
            let m = st(&m0);
            for (wi, w) in words.iter().enumerate() {
                if color == 1 && w.len() > 1 && wi % 3 != n % 3 { continue }
                // the longest on lengths that are most different
                if w.len() > 2 && !th && (n > 40 || wi % 2 != n % 2) { continue }
                cur(site, &[n as u64, color as u64, wi as u64]);
                c.states += 1; c.transitions += w.len() as u64 + 1; c.traces += 1;
                let f = |v: V| { let mut v = v; for o in w { v = (p.un[*o].2)(v) } v };
                let b = p.bi[wi % p.bi.len()].2;
                // operations on neighbours only where they fall the same way into vectors of any width
                let from_pos = if sink == "slice.advance.map.collect" { wi % (n + 1) } else { 0 };
                let cnt = (n - from_pos) / match sink { "stride_two.zip.map.collect" => 2, "stride_three.zip.map.collect" => 3, "stride(4).map.collect" => 4, _ => 1 };
                let two = sink.contains("zip");
                if w.iter().any(|o| cnt % p.un[*o].1 != 0) || two && cnt % p.bi[wi % p.bi.len()].1 != 0 { continue }
                let d = p.zero;
                let from = p.from.slice;
                let r: Result<u64, String> = match sink {
                    "slice.map.collect" => lib(|| from(s, d).simd_map(|v| f(v)).scalar_collect()).map(|v| hashv(&v)),
                    "slice.map.map.collect" => {
                        let h = w.len() / 2;
                        lib(|| from(s, d).simd_map(|v| { let mut v = v; for o in &w[..h] { v = (p.un[*o].2)(v) } v }).simd_map(|v: V| { let mut v = v; for o in &w[h..] { v = (p.un[*o].2)(v) } v }).scalar_collect()).map(|v| hashv(&v))
                    }
                    "vec.map.fill" => { let mut o = t0.clone(); lib(|| { from(s, d).simd_map(|v| f(v)).scalar_fill(&mut o); }).map(|_| hashv(&o)) }
                    "slice.advance.map.collect" => lib(|| { let mut i = from(s, d); i.advance(from_pos); i.simd_map(|v| f(v)).scalar_collect() }).map(|v| hashv(&v)),
                    "mut.for_each" => { let mut o = s0.clone(); let om = unsafe { std::slice::from_raw_parts_mut(o.as_mut_ptr(), n) }; lib(move || (p.from.mu)(om, d).simd_for_each(|v| { let mut x = *v; for o in w { x = (p.un[*o].2)(x) } *v = x })).map(|_| hashv(&o)) }
                    "zip.map.collect" => lib(|| (from(s, d), from(t, d)).zip().simd_map(|(x, y)| f(b(x, y))).scalar_collect()).map(|v: Vec<S>| hashv(&v)),
                    // lanes that pad the last vector are masked out
                    "zip.reduce" => lib(|| (from(s, d), from(t, d), from(m, d)).zip().simd_reduce((0i128, 0u64, 0usize), |(a, h, k), (x, y, m)| {
                        let v = f(b(x, y));
                        let mut l = [S::default(); 64];
                        for i in 0..V::WIDTH { l[i] = v.extract(i) }
                        let mut h = h; let mut k = k;
                        for i in 0..V::WIDTH { if m.extract(i).bits() != 0 { h = hash64([h, canon::<S>(l[i].bits())].iter().cloned()); k += 1 } }
                        (a + (p.total)(v, m), h, k)
                    })).map(|(a, h, k)| hash64([a as u64, (a >> 64) as u64, h, k as u64].iter().cloned())),
                    "zip.do_each" => lib(|| {
                        let (mut h, mut a) = (0u64, 0u64);
                        (from(s, d), from(t, d), from(m, d)).zip().simd_do_each(|(x, y, m)| {
                            let v = f(b(x, y));
                            let mut i = 0;
                            a = a.wrapping_add(v.scalar_reduce(0u64, |acc, l: S| { i += 1; if m.extract(i - 1).bits() != 0 { h = hash64([h, canon::<S>(l.bits())].iter().cloned()); acc.wrapping_add(canon::<S>(l.bits())) } else { acc } }));
                        });
                        hash64([h, a].iter().cloned())
                    }),
                    "stride_two.zip.map.collect" => lib(|| from(s, d).stride_two(tuplify!(2, d)).zip().simd_map(|(x, y)| f(b(x, y))).scalar_collect()).map(|v: Vec<S>| hashv(&v)),
                    "stride_three.zip.map.collect" => lib(|| from(s, d).stride_three(tuplify!(3, d)).zip().simd_map(|(x, y, z)| b(f(b(x, y)), z)).scalar_collect()).map(|v: Vec<S>| hashv(&v)),
                    "stride(4).map.collect" => lib(|| from(s, d).stride(4, &[d; 4][..]).into_iter().map(|i| i.simd_map(|v| f(v)).scalar_collect()).collect::<Vec<Vec<S>>>()).map(|v| hash64(v.iter().map(|x| hashv(x)))),
                    _ => unreachable!(),
                };
                match r {
                    Ok(h) => {
                        dig = hash64([dig, h].iter().cloned());
                        if wi % 31 == 1 { c.outcome(h) }
                        if c.only.is_some() {
                            let names: Vec<&str> = w.iter().map(|o| p.un[*o].0).collect();
                            c.digests.push((format!("{}|{}|{} {} {}", site, case, color, p.bi[wi % p.bi.len()].0, names.join(",")), h))
                        }
                    }
                    Err(e) => { c.fail(site, || case.clone(), || format!("word {:?} on {}: panicked: {}", w.iter().map(|o| p.un[*o].0).collect::<Vec<_>>(), V::WIDTH, e)); break }
                }
            }
        }
        if c.only.is_none() { c.digests.push((format!("{}|{}", site, case), dig)) }
        if n == 33 { c.sample(|| format!("{} {}: {} words, digest {:016x}", site, case, words.len(), dig)) }
    }
    let d = c.traces - before;
    c.site(site, d);
}
/// Pairs of neighbours.
fn pairs<S, V>(c: &mut Ctx, p: &P<S, V>)
where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static + Copy + intrin::destride::Destride {
    if !c.mine() { return }
    let site: &'static str = Box::leak(format!("{}/stride_zip.map.collect", S::NAME).into_boxed_str());
    if !c.want_site(site) { return }
    let before = c.traces;
    let ws = words(p.un, 1);
    for n in 0..=150usize {
        let case = format!("n={}", n);
        if !c.want_case(|| case.clone()) { continue }
        let mut dig = 0u64;
        for color in 0..2usize { for base in 0..=5usize {
            let s0 = data::<S>(n, color);
            let s = st(&s0);
            for (wi, w) in ws.iter().enumerate() { for (bi, b) in p.bi.iter().enumerate() {
                if (wi + bi) % 3 != base % 3 { continue }
                let cnt = (n - base.min(n)) / 2;
                if w.iter().any(|o| cnt % p.un[*o].1 != 0) || cnt % b.1 != 0 { continue }
                cur(site, &[n as u64, color as u64, base as u64, wi as u64, bi as u64]);
                c.states += 1; c.transitions += w.len() as u64 + 2; c.traces += 1;
                let r = lib(|| { let mut i = (p.from.slice)(s, p.zero); i.advance(base.min(n)); i.stride_zip().simd_map(|(x, y)| { let mut v = (b.2)(x, y); for o in w { v = (p.un[*o].2)(v) } v }).scalar_collect() });
                match r {
                    Ok(v) => {
                        let v: Vec<S> = v;
                        let h = hashv(&v);
                        dig = hash64([dig, h].iter().cloned());
                        if c.only.is_some() { c.digests.push((format!("{}|{}|{} {} {} {:?}", site, case, color, base, b.0, w), h)) }
                    }
                    Err(e) => { c.fail(site, || case.clone(), || format!("base {}: panicked: {}", base, e)); break }
                }
            } }
        } }
        if c.only.is_none() { c.digests.push((format!("{}|{}", site, case), dig)) }
    }
    let d = c.traces - before;
    c.site(site, d);
}
fn main() {
    let mut c = Ctx::from_args();
    let lens: Vec<usize> = if c.light { (0..=70).step_by(3).collect() } else if c.thorough() { (0..=200).collect() } else { (0..=131).collect() };
    use faster::arch::current::vecs::*;
    use faster::Eq as VEq;
    macro_rules! ints { ($($t:ident $v:ident $bv:ident [$($more:expr),*] $tot:expr;)*) => {$({
        let mut un: Vec<Un<$v>> = vec![
            ("+7", 1, |v| v + $v(7)), ("*3", 1, |v| v * $v(3)), ("-x", 1, |v| $v(0) - v), ("not", 1, |v| !v), ("^55", 1, |v| v ^ $v(0x55)), (">>3", 1, |v| v >> $v(3)), ("<<1", 1, |v| v << $v(1)),
            ("swap", 1, |v| Reendianize::swap_bytes(&v)), ("to_be", 1, |v| Reendianize::to_be(&v)), ("from_le", 1, |v| Reendianize::from_le(&v)),
            ("eq1", 1, |v| Transmute::$bv(&VEq::eq_mask(&v, $v(1))) & v), ("ne0", 1, |v| Transmute::$bv(&VEq::ne_mask(&v, $v(0))) ^ v),
            ("be8", 1, |v| { let b = Transmute::be_u8s(&v); Transmute::$bv(&inc(b)) }),
            ("be16", (16 / $t::BITS as usize).max(1), |v| { let b = Transmute::be_i16s(&v); Transmute::$bv(&inc(b)) }),
            ("be32", (32 / $t::BITS as usize).max(1), |v| { let b = Transmute::be_u32s(&v); Transmute::$bv(&inc(b)) }),
            ("be64", (64 / $t::BITS as usize).max(1), |v| { let b = Transmute::be_i64s(&v); Transmute::$bv(&inc(b)) }),
            ("hadd1", 2, |v| HAdd::hadd(&v, v)), ("hsub1", 2, |v| HSub::hsub(&v, v)), ("shadd1", 2, |v| SaturatingHAdd::saturating_hadd(&v, v)), ("shsub1", 2, |v| SaturatingHSub::saturating_hsub(&v, v)),
        ];
        let mut bi: Vec<Bi<$v>> = vec![("+", 1, |a, b| a + b), ("^", 1, |a, b| a ^ b), ("interleave", 2, |a, b| Merge::merge_interleaved(&a, b)), ("-", 1, |a, b| a - b), ("eq", 1, |a, b| Transmute::$bv(&VEq::eq_mask(&a, b)) | a),
            ("hadd", 2, |a, b| HAdd::hadd(&a, b)), ("hsub", 2, |a, b| HSub::hsub(&a, b)), ("shadd", 2, |a, b| SaturatingHAdd::saturating_hadd(&a, b)), ("shsub", 2, |a, b| SaturatingHSub::saturating_hsub(&a, b)),
            ("part", 1, |a, _| a & $v::partition_mask($v::WIDTH) | a)];
        $({ let m: (Vec<Un<$v>>, Vec<Bi<$v>>) = $more; un.extend(m.0); bi.extend(m.1); })*
        let p = P { un: &un, bi: &bi, from: mc::from2!(), zero: $v(0), total: $tot, lens: lens.clone() };
        go::<$t, $v>(&mut c, &p);
        ints!(@pairs $t $v p);
    })*}; (@pairs u64 $v:ident $p:ident) => {}; (@pairs i64 $v:ident $p:ident) => {}; (@pairs $t:ident $v:ident $p:ident) => { pairs::<$t, $v>(&mut c, &$p) } }
    // operations that not every type has
    macro_rules! cm { ($v:ident, $t:ident) => {{ let r: (Vec<Un<$v>>, Vec<Bi<$v>>) = (
        vec![("min9", 1, |v| Cmp::min(&v, $v(9 as $t))), ("max", 1, |v| Cmp::max(&v, $v(77 as $t)))],
        vec![("min", 1, |a, b| Cmp::min(&a, b)), ("max", 1, |a, b| Cmp::max(&a, b))]); r }} }
    macro_rules! sa { ($v:ident) => {{ let r: (Vec<Un<$v>>, Vec<Bi<$v>>) = (
        vec![("sat+", 1, |v| SaturatingAdd::saturating_add(&v, $v(100))), ("sat-", 1, |v| SaturatingSub::saturating_sub(&v, $v(100)))],
        vec![("sat+", 1, |a, b| SaturatingAdd::saturating_add(&a, b)), ("sat-", 1, |a, b| SaturatingSub::saturating_sub(&a, b))]); r }} }
    // widen, work, narrow again
    macro_rules! wi { ($v:ident, $w:ident, $k:expr) => {{ let r: (Vec<Un<$v>>, Vec<Bi<$v>>) = (
        vec![("wide+", 1, |v| { let (a, b): ($w, $w) = Upcast::<$w>::upcast(v); Downcast::<$v>::saturating_downcast(a + $w($k), b + $w($k)) }), ("wide*", 1, |v| { let (a, b): ($w, $w) = Upcast::<$w>::upcast(v); Downcast::<$v>::saturating_downcast(a * $w(3 as _), b * $w(3 as _)) })],
        vec![]); r }} }
    macro_rules! ab { ($v:ident $bv:ident) => {{ let r: (Vec<Un<$v>>, Vec<Bi<$v>>) = (vec![("abs", 1, |v| Transmute::$bv(&Abs::abs(&v)))], vec![]); r }} }
    ints! {
        u8 u8s be_u8s [cm!(u8s, u8), sa!(u8s), wi!(u8s, u16s, 90)] |v, m| UpcastSum::sum_upcast(&(v & m)) as i128 + ((Popcnt::count_ones(&(v & m)) as i128) << 64);
        i8 i8s be_i8s [cm!(i8s, i8), sa!(i8s), wi!(i8s, i16s, 90), ab!(i8s be_i8s)] |v, m| UpcastSum::sum_upcast(&(v & m)) as i128 + ((Popcnt::count_ones(&(v & m)) as i128) << 64);
        u16 u16s be_u16s [cm!(u16s, u16), sa!(u16s), wi!(u16s, u32s, 60000)] |v, m| UpcastSum::sum_upcast(&(v & m)) as i128 + ((Popcnt::count_ones(&(v & m)) as i128) << 64);
        i16 i16s be_i16s [cm!(i16s, i16), sa!(i16s), wi!(i16s, i32s, 60000), ab!(i16s be_i16s)] |v, m| UpcastSum::sum_upcast(&(v & m)) as i128 + ((Popcnt::count_ones(&(v & m)) as i128) << 64);
        u32 u32s be_u32s [cm!(u32s, u32), wi!(u32s, u64s, 4000000000)] |v, m| UpcastSum::sum_upcast(&(v & m)) as i128 + ((Popcnt::count_ones(&(v & m)) as i128) << 64);
        i32 i32s be_i32s [cm!(i32s, i32), wi!(i32s, i64s, 4000000000), ab!(i32s be_i32s)] |v, m| UpcastSum::sum_upcast(&(v & m)) as i128 + ((Popcnt::count_ones(&(v & m)) as i128) << 64);
        u64 u64s be_u64s [] |v, m| Popcnt::count_ones(&(v & m)) as i128;
        i64 i64s be_i64s [ab!(i64s be_i64s)] |v, m| Popcnt::count_ones(&(v & m)) as i128;
    }
    macro_rules! floats { ($($t:ident $v:ident $bv:ident [$($more:expr),*];)*) => {$({
        use faster::intrin::sqrt::Sqrt as VSqrt;
        let mut un: Vec<Un<$v>> = vec![
            ("+7", 1, |v| v + $v(7.0)), ("*3", 1, |v| v * $v(3.0)), ("-x", 1, |v| $v(0.0) - v), ("/2", 1, |v| v / $v(2.0)),
            ("floor", 1, |v| Round::floor(&v)), ("ceil", 1, |v| Round::ceil(&v)), ("trunc", 1, |v| Round::trunc(&v)), ("sqrt", 1, |v| VSqrt::sqrt(&Abs::abs(&v))), ("abs", 1, |v| Abs::abs(&v)),
            ("min9", 1, |v| Cmp::min(&v, $v(9.0))), ("max", 1, |v| Cmp::max(&v, $v(77.0))),
            ("eq1", 1, |v| { let b = Transmute::be_u8s(&VEq::eq_mask(&v, $v(1.0))); unsafe { Transmute::$bv(&(b & Transmute::be_u8s(&v))) } }),
            ("be16", 1, |v| { let b = Transmute::be_i16s(&v); unsafe { Transmute::$bv(&(b >> i16s(1) << i16s(1))) } }),
        ];
        let mut bi: Vec<Bi<$v>> = vec![("+", 1, |a, b| a + b), ("-", 1, |a, b| a - b), ("interleave", 2, |a, b| Merge::merge_interleaved(&a, b)), ("min", 1, |a, b| Cmp::min(&a, b)), ("max", 1, |a, b| Cmp::max(&a, b)),
            ("hadd", 2, |a, b| HAdd::hadd(&a, b)), ("hsub", 2, |a, b| HSub::hsub(&a, b))];
        $({ let m: (Vec<Un<$v>>, Vec<Bi<$v>>) = $more; un.extend(m.0); bi.extend(m.1); })*
        let p = P { un: &un, bi: &bi, from: mc::from2!(), zero: $v(0.0), total: |_, _| 0, lens: lens.clone() };
        go::<$t, $v>(&mut c, &p);
    })*} }
    floats! { f32 f32s be_f32s_unchecked [wi!(f32s, f64s, 0.1)]; f64 f64s be_f64s_unchecked []; }
    c.finish()
}
