//! Lane operations: every lane state within the bounds, run on the real code
//! and compared with a scalar reference.
use crate::el::*;
use crate::rt::*;
use faster::vecs::Packed;

/// What a lane of the result must be.
#[derive(Clone, Copy, Debug)]
pub enum E { B(u64), Two(u64, u64), Nan, Any, Near(f64, f64) }
/// How lane states are made from the alphabet.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum G {
    /// every value in every lane
    Slide,
    /// every pair of values (first and second operand) in every lane
    Pairs,
    /// every pair of values in every pair of neighbouring lanes
    Neigh,
    /// one lane of one operand any value, all others one of four backgrounds
    OneHot,
    /// distinct lanes, two colourings
    Tags,
    /// any two lanes of the operands any two of a few values, all others one of two
    /// backgrounds (explored wherever OneHot is)
    TwoHot,
    /// every value of 32 bits, or every pair of values of 16 bits (thorough only)
    Every,
    /// blocks of 1, 2, 4, … lanes of two alternating values, in all operands alike or
    /// in every other one exchanged (explored for every operation)
    Runs,
}
pub const ALL2: &[G] = &[G::Tags, G::OneHot, G::Slide, G::Pairs];
pub const ALL1: &[G] = &[G::Tags, G::OneHot, G::Slide];

pub fn int<S: El>(b: u64) -> i128 {
    if S::SIGNED { (((b << (64 - S::BITS)) as i64) >> (64 - S::BITS)) as i128 } else { b as i128 }
}
pub fn mask<S: El>() -> u64 { if S::BITS == 64 { !0 } else { (1u64 << S::BITS) - 1 } }
pub fn wrap<S: El>(v: i128) -> u64 { v as u64 & mask::<S>() }
pub fn lo<S: El>() -> i128 { if S::SIGNED { -(1i128 << (S::BITS - 1)) } else { 0 } }
pub fn hi<S: El>() -> i128 { if S::SIGNED { (1i128 << (S::BITS - 1)) - 1 } else { (1i128 << S::BITS) - 1 } }
pub fn fits<S: El>(v: i128) -> bool { v >= lo::<S>() && v <= hi::<S>() }
pub fn sat<S: El>(v: i128) -> u64 { wrap::<S>(v.max(lo::<S>()).min(hi::<S>())) }
pub fn flt<S: El>(b: u64) -> f64 { if S::BITS == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) } }
pub fn fbits<S: El>(v: f64) -> u64 { if S::BITS == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() } }
pub fn fe<S: El>(v: f64) -> E { if v.is_nan() { E::Nan } else { E::B(fbits::<S>(v)) } }

fn dedup(v: Vec<u64>) -> Vec<u64> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|x| seen.insert(*x)).collect()
}
/// The values explored: every 8-bit value, boundary values of wider types.
pub fn alphabet<S: El>(wide: bool) -> Vec<u64> {
    let m = mask::<S>();
    if S::FLOAT {
        let mut v: Vec<f64> = vec![0.0, 1.0, 0.5, 0.25, 0.75, 1.5, 2.0, 2.5, 3.0, 3.5, 4.5, 0.1, 0.3, 0.7, 1.1, 9.0, 100.0, 127.0, 128.5, 255.0, 1000.25, 65535.5,
            8388607.0, 8388607.5, 8388608.0, 8388609.0, 16777215.0, 16777216.0, 4194303.5, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 9.223372036854775807e18, 1.8446744073709552e19,
            1e10, 1e-10, 1e30, 1e-30, 3.4028234663852886e38, std::f32::MIN_POSITIVE as f64, f64::INFINITY];
        if S::BITS == 64 { v.extend_from_slice(&[4503599627370495.5, 4503599627370496.0, 4503599627370497.0, 2251799813685247.5, 9007199254740991.0, 9007199254740992.0, 1e300, 1e-300, f64::MAX, f64::MIN_POSITIVE, 3.4028235677973366e38, 1.401298464324817e-45, 1e-46]) }
        if wide { for k in (-40..40).step_by(3) { v.push((2.0f64).powi(k)); v.push((2.0f64).powi(k) * 1.5) } }
        let mut b: Vec<u64> = vec![];
        for x in v {
            let p = fbits::<S>(x);
            b.push(p); b.push(p | 1 << (S::BITS - 1));
            if x.is_finite() && x > 0.0 {
                b.push(p - 1); b.push((p - 1) | 1 << (S::BITS - 1));
                if p + 1 < fbits::<S>(f64::INFINITY) { b.push(p + 1); b.push((p + 1) | 1 << (S::BITS - 1)) }
            }
        }
        let nan = if S::BITS == 32 { 0x7fc0_0000u64 } else { 0x7ff8_0000_0000_0000 };
        b.extend_from_slice(&[nan, nan | 1 << (S::BITS - 1), 1, 1 << (S::BITS - 1) | 1]);
        return dedup(b)
    }
    if S::BITS == 8 { return (0..256).collect() }
    if S::BITS == 16 && wide { return (0..65536).collect() }
    let mut v = vec![0, 1, m, 2, 3, m - 1];
    for k in 0..S::BITS {
        if !wide && S::BITS > 16 && ![1, 3, 7, 8, 15, 16, 23, 24, 30, 31, 32, 47, 52, 53, 62, 63].contains(&k) { continue }
        if !wide && S::BITS == 16 && ![4, 6, 7, 8, 9, 13, 14, 15].contains(&k) { continue }
        let p = 1u64 << k;
        v.extend_from_slice(&[p, (p - 1) & m, (p + 1) & m, !p & m, p.wrapping_neg() & m]);
    }
    v.extend_from_slice(&[0x5555_5555_5555_5555 & m, 0xaaaa_aaaa_aaaa_aaaa & m, 0x0123_4567_89ab_cdef & m, 0x7f80_ff00_8001_00ff & m, 0xdead_beef_f00d_cafe & m]);
    dedup(v)
}
/// Every value of up to 16 bits; of 32 bits every upper half with a few lower halves.
fn slides<S: El>() -> Vec<u64> {
    let mut v = alphabet::<S>(true);
    if S::BITS == 32 { v.extend((0..1u64 << 16).flat_map(|h| vec![h << 16, h << 16 | 1, h << 16 | 0x8000, h << 16 | 0xffff])) }
    if S::BITS == 64 { v.extend((0..1u64 << 16).flat_map(|h| vec![h << 48, h << 48 | 1, h << 48 | 0x8000_0000, h << 48 | 0xffff_ffff_ffff, h << 16 | 0x1234, 0xffff << 48 | h << 32 | 0x8000])) }
    dedup(v)
}
fn few<S: El>(th: bool) -> Vec<u64> {
    let m = mask::<S>();
    let mut v: Vec<u64> = if S::FLOAT {
        [0.0, -0.0, 1.0, -1.5, 0.5, 300.25, 16777216.0, -2147483648.0, std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY].iter().map(|x| fbits::<S>(*x)).collect()
    } else { vec![0, 1, m, m >> 1, (m >> 1) + 1, m - 1, 0x5555_5555_5555_5555 & m, 0x8012_7f0e_c03d_81a6 & m, 0x00ff_00ff_00ff_00ff & m, 0x7f & m] };
    if th { v.extend(alphabet::<S>(false)); v = dedup(v); if v.len() > 60 { v.truncate(60) } }
    dedup(v)
}
pub struct Alpha { pub slide: Vec<u64>, pub pairs: Vec<u64>, pub hot: Vec<u64>, pub runs: Vec<u64>, pub two: Vec<u64> }
pub fn alpha<S: El>(c: &Ctx) -> std::rc::Rc<Alpha> {
    thread_local! { static MADE: std::cell::RefCell<std::collections::HashMap<&'static str, std::rc::Rc<Alpha>>> = Default::default(); }
    MADE.with(|m| m.borrow_mut().entry(S::NAME).or_insert_with(|| std::rc::Rc::new(make::<S>(c))).clone())
}
fn make<S: El>(c: &Ctx) -> Alpha {
    let th = c.thorough();
    if stepping() { let v: Vec<u64> = alphabet::<S>(false).into_iter().skip(1).step_by(if th { 5 } else { 17 }).take(if th { 8 } else { 3 }).collect(); return Alpha { pairs: v[..2].to_vec(), hot: v[..2].to_vec(), runs: v[..2].to_vec(), two: vec![], slide: v } }
    Alpha {
        runs: few::<S>(th),
        slide: slides::<S>(),
        pairs: if S::BITS == 16 { let mut v = alphabet::<S>(false); v.extend((0..16).flat_map(|k| vec![1u64 << k, (1 << k) - 1, (1 << k) + 1, 0xffff ^ (1 << k)])); if th { v.extend((0..65536).step_by(61)) } dedup(v) } else { alphabet::<S>(true) },
        hot: alphabet::<S>(S::BITS > 16 && !S::FLOAT && th),
        two: few::<S>(false).into_iter().filter(|b| S::FLOAT || *b < 2 || *b > 0x7f).take(if th { 9 } else { 5 }).collect(),
    }
}
pub fn count<S: El>(a: &Alpha, g: G, k: usize, w: usize) -> usize {
    match g {
        G::Slide => a.slide.len(),
        G::Pairs => a.pairs.len() * a.pairs.len(),
        G::Neigh => a.hot.len() * a.hot.len(),
        G::OneHot => 4 * k * w * a.hot.len(),
        G::Tags => 2,
        G::TwoHot => 2 * twos(a, k * w) * twos(a, k * w) * (k * w * (k * w - 1) / 2),
        G::Every => (1 << 32) / w,
        G::Runs => 2 * a.runs.len() * a.runs.len() * blocks(w),
    }
}
fn twos(a: &Alpha, l: usize) -> usize { if l > 64 { a.two.len() / 2 + 1 } else { a.two.len() } }
fn blocks(w: usize) -> usize { (w as u64).trailing_zeros() as usize + 1 }
/// The lanes of all operands in state `idx`.
pub fn build<S: El>(a: &Alpha, g: G, k: usize, w: usize, idx: usize, ins: &mut Vec<Vec<u64>>) {
    for j in 0..k { ins[j].clear() }
    match g {
        G::Slide => { let n = a.slide.len(); for j in 0..k { for i in 0..w { ins[j].push(a.slide[(idx + i + 7 * j) % n]) } } }
        G::Pairs => {
            let n = a.pairs.len();
            let (s, d) = (idx % n, idx / n);
            for j in 0..k { for i in 0..w { ins[j].push(a.pairs[(s + i + d * j) % n]) } }
        }
        G::Neigh => {
            let n = a.hot.len();
            for j in 0..k { for i in 0..w {
                let p = (idx + i / 2 + 5 * j) % (n * n);
                ins[j].push(a.hot[if i & 1 == 0 { p / n } else { p % n }]);
            } }
        }
        G::OneHot => {
            let (v, r) = (idx % a.hot.len(), idx / a.hot.len());
            let (bg, r) = (r % 4, r / 4);
            let (hl, hj) = (r % w, r / w);
            for j in 0..k { for i in 0..w {
                ins[j].push(if j == hj && i == hl { a.hot[v] } else { match bg {
                    0 => 0,
                    1 => if S::FLOAT { S::tag(0, 1).bits() } else { mask::<S>() },
                    b => S::tag(i + w * j, b - 2).bits(),
                } });
            } }
        }
        G::TwoHot => {
            let n = twos(a, k * w);
            let (x, r) = (a.two[idx % n], idx / n);
            let (y, r) = (a.two[r % n], r / n);
            let (bg, mut r) = (r % 2, r / 2);
            // the r-th pair of lanes
            let mut p = 0;
            while r >= k * w - 1 - p { r -= k * w - 1 - p; p += 1 }
            let q = p + 1 + r;
            for j in 0..k { for i in 0..w {
                let l = i + w * j;
                ins[j].push(if l == p { x } else if l == q { y } else if bg == 0 { 0 } else { S::tag(l, 0).bits() });
            } }
        }
        G::Every => for i in 0..w {
            let v = (idx * w + i) as u64;
            if S::BITS == 16 { ins[0].push(v & 0xffff); ins[1].push(v >> 16) } else { ins[0].push(v) }
        },
        G::Runs => {
            let n = a.runs.len();
            let (x, r) = (a.runs[idx % n], idx / n);
            let (y, r) = (a.runs[r % n], r / n);
            let (b, swap) = (1 << r % blocks(w), r / blocks(w) == 1);
            for j in 0..k { for i in 0..w { ins[j].push(if (i / b & 1 == 1) != (swap && j & 1 == 1) { y } else { x }) } }
        }
        G::Tags => for j in 0..k { for i in 0..w { ins[j].push(S::tag(i + w * j, idx).bits()) } },
    }
}
pub fn sub<S: El>(name: &str) -> &'static str { Box::leak(name.to_string().into_boxed_str()) }

pub fn agree(e: &E, got: u64, bits: u32) -> bool {
    match *e {
        E::B(b) => b == got,
        E::Two(a, b) => a == got || b == got,
        E::Any => true,
        E::Nan => if bits == 32 { f32::from_bits(got as u32).is_nan() } else { f64::from_bits(got).is_nan() },
        E::Near(v, rel) => { let g = if bits == 32 { f32::from_bits(got as u32) as f64 } else { f64::from_bits(got) }; (g - v).abs() <= rel * v.abs() }
    }
}
/// Explore one operation of `k` operands. `f` pushes the bits of the result's
/// lanes (of `obits` each); `r` gives what they must be and whether a panic is
/// acceptable instead (overflow checks).
pub fn op<V, F, R>(c: &mut Ctx, name: &str, k: usize, gens: &[G], obits: u32, f: F, r: R)
where V: Packed, V::Scalar: El, F: Fn(&[V], &mut Vec<u64>), R: Fn(&[Vec<u64>]) -> (Vec<E>, bool) { op_dyn::<V>(c, name, k, gens, obits, &f, &r) }
#[inline(never)]
fn op_dyn<V>(c: &mut Ctx, name: &str, k: usize, gens: &[G], obits: u32, f: &dyn Fn(&[V], &mut Vec<u64>), r: &dyn Fn(&[Vec<u64>]) -> (Vec<E>, bool))
where V: Packed, V::Scalar: El {
    if !c.want_site(name) { return }
    let site = sub::<V::Scalar>(name);
    let a = alpha::<V::Scalar>(c);
    let w = V::WIDTH;
    let mut ins: Vec<Vec<u64>> = vec![vec![]; k];
    let mut vs: Vec<V> = vec![];
    let mut tmp: Vec<V::Scalar> = vec![];
    let mut out: Vec<u64> = Vec::with_capacity(256);
    let before = c.traces;
    let mut dig = 0u64;
    for (gi, g) in gens.iter().chain(if gens.contains(&G::OneHot) { &[G::Runs, G::TwoHot][..] } else { &[G::Runs][..] }).chain(if c.thorough() && !stepping() && (<V::Scalar as El>::BITS == 32 && k == 1 || <V::Scalar as El>::BITS == 16 && k == 2 && gens.contains(&G::Pairs)) { &[G::Every][..] } else { &[] }).enumerate() {
        let n = count::<V::Scalar>(&a, *g, k, w).min(if !stepping() { !0 } else if c.thorough() { 4 } else if *g == G::Runs || *g == G::TwoHot { 0 } else { 2 });
        for idx in 0..n {
            if c.only.is_none() && (idx + gi) % c.shards != c.shard { continue }
            if !c.want_case(|| format!("{} {}", gi, idx)) { continue }
            build::<V::Scalar>(&a, *g, k, w, idx, &mut ins);
            vs.clear();
            for x in &ins {
                tmp.clear();
                tmp.extend(x.iter().map(|b| V::Scalar::of(*b)));
                vs.push(vec_of(&tmp));
            }
            cur(site, &[gi as u64, idx as u64]);
            out.clear();
            let p = lane(|| f(&vs, &mut out));
            let (e, may_panic) = r(&ins);
            c.states += 1; c.transitions += 1; c.traces += 1;
            let case = || format!("{} {}", gi, idx);
            let text = || format!("operands {:x?}", ins);
            match p {
                Err(_) if may_panic => { c.outcome(1); continue }
                Err(_) => { c.fail(site, case, || format!("panicked; {}", text())); continue }
                Ok(()) => {}
            }
            if e.len() != out.len() { c.fail(site, case, || format!("{} lanes instead of {}; {}", out.len(), e.len(), text())); continue }
            if let Some(i) = (0..e.len()).find(|i| !agree(&e[*i], out[*i], obits)) {
                c.fail(site, case, || format!("lane {}: {:#x} instead of {:x?}; {}", i, out[i], e[i], text()));
            }
            let h = hash64(out.iter().cloned());
            dig ^= h.wrapping_mul(idx as u64 * 2 + 1);
            if (idx + gi) % 61 == 0 { c.outcome(h ^ dig) }
            if idx % 1009 == 5 { c.sample(|| format!("{} state {} {}: {:x?}", site, gi, idx, &out[..out.len().min(4)])) }
        }
    }
    let d = c.traces - before;
    c.site(site, d);
}
/// Push the lanes of a result.
#[inline(always)]
pub fn put<V: Packed>(o: &mut Vec<u64>, v: V) where V::Scalar: El { for x in lanes(&v) { o.push(x.bits()) } }

#[macro_export]
macro_rules! ints { ($m:ident) => {
    $m!(u8, u8x16); $m!(u8, u8x32); $m!(u8, u8x64); $m!(i8, i8x16); $m!(i8, i8x32); $m!(i8, i8x64);
    $m!(u16, u16x8); $m!(u16, u16x16); $m!(u16, u16x32); $m!(i16, i16x8); $m!(i16, i16x16); $m!(i16, i16x32);
    $m!(u32, u32x4); $m!(u32, u32x8); $m!(u32, u32x16); $m!(i32, i32x4); $m!(i32, i32x8); $m!(i32, i32x16);
    $m!(u64, u64x2); $m!(u64, u64x4); $m!(u64, u64x8); $m!(i64, i64x2); $m!(i64, i64x4); $m!(i64, i64x8);
} }
#[macro_export]
macro_rules! floats { ($m:ident) => {
    $m!(f32, f32x4); $m!(f32, f32x8); $m!(f32, f32x16); $m!(f64, f64x2); $m!(f64, f64x4); $m!(f64, f64x8);
} }
