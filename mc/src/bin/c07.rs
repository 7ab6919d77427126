//! Zipping streams that do not match: every tuple of lengths and widths up to a
//! bound; only equal lengths and equal widths may be zipped.
use faster::*;
use mc::{el::*, rt::*, stream::*};
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    // lens: one per component; `fits`: may it be zipped?
    fn judge<R>(c: &mut Ctx, site: &'static str, lens: &[usize], fits: bool, f: impl FnOnce() -> R) {
        let case = || lens.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(",");
        if !c.want_case(case) { return }
        let l: Vec<u64> = lens.iter().map(|x| *x as u64).collect();
        cur(site, &l);
        let r = lib(f);
        c.states += 1; c.transitions += 1; c.traces += 1;
        c.outcome(hash64(l.iter().cloned().chain(Some(fits as u64))));
        if c.traces % 50 == 1 { c.sample(|| format!("{} lengths {}: {}", site, case(), if fits { "zipped" } else { "refused" })) }
        match (r.is_ok(), fits) {
            (true, false) => c.fail(site, case, || "zipped streams that do not match".into()),
            (false, true) => c.fail(site, case, || format!("refused streams that match: {}", r.err().unwrap())),
            _ => {}
        }
    }
    macro_rules! sl { ($t:ident $j:expr, $n:expr) => {{
        let (s, d, _) = model::<$t, <$t as faster::vecs::Packable>::Vector>($n, 0);
        SIMDIter { position: 0, data: &*place($j, true, &s), default: d }
    }} }
    macro_rules! wd { ($t:ident) => { <<$t as faster::vecs::Packable>::Vector as faster::vecs::Packed>::WIDTH } }
    // all pairs of lengths, for all pairs of types
    macro_rules! pair { ($a:ident $b:ident) => {{
        let site = concat!("pair/", stringify!($a), "+", stringify!($b));
        if c.mine() && c.want_site(site) {
            let before = c.traces;
            let top = wd!($a).max(wd!($b)) * if th { 4 } else { 2 } + 3;
            for x in 0..=top { for y in 0..=top {
                judge(&mut c, site, &[x, y], x == y && wd!($a) == wd!($b), || IntoSIMDZip::zip((sl!($a 0, x), sl!($b 1, y))));
            } }
            // differing in the high bits only
            let far: &[usize] = &[0, 1, 2, 3, 255, 256, 257, 512, 1024, 4096, 4097, 65535, 65536, 65537];
            for x in far { for y in far {
                judge(&mut c, site, &[*x, *y], x == y && wd!($a) == wd!($b), || IntoSIMDZip::zip((sl!($a 0, *x), sl!($b 1, *y))));
            } }
            let n = c.traces - before;
            c.site(site, n);
        }
    }} }
    macro_rules! pairs { ($($a:ident)*; $b:tt) => { $(pairs!(@ $a $b);)* }; (@ $a:ident [$($b:ident)*]) => { $(pair!($a $b);)* } }
    pairs!(u8 i8 u16 i16 u32 i32 f32 u64 i64 f64; [u8 i8 u16 i16 u32 i32 f32 u64 i64 f64]);
    // all triples of lengths
    macro_rules! triple { ($a:ident $b:ident $d:ident) => {{
        let site = concat!("triple/", stringify!($a), "+", stringify!($b), "+", stringify!($d));
        if c.mine() && c.want_site(site) {
            let before = c.traces;
            let top = if th { 24 } else { 11 };
            for x in 0..=top { for y in 0..=top { for z in 0..=top {
                judge(&mut c, site, &[x, y, z], x == y && y == z && wd!($a) == wd!($b) && wd!($b) == wd!($d), || IntoSIMDZip::zip((sl!($a 0, x), sl!($b 1, y), sl!($d 2, z))));
            } } }
            let n = c.traces - before;
            c.site(site, n);
        }
    }} }
    triple!(f64 u64 i64); triple!(f32 u32 i32); triple!(f32 f64 f32); triple!(f64 f64 f32); triple!(u8 u8 u8); triple!(u8 i8 u16);
    // every arity, one component longer or shorter or wider
    macro_rules! arity { ($k:expr; $($j:tt)*) => {{
        let site = concat!("arity/", $k);
        if c.mine() && c.want_site(site) {
            let before = c.traces;
            let top = if th { 24 } else { 13 };
            for n in 0..=top { for odd in 0..=$k { for delta in 1..=2 * top as i64 + 1 {
                // odd == $k: all alike
                let delta = delta - top as i64 - 1;
                if delta == 0 || n as i64 + delta < 0 || (odd == $k && delta != 1) { continue }
                let lens: Vec<usize> = (0..$k).map(|j| if j == odd { (n as i64 + delta) as usize } else { n }).collect();
                judge(&mut c, site, &lens, odd == $k, || IntoSIMDZip::zip(($(sl!(f32 $j, lens[$j])),*)));
            } } }
            let n = c.traces - before;
            c.site(site, n);
        }
    }} }
    arity!(2; 0 1); arity!(3; 0 1 2); arity!(4; 0 1 2 3); arity!(5; 0 1 2 3 4); arity!(6; 0 1 2 3 4 5); arity!(7; 0 1 2 3 4 5 6);
    arity!(8; 0 1 2 3 4 5 6 7); arity!(9; 0 1 2 3 4 5 6 7 8); arity!(10; 0 1 2 3 4 5 6 7 8 9); arity!(11; 0 1 2 3 4 5 6 7 8 9 10);
    arity!(12; 0 1 2 3 4 5 6 7 8 9 10 11); arity!(13; 0 1 2 3 4 5 6 7 8 9 10 11 12);
    macro_rules! wide { ($k:expr; $($a:ident $j:tt),*) => {{
        let site = concat!("width/", $k);
        if c.mine() && c.want_site(site) {
            let before = c.traces;
            for n in 0..=9 { judge(&mut c, site, &[n], false, || IntoSIMDZip::zip(($(sl!($a $j, n)),*))); }
            let n = c.traces - before;
            c.site(site, n);
        }
    }} }
    wide!("4.1"; f32 0, f64 1, f32 2, f32 3); wide!("4.2"; f32 0, f32 1, f64 2, f32 3); wide!("4.3"; f32 0, f32 1, f32 2, f64 3); wide!("4.0"; f64 0, f32 1, f32 2, f32 3);
    wide!("6.5"; u8 0, u8 1, i8 2, u8 3, u8 4, u16 5);
    wide!("8.7"; f32 0, f32 1, f32 2, f32 3, f32 4, f32 5, f32 6, f64 7);
    wide!("12.11"; u32 0, u32 1, u32 2, u32 3, u32 4, u32 5, u32 6, u32 7, u32 8, u32 9, u32 10, u64 11);
    wide!("13.12"; u32 0, u32 1, u32 2, u32 3, u32 4, u32 5, u32 6, u32 7, u32 8, u32 9, u32 10, u32 11, u16 12);
    // strided streams, vectors and mutable slices, by what they deliver
    {
        let site = "kinds/f32";
        if c.mine() && c.want_site(site) {
            let before = c.traces;
            for x in 0..=if th { 40 } else { 13usize } { for y in 0..=if th { 40 } else { 13usize } { for k in 1..=4usize {
                let (s, d, _) = model::<f32, f32s>(x, 0);
                let src: &'static [f32] = place(0, true, &s);
                let st = || { let r: &'static &'static [f32] = Box::leak(Box::new(src)); r.stride(k, &vec![d; k]).swap_remove(k - 1) };
                judge(&mut c, site, &[x, y, k, 0], x / k == y, || IntoSIMDZip::zip((st(), vec![0.0f32; y].into_simd_iter(d))));
                judge(&mut c, site, &[x, y, k, 1], x / k == y, || IntoSIMDZip::zip((vec![0.0f32; y].into_simd_iter(d), st())));
            } } }
            let n = c.traces - before;
            c.site(site, n);
        }
    }
    c.finish()
}
