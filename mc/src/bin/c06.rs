use faster::*;
use faster::zip::*;
use mc::{el::*, rt::*, stream::*, zipx::*};
use std::rc::Rc;
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    macro_rules! ty { ($t:ident, $v:ident, $all:tt) => {{
        let w = $v::WIDTH;
        let p = zplan(&c, w, (b"NEADFBH", if th { 2 } else { 1 }), (b"NEADFSB", if th { 4 } else { 3 }));
        zgo(&mut c, mc::zslices!(concat!("2x", stringify!($t)); $t 0, $t 1), &p, vec![z_reduce(), z_std(), z_map::<_, $v>()]);
        mc::when!($all { zgo(&mut c, mc::zslices!(concat!("3x", stringify!($t)); $t 0, $t 1, $t 2), &p, vec![z_doeach(), z_map::<_, $v>(), z_mapfill::<_, $v>()]); });
    }} }
    mc::el_some!(ty);
    // every arity
    macro_rules! ar { ($k:expr; $($j:tt)*) => {{
        let p = zplan(&c, f64s::WIDTH, (b"NEADFBH", if th { 2 } else { 1 }), (b"NEADFB", if th { 3 } else { 2 }));
        zgo(&mut c, mc::zslices!($k; $(f64 $j),*), &p, vec![z_reduce(), z_std(), z_map::<_, u64s>()]);
    }} }
    ar!("4xf64"; 0 1 2 3); ar!("5xf64"; 0 1 2 3 4); ar!("6xf64"; 0 1 2 3 4 5); ar!("7xf64"; 0 1 2 3 4 5 6); ar!("8xf64"; 0 1 2 3 4 5 6 7);
    ar!("9xf64"; 0 1 2 3 4 5 6 7 8); ar!("10xf64"; 0 1 2 3 4 5 6 7 8 9); ar!("11xf64"; 0 1 2 3 4 5 6 7 8 9 10);
    ar!("12xf64"; 0 1 2 3 4 5 6 7 8 9 10 11); ar!("13xf64"; 0 1 2 3 4 5 6 7 8 9 10 11 12);
    // different element types of one width
    {
        let p = zplan(&c, f32s::WIDTH, (b"NEADFBH", if th { 2 } else { 1 }), (b"NEADFB", if th { 3 } else { 2 }));
        zgo(&mut c, mc::zslices!("u32+i32+f32"; u32 0, i32 1, f32 2), &p, vec![z_reduce(), z_doeach(), z_map::<_, f32s>(), z_mapfill::<_, u32s>()]);
        zgo(&mut c, mc::zslices!("f32+u32"; f32 0, u32 1), &p, vec![z_reduce(), z_map::<_, i32s>()]);
        let p = zplan(&c, u8s::WIDTH, (b"NEADFBH", 1), (b"NEADF", 2));
        zgo(&mut c, mc::zslices!("i8+u8"; i8 0, u8 1), &p, vec![z_reduce(), z_map::<_, u8s>()]);
        let p = zplan(&c, u16s::WIDTH, (b"NEADFBH", 1), (b"NEADF", 2));
        zgo(&mut c, mc::zslices!("u16+i16"; u16 0, i16 1), &p, vec![z_reduce(), z_map::<_, i16s>()]);
        let p = zplan(&c, u64s::WIDTH, (b"NEADFBH", if th { 2 } else { 1 }), (b"NEADFB", if th { 3 } else { 2 }));
        zgo(&mut c, mc::zslices!("u64+f64+i64"; u64 0, f64 1, i64 2), &p, vec![z_reduce(), z_map::<_, i64s>()]);
    }
    // slices, vectors, mutable slices and strided streams together
    macro_rules! mixed { ($($t:ident $v:ident)*) => {$({
        let w = $v::WIDTH;
        let p = zplan(&c, w, (b"NEADFBH", if th { 2 } else { 1 }), (b"NEADFB", if th { 3 } else { 2 }));
        macro_rules! order { ($name:expr; $names:expr; $tup:expr) => {{
            let slot: &'static std::cell::Cell<&'static [$t]> = Box::leak(Box::new(std::cell::Cell::new(&[][..])));
            let k = ZKind { name: format!("{}/{}", $name, stringify!($t)), count: Rc::new(|n| n), clamps: false, mk: Rc::new(move |n, hi, color| {
                let (s0, d0) = comp::<$t, $v>(0, n, hi, color);
                let (s1, d1) = comp::<$t, $v>(1, n, hi, color);
                let (s2, d2) = comp::<$t, $v>(2, n, hi, color);
                // a strided stream of n elements
                let (s3, d3) = comp::<$t, $v>(0, 2 * n + (n & 1), hi, color ^ 1);
                let s3odd: Vec<$t> = (0..n).map(|i| s3[2 * i + 1]).collect();
                let data: Vec<(&str, Vec<u64>, Vec<u64>)> = vec![
                    ("sl", bitv(&s0), bitv(lanes(&d0))), ("ve", bitv(&s1), bitv(lanes(&d1))), ("mu", bitv(&s2), bitv(lanes(&d2))), ("st", bitv(&s3odd), bitv(lanes(&d3)))];
                let names = $names;
                let pick = |f: &dyn Fn(&(&str, Vec<u64>, Vec<u64>)) -> Vec<u64>| names.iter().map(|x| f(data.iter().find(|y| y.0 == *x).unwrap())).collect::<Vec<_>>();
                let z = Z { comps: Rc::new(pick(&|x| x.1.clone())), defs: Rc::new(pick(&|x| x.2.clone())), w, pos: 0, check_default: true };
                slot.set(place(3, hi, &s3));
                let r: &'static &'static [$t] = unsafe { &*slot.as_ptr() };
                let (p0, p2) = (place(0, hi, &s0), place(2, hi, &s2));
                let it = lib(move || {
                    let sl = (&*p0).simd_iter(d0);
                    let ve = s1.clone().into_simd_iter(d1);
                    let mu = p2.simd_iter_mut(d2);
                    let st = r.stride_two((d0, d3)).1;
                    IntoSIMDZip::zip($tup(sl, ve, mu, st))
                })?;
                Ok((it, z))
            }) };
            zgo(&mut c, k, &p, vec![z_reduce(), z_map::<_, $v>()]);
        }} }
        order!("slice+vec+mut+stride"; ["sl", "ve", "mu", "st"]; |sl, ve, mu, st| (sl, ve, mu, st));
        order!("stride+mut+slice+vec"; ["st", "mu", "sl", "ve"]; |sl, ve, mu, st| (st, mu, sl, ve));
        order!("vec+stride+mut+slice"; ["ve", "st", "mu", "sl"]; |sl, ve, mu, st| (ve, st, mu, sl));
    })*} }
    mixed!(u8 u8s f32 f32s);
    c.finish()
}
