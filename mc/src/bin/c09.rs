use faster::*;
use faster::vecs::{Packable, Packed};
use mc::{el::*, rt::*, stream::*, zipx::*};
use std::rc::Rc;
/// Pairs of neighbours of a stream, from wherever the stream is.
fn sz<I, S, V>(k: Kind<I>, base: usize) -> ZKind<stride_zip::StrideZip<I>>
where I: SIMDIterator<Scalar = S, Vector = V> + 'static, S: El + Packable, V: Packed<Scalar = S> + intrin::destride::Destride {
    let (f, a, clamps) = (k.count, k.arg, k.clamps);
    let mk = k.mk.clone();
    ZKind { name: format!("{}+{}/{}", k.name, base, S::NAME), count: Rc::new(move |n| f(n, a).saturating_sub(base) / 2), clamps, mk: Rc::new(move |n, hi, color| {
        let (it, m) = mk(n, hi, color)?;
        let base = base.min(m.n());
        let s: Vec<u64> = m.s[base..].iter().map(|b| b ^ m.x).collect();
        let pairs = s.len() / 2;
        let comps = (0..2).map(|j| (0..pairs).map(|i| s[2 * i + j]).collect()).collect();
        let d = lib(|| it.default()).map(|d: V| bitv(lanes(&d)))?;
        let it = lib(move || { let mut it = it; it.advance(base); it.stride_zip() })?;
        Ok((it, Z { comps: Rc::new(comps), defs: Rc::new(vec![d.clone(), d]), w: m.w, pos: 0, check_default: false }))
    }) }
}
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    macro_rules! ty { ($($t:ident $v:ident $all:tt;)*) => {$({
        let f: From2<$t, $v> = mc::from2!();
        let w = $v::WIDTH;
        let bases: Vec<usize> = if th { (0..=2 * w + 1).collect() } else { vec![0, 1, 2, w - 1, w, w + 1] };
        for b in bases {
            let mut p = zplan(&c, w, (b"NEADFBH", if th { 2 } else { 1 }), (b"NEADFSB", if th { 3 } else { 2 }));
            p.lens = (0..=(if th { 7 } else { 5 } * w + 3)).filter(|n| th || w < 16 || n % w < 3 || n % w > w - 3).collect();
            p = p.per(2, 1);
            zgo(&mut c, sz(k_slice(&f), b), &p, vec![z_reduce(), z_std(), z_map::<_, $v>()]);
            mc::when!($all {
                if b < 2 || th {
                    zgo(&mut c, sz(k_vec(&f), b), &p, vec![z_doeach(), z_mapfill::<_, $v>()]);
                    zgo(&mut c, sz(k_map(&f), b), &p, vec![z_doeach(), z_map::<_, $v>()]);
                    zgo(&mut c, sz(k_adapter::<$t, $v>(), b), &p, vec![z_reduce()]);
                    zgo(&mut c, sz(k_zipmap(&f), b), &p, vec![z_reduce()]);
                    zgo(&mut c, sz(k_mut(&f), b), &p, vec![z_reduce(), z_map::<_, $v>()]);
                    let mut p2 = zplan(&c, w, (b"NE", 1), (b"NE", 2));
                    p2.lens = p.lens.iter().flat_map(|n| vec![2 * n, 2 * n + 1]).collect();
                    p2.long = p.long.iter().flat_map(|n| vec![2 * n, 2 * n + 1]).collect();
                    zgo(&mut c, sz(k_stride::<$t, $v>(2, 1), b), &p2, vec![z_reduce()]);
                }
            });
        }
    })*} }
    ty!(u8 u8s 0; i8 i8s 1; u16 u16s 0; i16 i16s 0; u32 u32s 1; i32 i32s 0;);
    c.finish()
}
