use faster::*;
use faster::vecs::{Packable, Packed};
use mc::{el::*, rt::*, stream::*};
/// Batches held on to while later ones are taken.
fn held<S, V>(c: &mut Ctx, f: &From2<S, V>, top: usize) where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    if !c.mine() { return }
    let site: &'static str = Box::leak(format!("held-batches/{}", S::NAME).into_boxed_str());
    // a defect that is known: see KNOWN_FINDINGS
    let shared: &'static str = Box::leak(format!("held-batches-overwritten/{}", S::NAME).into_boxed_str());
    if !c.want_site(site) && !c.want_site(shared) { return }
    let w = V::WIDTH;
    let before = c.traces;
    for n in 0..=top { for amt in 1..=8usize { for color in 0..2usize {
        let case = || format!("n={} amt={} color={}", n, amt, color);
        cur(site, &[n as u64, amt as u64, color as u64]);
        c.states += 1; c.transitions += (n / w) as u64; c.traces += 1;
        let (s, d, m) = model::<S, V>(n, color);
        let src: &'static [S] = place(0, true, &s);
        let r = lib(|| {
            let mut it = (f.slice)(src, d);
            let mut u = it.unroll(amt);
            let mut held: Vec<&[V]> = vec![];
            while let Some(b) = u.next() { held.push(b) }
            // looked at while the stream and the unrolling are still there
            let r: Vec<Vec<Vec<u64>>> = held.iter().map(|b| b.iter().map(|v| vb(v)).collect()).collect();
            drop(u);
            r
        });
        let mut m = m;
        let mut e = vec![];
        while let Some(v) = m.next() { e.push(v) }
        let want: Vec<Vec<Vec<u64>>> = e.chunks(amt).map(|c| c.to_vec()).collect();
        match r {
            Err(e) => c.fail(site, case, || e),
            Ok(g) if g == want => c.outcome(hash64(g.into_iter().flatten().flatten())),
            Ok(g) => {
                // a batch that shows what a later one delivered
                let over = g.len() == want.len() && (0..g.len()).all(|k| g[k].len() == want[k].len() && (0..g[k].len()).all(|i| g[k][i] == want[(k..want.len()).rev().find(|j| want[*j].len() > i).unwrap()][i]));
                if c.want_case(case) { c.fail(if over { shared } else { site }, case, || format!("{}got {:x?} instead of {:x?}", if over { "overwritten by a later batch: " } else { "" }, g, want)) }
            }
        }
    } } }
    let k = c.traces - before;
    c.site(site, k);
}
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    fn un<I, S, V>(th: bool) -> Vec<Term<'static, I>> where I: SIMDIterator<Scalar = S, Vector = V> + 'static, S: El + Packable, V: Packed<Scalar = S> {
        let mut t = vec![t_unroll("unroll1", 1), t_unroll("unroll2", 2), t_unroll("unroll3", 3), t_unroll("unroll8", 8),
             t_unroll_stop("unroll2-stop1", 2, 1), t_unroll_stop("unroll3-stop0", 3, 0)];
        { let _ = th; t.push(t_unroll("unroll4", 4)); t.push(t_unroll("unroll5", 5)); t.push(t_unroll("unroll6", 6)); t.push(t_unroll("unroll7", 7)); }
        t
    }
    fn pk<I, S, V>(w: usize) -> Vec<Term<'static, I>> where I: SIMDIterator<Scalar = S, Vector = V> + SIMDArray + 'static, S: El + Packable, V: Packed<Scalar = S> {
        vec![t_unpack(), t_unpack_pack("unpack1+pack", 1), t_unpack_pack("unpackw+pack", w), t_unpack_pack("unpackw-1+pack", w - 1)]
    }
    macro_rules! ty { ($t:ident, $v:ident, $all:tt) => {{
        let f: From2<$t, $v> = mc::from2!();
        let w = $v::WIDTH;
        let mut p = plan(&c, w, (b"NUE", if th { 3 } else { 2 }), (b"NUE", if th { 4 } else { 3 }), false);
        go(&mut c, k_slice(&f), &p, pk(w));
        mc::when!($all { go(&mut c, k_vec(&f), &p, pk(w)); go(&mut c, k_mut(&f), &p, pk(w)); go(&mut c, k_stride::<$t, $v>(2, 0), &p, pk(w)); });
        held(&mut c, &f, 5 * w + 1);
        // several chunks
        let top = if th { 17 * w + 1 } else { 9 * w + 1 };
        p.lens = (0..=top).filter(|n| th || n % w < 2 || n % w == w - 1).collect();
        if !th { for x in p.words.iter_mut() { x.1 = At::First } }
        go(&mut c, k_slice(&f), &p, un(th));
        mc::when!($all { go(&mut c, k_map(&f), &p, un(th)); go(&mut c, k_adapter::<$t, $v>(), &p, un(th)); go(&mut c, k_zipmap(&f), &p, un(th)); go(&mut c, k_vec(&f), &p, un(th)); go(&mut c, k_mut(&f), &p, un(th)); });
    }} }
    mc::el_some!(ty);
    c.finish()
}
