use faster::*;
use faster::vecs::{Packable, Packed};
use mc::{el::*, rt::*, stream::*};
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    fn few<I, S, V>(w: usize) -> Vec<Term<'static, I>> where I: SIMDIterator<Scalar = S, Vector = V> + 'static, S: El + Packable, V: Packed<Scalar = S> {
        vec![
            t_fill("fill", false, Sz::Exact, dst()), t_fill("fill-larger", false, Sz::Bigger, dst()),
            t_fill("fill-short1", false, Sz::Short(1), dst()), t_fill("fill-shortw", false, Sz::Short(w), dst()), t_fill("fill-empty", false, Sz::Empty, dst()),
            t_fill("fill_all", true, Sz::Exact, dst()), t_fill("fill_all-larger", true, Sz::Bigger, dst()),
            t_fill("fill_all-short1", true, Sz::Short(1), dst()), t_fill("fill_all-empty", true, Sz::Empty, dst()),
            t_collect_all()]
    }
    macro_rules! ty { ($t:ident, $v:ident, $all:tt) => {{
        let f: From2<$t, $v> = mc::from2!();
        let w = $v::WIDTH;
        let p = plan(&c, w, (b"NUE", if th { 2 } else { 1 }), (b"NUE", if th { 3 } else { 2 }), false);
        go(&mut c, k_slice(&f), &p, few(w));
        mc::when!($all {
        go(&mut c, k_vec(&f), &p, few(w));
        go(&mut c, k_map(&f), &p, few(w));
        go(&mut c, k_zipmap(&f), &p, few(w));
        go(&mut c, k_adapter::<$t, $v>(), &p, few(w));
        });
    }} }
    mc::el_some!(ty);
    c.finish()
}
