use faster::*;
use mc::{el::*, rt::*, stream::*};
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    macro_rules! terms { () => { vec![t_reduce(), t_doeach(), t_std()] } }
    macro_rules! ty { ($t:ident, $v:ident, $all:tt) => {{
        let f: From2<$t, $v> = mc::from2!();
        let p = plan(&c, $v::WIDTH, (b"NUE", if th { 3 } else { 2 }), (b"NUE", if th { 4 } else { 3 }), false);
        go(&mut c, k_slice(&f), &p, terms!());
        go(&mut c, k_vec(&f), &p, vec![t_reduce(), t_doeach()]);
        mc::when!($all { go(&mut c, k_mut(&f), &p, terms!());
        go(&mut c, k_map(&f), &p, terms!());
        go(&mut c, k_zipmap(&f), &p, terms!());
        go(&mut c, k_adapter::<$t, $v>(), &p, terms!());
        go(&mut c, k_stride::<$t, $v>(2, 1), &p, vec![t_reduce(), t_doeach()]); });
    }} }
    mc::el_some!(ty);
    c.finish()
}
