use faster::*;
use mc::{el::*, rt::*, stream::*};
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    macro_rules! terms { () => { vec![t_collect(), t_mapcollect(), t_mapmap()] } }
    macro_rules! ty { ($t:ident, $v:ident, $all:tt) => {{
        let f: From2<$t, $v> = mc::from2!();
        let p = plan(&c, $v::WIDTH, (b"NUE", if th { 3 } else { 2 }), (b"NUE", if th { 4 } else { 3 }), false);
        go(&mut c, k_slice(&f), &p, terms!());
        go(&mut c, k_vec(&f), &p, terms!());
        mc::when!($all { go(&mut c, k_mut(&f), &p, terms!());
        go(&mut c, k_map(&f), &p, terms!());
        go(&mut c, k_zipmap(&f), &p, terms!());
        go(&mut c, k_adapter::<$t, $v>(), &p, vec![t_collect(), t_mapcollect()]); });
    }} }
    mc::el_some!(ty);
    c.finish()
}
