use faster::*;
use mc::{el::*, rt::*, stream::*};
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    macro_rules! terms { () => { vec![t_foreach("for_each", usize::max_value())] } }
    macro_rules! ty { ($t:ident, $v:ident, $all:tt) => {{
        let f: From2<$t, $v> = mc::from2!();
        let p = plan(&c, $v::WIDTH, (b"NUED", if th { 3 } else { 2 }), (b"NUED", if th { 5 } else { 4 }), false);
        go(&mut c, k_mutable(&f, false), &p, terms!());
        let p = plan(&c, $v::WIDTH, (b"NUE", if th { 2 } else { 1 }), (b"NUE", if th { 3 } else { 2 }), false);
        go(&mut c, k_mutable(&f, true), &p, terms!());
    }} }
    mc::el_some!(ty);
    c.finish()
}
