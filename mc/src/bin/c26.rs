use faster::*;
use mc::{el::*, rt::*, stream::*};
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    macro_rules! ty { ($t:ident, $v:ident, $all:tt) => {{
        let f: From2<$t, $v> = mc::from2!();
        let p = plan(&c, $v::WIDTH, (b"NUE", if th { 2 } else { 1 }), (b"NUE", if th { 3 } else { 2 }), false);
        go(&mut c, k_mutable(&f, false), &p, vec![t_foreach("for_each-panic0", 0), t_foreach("for_each-panic1", 1), t_foreach("for_each-panic2", 2), t_foreach("for_each-panic3", 3)]);
        go(&mut c, k_slice(&f), &p, vec![t_panic_read("fill-panic0", 0, dst()), t_panic_read("fill-panic1", 1, dst()), t_panic_read("fill-panic2", 2, dst()), t_panic_read("fill-panic3", 3, dst())]);
        mc::when!($all {
        go(&mut c, k_vec(&f), &p, vec![t_panic_read("fill-panic0", 0, dst()), t_panic_read("fill-panic1", 1, dst()), t_panic_read("fill-panic2", 2, dst())]);
        go(&mut c, k_slice(&f), &p, vec![t_panic_collect("collect-panic0", 0), t_panic_collect("collect-panic1", 1), t_panic_collect("collect-panic2", 2)]);
        });
        // many vectors in
        let mut p = p;
        p.lens = (4 * $v::WIDTH..10 * $v::WIDTH + 2).filter(|n| th || n % $v::WIDTH < 2 || n % $v::WIDTH + 1 == $v::WIDTH).collect();
        go(&mut c, k_mutable(&f, false), &p, vec![t_foreach("for_each-panic5", 5), t_foreach("for_each-panic7", 7), t_foreach("for_each-panic4", 4), t_foreach("for_each-panic6", 6), t_foreach("for_each-panic8", 8), t_foreach("for_each-panic9", 9), t_foreach("for_each-panic16", 16)]);
        go(&mut c, k_slice(&f), &p, vec![t_panic_read("fill-panic5", 5, dst()), t_panic_read("fill-panic7", 7, dst()), t_panic_read("fill-panic4", 4, dst()), t_panic_read("fill-panic6", 6, dst()), t_panic_read("fill-panic8", 8, dst()), t_panic_read("fill-panic9", 9, dst()), t_panic_read("fill-panic16", 16, dst())]);
    }} }
    mc::el_some!(ty);
    c.finish()
}
