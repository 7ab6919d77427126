use faster::*;
use mc::{el::*, rt::*, stream::*};
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    macro_rules! ty { ($t:ident, $v:ident, $all:tt) => {{
        let f: From2<$t, $v> = mc::from2!();
        let d = if th { 3 } else { 2 };
        let p = plan(&c, $v::WIDTH, (b"NEAUDFSBH", d), (b"NEAUDFS", d + 1), true);
        go(&mut c, k_slice(&f), &p, vec![]);
        go(&mut c, k_map(&f), &p, vec![]);
        go(&mut c, k_vec(&f), &p, vec![]);
        mc::when!($all { go(&mut c, k_mut(&f), &p, vec![]);
        go(&mut c, k_zipmap(&f), &p, vec![]);
        go(&mut c, k_adapter::<$t, $v>(), &p, vec![]); });
        let p = plan(&c, $v::WIDTH, (b"NE", 1), (b"NE", 2), true);
        go(&mut c, k_sliceref(&f), &p, vec![]);
        let p = plan(&c, $v::WIDTH, (b"NES", 1), (b"NES", 1), false);
        go(&mut c, k_slice(&f), &p, vec![t_iter()]);
        go(&mut c, k_map(&f), &p, vec![t_iter()]);
        mc::when!($all { go(&mut c, k_mut(&f), &p, vec![t_iter()]);
        go(&mut c, k_vec(&f), &p, vec![t_iter()]);
        go(&mut c, k_zipmap(&f), &p, vec![t_iter()]);
        go(&mut c, k_adapter::<$t, $v>(), &p, vec![t_iter()]); });
    }} }
    mc::el_some!(ty);
    c.finish()
}
