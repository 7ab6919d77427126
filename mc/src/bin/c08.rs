use faster::*;
use mc::{el::*, rt::*, stream::*};
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough();
    macro_rules! terms { () => { vec![t_collect(), t_reduce(), t_iter(), t_array()] } }
    macro_rules! ty { ($t:ident, $v:ident, $all:tt) => {{
        let w = $v::WIDTH;
        for &(k, j) in &[(2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (4, 2), (4, 3), (9, 0), (9, 1), (9, 2), (9, 3), (9, 4), (9, 5), (9, 6), (9, 7), (9, 8),
                         (1, 0), (5, 0), (5, 4), (7, 3), (8, 7), (16, 0), (16, 15)] {
            if !th && $all == 0 && (k > 4 || k == 3) { continue }
            let mut p = plan(&c, w, (b"NEAUDFBH", if th && k < 5 { 2 } else { 1 }), (b"NEAUB", if th { 3 } else { 2 }), true).per(k, <$t as El>::BITS as usize);
            // far from the start: all remainders for small counts, a few otherwise
            let sparse = |n: &usize| { let m = n / k; [0, 1, w - 1].contains(&(m % w)) && [4, 8, 9, 16, 17].contains(&(m / w)) || m == 257 || m == 4097 };
            if !th && (k > 2 || w >= 16) { p.long.retain(sparse) }
            if !th && $all == 0 { p.long.clear() }
            // lengths around every multiple of the vector width
            let top = k * (2 * w + 1) + k - 1;
            p.lens = (0..=top).filter(|n| {
                let (m, r) = ((n / k) % w, n % k);
                if th { k < 5 || m < 2 || m + 2 > w || r == j }
                else if w < 8 && k < 5 { true }
                else { (m < 2 || m + 1 == w) && (r == 0 || r == k - 1) }
            }).collect();
            if !th { p.words.retain(|w| w.1 == At::All || w.0[0] != 85) }
            if !th && k >= 4 { for x in p.words.iter_mut() { if !x.0.is_empty() { x.1 = At::First } } }
            if !th && w >= 16 { for x in p.words.iter_mut() { if x.0.len() > 0 { x.1 = At::First } } }
            go(&mut c, k_stride::<$t, $v>(k, j), &p, terms!());
            // over everything else there is, and collected otherwise
            mc::when!($all { if (if th { &[(2, 1), (3, 0), (5, 4), (7, 3), (16, 15)][..] } else { &[(2, 1), (5, 4), (16, 15)][..] }).contains(&(k, j)) {
                let f: From2<$t, $v> = mc::from2!();
                p.long.retain(|n| n / k == 8 * w + 1);
                let (fs, fv, fm) = (f.slice, f.vec, f.mu);
                go(&mut c, k_strideof("vec", k, j, false, |s: Vec<$t>, _, _: $v| s), &p, terms!());
                go(&mut c, k_strideof("vec", k, j, true, |s: Vec<$t>, _, _: $v| s), &p, terms!());
                go(&mut c, k_strideof("mut", k, j, true, |s: Vec<$t>, hi, _: $v| -> &'static mut [$t] { place(0, hi, &s) }), &p, terms!());
                go(&mut c, k_strideof("iter", k, j, false, move |s: Vec<$t>, hi, d: $v| fs(place(0, hi, &s), d)), &p, terms!());
                go(&mut c, k_strideof("veciter", k, j, k > 3, move |s: Vec<$t>, _, d: $v| fv(s, d)), &p, terms!());
                go(&mut c, k_strideof("mutiter", k, j, false, move |s: Vec<$t>, hi, d: $v| fm(place(0, hi, &s), d)), &p, terms!());
            } });
        }
        mc::when!($all {
            let mut p = plan(&c, w, (b"NEAUDFBH", if th { 2 } else { 1 }), (b"NEAUB", if th { 3 } else { 2 }), true).per(6, <$t as El>::BITS as usize);
            p.long.retain(|n| n / 6 % w < 2);
            p.lens = (0..=6 * (2 * w + 1) + 5).filter(|n| { let m = (n / 6) % w; th || w < 8 || ((m < 2 || m + 1 == w) && (n % 6 < 2 || n % 6 == 5)) }).collect();
            if !th { for x in p.words.iter_mut() { if x.0.len() > 0 { x.1 = At::First } } }
            go(&mut c, k_nested::<$t, $v>(2, 3), &p, terms!());
        });
    }} }
    mc::el_some!(ty);
    c.finish()
}
