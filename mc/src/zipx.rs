//! Exhaustive exploration of streams of tuples of vectors (`Zip`, `StrideZip`).
use crate::el::*;
use crate::rt::*;
use crate::stream::{place, same, words, At, Case, Plan, Runner, Stop};
use faster::vecs::{Packable, Packed};
use faster::zip::*;
use faster::*;
use std::rc::Rc;

/// Component sequences of one length, with the lanes of their defaults.
#[derive(Clone)]
pub struct Z { pub comps: Rc<Vec<Vec<u64>>>, pub defs: Rc<Vec<Vec<u64>>>, pub w: usize, pub pos: usize, pub check_default: bool }
impl Z {
    pub fn n(&self) -> usize { self.comps[0].len() }
    pub fn rem(&self) -> usize { self.n().saturating_sub(self.pos) }
    pub fn next(&mut self) -> Option<Vec<u64>> {
        if self.pos + self.w > self.n() { return None }
        let r = self.comps.iter().flat_map(|c| c[self.pos..self.pos + self.w].to_vec()).collect();
        self.pos += self.w;
        Some(r)
    }
    pub fn end(&mut self) -> Option<(Vec<u64>, usize)> {
        let r = self.rem();
        if r == 0 { return None }
        if r >= self.w { return self.next().map(|v| (v, 0)) }
        let e = self.w - r;
        let mut v = vec![];
        for (c, d) in self.comps.iter().zip(self.defs.iter()) {
            v.extend_from_slice(&d[..e]);
            v.extend_from_slice(&c[self.pos..]);
        }
        self.pos = self.n();
        Some((v, e))
    }
    pub fn all(&mut self) -> Vec<Vec<u64>> {
        let mut r = vec![];
        while let Some(v) = self.next() { r.push(v) }
        if let Some((v, _)) = self.end() { r.push(v) }
        r
    }
}

/// The lanes of all vectors of a tuple.
pub trait Cat { fn cat(&self) -> Vec<u64>; }
macro_rules! cat { ($(($($v:ident $i:tt),*))*) => {$(
    impl<$($v: Packed),*> Cat for ($($v),*) where $($v::Scalar: El),* {
        fn cat(&self) -> Vec<u64> { let mut r = vec![]; $(r.extend(bitv(lanes(&self.$i)));)* r }
    })*}}
cat!{ (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4) (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12) }

fn queries<I>(it: &I, m: &Z) -> Result<(), String> where I: SIMDZippedIterator, I::Vectors: Cat {
    same("scalar_pos", it.scalar_pos(), m.pos)?;
    same("scalar_len", it.scalar_len(), m.n())?;
    same("vector_pos", it.vector_pos(), m.pos / m.w)?;
    same("vector_len", it.vector_len(), m.n() / m.w)?;
    same("len", it.len(), m.rem() / m.w)?;
    same("size_hint", it.size_hint(), (m.rem() / m.w, Some(m.rem() / m.w)))?;
    same("width", it.width(), m.w)?;
    if m.check_default { same("default", it.default().cat(), m.defs.concat())? }
    Ok(())
}
fn step<I>(op: u8, it: I, m: &mut Z, check: bool) -> Result<I, String> where I: SIMDZippedIterator, I::Vectors: Cat {
    let mut it = it;
    match op {
        b'N' => {
            let (i2, r) = lib(move || { let r = it.next(); (it, r) })?;
            it = i2;
            let e = m.next();
            if check { same("next", r.map(|v| v.cat()), e)? }
        }
        b'D' => loop {
            let (i2, r) = lib(move || { let r = it.next(); (it, r) })?;
            it = i2;
            let e = m.next();
            let stop = e.is_none();
            if check { same("next", r.map(|v| v.cat()), e)? } else if r.is_some() == stop { return Err("diverged".into()) }
            if stop { break }
        },
        b'E' => {
            let (i2, r) = lib(move || { let r = it.end(); (it, r) })?;
            it = i2;
            let e = m.end();
            if check { same("end", r.map(|(v, n)| (v.cat(), n)), e)? }
        }
        b'S' => {
            let (i2, r) = lib(move || { let r = it.nth(1); (it, r) })?;
            it = i2;
            let e = m.next().and_then(|_| m.next());
            if check { same("nth(1)", r.map(|v| v.cat()), e)? }
        }
        b'A' => { it = lib(move || { it.advance(1); it })?; m.pos += 1 }
        b'B' => { let s = m.w + 1; it = lib(move || { it.advance(s); it })?; m.pos += s }
        // as far as there are numbers, twice; nothing is left then
        b'H' => {
            for s in &[usize::max_value() / 2 + 1, usize::max_value()] {
                let (i2, r) = lib(move || { it.advance(*s); let r = (it.len(), it.size_hint(), it.next().is_some(), it.end().is_some(), it.next().is_some()); (it, r) })?;
                it = i2;
                same("after a huge advance", r, (0, (0, Some(0)), false, false, false))?;
            }
            m.pos = crate::stream::GONE;
            return Ok(it)
        }
        b'F' => { it = lib(move || { it.finalize(); it })?; m.pos = m.n() }
        _ => unreachable!(),
    }
    if check {
        let mm = m.clone();
        it = lib(move || { let q = queries(&it, &mm); (it, q) }).and_then(|(i, q)| q.map(|_| i))?;
    }
    Ok(it)
}

pub type ZTerm<I> = (&'static str, Box<dyn Fn(I, Z) -> Result<u64, String>>);
pub struct ZKind<I> { pub name: String, pub mk: Rc<dyn Fn(usize, bool, usize) -> Result<(I, Z), String>>, pub count: Rc<dyn Fn(usize) -> usize>, pub clamps: bool }

fn run_case<I>(k: &ZKind<I>, term: &Option<ZTerm<I>>, check: bool, q: &Case) -> Result<(u64, u64), Stop>
where I: SIMDZippedIterator + 'static, I::Vectors: Cat {
    let (mut it, mut m) = (k.mk)(q.n, q.hi, q.color)?;
    let mut nops = 0;
    if q.start > 0 {
        let s = q.start;
        if k.clamps && s > m.n() { return Err(Stop::Infeasible) }
        it = lib(move || { it.advance(s); it })?;
        m.pos = s;
        nops += 1;
    }
    if check {
        let mm = m.clone();
        it = lib(move || { let q = queries(&it, &mm); (it, q) }).and_then(|(i, q)| q.map(|_| i))?;
    }
    for op in q.ops {
        if *op == b'F' && m.pos > m.n() { return Err(Stop::Infeasible) }
        if m.pos == crate::stream::GONE || *op == b'B' && k.clamps && m.pos + m.w >= m.n() { return Err(Stop::Infeasible) }
        if *op == b'A' && k.clamps && m.pos >= m.n() { return Err(Stop::Infeasible) }
        it = step(*op, it, &mut m, check)?;
        nops += 1;
    }
    let h = match term { Some(t) => { nops += 1; (t.1)(it, m)? } None => { let h = hash64([m.pos as u64, m.n() as u64].iter().cloned()); drop(it); h } };
    Ok((h, nops))
}
pub fn zgo<I>(c: &mut Ctx, k: ZKind<I>, p: &Plan, terms: Vec<ZTerm<I>>) where I: SIMDZippedIterator + 'static, I::Vectors: Cat {
    let k = Rc::new(k);
    let mut ts: Vec<Option<ZTerm<I>>> = terms.into_iter().map(Some).collect();
    if p.check { ts.push(None) }
    for t in ts {
        if !c.mine() { continue }
        let site = format!("{}/{}", t.as_ref().map(|t| t.0).unwrap_or("moves"), k.name);
        let (kk, check, f) = (k.clone(), p.check, k.count.clone());
        let run: Runner = Box::new(move |q| run_case(&kk, &t, check, q));
        crate::stream::explore(c, &site, p, &move |n| f(n), &run);
    }
}
pub fn zplan(c: &Ctx, w: usize, alpha: (&[u8], usize), first: (&[u8], usize)) -> Plan {
    let mut ws = vec![];
    for d in 0..=alpha.1 { ws.extend(words(alpha.0, d, At::All)) }
    for d in alpha.1 + 1..=first.1 { ws.extend(words(first.0, d, At::First)) }
    let top = if c.thorough() { 6 * w + 3 } else if w >= 16 { 3 * w + 3 } else { 4 * w + 3 };
    Plan { words: ws, check: true, lens: (0..=top).collect(), full: true, w, long: crate::stream::long(c, w, top).into_iter().filter(|n| c.thorough() || *n < 60000).collect(), far: vec!["", "DE", "NADEN"] }
}

pub fn z_reduce<I>() -> ZTerm<I> where I: SIMDZippedIterator + 'static, I::Vectors: Cat {
    ("reduce", Box::new(|it, m| {
        let mut it = it;
        let (g, again) = lib(move || (it.simd_reduce(vec![], |mut a: Vec<Vec<u64>>, v| { a.push(v.cat()); a }), it.simd_reduce(0, |a, _| a + 1)))?;
        same("reduced over", &g, &{ let mut m = m; m.all() })?;
        same("tuples after exhaustion", again, 0)?;
        Ok(hash64(g.into_iter().flatten()))
    }))
}
pub fn z_doeach<I>() -> ZTerm<I> where I: SIMDZippedIterator + 'static, I::Vectors: Cat {
    ("do_each", Box::new(|it, m| {
        let mut it = it;
        let (g, again) = lib(move || { let mut g = vec![]; it.simd_do_each(|v| g.push(v.cat())); let mut k = 0; it.simd_do_each(|_| k += 1); (g, k) })?;
        same("visited", &g, &{ let mut m = m; m.all() })?;
        same("tuples after exhaustion", again, 0)?;
        Ok(hash64(g.into_iter().flatten()))
    }))
}
/// Every lane of the result depends on the same lane of every component.
fn mix<O: Packed>(c: &[u64]) -> O where O::Scalar: El {
    let w = O::WIDTH;
    let mut l = vec![O::Scalar::default(); w];
    for (i, x) in l.iter_mut().enumerate() { *x = O::Scalar::of(mix1(c.iter().skip(i).step_by(w).cloned())) }
    vec_of(&l)
}
fn mix1(it: impl Iterator<Item = u64>) -> u64 { it.fold(5u64, |a, b| a.wrapping_mul(31).wrapping_add(b)) }
pub fn z_map<I, O>() -> ZTerm<I> where I: SIMDZippedIterator + 'static, I::Vectors: Cat, O: Packed + 'static, O::Scalar: El + Packable {
    ("map+collect", Box::new(|it, m| {
        let calls = std::cell::RefCell::new(vec![]);
        let pos = m.pos;
        let r = { let c = &calls; lib(move || it.simd_map(|v| { let l = v.cat(); let o: O = mix(&l); c.borrow_mut().push(l); o }).scalar_collect())? };
        let e: Vec<u64> = (pos.min(m.n())..m.n()).map(|i| O::Scalar::of(mix1(m.comps.iter().map(|c| c[i]))).bits()).collect();
        let g = bitv(&r);
        same("collected", &g, &e)?;
        same("closure arguments", calls.into_inner(), { let mut m = m; m.all() })?;
        Ok(hash64(g.into_iter()))
    }))
}
pub fn z_mapfill<I, O>() -> ZTerm<I> where I: SIMDZippedIterator + 'static, I::Vectors: Cat, O: Packed + 'static, O::Scalar: El + Packable {
    ("map+fill", Box::new(|it, m| {
        let need = m.rem();
        let before: Vec<O::Scalar> = (0..need).map(|i| O::Scalar::of(0x5b ^ (i & 7) as u64)).collect();
        let d = place(crate::stream::DST, true, &before);
        let p = d.as_ptr();
        lib(move || { it.simd_map(|v| mix::<O>(&v.cat())).scalar_fill(d); })?;
        let e: Vec<u64> = (m.pos.min(m.n())..m.n()).map(|i| O::Scalar::of(mix1(m.comps.iter().map(|c| c[i]))).bits()).collect();
        let g = bitv(unsafe { std::slice::from_raw_parts(p, need) });
        if !crate::stream::dst().borrow().intact::<O::Scalar>(need, true) { return Err("wrote outside the destination".into()) }
        same("filled", &g, &e)?;
        Ok(hash64(g.into_iter()))
    }))
}

pub fn z_std<I>() -> ZTerm<I> where I: SIMDZippedIterator + 'static, I::Vectors: Cat {
    ("count+last+fold", Box::new(|it, m| {
        let sel = m.n() % 4 + m.pos % 4;
        let e: Vec<Vec<u64>> = { let mut m = m; let mut r = vec![]; while let Some(v) = m.next() { r.push(v) } r };
        match sel % 4 {
            0 => same("count", lib(move || it.count())?, e.len())?,
            1 => same("last", lib(move || it.last())?.map(|v| v.cat()), e.last().cloned())?,
            2 => same("folded", lib(move || it.fold(vec![], |mut a, v| { a.push(v); a }))?.iter().map(|v| v.cat()).collect::<Vec<_>>(), e.clone())?,
            _ => same("collected", lib(move || it.collect::<Vec<_>>())?.iter().map(|v| v.cat()).collect::<Vec<_>>(), e.clone())?,
        }
        Ok(hash64(e.into_iter().flatten()))
    }))
}

pub type SL<S> = SIMDIter<&'static [S]>;
/// Component `j` of a zip: a slice of `n` elements.
pub fn comp<S, V>(j: usize, n: usize, hi: bool, color: usize) -> (Vec<S>, V)
where S: El + Packable<Vector = V>, V: Packed<Scalar = S> {
    let s: Vec<S> = (0..n).map(|i| S::tag(i + 9 * j, color)).collect();
    let _ = hi;
    (s, vec_tag(100 + 11 * j, color))
}
#[macro_export]
macro_rules! zslices {
    ($name:expr; $($t:ident $j:tt),*) => {{
        ZKind { name: $name.to_string(), count: std::rc::Rc::new(|n| n), clamps: false, mk: std::rc::Rc::new(|n, hi, color| {
            let mut comps = vec![]; let mut defs = vec![];
            let mut w = 0;
            let t = ($({
                let (s, d) = comp::<$t, <$t as faster::vecs::Packable>::Vector>($j, n, hi, color);
                comps.push(bitv(&s)); defs.push(bitv(lanes(&d)));
                w = <<$t as faster::vecs::Packable>::Vector as faster::vecs::Packed>::WIDTH;
                SIMDIter { position: 0, data: &*place($j, hi, &s), default: d }
            }),*);
            let it = lib(move || IntoSIMDZip::zip(t))?;
            Ok((it, Z { comps: std::rc::Rc::new(comps), defs: std::rc::Rc::new(defs), w, pos: 0, check_default: true }))
        }) }
    }}
}
