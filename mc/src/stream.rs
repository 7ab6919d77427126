//! Exhaustive exploration of streams of vectors over one sequence of scalars.
//! State of a stream: (length, position). From every state reachable by an
//! `advance`, all words of movement operations up to a depth are run on the
//! real iterator next to a reference model, followed by one terminal operation.
use crate::el::*;
use crate::rt::*;
use faster::vecs::{Packable, Packed};
use faster::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone)]
pub struct M { pub s: Rc<Vec<u64>>, pub d: Rc<Vec<u64>>, pub w: usize, pub x: u64, pub pos: usize, pub lazy: bool }
impl M {
    pub fn n(&self) -> usize { self.s.len() }
    pub fn rem(&self) -> usize { self.s.len().saturating_sub(self.pos) }
    pub fn next(&mut self) -> Option<Vec<u64>> {
        if self.pos + self.w <= self.s.len() {
            let r = self.s[self.pos..self.pos + self.w].iter().map(|b| b ^ self.x).collect();
            self.pos += self.w;
            Some(r)
        } else { None }
    }
    pub fn end(&mut self) -> Option<(Vec<u64>, usize)> {
        if self.pos < self.s.len() {
            let r = self.rem();
            if r > self.w { return self.next().map(|v| (v, 0)) }
            let e = self.w - r;
            let mut v: Vec<u64> = self.d[..e].to_vec();
            v.extend_from_slice(&self.s[self.pos..]);
            for b in v.iter_mut() { *b ^= self.x }
            self.pos = self.s.len();
            Some((v, e))
        } else { None }
    }
    /// All vectors a complete traversal delivers.
    pub fn all(&mut self) -> Vec<Vec<u64>> {
        let mut r = vec![];
        while let Some(v) = self.next() { r.push(v) }
        if let Some((v, _)) = self.end() { r.push(v) }
        r
    }
    pub fn rest(&self) -> Vec<u64> { self.s[self.pos.min(self.s.len())..].iter().map(|b| b ^ self.x).collect() }
}

pub fn xmask<S: El>() -> u64 { if S::FLOAT { 1 << (S::BITS - 1) } else if S::BITS == 64 { !0 } else { (1 << S::BITS) - 1 } }
pub fn flip<V: Packed>(v: V) -> V where V::Scalar: El {
    let mut l = [V::Scalar::default(); 64];
    for (i, x) in lanes(&v).iter().enumerate() { l[i] = V::Scalar::of(x.bits() ^ xmask::<V::Scalar>()) }
    vec_of(&l[..V::WIDTH])
}
pub fn vb<V: Packed>(v: &V) -> Vec<u64> where V::Scalar: El { bitv(lanes(v)) }

pub type Term<'t, I> = (&'static str, Box<dyn Fn(I, M) -> Result<u64, String> + 't>);
pub type UnpackNext<'t, I> = Option<&'t dyn Fn(I) -> (I, Option<u64>)>;

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}

pub fn queries<I, S, V>(it: &I, m: &M) -> Result<(), String>
where I: SIMDIterator<Scalar = S, Vector = V> + 'static, S: El + Packable, V: Packed<Scalar = S> {
    same("scalar_pos", it.scalar_pos(), m.pos)?;
    same("scalar_len", it.scalar_len(), m.n())?;
    same("vector_pos", it.vector_pos(), m.pos / m.w)?;
    same("vector_len", it.vector_len(), m.n() / m.w)?;
    same("len", it.len(), m.rem() / m.w)?;
    same("size_hint", it.size_hint(), (m.rem() / m.w, Some(m.rem() / m.w)))?;
    same("width", it.width(), m.w)?;
    same("size", it.size() as u32 * 8, S::BITS)?;
    // what a lazy map gives is not specified
    if m.x == 0 && !m.lazy { same("default", vb(&it.default()), m.d.to_vec())? }
    Ok(())
}

/// One movement operation on the real stream and on the model.
pub fn step<I, S, V>(op: u8, it: I, m: &mut M, check: bool, un: UnpackNext<I>) -> Result<I, String>
where I: SIMDIterator<Scalar = S, Vector = V> + 'static, S: El + Packable, V: Packed<Scalar = S> {
    let mut it = it;
    match op {
        b'N' => {
            let (i2, r) = lib(move || { let r = it.next(); (it, r) })?;
            it = i2;
            let e = m.next();
            if check { same("next", r.map(|v| vb(&v)), e)? }
        }
        b'D' => loop {
            let (i2, r) = lib(move || { let r = it.next(); (it, r) })?;
            it = i2;
            let e = m.next();
            let stop = e.is_none();
            if check { same("next", r.map(|v| vb(&v)), e)? }
            else if r.is_some() == stop { return Err("diverged".into()) }
            if stop { break }
        },
        b'E' => {
            let (i2, r) = lib(move || { let r = it.end(); (it, r) })?;
            it = i2;
            let e = m.end();
            if check { same("end", r.map(|(v, n)| (vb(&v), n)), e)? }
        }
        b'S' => {
            let (i2, r) = lib(move || { let r = it.nth(1); (it, r) })?;
            it = i2;
            let e = m.next().and_then(|_| m.next());
            if check { same("nth(1)", r.map(|v| vb(&v)), e)? }
        }
        b'A' => { it = lib(move || { it.advance(1); it })?; m.pos += 1 }
        b'B' => { let s = m.w + 1; it = lib(move || { it.advance(s); it })?; m.pos += s }
        // as far as there are numbers, twice; nothing is left then
        b'H' => {
            for s in &[usize::max_value() / 2 + 1, usize::max_value()] {
                let (i2, r) = lib(move || { it.advance(*s); let r = (it.len(), it.size_hint(), it.next().is_some(), it.end().is_some(), it.next().is_some()); (it, r) })?;
                it = i2;
                same("after a huge advance", r, (0, (0, Some(0)), false, false, false))?;
            }
            m.pos = GONE;
            return Ok(it)
        }
        b'F' => { it = lib(move || { it.finalize(); it })?; m.pos = m.n() }
        b'U' => {
            let (i2, r) = lib(|| (un.unwrap())(it))?;
            it = i2;
            let e = if m.pos < m.n() { m.pos += 1; Some(m.s[m.pos - 1] ^ m.x) } else { None };
            if check { same("scalar next", r, e)? }
        }
        _ => unreachable!(),
    }
    if check {
        let mm = m.clone();
        it = lib(move || { let q = queries(&it, &mm); (it, q) }).and_then(|(i, q)| q.map(|_| i))?;
    }
    Ok(it)
}

pub const GONE: usize = usize::max_value() / 4;
pub fn enabled(op: u8, m: &M, un: bool) -> bool {
    if m.pos == GONE { return false }
    match op {
        b'F' => m.pos <= m.n(),
        b'U' => un,
        _ => true,
    }
}

// ------------------------------------------------------------------ exploring
pub struct Case<'a> { pub n: usize, pub hi: bool, pub color: usize, pub start: usize, pub ops: &'a [u8] }
pub enum Stop { Infeasible, Bad(String) }
impl From<String> for Stop { fn from(s: String) -> Stop { Stop::Bad(s) } }
pub type Runner = Box<dyn Fn(&Case) -> Result<(u64, u64), Stop>>;

/// How to make a stream of one kind, next to its model.
pub struct Kind<I: 'static> {
    pub name: String,
    pub mk: Rc<dyn Fn(usize, bool, usize) -> Result<(I, M), String>>,
    pub un: UnpackNext<'static, I>,
    /// Checked once the stream is gone.
    pub after: Option<Rc<dyn Fn(usize, bool) -> Result<(), String>>>,
    /// Length of the stream made from `n` elements.
    pub count: fn(usize, usize) -> usize,
    pub arg: usize,
    /// An advance stops at the end.
    pub clamps: bool,
}
pub fn ident(n: usize, _: usize) -> usize { n }

fn run_case<I, S, V>(k: &Kind<I>, term: &Option<Term<'static, I>>, check: bool, q: &Case) -> Result<(u64, u64), Stop>
where I: SIMDIterator<Scalar = S, Vector = V> + 'static, S: El + Packable, V: Packed<Scalar = S> {
    let (mut it, mut m) = (k.mk)(q.n, q.hi, q.color)?;
    let mut nops = 0;
    if q.start > 0 {
        if k.clamps && q.start > m.n() { return Err(Stop::Infeasible) }
        let s = q.start;
        it = lib(move || { it.advance(s); it })?;
        m.pos = s;
        nops += 1;
    }
    if check {
        let mm = m.clone();
        it = lib(move || { let q = queries(&it, &mm); (it, q) }).and_then(|(i, q)| q.map(|_| i))?;
    }
    for op in q.ops {
        if !enabled(*op, &m, k.un.is_some()) || (*op == b'A' && k.clamps && m.pos >= m.n()) || (*op == b'B' && k.clamps && m.pos + m.w >= m.n()) { return Err(Stop::Infeasible) }
        it = step(*op, it, &mut m, check, k.un)?;
        nops += 1;
    }
    let h = match term { Some(t) => { nops += 1; (t.1)(it, m)? } None => { let h = hash64([m.pos as u64, m.n() as u64].iter().cloned()); drop(it); h } };
    if let Some(a) = &k.after { a(q.n, q.hi)? }
    Ok((h, nops))
}

#[derive(Clone, Copy, PartialEq)]
pub enum At { All, First }
pub struct Plan {
    pub words: Vec<(Vec<u8>, At)>, pub check: bool, pub lens: Vec<usize>, pub full: bool, pub w: usize,
    /// Lengths far beyond a vector, from a few positions, with the words of `far`.
    pub long: Vec<usize>, pub far: Vec<&'static str>,
}

pub fn words(alpha: &[u8], d: usize, at: At) -> Vec<(Vec<u8>, At)> {
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..d {
        let mut nx = vec![];
        for w in &last { for a in alpha { let mut v = w.clone(); v.push(*a); nx.push(v) } }
        last = nx;
    }
    last.into_iter().map(|w| (w, at)).collect()
}
/// All words up to the depth `all` from every position, and up to `first` from
/// the first two.
pub fn plan(c: &Ctx, w: usize, alpha: (&[u8], usize), first: (&[u8], usize), check: bool) -> Plan {
    let mut ws = vec![];
    if stepping() {
        let lens = vec![0, 1, w, 2 * w + 1];
        return Plan { words: words(b"", 0, At::First), check, lens, full: false, w, long: vec![], far: vec![""] }
    }
    for d in 0..=alpha.1 { ws.extend(words(alpha.0, d, At::All)) }
    for d in alpha.1 + 1..=first.1 { ws.extend(words(first.0, d, At::First)) }
    let top = if c.thorough() { 6 * w + 3 } else if w >= 16 { 3 * w + 3 } else { 4 * w + 3 };
    Plan { words: ws, check, lens: (0..=top).collect(), full: true, w, long: long(c, w, top), far: if check { vec!["", "DE", "NADEN"] } else { vec!["", "N"] } }
}
/// All remainders after up to 9 (thorough: 100) vectors, and most after up to 34;
/// all around 1000; and the lengths at which a counter of 8, 12 or 16 bits would turn
/// over (16: of wide vectors only, unless thorough).
pub fn long(c: &Ctx, w: usize, top: usize) -> Vec<usize> {
    let th = c.thorough();
    let r = if th { vec![(0, 100 * w + 2)] } else { vec![(0, 34 * w + 1)] };
    let mut l: Vec<usize> = r.into_iter().flat_map(|(a, b)| a..=b).filter(|n| *n > top && (th || w <= 8 || n / w < 10 || n % w < 3 || n % w + 3 > w || n % 3 == 0)).collect();
    for k in &[256usize, 4096, if th || w >= 16 { 65536 } else { 256 }] { for d in 0..3 { l.push(k + d - 1) } }
    for d in 0..2 * w { l.push(1000 + d) }
    l.sort();
    l.dedup();
    l
}

impl Plan {
    /// The long lengths of a stream that takes one of every `k` elements.
    pub fn per(mut self, k: usize, bits: usize) -> Plan {
        self.long = self.long.iter().map(|n| n * k + n % k).filter(|n| n * bits <= 8 << 20).collect();
        self
    }
}
fn far_starts(len: usize, w: usize) -> Vec<usize> {
    let mut s = vec![0];
    if len > 30000 && w < 8 { return s }
    for x in &[1, w + 1, 257, len.saturating_sub(w + 1)] { if *x <= len && !s.contains(x) { s.push(*x) } }
    s
}
pub fn explore(c: &mut Ctx, site: &str, p: &Plan, count: &dyn Fn(usize) -> usize, run: &Runner) {
    if !c.want_site(site) { return }
    let site: &'static str = Box::leak(site.to_string().into_boxed_str());
    let mut ncase = 0u64;
    let views: &[(bool, usize)] = if p.full { &[(true, 0), (false, 1), (true, 1), (false, 0)] } else { &[(true, 0), (false, 1)] };
    let mut one = |c: &mut Ctx, n: usize, hi: bool, color: usize, start: usize, w: &[u8]| {
        let wl = std::str::from_utf8(w).unwrap();
        let case = || format!("n={} hi={} color={} start={} ops={}", n, hi as u8, color, start, wl);
        if !c.want_case(case) { return }
        cur(site, &[n as u64, hi as u64, color as u64, start as u64]);
        cur_ops(wl);
        match run(&Case { n, hi, color, start, ops: w }) {
            Err(Stop::Infeasible) => {}
            r => {
                c.traces += 1;
                ncase += 1;
                match r {
                    Ok((h, k)) => { c.transitions += k; c.outcome(h); if n > 2 && ncase % 7 == 3 { c.sample(|| format!("{} {}: ok", site, case())) } }
                    Err(Stop::Bad(e)) => { c.transitions += 1; c.fail(site, case, || e) }
                    _ => {}
                }
            }
        }
    };
    for &n in &p.lens {
        let len = count(n);
        for &(hi, color) in views.iter().chain(&[(true, 2)]) {
            for start in 0..=len + 1 {
                if color == 2 && start > 1 { break }
                if stepping() && (color != 0 || start != 0 && start != 1 && start != p.w) { continue }
                c.states += 1;
                for (w, at) in &p.words {
                    if *at == At::First && start > 1 || color == 2 && w.len() > 1 { continue }
                    one(c, n, hi, color, start, w);
                }
            }
        }
    }
    for (i, &n) in p.long.iter().enumerate() {
        let len = count(n);
        let (hi, color) = if i % 3 == 2 { (true, 2) } else { views[i % views.len()] };
        for start in far_starts(len, p.w) {
            c.states += 1;
            for w in &p.far { one(c, n, hi, color, start, w.as_bytes()) }
        }
    }
    c.site(site, ncase);
}

/// Explore all terminals on one kind of stream.
pub fn go<I, S, V>(c: &mut Ctx, k: Kind<I>, p: &Plan, terms: Vec<Term<'static, I>>)
where I: SIMDIterator<Scalar = S, Vector = V> + 'static, S: El + Packable, V: Packed<Scalar = S> {
    let k = Rc::new(k);
    let mut ts: Vec<Option<Term<'static, I>>> = terms.into_iter().map(Some).collect();
    if p.check { ts.push(None) }
    for t in ts {
        if !c.mine() { continue }
        let site = format!("{}/{}/{}", t.as_ref().map(|t| t.0).unwrap_or("moves"), k.name, S::NAME);
        let (kk, check) = (k.clone(), p.check);
        let run: Runner = Box::new(move |q| run_case(&kk, &t, check, q));
        let (f, a) = (k.count, k.arg);
        explore(c, &site, p, &move |n| f(n, a), &run);
    }
}

// -------------------------------------------------------------------- buffers
thread_local! { static LAST: Cell<(usize, usize)> = Cell::new((0, 0)); }
/// One of a fixed set of guarded buffers.
pub fn buf(i: usize) -> &'static RefCell<GBuf> {
    thread_local! { static B: RefCell<Vec<&'static RefCell<GBuf>>> = RefCell::new(vec![]); }
    B.with(|b| {
        let mut b = b.borrow_mut();
        while b.len() <= i { b.push(Box::leak(Box::new(RefCell::new(GBuf::new(1 << 20))))) }
        b[i]
    })
}
pub const DST: usize = 15;
pub fn dst() -> &'static RefCell<GBuf> { buf(DST) }
/// Copy `s` into guarded buffer `i`.
pub fn place<S: El>(i: usize, hi: bool, s: &[S]) -> &'static mut [S] {
    let mut b = buf(i).borrow_mut();
    b.arm::<S>(s.len(), hi);
    let d: &'static mut [S] = b.place(s.len(), hi);
    d.copy_from_slice(s);
    if i == 0 { LAST.with(|l| l.set((d.as_ptr() as usize, s.len()))) }
    d
}
/// Reading must not change the source.
pub fn unchanged<S: El>(i: usize, n: usize, hi: bool) -> Result<(), String> {
    let mut b = buf(i).borrow_mut();
    if !b.intact::<S>(n, hi) { return Err("wrote outside the source".into()) }
    let s: &[S] = b.place(n, hi);
    if (0..3).any(|c| s.iter().enumerate().all(|(j, x)| x.bits() == S::tag(j, c).bits())) { Ok(()) } else { Err("the source was modified".into()) }
}

// ---------------------------------------------------------------------- kinds
pub struct From2<S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static> {
    pub slice: fn(&'static [S], V) -> SIMDIter<&'static [S]>,
    pub sref: fn(&'static &'static [S], V) -> SIMDIter<&'static [S]>,
    pub vec: fn(Vec<S>, V) -> SIMDIter<Vec<S>>,
    pub mu: fn(&'static mut [S], V) -> SIMDIter<&'static mut [S]>,
    pub muref: fn(&'static mut &'static mut [S], V) -> SIMDIter<&'static mut [S]>,
}
#[macro_export]
macro_rules! from2 { () => { From2 { slice: |s, d| s.simd_iter(d), sref: |s, d| s.simd_iter(d), vec: |s, d| s.into_simd_iter(d), mu: |s, d| s.simd_iter_mut(d), muref: |s, d| s.simd_iter_mut(d) } } }

pub fn model<S: El + Packable<Vector = V>, V: Packed<Scalar = S>>(n: usize, color: usize) -> (Vec<S>, V, M) {
    let s: Vec<S> = (0..n).map(|i| S::tag(i, color)).collect();
    let d: V = vec_tag(170, color);
    let m = M { s: Rc::new(bitv(&s)), d: Rc::new(vb(&d)), w: V::WIDTH, x: 0, pos: 0, lazy: false };
    (s, d, m)
}
fn un<I>() -> UnpackNext<'static, I> where I: SIMDIterator + SIMDArray + 'static, <I as SIMDObject>::Scalar: El {
    Some(Box::leak(Box::new(|i: I| { let mut u = i.unpack(); let r = u.next(); (u.pack(), r.map(|x| x.bits())) })))
}
macro_rules! sv { ($(#[$a:meta])* $n:ident $($r:tt)*) => { $(#[$a])* pub fn $n<S, V> $($r)* }}
pub fn kind<I: 'static>(name: &str, un: UnpackNext<'static, I>, after: Option<Rc<dyn Fn(usize, bool) -> Result<(), String>>>,
    mk: impl Fn(usize, bool, usize) -> Result<(I, M), String> + 'static) -> Kind<I> {
    Kind { name: name.to_string(), mk: Rc::new(mk), un, after, count: ident, arg: 0, clamps: false }
}
sv! { k_slice(f: &From2<S, V>) -> Kind<SIMDIter<&'static [S]>> where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let f = f.slice;
    kind("slice", un(), Some(Rc::new(|n, hi| unchanged::<S>(0, n, hi))),
        move |n, hi, color| { let (s, d, m) = model::<S, V>(n, color); let p = place(0, hi, &s); Ok((lib(move || f(p, d))?, m)) })
} }
sv! { k_sliceref(f: &From2<S, V>) -> Kind<SIMDIter<&'static [S]>> where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let f = f.sref;
    kind("sliceref", un(), Some(Rc::new(|n, hi| unchanged::<S>(0, n, hi))),
        move |n, hi, color| {
            let (s, d, m) = model::<S, V>(n, color);
            let bx = Box::into_raw(Box::new(&*place(0, hi, &s)));
            let i = lib(move || f(unsafe { &*bx }, d))?;
            unsafe { drop(Box::from_raw(bx)) };
            Ok((i, m))
        })
} }
sv! { k_vec(f: &From2<S, V>) -> Kind<SIMDIter<Vec<S>>> where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let f = f.vec;
    kind("vec", un(), None, move |n, _hi, color| { let (s, d, m) = model::<S, V>(n, color); Ok((lib(move || { let v = s.clone(); f(v, d) })?, m)) })
} }
sv! { k_mut(f: &From2<S, V>) -> Kind<SIMDIter<&'static mut [S]>> where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let f = f.mu;
    kind("mutslice", un(), Some(Rc::new(|n, hi| unchanged::<S>(0, n, hi))),
        move |n, hi, color| { let (s, d, m) = model::<S, V>(n, color); let p = place(0, hi, &s); Ok((lib(move || f(p, d))?, m)) })
} }
sv! { /// The source is about to be modified.
    k_mutable(f: &From2<S, V>, by_ref: bool) -> Kind<SIMDIter<&'static mut [S]>> where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let (f, g) = (f.mu, f.muref);
    kind(if by_ref { "mutref" } else { "mut" }, un(), Some(Rc::new(|n, hi| if buf(0).borrow().intact::<S>(n, hi) { Ok(()) } else { Err("wrote outside the slice".to_string()) })),
        move |n, hi, color| {
            let (s, d, m) = model::<S, V>(n, color);
            let p = place(0, hi, &s);
            if !by_ref { return Ok((lib(move || f(p, d))?, m)) }
            let bx = Box::into_raw(Box::new(p));
            let i = lib(move || g(unsafe { &mut *bx }, d))?;
            unsafe { drop(Box::from_raw(bx)) };
            Ok((i, m))
        })
} }
sv! { k_map(f: &From2<S, V>) -> Kind<SIMDMap<SIMDIter<&'static [S]>, fn(V) -> V>> where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let f = f.slice;
    kind("map", None, Some(Rc::new(|n, hi| unchanged::<S>(0, n, hi))),
        move |n, hi, color| { let (s, d, mut m) = model::<S, V>(n, color); m.x = xmask::<S>(); let p = place(0, hi, &s); Ok((lib(move || f(p, d).simd_map(flip as fn(V) -> V))?, m)) })
} }
sv! { k_adapter() -> Kind<SIMDAdapter<std::vec::IntoIter<S>, V>> where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let mut k = kind("adapter", None, None, move |n, _hi, color| {
        let (s, d, m) = model::<S, V>(n, color);
        // what the scratch vector holds at first must not matter
        let junk: V = vec_tag(100, color);
        Ok((lib(move || SIMDAdapter { iter: s.clone().into_iter(), scratch: junk, default: d, position: 0 })?, m))
    });
    k.clamps = true;
    k
} }
pub fn xor<V: Packed>(v: (V, V)) -> V where V::Scalar: El {
    let mut l = [V::Scalar::default(); 64];
    for (i, (x, y)) in lanes(&v.0).iter().zip(lanes(&v.1)).enumerate() { l[i] = V::Scalar::of(x.bits() ^ y.bits()) }
    vec_of(&l[..V::WIDTH])
}
pub type ZipMap<S, V> = faster::zip::SIMDZipMap<faster::zip::Zip<(SIMDIter<&'static [S]>, SIMDIter<&'static [S]>)>, fn((V, V)) -> V>;
sv! { k_zipmap(f: &From2<S, V>) -> Kind<ZipMap<S, V>> where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let f = f.slice;
    kind("zipmap", None, Some(Rc::new(|n, hi| unchanged::<S>(0, n, hi))), move |n, hi, color| {
        let (s, d, mut m) = model::<S, V>(n, color);
        let s2: Vec<S> = (0..n).map(|i| S::tag(7 * i + 3, color)).collect();
        let d2: V = vec_tag(90, color);
        m.s = Rc::new(s.iter().zip(&s2).map(|(a, b)| a.bits() ^ b.bits()).collect());
        // the default of a zipped map is its function of the defaults
        m.lazy = true;
        m.d = Rc::new(vb(&xor((d, d2))));
        let (p, q) = (place(0, hi, &s), place(1, hi, &s2));
        Ok((lib(move || faster::zip::SIMDZippedIterator::simd_map(IntoSIMDZip::zip((f(p, d), f(q, d2))), xor as fn((V, V)) -> V))?, m))
    })
} }
/// Stream `j` of the strides with `count` streams over a slice (or a stream over one).
pub fn k_stride<S, V>(count: usize, j: usize) -> Kind<stride::PackedStride<'static, &'static [S]>>
where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    let slot: &'static Cell<&'static [S]> = Box::leak(Box::new(Cell::new(&[][..])));
    let mut k = kind(&format!("stride{}.{}", count, j), un(), Some(Rc::new(|n, hi| unchanged::<S>(0, n, hi))), move |n, hi, color| {
        let (s, _, _) = model::<S, V>(n, color);
        let ds: Vec<V> = (0..count).map(|i| vec_tag(60 + 7 * i, color)).collect();
        let own: Vec<S> = (0..n / count).map(|i| s[i * count + j]).collect();
        let m = M { s: Rc::new(bitv(&own)), d: Rc::new(vb(&ds[j])), w: V::WIDTH, x: 0, pos: 0, lazy: false };
        slot.set(place(0, hi, &s));
        let r: &'static &'static [S] = unsafe { &*slot.as_ptr() };
        let i = lib(move || match (count, j) {
            (2, 0) => r.stride_two((ds[0], ds[1])).0,
            (2, _) => r.stride_two((ds[0], ds[1])).1,
            (3, 0) => r.stride_three((ds[0], ds[1], ds[2])).0,
            (3, 1) => r.stride_three((ds[0], ds[1], ds[2])).1,
            (3, _) => r.stride_three((ds[0], ds[1], ds[2])).2,
            (4, 0) => r.stride_four((ds[0], ds[1], ds[2], ds[3])).0,
            (4, 1) => r.stride_four((ds[0], ds[1], ds[2], ds[3])).1,
            (4, 2) => r.stride_four((ds[0], ds[1], ds[2], ds[3])).2,
            (4, _) => r.stride_four((ds[0], ds[1], ds[2], ds[3])).3,
            (9, j) => {
                let t = r.stride_nine((ds[0], ds[1], ds[2], ds[3], ds[4], ds[5], ds[6], ds[7], ds[8]));
                match j { 0 => t.0, 1 => t.1, 2 => t.2, 3 => t.3, 4 => t.4, 5 => t.5, 6 => t.6, 7 => t.7, _ => t.8 }
            }
            _ => r.stride(count, &ds).swap_remove(j),
        })?;
        Ok((i, m))
    });
    k.count = |n, c| n / c;
    k.arg = count;
    k
}
/// Stream `j` of `count` over any other array, collected with `stride_into`.
pub fn k_strideof<S, V, A>(name: &str, count: usize, j: usize, into_list: bool, mk: impl Fn(Vec<S>, bool, V) -> A + 'static) -> Kind<stride::PackedStride<'static, A>>
where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static, A: SIMDArray<Scalar = S, Vector = V> + 'static {
    let slot: &'static RefCell<Option<A>> = Box::leak(Box::new(RefCell::new(None)));
    let mut k = kind(&format!("stride{}.{}of{}{}", count, j, name, if into_list { "-into" } else { "" }), un(), None, move |n, hi, color| {
        let (s, _, _) = model::<S, V>(n, color);
        let ds: Vec<V> = (0..count).map(|i| vec_tag(60 + 7 * i, color)).collect();
        let own: Vec<S> = (0..n / count).map(|i| s[i * count + j]).collect();
        let m = M { s: Rc::new(bitv(&own)), d: Rc::new(vb(&ds[j])), w: V::WIDTH, x: 0, pos: 0, lazy: false };
        *slot.borrow_mut() = Some(mk(s, hi, vec_tag(33, color)));
        let r: &'static A = unsafe { (*slot.as_ptr()).as_ref().unwrap() };
        let i = lib(move || if into_list { r.stride_into::<std::collections::LinkedList<_>>(count, &ds).into_iter().nth(j).unwrap() } else { match (count, j) {
            (2, 0) => r.stride_two((ds[0], ds[1])).0,
            (2, _) => r.stride_two((ds[0], ds[1])).1,
            _ => r.stride(count, &ds).swap_remove(j),
        } })?;
        Ok((i, m))
    });
    k.count = |n, c| n / c;
    k.arg = count;
    k
}
pub fn k_nested<S, V>(outer: usize, inner: usize) -> Kind<stride::PackedStride<'static, stride::PackedStride<'static, &'static [S]>>> where S: El + Packable<Vector = V>, V: Packed<Scalar = S> + 'static {
    // the outer stream takes every second element of the last stream of three
    let slot: &'static Cell<Option<stride::PackedStride<'static, &'static [S]>>> = Box::leak(Box::new(Cell::new(None)));
    let sl: &'static Cell<&'static [S]> = Box::leak(Box::new(Cell::new(&[][..])));
    let mut k = kind("stride2.1ofstride3.2", un(), Some(Rc::new(|n, hi| unchanged::<S>(0, n, hi))), move |n, hi, color| {
        let (s, _, _) = model::<S, V>(n, color);
        let ds: Vec<V> = (0..3).map(|i| vec_tag(60 + 7 * i, color)).collect();
        let own: Vec<S> = (0..n / inner).map(|i| s[i * inner + 2]).collect();
        let own: Vec<S> = (0..own.len() / outer).map(|i| own[i * outer + 1]).collect();
        let m = M { s: Rc::new(bitv(&own)), d: Rc::new(vb(&ds[1])), w: V::WIDTH, x: 0, pos: 0, lazy: false };
        sl.set(place(0, hi, &s));
        let r: &'static &'static [S] = unsafe { &*sl.as_ptr() };
        slot.set(Some(r.stride_three((ds[0], ds[1], ds[2])).2));
        let q: &'static stride::PackedStride<'static, &'static [S]> = unsafe { (*slot.as_ptr()).as_ref().unwrap() };
        Ok((lib(move || q.stride_two((ds[0], ds[1])).1)?, m))
    });
    k.count = |n, c| n / c;
    k.arg = inner * outer;
    k
}
// ------------------------------------------------------------------ terminals
pub fn t_collect<'t, I, S, V>() -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    ("collect", Box::new(|it, m| {
        let mut it = it;
        let r = lib(move || it.scalar_collect())?;
        let g = bitv(&r);
        same("collected", &g, &m.rest())?;
        // the buffer handed out must be usable as an ordinary vector
        if r.capacity() < r.len() { return Err("capacity below length".into()) }
        Ok(hash64(g.into_iter()))
    }))
}
pub fn t_mapcollect<'t, I, S, V>() -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    ("map+collect", Box::new(|it, m| {
        let calls = RefCell::new(vec![]);
        let r = { let c = &calls; lib(move || it.simd_map(|v: V| { c.borrow_mut().push(v); flip(v) }).scalar_collect())? };
        let e: Vec<u64> = m.rest().iter().map(|b| b ^ xmask::<S>()).collect();
        let g = bitv(&r);
        same("collected", &g, &e)?;
        let seen: Vec<Vec<u64>> = calls.borrow().iter().map(|v| vb(v)).collect();
        same("closure arguments", seen, { let mut m = m; m.all() })?;
        Ok(hash64(g.into_iter()))
    }))
}
pub fn t_mapmap<'t, I, S, V>() -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    ("map+map+collect", Box::new(|it, m| {
        let r = lib(move || it.simd_map(|v: V| flip(v)).simd_map(|v: V| flip(v)).scalar_collect())?;
        let g = bitv(&r);
        same("collected", &g, &m.rest())?;
        Ok(hash64(g.into_iter()))
    }))
}
/// What every iterator has: counting, the last item, folding, skipping.
pub fn t_iter<'t, I, S, V>() -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    ("count+last+fold+nth", Box::new(|it, m| {
        let (sel, half) = (m.n() % 5 + m.pos % 5, m.n() % 2 == 0);
        let e: Vec<Vec<u64>> = { let mut m = m; let mut r = vec![]; while let Some(v) = m.next() { r.push(v) } r };
        let k = e.len();
        match sel % 5 {
            0 => same("count", lib(move || it.count())?, k)?,
            1 => same("last", lib(move || it.last())?.map(|v| vb(&v)), e.last().cloned())?,
            2 => {
                let g = lib(move || it.fold(vec![], |mut a: Vec<V>, v| { a.push(v); a }))?;
                same("folded", g.iter().map(|v| vb(v)).collect::<Vec<_>>(), e.clone())?
            }
            3 => {
                let (g, left) = lib(move || { let mut it = it; let a: Vec<V> = it.by_ref().take(k / 2).collect(); let b: Vec<V> = it.collect(); (a, b) })?;
                same("taken", g.iter().map(|v| vb(v)).collect::<Vec<_>>(), e[..k / 2].to_vec())?;
                same("left", left.iter().map(|v| vb(v)).collect::<Vec<_>>(), e[k / 2..].to_vec())?
            }
            _ => {
                let j = if half { k / 2 } else { k };
                let (g, n) = lib(move || { let mut it = it; let g = it.nth(j); (g, it.next()) })?;
                same("nth", g.map(|v| vb(&v)), e.get(j).cloned())?;
                same("next after nth", n.map(|v| vb(&v)), e.get(j + 1).cloned())?
            }
        }
        Ok(hash64(e.into_iter().flatten()))
    }))
}
pub fn t_reduce<'t, I, S, V>() -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    ("reduce", Box::new(|it, m| {
        let mut it = it;
        let (seen, again) = lib(move || {
            let a = it.simd_reduce(vec![], |mut acc: Vec<V>, v| { acc.push(v); acc });
            let b = it.simd_reduce(0usize, |acc, _| acc + 1);
            (a, b)
        })?;
        let g: Vec<Vec<u64>> = seen.iter().map(|v| vb(v)).collect();
        let e = { let mut m = m; m.all() };
        same("reduced over", &g, &e)?;
        same("vectors after exhaustion", again, 0)?;
        Ok(hash64(g.into_iter().flatten()))
    }))
}
pub fn t_doeach<'t, I, S, V>() -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    ("do_each", Box::new(|it, m| {
        let mut it = it;
        let (seen, again) = lib(move || {
            let mut s: Vec<V> = vec![];
            it.simd_do_each(|v| s.push(v));
            let mut k = 0;
            it.simd_do_each(|_| k += 1);
            (s, k)
        })?;
        let g: Vec<Vec<u64>> = seen.iter().map(|v| vb(v)).collect();
        let e = { let mut m = m; m.all() };
        same("visited", &g, &e)?;
        same("vectors after exhaustion", again, 0)?;
        Ok(hash64(g.into_iter().flatten()))
    }))
}
pub fn t_std<'t, I, S, V>() -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    ("for-loop+end", Box::new(|it, m| {
        let mut it = it;
        let seen = lib(move || {
            let mut s: Vec<V> = vec![];
            for v in it.by_ref() { s.push(v) }
            if let Some((v, _)) = it.end() { s.push(v) }
            s
        })?;
        let g: Vec<Vec<u64>> = seen.iter().map(|v| vb(v)).collect();
        same("visited", &g, &{ let mut m = m; m.all() })?;
        Ok(hash64(g.into_iter().flatten()))
    }))
}
#[derive(Clone, Copy, PartialEq)]
pub enum Sz { Exact, Bigger, Short(usize), Empty }
pub fn t_fill<'t, I, S, V>(name: &'static str, all: bool, sz: Sz, dst: &'t RefCell<GBuf>) -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    (name, Box::new(move |it, m| {
        let want: Vec<u64> = if all { let mut m = m.clone(); m.all().concat() } else { m.rest() };
        let need = want.len();
        let len = match sz {
            Sz::Exact => need,
            Sz::Bigger => need + m.w + 1,
            Sz::Short(k) => { if k > need { return Ok(0) } need - k }
            Sz::Empty => 0,
        };
        let hi = true;
        let mut b = dst.borrow_mut();
        b.arm::<S>(len, hi);
        let before: Vec<S> = (0..len).map(|i| S::of(0x5b5b5b5b5b5b5b5b ^ i as u64 & 0x0f)).collect();
        let sl: &'static mut [S] = b.place(len, hi);
        sl.copy_from_slice(&before);
        let p = sl.as_ptr() as usize;
        let mut it = it;
        let r = lib(move || { let r = if all { it.scalar_fill_all(sl) } else { it.scalar_fill(sl) }; (r.as_ptr() as usize, r.len()) });
        let now = bitv(b.place::<S>(len, hi));
        if !b.intact::<S>(len, hi) { return Err("wrote outside the destination".into()) }
        if len >= need {
            same("returned slice", r.map_err(|e| format!("panicked: {}", e))?, (p, len))?;
            let mut e = want.clone();
            e.extend(before[need..].iter().map(|x| x.bits()));
            same("destination", &now, &e)?;
        } else if let Ok(_) = r {
            return Err(format!("filled {} elements into a destination of {} without an error", need, len));
        }
        Ok(hash64(now.into_iter()))
    }))
}
pub fn t_collect_all<'t, I, S, V>() -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    ("collect_all", Box::new(|it, m| {
        let mut it = it;
        let r = lib(move || it.scalar_collect_all())?;
        let g = bitv(&r);
        same("collected", &g, &{ let mut m = m; m.all().concat() })?;
        Ok(hash64(g.into_iter()))
    }))
}
pub fn t_unroll<'t, I, S, V>(name: &'static str, amt: usize) -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    (name, Box::new(move |it, m| {
        let mut it = it;
        let start = m.pos;
        let (chunks, tail, more) = lib(move || {
            let mut ch: Vec<(usize, usize, Vec<V>)> = vec![];
            let more;
            {
                let mut u = it.unroll(amt);
                loop {
                    let pos = u.chunk_pos();
                    match u.next() { Some(s) => { let v = s.to_vec(); ch.push((pos, u.chunk_len(), v)) } None => break }
                }
                more = u.next().is_some();
            }
            (ch, it.end(), more)
        })?;
        let mut m = m;
        let mut g: Vec<Vec<u64>> = vec![];
        for (i, (p, l, ch)) in chunks.iter().enumerate() {
            same("chunk_len", *l, amt)?;
            same("chunk_pos", *p, (start + i * amt * m.w) / m.w / amt)?;
            let full = i + 1 < chunks.len();
            if ch.len() > amt || ch.is_empty() || (full && ch.len() != amt) { return Err(format!("chunk {} of {} has {} vectors", i, chunks.len(), ch.len())) }
            for v in ch { g.push(vb(v)) }
        }
        let mut e = vec![];
        while let Some(v) = m.next() { e.push(v) }
        same("unrolled vectors", &g, &e)?;
        same("end after unroll", tail.map(|(v, n)| (vb(&v), n)), m.end())?;
        same("chunks after exhaustion", more, false)?;
        Ok(hash64(g.into_iter().flatten()))
    }))
}
/// Stop an unrolled traversal after `take` chunks and carry on with the stream itself.
pub fn t_unroll_stop<'t, I, S, V>(name: &'static str, amt: usize, take: usize) -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    (name, Box::new(move |it, m| {
        let mut it = it;
        let got = lib(move || {
            let mut s: Vec<V> = vec![];
            { let mut u = it.unroll(amt); for _ in 0..take { if let Some(c) = u.next() { s.extend_from_slice(c) } } }
            while let Some(v) = it.next() { s.push(v) }
            if let Some((v, _)) = it.end() { s.push(v) }
            s
        })?;
        let g: Vec<Vec<u64>> = got.iter().map(|v| vb(v)).collect();
        same("vectors", &g, &{ let mut m = m; m.all() })?;
        Ok(0)
    }))
}
pub fn t_unpack<'t, I, S, V>() -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + SIMDArray + 't, S: El + Packable, V: Packed<Scalar = S> {
    ("unpack", Box::new(|it, m| {
        let (r, pos) = lib(move || { let mut u = it.unpack(); let mut r = vec![]; while let Some(x) = u.next() { r.push(x) } let p = u.next().is_none(); (r, (p, u.pack().scalar_pos())) })?;
        let g = bitv(&r);
        same("scalars", &g, &m.rest())?;
        same("exhausted, position", pos, (true, m.pos.max(m.n())))?;
        Ok(hash64(g.into_iter()))
    }))
}
/// j scalars, then back to vectors.
pub fn t_unpack_pack<'t, I, S, V>(name: &'static str, j: usize) -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + SIMDArray + 't, S: El + Packable, V: Packed<Scalar = S> {
    (name, Box::new(move |it, m| {
        let (sc, vs) = lib(move || {
            let mut u = it.unpack();
            let mut sc = vec![];
            for _ in 0..j { if let Some(x) = u.next() { sc.push(x) } }
            let mut p = u.pack();
            let mut s: Vec<V> = vec![];
            while let Some(v) = p.next() { s.push(v) }
            if let Some((v, _)) = p.end() { s.push(v) }
            (sc, s)
        })?;
        let mut m = m;
        let mut e = vec![];
        for _ in 0..j { if m.pos < m.n() { e.push(m.s[m.pos] ^ m.x); m.pos += 1 } }
        same("scalars", bitv(&sc), e)?;
        let g: Vec<Vec<u64>> = vs.iter().map(|v| vb(v)).collect();
        same("vectors after packing again", g, m.all())?;
        Ok(0)
    }))
}
/// The closure of a map panics on its `at`-th call, and is not asked again.
pub fn t_foreach<'t, S, V>(name: &'static str, panic_at: usize) -> Term<'t, SIMDIter<&'static mut [S]>>
where S: El + Packable<Vector = V>, V: Packed<Scalar = S> {
    (name, Box::new(move |it, m| {
        let mut it = it;
        let ptr = LAST.with(|l| l.get().0) as *const S;
        let n = m.n();
        let calls = RefCell::new(vec![]);
        let r = {
            let c = &calls;
            lib(move || {
                it.simd_for_each(|v| {
                    let k = c.borrow().len();
                    c.borrow_mut().push(*v);
                    if k == panic_at { panic!("closure") }
                    *v = flip(*v);
                });
                let mut more = 0;
                it.simd_for_each(|_| more += 1);
                more
            })
        };
        let now = bitv(unsafe { std::slice::from_raw_parts(ptr, n) });
        let e = { let mut m = m.clone(); m.all() };
        let seen: Vec<Vec<u64>> = calls.borrow().iter().map(|v| vb(v)).collect();
        let done = if panic_at < e.len() { panic_at } else { e.len() };
        same("closure arguments", &seen[..], &e[..(done + 1).min(e.len())])?;
        match r {
            Ok(more) => { if done < e.len() { return Err("the closure's panic was lost".into()) } same("vectors after exhaustion", more, 0)? }
            Err(x) => if done == e.len() || x != "closure" { return Err(format!("panicked: {}", x)) },
        }
        let upto = if done == e.len() { m.n() } else { m.pos + done * m.w };
        let want: Vec<u64> = m.s.iter().enumerate().map(|(i, b)| if i >= m.pos && i < upto { b ^ xmask::<S>() } else { *b }).collect();
        same("slice", &now, &want)?;
        Ok(hash64(now.into_iter()))
    }))
}
/// Closures that panic inside collect, fill and reduce.
pub fn t_panic_read<'t, I, S, V>(name: &'static str, at: usize, dst: &'t RefCell<GBuf>) -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    (name, Box::new(move |it, m| {
        let total = { let mut m = m.clone(); m.all().len() };
        let mut b = dst.borrow_mut();
        let need = m.rem();
        b.arm::<S>(need, true);
        let sl: &'static mut [S] = b.place(need, true);
        for (i, x) in sl.iter_mut().enumerate() { *x = S::of(0x5b ^ (i & 3) as u64) }
        let calls = RefCell::new(0);
        let r = { let c = &calls; lib(move || { it.simd_map(|v: V| { let k = *c.borrow(); *c.borrow_mut() += 1; if k == at { panic!("closure") } flip(v) }).scalar_fill(sl); }) };
        let now = bitv(b.place::<S>(need, true));
        if !b.intact::<S>(need, true) { return Err("wrote outside the destination".into()) }
        let full: Vec<u64> = m.rest().iter().map(|b| b ^ xmask::<S>()).collect();
        if at >= total {
            r.map_err(|e| format!("panicked: {}", e))?;
            same("filled", &now, &full)?;
            return Ok(1);
        }
        match r { Err(ref x) if x == "closure" => {}, Err(x) => return Err(format!("panicked otherwise: {}", x)), Ok(_) => return Err("the closure's panic was lost".into()) }
        same("closure calls", *calls.borrow(), at + 1)?;
        let mut e: Vec<u64> = (0..need).map(|i| S::of(0x5b ^ (i & 3) as u64).bits()).collect();
        e[..at * m.w].copy_from_slice(&full[..at * m.w]);
        same("destination after the panic", &now, &e)?;
        Ok(2)
    }))
}

/// A closure that panics inside a collect: the panic comes out, the stream can go on.
pub fn t_panic_collect<'t, I, S, V>(name: &'static str, at: usize) -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + 't, S: El + Packable, V: Packed<Scalar = S> {
    (name, Box::new(move |it, m| {
        let mut m = m;
        let total = m.clone().all().len();
        let calls = Cell::new(0usize);
        let (first, second) = { let c = &calls; lib(move || {
            let mut mp = it.simd_map(|v: V| { let k = c.get(); c.set(k + 1); if k == at { panic!("closure") } flip(v) });
            let first = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mp.scalar_collect()));
            // the stream is past the vector the closure panicked on
            let second = if first.is_err() { Some(mp.scalar_collect()) } else { None };
            (first.ok(), second)
        })? };
        let x = xmask::<S>();
        if at >= total {
            let e: Vec<u64> = m.rest().iter().map(|b| b ^ x).collect();
            return same("collected", first.map(|f| bitv(&f)), Some(e)).map(|_| 1);
        }
        same("first collect", first.is_some(), false)?;
        let seen = { let mut k = 0; while k < at { let _ = m.next(); k += 1 } if m.next().is_none() { m.end(); } m };
        let e: Vec<u64> = seen.rest().iter().map(|b| b ^ x).collect();
        same("collected after the panic", second.map(|f| bitv(&f)), Some(e))?;
        same("closure calls", calls.get(), total)?;
        Ok(2)
    }))
}
/// Random access to a stream's elements, wherever the stream is.
pub fn t_array<'t, I, S, V>() -> Term<'t, I>
where I: SIMDIterator<Scalar = S, Vector = V> + SIMDArray + 't, S: El + Packable, V: Packed<Scalar = S> {
    ("array", Box::new(move |it, m| {
        let (s, w, n) = (m.s.clone(), m.w, m.n());
        if n > 4 * w + 3 && m.pos != 1 { return Ok(0) }
        let got = lib(move || {
            let sc: Vec<S> = (0..n).map(|i| it.load_scalar(i)).collect();
            let us: Vec<S> = (0..n).map(|i| unsafe { it.load_scalar_unchecked(i) }).collect();
            let vs: Vec<V> = (0..(n + 1).saturating_sub(w)).map(|i| it.load(i)).collect();
            let uv: Vec<V> = (0..(n + 1).saturating_sub(w)).map(|i| unsafe { it.load_unchecked(i) }).collect();
            (sc, us, vs, uv)
        })?;
        same("load_scalar", bitv(&got.0), s.to_vec())?;
        same("load_scalar_unchecked", bitv(&got.1), s.to_vec())?;
        for i in 0..(n + 1).saturating_sub(w) {
            same("load", vb(&got.2[i]), s[i..i + w].to_vec())?;
            same("load_unchecked", vb(&got.3[i]), s[i..i + w].to_vec())?;
        }
        Ok(hash64(got.2.iter().flat_map(|v| vb(v))))
    }))
}
