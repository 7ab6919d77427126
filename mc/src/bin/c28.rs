//! The reports of the `trace` feature: what two threads print, and what is in the
//! log file, after every word of operations of both.
use faster::arch::current::vecs::*;
use faster::intrin::sqrt::Sqrt as VSqrt;
use faster::*;
use mc::rt::*;
use std::collections::HashSet;
use std::io::Write;
use std::path::PathBuf;
use std::sync::mpsc::{channel, Receiver, Sender};

type Op = (&'static str, fn() -> u64);
fn h<T: std::fmt::Debug>(x: T) -> u64 { hash64(format!("{:?}", x).bytes().map(|b| b as u64)) }
fn rv<T: Copy>(x: T) -> T { unsafe { std::ptr::read_volatile(&x) } }
/// Operations of which some are implemented by single instructions, some by scalar
/// code, and some by one another.
fn table() -> Vec<Op> {
    let mut t: Vec<Op> = vec![];
    macro_rules! un { ($n:expr, [$($v:ident),*], $x:ident, $e:expr) => { $( t.push((concat!($n, "/", stringify!($v)), {
        #[inline(never)] fn f() -> u64 { let $x = rv($v::splat(3 as _).replace(1, 7 as _)); h($e) } f })); )* } }
    macro_rules! bi { ($n:expr, [$($v:ident),*], $x:ident, $y:ident, $e:expr) => { $( t.push((concat!($n, "/", stringify!($v)), {
        #[inline(never)] fn f() -> u64 { let $x = rv($v::splat(9 as _).replace(1, 7 as _)); let $y = rv($v::splat(2 as _).replace(0, 1 as _)); h($e) } f })); )* } }
    macro_rules! up { ($($v:ident $w:ident)*) => { $( t.push((concat!("upcast/", stringify!($v), "->", stringify!($w)), {
        #[inline(never)] fn f() -> u64 { let r: ($w, $w) = Upcast::<$w>::upcast(rv($v::splat(3 as _).replace(1, 7 as _))); h(r) } f })); )* } }
    macro_rules! down { ($($v:ident $w:ident)*) => { $( t.push((concat!("downcast/", stringify!($v), "->", stringify!($w)), {
        #[inline(never)] fn f() -> u64 { let r: $w = Downcast::<$w>::saturating_downcast(rv($v::splat(3 as _)), rv($v::splat(9 as _))); h(r) } f })); )* } }
    un!("abs", [i8x16, i8x32, i16x8, i32x8, i64x4, f32x4, f32x8, f64x2, f64x4], x, Abs::abs(&x));
    bi!("hadd", [u8x16, i16x8, i16x16, i32x4, i32x8, i64x2, f32x4, f32x8, f64x4], x, y, HAdd::hadd(&x, y));
    bi!("hsub", [i16x8, i16x16, i32x4, i32x8, f32x8, f64x2, i64x4], x, y, HSub::hsub(&x, y));
    bi!("saturating_hadd", [i16x8, i16x16, u8x32, i32x4], x, y, SaturatingHAdd::saturating_hadd(&x, y));
    bi!("saturating_hsub", [i16x8, i16x16, u16x8], x, y, SaturatingHSub::saturating_hsub(&x, y));
    bi!("min", [u8x16, i8x16, u16x8, i32x8, f32x8, f64x2], x, y, Cmp::min(&x, y));
    bi!("max", [u8x32, i16x16, u32x4], x, y, Cmp::max(&x, y));
    bi!("saturating_add", [u8x16, i16x16, u16x8], x, y, SaturatingAdd::saturating_add(&x, y));
    bi!("saturating_sub", [i8x32, u16x8, i16x8], x, y, SaturatingSub::saturating_sub(&x, y));
    un!("sum", [u8x16, i32x8, f64x2], x, Sum::sum(&x));
    un!("sum_upcast", [u8x32, i16x8, i32x4, f32x8], x, UpcastSum::sum_upcast(&x));
    un!("count_ones", [u8x16, i16x16, u64x4, i32x4], x, Popcnt::count_ones(&x));
    un!("floor", [f32x4, f32x8, f64x2, f64x4], x, Round::floor(&x));
    un!("sqrt", [f32x8, f64x2], x, VSqrt::sqrt(&x));
    un!("swap_bytes", [u16x8, i32x8, u64x2], x, Reendianize::swap_bytes(&x));
    bi!("merge_halves", [u8x16, f64x4], x, y, Merge::merge_halves(&x, y));
    bi!("merge_interleaved", [u8x16, u64x2], x, y, Merge::merge_interleaved(&x, y));
    bi!("merge_partitioned", [i16x8, f32x8], x, y, Merge::merge_partitioned(&x, y, 1));
    bi!("destride_two", [u8x16, i16x16, u32x8, i32x4], x, y, Destride::destride_two(x, y));
    bi!("destride_four", [u8x32, u16x8], x, y, Destride::destride_four(x, y, x, y));
    up!(u8x16 u16x8 i8x32 i16x16 i16x8 i32x4 u32x4 u64x2 f32x8 f64x4 i32x8 f64x4);
    down!(i32x4 i16x8 u32x8 u16x16 i64x2 i32x4 f64x4 f32x8 u16x8 u8x16);
    // whole streams
    t.push(("stream/i16s", { #[inline(never)] fn f() -> u64 { let d: Vec<i16> = (0..35).collect(); h(d.as_slice().simd_iter(i16s(0)).simd_map(|v| HAdd::hadd(&v, v)).scalar_collect()).min(1) } f }));
    t.push(("stream/f32s", { #[inline(never)] fn f() -> u64 { let d: Vec<f32> = (0..35).map(|x| x as f32 / 8.0).collect(); h(d.as_slice().simd_iter(f32s(0.0)).simd_map(|v| Round::floor(&v)).scalar_collect()) } f }));
    t
}
/// Does the target have an instruction that does just this? (Of the operations that
/// some target has one for.)
fn native(n: &str) -> Option<bool> {
    const T: &[(&str, bool)] = &[
        ("sse2", cfg!(target_feature = "sse2")), ("sse3", cfg!(target_feature = "sse3")), ("ssse3", cfg!(target_feature = "ssse3")),
        ("sse4.1", cfg!(target_feature = "sse4.1")), ("avx", cfg!(target_feature = "avx")), ("avx2", cfg!(target_feature = "avx2"))];
    let f = match n {
        "min/u8x16" | "min/f64x2" | "saturating_add/u8x16" | "saturating_add/u16x8" | "saturating_sub/u16x8" | "saturating_sub/i16x8" | "sqrt/f64x2" | "downcast/i32x4->i16x8" => "sse2",
        "hadd/f32x4" | "hsub/f64x2" => "sse3",
        "abs/i8x16" | "abs/i16x8" | "hadd/i16x8" | "hadd/i32x4" | "hsub/i16x8" | "hsub/i32x4" | "saturating_hadd/i16x8" | "saturating_hsub/i16x8" => "ssse3",
        "min/i8x16" | "min/u16x8" | "max/u32x4" | "floor/f32x4" | "floor/f64x2" | "upcast/u8x16->u16x8" | "upcast/i16x8->i32x4" | "upcast/u32x4->u64x2" => "sse4.1",
        "min/f32x8" | "floor/f32x8" | "floor/f64x4" | "sqrt/f32x8" => "avx",
        "abs/i8x32" | "abs/i32x8" | "hadd/i16x16" | "hadd/i32x8" | "hsub/i16x16" | "hsub/i32x8" | "saturating_hadd/i16x16" | "saturating_hsub/i16x16" | "min/i32x8" | "max/u8x32" | "max/i16x16"
            | "saturating_add/i16x16" | "saturating_sub/i8x32" | "upcast/i8x32->i16x16" => "avx2",
        _ => return None,
    };
    T.iter().find(|x| x.0 == f).map(|x| x.1)
}
/// The system calls by which the log file is written are the points at which threads
/// take turns and at which faults are injected.
mod sched {
    use std::cell::Cell;
    use std::os::raw::{c_char, c_int, c_long, c_void};
    use std::sync::{atomic::{AtomicPtr, Ordering::SeqCst}, Condvar, Mutex};
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Fault { Error(c_int), Short(usize) }
    #[derive(Clone, Copy, PartialEq)]
    pub enum At { Done, Running, Waiting }
    pub struct St { pub at: Vec<At>, pub grant: Option<usize>, pub fault: Vec<(usize, Fault)>, pub points: Vec<&'static str> }
    pub static ST: AtomicPtr<(Mutex<St>, Condvar)> = AtomicPtr::new(std::ptr::null_mut());
    thread_local! { pub static ID: Cell<usize> = Cell::new(usize::max_value()); }
    pub fn on(st: St) { ST.store(Box::into_raw(Box::new((Mutex::new(st), Condvar::new()))), SeqCst) }
    pub fn off() -> St {
        let p = ST.swap(std::ptr::null_mut(), SeqCst);
        unsafe { Box::from_raw(p).0.into_inner().unwrap_or_else(|e| e.into_inner()) }
    }
    /// A turn ends here; the fault that strikes when the next one begins.
    fn point(what: &'static str) -> Option<Fault> {
        let p = ST.load(SeqCst);
        let id = ID.try_with(|i| i.get()).unwrap_or(usize::max_value());
        if p.is_null() || id == usize::max_value() { return None }
        let (m, c) = unsafe { &*p };
        let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
        g.at[id] = At::Waiting;
        c.notify_all();
        while g.grant != Some(id) { g = c.wait(g).unwrap_or_else(|e| e.into_inner()) }
        g.grant = None;
        g.points.push(what);
        let n = g.points.len() - 1;
        g.fault.iter().find(|f| f.0 == n).map(|f| f.1)
    }
    pub fn finish() {
        let p = ST.load(SeqCst);
        let id = ID.with(|i| i.replace(usize::max_value()));
        if p.is_null() || id == usize::max_value() { return }
        let (m, c) = unsafe { &*p };
        m.lock().unwrap_or_else(|e| e.into_inner()).at[id] = At::Done;
        c.notify_all();
    }
    extern "C" {
        fn syscall(n: c_long, ...) -> c_long;
        fn __errno_location() -> *mut c_int;
    }
    unsafe fn error(e: c_int) -> isize { *__errno_location() = e; -1 }
    #[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
        match if fd > 2 { point("write") } else { None } {
            Some(Fault::Error(e)) => error(e),
            Some(Fault::Short(k)) => syscall(1, fd, b, if n > k { k } else { n }) as isize,
            None => syscall(1, fd, b, n) as isize,
        }
    }
    #[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, v: *const c_void, n: c_int) -> isize {
        match if fd > 2 { point("write") } else { None } {
            Some(Fault::Error(e)) => error(e),
            Some(Fault::Short(_)) => syscall(20, fd, v, 1) as isize,
            None => syscall(20, fd, v, n) as isize,
        }
    }
    #[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
        match point("open") {
            Some(Fault::Error(e)) => error(e) as c_int,
            _ => syscall(257, -100 as c_int, p, flags, mode) as c_int,
        }
    }
}
/// A thread that runs one operation whenever it is told to.
struct Worker { go: Sender<(usize, fn() -> u64)>, done: Receiver<Result<u64, ()>>, h: std::thread::JoinHandle<()> }
fn worker() -> Worker {
    let (go, rx) = channel::<(usize, fn() -> u64)>();
    let (tx, done) = channel();
    let h = std::thread::spawn(move || for (id, f) in rx {
        sched::ID.with(|i| i.set(id));
        let r = std::panic::catch_unwind(f).map_err(|_| ());
        sched::finish();
        tx.send(r).unwrap()
    });
    Worker { go, done, h }
}
impl Worker {
    fn run(&self, f: fn() -> u64) -> Result<u64, ()> { self.go.send((usize::max_value(), f)).unwrap(); self.done.recv().unwrap_or(Err(())) }
    fn end(self) { drop(self.go); let _ = self.h.join(); }
}
/// How the log file is before a word: not there, there with something in it, or
/// impossible to write.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Log { Absent, Old, Dir }
const LOGS: [Log; 3] = [Log::Absent, Log::Old, Log::Dir];
const OLD: &str = "from before\n";
struct W { cap: Capture, log: PathBuf }
impl W {
    fn set(&self, l: Log) {
        let _ = std::fs::remove_file(&self.log);
        let _ = std::fs::remove_dir(&self.log);
        match l { Log::Absent => {}, Log::Old => std::fs::write(&self.log, OLD).unwrap(), Log::Dir => std::fs::create_dir(&self.log).unwrap() }
    }
    fn logged(&self, l: Log) -> Option<String> { if l == Log::Dir { None } else { Some(String::from_utf8_lossy(&std::fs::read(&self.log).unwrap_or_default()).into_owned()) } }
    /// What one turn prints.
    fn turn(&self, w: &Worker, f: fn() -> u64) -> (Result<u64, ()>, Vec<String>) {
        self.cap.start();
        let r = w.run(f);
        let _ = std::io::stdout().flush();
        (r, self.cap.stop().lines().map(|x| x.to_string()).collect())
    }
}
type Ran = (Vec<Result<u64, ()>>, String, String, sched::St, Vec<(usize, usize)>);
impl W {
    /// Run operations on threads of their own, all at once, which take turns as `plan`
    /// says and then in order. Also gives the choices there were.
    fn race(&self, log: Log, fs: &[fn() -> u64], plan: &[usize], fault: Vec<(usize, sched::Fault)>) -> Result<Ran, String> {
        use sched::{At, ST};
        self.set(log);
        let ks: Vec<Worker> = fs.iter().map(|_| worker()).collect();
        self.cap.start();
        sched::on(sched::St { at: vec![At::Running; fs.len()], grant: None, fault, points: vec![] });
        for (i, k) in ks.iter().enumerate() { k.go.send((i, fs[i])).unwrap() }
        let mut choices = vec![];
        {
            let (m, c) = unsafe { &*ST.load(std::sync::atomic::Ordering::SeqCst) };
            let mut g = m.lock().unwrap();
            let mut idle = 0;
            loop {
                if g.at.iter().all(|a| *a == At::Done) { break }
                let can: Vec<usize> = (0..fs.len()).filter(|i| g.at[*i] == At::Waiting).collect();
                // a thread that waits for a lock another one holds does not get anywhere
                if g.at.contains(&At::Running) && (idle == 0 || can.is_empty()) {
                    let (h, t) = c.wait_timeout(g, std::time::Duration::from_millis(200)).unwrap();
                    g = h;
                    if t.timed_out() { idle += 1 }
                    if idle > 100 { std::mem::forget(ks); return Err("the threads wait for each other for ever".into()) }
                    continue
                }
                idle = 0;
                let k = plan.get(choices.len()).cloned().unwrap_or(0).min(can.len() - 1);
                choices.push((k, can.len()));
                g.at[can[k]] = At::Running;
                g.grant = Some(can[k]);
                c.notify_all();
            }
        }
        let rs = ks.iter().map(|k| k.done.recv().unwrap_or(Err(()))).collect();
        let st = sched::off();
        for k in ks { k.end() }
        let _ = std::io::stdout().flush();
        let out = self.cap.stop();
        Ok((rs, out, self.logged(log).unwrap_or_default(), st, choices))
    }
}
/// The same lines, in an order that keeps each thread's own.
fn merged(all: &[&str], parts: &[Vec<&str>]) -> bool {
    if parts.iter().all(|p| p.is_empty()) { return all.is_empty() }
    !all.is_empty() && (0..parts.len()).any(|i| parts[i].first() == all.first() && { let mut q = parts.to_vec(); q[i].remove(0); merged(&all[1..], &q) })
}
/// One of the two reports there are.
fn shaped(l: &str) -> bool {
    l.contains("faster is using") && (l.contains("SOFTWARE") != l.contains("HARDWARE")) && l.rfind('(').map_or(false, |i| {
        let p: Vec<&str> = l[i + 1..].trim_end_matches(&[')', '.'][..]).rsplitn(2, ':').collect();
        p.len() == 2 && p[1].ends_with(".rs") && !p[0].is_empty() && p[0].bytes().all(|b| b.is_ascii_digit())
    })
}
fn main() {
    let mut c = Ctx::from_args();
    // check.py makes a directory for each run
    let w = W { cap: Capture::new(), log: PathBuf::from("faster-debug.txt") };
    let t = table();
    // what each operation reports on a thread of its own
    let mut model: Vec<(u64, Vec<String>)> = vec![];
    for (n, f) in &t {
        let site = "report/".to_string() + n;
        w.set(Log::Absent);
        let k = worker();
        let (r, lines) = w.turn(&k, *f);
        let file = w.logged(Log::Absent).unwrap();
        let again = w.turn(&k, *f);
        k.end();
        c.states += 1; c.transitions += 2; c.traces += 1; c.site(&site, 1);
        // compared with a build that lacks the feature
        if c.want_site(&site) { c.digests.push((format!("{}|result", site), r.unwrap_or(0))) }
        let bad = |l: &str| !shaped(l);
        if r.is_err() { c.fail(&site, || "first".into(), || "panicked".into()) }
        else if lines.iter().any(|l| bad(l)) { c.fail(&site, || "first".into(), || format!("printed {:?}", lines)) }
        else if lines.iter().collect::<HashSet<_>>().len() != lines.len() { c.fail(&site, || "first".into(), || format!("printed twice on one thread: {:?}", lines)) }
        else if file != lines.iter().map(|l| l.clone() + "\n").collect::<String>() { c.fail(&site, || "first".into(), || format!("printed {:?}, but the log file has {:?}", lines, file)) }
        else if again != (r, vec![]) { c.fail(&site, || "second".into(), || format!("{:?} and then {:?}", r, again)) }
        if !cfg!(feature = "trace") {
            if lines.len() + file.len() > 0 { c.fail(&site, || "off".into(), || format!("printed {:?} without the feature", lines)) }
            continue
        }
        if let Some(hw) = native(n) {
            c.transitions += 1;
            let soft = lines.iter().any(|l| l.contains("SOFTWARE"));
            if soft == hw || lines.is_empty() { c.fail(&site, || "kind".into(), || format!("the target has {}instruction for it, but {:?} is reported", if hw { "an " } else { "no " }, lines)) }
        }
        c.outcome(h(&lines));
        model.push((r.unwrap_or(0), lines));
    }
    // every word of (thread, operation)
    let picks: Vec<usize> = if c.thorough() { (0..t.len()).collect() } else { (0..t.len()).step_by(9).chain(t.iter().position(|x| x.0 == "stream/i16s")).collect() };
    let few: Vec<usize> = ["hadd/i16x8", "saturating_hadd/i16x16", "stream/i16s", "merge_interleaved/u8x16", "abs/i64x4"].iter().filter_map(|n| t.iter().position(|x| x.0 == *n)).collect();
    let word = |c: &mut Ctx, log: Log, word: &[(usize, usize)]| {
        if !c.mine() { return }
        let site = format!("threads/{:?}", log);
        let case = word.iter().map(|(k, o)| format!("{}:{}", k, t[*o].0)).collect::<Vec<_>>().join(" ");
        if !c.want_site(&site) || !c.want_case(|| case.clone()) { return }
        w.set(log);
        let ks = [worker(), worker()];
        let mut seen: [HashSet<&String>; 2] = [HashSet::new(), HashSet::new()];
        let mut all = if log == Log::Old { OLD.to_string() } else { String::new() };
        for (i, (k, o)) in word.iter().enumerate() {
            let want: Vec<String> = model[*o].1.iter().filter(|l| seen[*k].insert(*l)).cloned().collect();
            let (r, got) = w.turn(&ks[*k], t[*o].1);
            c.transitions += 1;
            if r != Ok(model[*o].0) { c.fail(&site, || case.clone(), || format!("step {}: result {:?} differs from the first time", i, r)); break }
            if got != want { c.fail(&site, || case.clone(), || format!("step {}: printed {:?} instead of {:?}", i, got, want)); break }
            for l in &want { all.push_str(l); all.push('\n') }
            if let Some(f) = w.logged(log) { if f != all { c.fail(&site, || case.clone(), || format!("step {}: the log file has {:?} instead of {:?}", i, f, all)); break } }
        }
        let [a, b] = ks; a.end(); b.end();
        c.states += 1; c.traces += 1; c.site(&site, 1);
    };
    for log in &LOGS {
        if !cfg!(feature = "trace") { break }
        for a in &picks { for b in &picks { for kb in 0..2 { word(&mut c, *log, &[(0, *a), (kb, *b)]); word(&mut c, *log, &[(0, *a), (kb, *b), (0, *a), (1, *b)]) } } }
        let depth = if c.thorough() { 5 } else { 4 };
        let n = 2 * few.len();
        for x in 0..n.pow(depth) {
            // the threads are alike: the first turn is thread 0's
            if x % n >= few.len() { continue }
            let wd: Vec<(usize, usize)> = (0..depth).map(|d| { let y = x / n.pow(d) % n; (y / few.len(), few[y % few.len()]) }).collect();
            word(&mut c, *log, &wd);
        }
    }
    // threads that report at the same time: every order of their system calls
    let hot: Vec<usize> = ["hadd/i16x8", "abs/i64x4", "stream/i16s", "merge_interleaved/u8x16", "destride_two/u8x16"].iter().filter_map(|n| t.iter().position(|x| x.0 == *n)).collect();
    let mut sets: Vec<Vec<usize>> = vec![];
    if cfg!(feature = "trace") {
        for a in &hot { for b in &hot { sets.push(vec![*a, *b]); if c.thorough() { for d in &hot { sets.push(vec![*a, *b, *d]) } } } }
        sets.push(vec![hot[0], hot[0], hot[1]]);
        if c.thorough() { for a in 0..t.len() { for b in 0..t.len() { sets.push(vec![a, b]) } } }
    }
    for log in &LOGS[..2] { for set in &sets {
        if !c.mine() { continue }
        let site = format!("race/{:?}", log);
        let names = set.iter().map(|o| t[*o].0).collect::<Vec<_>>().join("|");
        if !c.want_site(&site) { continue }
        let fs: Vec<fn() -> u64> = set.iter().map(|o| t[*o].1).collect();
        let parts: Vec<Vec<&str>> = set.iter().map(|o| model[*o].1.iter().map(|l| l.as_str()).collect()).collect();
        let mut plan: Vec<usize> = vec![];
        let mut n = 0;
        loop {
            let text = |p: &[usize]| format!("{} turns={}", names, p.iter().map(|x| x.to_string()).collect::<String>());
            let (rs, out, file, st, choices) = match w.race(*log, &fs, &plan, vec![]) { Ok(x) => x, Err(e) => { c.fail(&site, || text(&plan), || e.clone()); return c.finish() } };
            let full: Vec<usize> = choices.iter().map(|x| x.0).collect();
            if c.want_case(|| text(&full)) {
                n += 1;
                c.states += 1; c.traces += 1; c.transitions += st.points.len() as u64;
                c.outcome(h(&file));
                let old = if *log == Log::Old { OLD } else { "" };
                if (0..set.len()).any(|i| rs[i] != Ok(model[set[i]].0)) { c.fail(&site, || text(&full), || format!("results {:?}", rs)) }
                else if !merged(&out.lines().collect::<Vec<_>>(), &parts) { c.fail(&site, || text(&full), || format!("printed {:?}", out)) }
                else if !(file.starts_with(old) && merged(&file[old.len()..].lines().collect::<Vec<_>>(), &parts)) { c.fail(&site, || text(&full), || format!("the log file has {:?}", file)) }
                if n == 5 { c.sample(|| format!("{} {}: {:?}", site, text(&full), st.points)) }
            }
            // the next schedule
            let mut x = choices;
            while let Some((k, n)) = x.pop() { if k + 1 < n { x.push((k + 1, n)); break } }
            if x.is_empty() { break }
            plan = x.iter().map(|x| x.0).collect();
        }
        c.site(&site, n);
    } }
    // every system call of a report fails in every way, or does half of its work
    let faulty: Vec<usize> = if c.thorough() { (0..t.len()).collect() } else { hot.iter().chain(&picks).cloned().collect() };
    for log in &LOGS[..2] { for o in &faulty {
        use sched::Fault::*;
        if !cfg!(feature = "trace") || !c.mine() { continue }
        let site = format!("fault/{:?}", log);
        if !c.want_site(&site) { continue }
        let fs = [t[*o].1];
        let base = w.race(*log, &fs, &[], vec![]).unwrap().3.points;
        let mut plans: Vec<Vec<(usize, sched::Fault)>> = vec![];
        for i in 0..base.len() {
            let kinds: &[sched::Fault] = if base[i] == "open" { &[Error(2), Error(4), Error(13), Error(24), Error(28)] } else { &[Error(4), Error(5), Error(28), Error(32), Short(1), Short(2), Short(40)] };
            for k in kinds {
                plans.push(vec![(i, *k)]);
                plans.push(vec![(i, *k), (i + 1, *k)]);
                plans.push((i..base.len() + 2).map(|j| (j, *k)).collect());
                for l in &[Error(28), Error(4)] { plans.push(vec![(i, *k), (i + 1, *l)]) }
            }
        }
        let lines: Vec<&str> = model[*o].1.iter().map(|l| l.as_str()).collect();
        let mut n = 0;
        for f in plans {
            // an unlimited number of interruptions would not be an error
            let case = format!("{} {:?}", t[*o].0, f);
            if !c.want_case(|| case.clone()) { continue }
            n += 1;
            c.states += 1; c.traces += 1;
            let (rs, out, file, st, _) = match w.race(*log, &fs, &[], f.clone()) { Ok(x) => x, Err(e) => { c.fail(&site, || case.clone(), || e.clone()); return c.finish() } };
            c.transitions += st.points.len() as u64;
            c.outcome(h(&file));
            let old = if *log == Log::Old { OLD } else { "" };
            // interruptions and partial writes are no failures
            let harmless = f.iter().all(|x| match x.1 { Error(e) => e == 4, Short(_) => true });
            if rs[0] != Ok(model[*o].0) { c.fail(&site, || case.clone(), || format!("result {:?}", rs)) }
            else if out.lines().collect::<Vec<_>>() != lines { c.fail(&site, || case.clone(), || format!("printed {:?}", out)) }
            else if !file.starts_with(old) { c.fail(&site, || case.clone(), || format!("the log file has {:?}", file)) }
            else if harmless && file[old.len()..].lines().collect::<Vec<_>>() != lines { c.fail(&site, || case.clone(), || format!("the log file has {:?}", file)) }
        }
        c.site(&site, n);
    } }
    w.set(Log::Absent);
    c.finish()
}
