use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{HashMap, HashSet};
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- libc shims
extern "C" {
    fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, l: usize, p: c_int) -> c_int;
    fn sigaction(s: c_int, a: *const SigAction, o: *mut SigAction) -> c_int;
    fn sigaltstack(s: *const StackT, o: *mut StackT) -> c_int;
    fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
    fn _exit(c: c_int) -> !;
    fn raise(s: c_int) -> c_int;
    fn dup(a: c_int) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn memfd_create(n: *const u8, f: u32) -> c_int;
    fn ftruncate(f: c_int, n: i64) -> c_int;
    fn pread(f: c_int, b: *mut u8, n: usize, o: i64) -> isize;
    fn lseek(f: c_int, o: i64, w: c_int) -> i64;
    static __executable_start: u8;
    static etext: u8;
    fn setitimer(w: c_int, n: *const [i64; 4], o: *mut [i64; 4]) -> c_int;
}
#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: c_int, restorer: usize }
#[repr(C)]
struct StackT { sp: *mut c_void, flags: c_int, size: usize }

pub const PAGE: usize = 4096;
pub const CANARY: u8 = 0xA5;

unsafe fn map(len: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS
    let p = mmap(std::ptr::null_mut(), len, 3, 0x22, -1, 0);
    if p as isize == -1 { eprintln!("mmap failed"); std::process::exit(2); }
    p as *mut u8
}
unsafe fn deny(p: *mut u8, len: usize) {
    if mprotect(p as *mut c_void, len, 0) != 0 { eprintln!("mprotect failed"); std::process::exit(2); }
}

// ------------------------------------------------------- guarded allocations
// While GUARD is on, every heap block of at most SLOT bytes is placed flush
// against an inaccessible page, so that an access past its end faults.
const SLOT: usize = 4 * PAGE;
const NSLOT: usize = 512;
static GUARD: AtomicBool = AtomicBool::new(false);
static ARENA: AtomicUsize = AtomicUsize::new(0);
static mut FREE: [u16; NSLOT] = [0; NSLOT];
static mut NFREE: usize = 0;

pub struct GuardAlloc;
unsafe impl GlobalAlloc for GuardAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if GUARD.load(Relaxed) && l.size() <= SLOT && l.size() > 0 && NFREE > 0 {
            NFREE -= 1;
            let base = ARENA.load(Relaxed) + FREE[NFREE] as usize * (SLOT + PAGE);
            let p = (base + SLOT - l.size()) & !(l.align() - 1);
            std::ptr::write_bytes(p as *mut u8, CANARY, base + SLOT - p);
            return p as *mut u8;
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = ARENA.load(Relaxed);
        if a != 0 && (p as usize) >= a && (p as usize) < a + NSLOT * (SLOT + PAGE) {
            FREE[NFREE] = ((p as usize - a) / (SLOT + PAGE)) as u16;
            NFREE += 1;
        } else {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static GLOBAL: GuardAlloc = GuardAlloc;

fn init_arena() {
    unsafe {
        let a = map(NSLOT * (SLOT + PAGE));
        for i in 0..NSLOT {
            deny(a.add(i * (SLOT + PAGE) + SLOT), PAGE);
            FREE[i] = i as u16;
        }
        NFREE = NSLOT;
        ARENA.store(a as usize, Relaxed);
    }
}

/// A guarded buffer: inaccessible pages on both sides of a data area.
pub struct GBuf { base: *mut u8, cap: usize }
impl GBuf {
    pub fn new(bytes: usize) -> GBuf {
        let cap = (bytes + PAGE - 1) / PAGE * PAGE + PAGE;
        unsafe {
            let p = map(cap + 2 * PAGE);
            deny(p, PAGE);
            deny(p.add(PAGE + cap), PAGE);
            let b = GBuf { base: p.add(PAGE), cap };
            std::ptr::write_bytes(b.base, CANARY, cap);
            b
        }
    }
    /// `n` elements flush against the upper guard page (`hi`) or the lower one.
    pub fn place<S: Copy>(&mut self, n: usize, hi: bool) -> &'static mut [S] {
        let sz = n * std::mem::size_of::<S>();
        assert!(sz <= self.cap);
        unsafe {
            let p = if hi { self.base.add(self.cap - sz) } else { self.base };
            std::slice::from_raw_parts_mut(p as *mut S, n)
        }
    }
    /// Fill a window around the placed slice with the canary.
    pub fn arm<S: Copy>(&mut self, n: usize, hi: bool) {
        let sz = n * std::mem::size_of::<S>();
        let lim = (sz + 256).min(self.cap);
        unsafe {
            if hi { std::ptr::write_bytes(self.base.add(self.cap - lim), CANARY, lim - sz) }
            else { std::ptr::write_bytes(self.base.add(sz), CANARY, lim - sz) }
        }
    }
    /// Were the bytes next to the placed slice left alone?
    pub fn intact<S: Copy>(&self, n: usize, hi: bool) -> bool {
        let sz = n * std::mem::size_of::<S>();
        let lim = (sz + 256).min(self.cap);
        unsafe {
            let s = if hi { std::slice::from_raw_parts(self.base.add(self.cap - lim), lim - sz) }
                    else { std::slice::from_raw_parts(self.base.add(sz), lim - sz) };
            s.iter().all(|b| *b == CANARY)
        }
    }
}

// -------------------------------------------------- what is being run just now
static mut CUR_SITE: &'static str = "start";
static mut CUR: [u64; 10] = [0; 10];
static mut CUR_N: usize = 0;
static mut CUR_OPS: [u8; 64] = [0; 64];
static mut CUR_OPS_N: usize = 0;
static IN_LIB: AtomicBool = AtomicBool::new(false);
static TICK: AtomicUsize = AtomicUsize::new(0);
static LAST_TICK: AtomicUsize = AtomicUsize::new(0);
static STUCK: AtomicUsize = AtomicUsize::new(0);

/// Name the case about to run; a crash or a hang is attributed to it.
#[inline]
pub fn cur(site: &'static str, v: &[u64]) {
    unsafe {
        CUR_SITE = site;
        CUR_N = v.len().min(10);
        for i in 0..CUR_N { CUR[i] = v[i]; }
    }
    TICK.fetch_add(1, Relaxed);
}
pub fn cur_ops(s: &str) {
    unsafe {
        let b = s.as_bytes();
        CUR_OPS_N = b.len().min(64);
        CUR_OPS[..CUR_OPS_N].copy_from_slice(&b[..CUR_OPS_N]);
    }
}
#[inline]
pub fn tick() { TICK.fetch_add(1, Relaxed); }

struct Fmt { b: [u8; 512], n: usize }
impl Fmt {
    fn s(&mut self, s: &[u8]) { for c in s { if self.n < 512 { self.b[self.n] = *c; self.n += 1; } } }
    fn u(&mut self, mut v: u64) {
        let mut t = [0u8; 20]; let mut k = 20;
        loop { k -= 1; t[k] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break } }
        self.s(&t[k..]);
    }
}
static mut REPORT: c_int = 1;
/// What is written to the standard output meanwhile.
pub struct Capture { out: c_int, mem: c_int }
impl Capture {
    pub fn new() -> Capture { unsafe { let x = Capture { out: dup(1), mem: memfd_create(b"out\0".as_ptr(), 0) }; REPORT = x.out; x } }
    pub fn start(&self) { unsafe { ftruncate(self.mem, 0); lseek(self.mem, 0, 0); dup2(self.mem, 1); } IN_LIB.store(true, Relaxed); TICK.fetch_add(1, Relaxed); }
    pub fn stop(&self) -> String {
        IN_LIB.store(false, Relaxed);
        let mut b = vec![0u8; 1 << 16];
        unsafe { dup2(self.out, 1); let n = pread(self.mem, b.as_mut_ptr(), b.len(), 0); b.truncate(n.max(0) as usize) }
        String::from_utf8_lossy(&b).into_owned()
    }
}
fn die_with_case(kind: &[u8], code: c_int) -> ! {
    unsafe {
        let mut f = Fmt { b: [0; 512], n: 0 };
        f.s(b"\nCRASH\t"); f.s(kind); f.s(b"\t"); f.s(CUR_SITE.as_bytes()); f.s(b"\t");
        for i in 0..CUR_N { f.u(CUR[i]); f.s(b" "); }
        f.s(&CUR_OPS[..CUR_OPS_N]);
        f.s(b"\n");
        write(REPORT, f.b.as_ptr() as *const c_void, f.n);
        _exit(code)
    }
}
extern "C" fn on_fault(sig: c_int, _i: *mut c_void, _c: *mut c_void) {
    if !IN_LIB.load(Relaxed) { unsafe { write(2, b"harness fault\n".as_ptr() as *const c_void, 14); _exit(70) } }
    let k: &[u8] = match sig {
        11 => b"invalid memory access (SIGSEGV)",
        7 => b"invalid memory access (SIGBUS)",
        4 => b"illegal instruction (SIGILL)",
        8 => b"arithmetic fault (SIGFPE)",
        _ => b"abort",
    };
    die_with_case(k, 77)
}
extern "C" fn on_alarm(_s: c_int, _i: *mut c_void, _c: *mut c_void) {
    let t = TICK.load(Relaxed);
    if t == LAST_TICK.load(Relaxed) && IN_LIB.load(Relaxed) {
        // ticks of 4 s of processor time; a case takes microseconds
        if STUCK.fetch_add(1, Relaxed) >= 4 { die_with_case(b"does not terminate", 77) }
    } else { STUCK.store(0, Relaxed) }
    LAST_TICK.store(t, Relaxed);
}
fn init_signals() {
    unsafe {
        let st = StackT { sp: map(65536) as *mut c_void, flags: 0, size: 65536 };
        sigaltstack(&st, std::ptr::null_mut());
        // SA_SIGINFO|SA_ONSTACK
        for s in &[11, 7, 4, 8, 6] {
            let a = SigAction { handler: on_fault as usize, mask: [0; 16], flags: 0x4 | 0x0800_0000, restorer: 0 };
            sigaction(*s, &a, std::ptr::null_mut());
        }
        for s in &[5, 10] {
            let a = SigAction { handler: on_step as usize, mask: [!0; 16], flags: 0x4 | 0x0800_0000, restorer: 0 };
            sigaction(*s, &a, std::ptr::null_mut());
        }
        let a = SigAction { handler: on_alarm as usize, mask: [0; 16], flags: 0x4 | 0x0800_0000 | 0x1000_0000, restorer: 0 };
        sigaction(27, &a, std::ptr::null_mut());
        setitimer(2, &[4, 0, 4, 0], std::ptr::null_mut());
    }
}

// -------------------------------------------------- one instruction at a time
// With --step every call into the library runs under the processor's single-step
// trap, and each instruction about to be executed is looked up: is it part of
// the instruction set that this program was built for?
static STEP: AtomicBool = AtomicBool::new(false);
static STEPS: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicBool = AtomicBool::new(false);
static mut FOREIGN: [(usize, [u8; 15], &str); 8] = [(0, [0; 15], ""); 8];
static mut NFOREIGN: usize = 0;

macro_rules! has { ($f:tt) => { cfg!(target_feature = $f) } }
/// The extension an instruction belongs to, unless the target has it. `b` are
/// the bytes of the instruction.
fn foreign(b: &[u8]) -> Option<&'static str> {
    let (mut i, mut p66, mut f3, mut f2) = (0, false, false, false);
    loop {
        match b[i] { 0x66 => p66 = true, 0xf3 => { f3 = true; f2 = false }, 0xf2 => { f2 = true; f3 = false }, 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}, _ => break }
        i += 1;
        if i > 8 { return None }
    }
    let no = |h: bool, n: &'static str| if h { None } else { Some(n) };
    match b[i] {
        0x62 => return no(has!("avx512f"), "AVX-512"),
        0xc4 | 0xc5 => {
            if !has!("avx") { return Some("AVX") }
            let (map, pp, l, op, modrm) = if b[i] == 0xc5 { (1, b[i + 1] & 3, b[i + 1] & 4 != 0, b[i + 2], b[i + 3]) } else { (b[i + 1] & 31, b[i + 2] & 3, b[i + 2] & 4 != 0, b[i + 3], b[i + 4]) };
            let reg = modrm >> 6 == 3;
            let avx2 = match (map, op) {
                (1, 0x6f) | (1, 0x7f) | (1, 0x7c) | (1, 0x7d) | (1, 0x77) | (1, 0xd0) | (1, 0xe6) | (1, 0xe7) | (1, 0xf0) => false,
                (1, 0x60..=0x6f) | (1, 0x70..=0x76) | (1, 0xd1..=0xff) => l,
                (2, 0x00..=0x0b) | (2, 0x1c..=0x1e) | (2, 0x20..=0x25) | (2, 0x28..=0x2b) | (2, 0x30..=0x35) | (2, 0x37..=0x41) => l,
                (2, 0x18) | (2, 0x19) => reg,
                (2, 0x16) | (2, 0x36) | (2, 0x45..=0x47) | (2, 0x58..=0x5a) | (2, 0x78) | (2, 0x79) | (2, 0x8c) | (2, 0x8e) | (2, 0x90..=0x93) => true,
                (3, 0x00..=0x02) | (3, 0x38) | (3, 0x39) | (3, 0x46) => true,
                (3, 0x0e) | (3, 0x0f) | (3, 0x42) | (3, 0x4c) => l,
                _ => false,
            };
            if avx2 { return no(has!("avx2"), "AVX2") }
            return match (map, op) {
                (2, 0x13) | (3, 0x1d) => no(has!("f16c"), "F16C"),
                (2, 0x96..=0xbf) => no(has!("fma"), "FMA"),
                (2, 0xf2) | (2, 0xf3) => no(has!("bmi"), "BMI"),
                (2, 0xf7) if pp == 0 => no(has!("bmi"), "BMI"),
                (2, 0xf5) | (2, 0xf6) | (2, 0xf7) | (3, 0xf0) => no(has!("bmi2"), "BMI2"),
                _ => None,
            }
        }
        _ => {}
    }
    if b[i] & 0xf0 == 0x40 { i += 1 }
    if b[i] != 0x0f { return None }
    match (b[i + 1], b[i + 2]) {
        (0x38, 0x00..=0x0b) | (0x38, 0x1c..=0x1e) | (0x3a, 0x0f) => no(has!("ssse3"), "SSSE3"),
        (0x38, 0x37) if p66 => no(has!("sse4.2"), "SSE4.2"),
        (0x38, 0xf0) | (0x38, 0xf1) => if f2 { no(has!("sse4.2"), "SSE4.2") } else { no(has!("movbe"), "MOVBE") },
        (0x38, 0xf6) => no(has!("adx"), "ADX"),
        (0x38, 0xdb..=0xdf) | (0x3a, 0xdf) => no(has!("aes"), "AES"),
        (0x38, _) => no(has!("sse4.1"), "SSE4.1"),
        (0x3a, 0x60..=0x63) => no(has!("sse4.2"), "SSE4.2"),
        (0x3a, 0x44) => no(has!("pclmulqdq"), "PCLMUL"),
        (0x3a, _) => no(has!("sse4.1"), "SSE4.1"),
        (0xb8, _) if f3 => no(has!("popcnt"), "POPCNT"),
        (0xbd, _) if f3 => no(has!("lzcnt"), "LZCNT"),
        (0x7c, _) | (0x7d, _) | (0xd0, _) if p66 || f2 => no(has!("sse3"), "SSE3"),
        (0x12, _) if f2 || f3 => no(has!("sse3"), "SSE3"),
        (0x16, _) if f3 => no(has!("sse3"), "SSE3"),
        (0xf0, _) if f2 => no(has!("sse3"), "SSE3"),
        (0x78, _) | (0x79, _) if p66 || f2 => no(has!("sse4a"), "SSE4a"),
        (0x2b, _) if f2 || f3 => no(has!("sse4a"), "SSE4a"),
        _ => None,
    }
}
extern "C" fn on_step(sig: c_int, _i: *mut c_void, c: *mut c_void) {
    unsafe {
        let g = (c as *mut u8).add(40) as *mut u64; // uc_mcontext.gregs
        if sig == 10 { *g.add(17) |= 0x100; return }
        if STOP.load(Relaxed) { *g.add(17) &= !0x100; return }
        let ip = *g.add(16) as usize;
        STEPS.fetch_add(1, Relaxed);
        // the C library chooses its code at run time
        if ip < &__executable_start as *const u8 as usize || ip + 15 > &etext as *const u8 as usize { return }
        let b = std::slice::from_raw_parts(ip as *const u8, 15);
        if let Some(x) = foreign(b) {
            if NFOREIGN < 8 && !FOREIGN[..NFOREIGN].iter().any(|f| f.0 == ip) {
                FOREIGN[NFOREIGN].0 = ip;
                FOREIGN[NFOREIGN].1.copy_from_slice(b);
                FOREIGN[NFOREIGN].2 = x;
                NFOREIGN += 1;
            }
        }
    }
}
fn step_on() { STOP.store(false, Relaxed); unsafe { raise(10); } }
fn step_off() {
    STOP.store(true, Relaxed);
    unsafe {
        raise(0);
        for (ip, b, x) in &FOREIGN[..NFOREIGN] {
            println!("{{\"k\":\"violation\",\"site\":\"{}\",\"case\":\"\",\"msg\":\"executes an instruction of {}, which the target does not have: offset {:#x}, bytes {:02x?}\"}}",
                esc(CUR_SITE), x, ip - &__executable_start as *const u8 as usize, &b[..8]);
        }
        if NFOREIGN > 0 { FOREIGN_SITES += 1 }
        NFOREIGN = 0;
    }
}
static mut FOREIGN_SITES: usize = 0;
static mut BUDGET: (usize, usize, usize) = (0, 0, 0); // site, steps before it, allowance
static mut STEPPED: u64 = 0;
/// Is this call to be single-stepped? The first calls of every site are, until
/// they have taken the allowed number of steps.
fn stepped() -> bool {
    if !stepping() { return false }
    unsafe {
        let site = CUR_SITE.as_ptr() as usize;
        if BUDGET.0 != site { BUDGET.0 = site; BUDGET.1 = STEPS.load(Relaxed) }
        let y = STEPS.load(Relaxed) - BUDGET.1 < BUDGET.2;
        if y { STEPPED += 1 }
        y
    }
}
/// Is every call to be single-stepped?
pub fn stepping() -> bool { STEP.load(Relaxed) }

/// Run library code: panics are returned as Err, heap blocks are guarded.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    IN_LIB.store(true, Relaxed);
    GUARD.store(true, Relaxed);
    let st = stepped();
    if st { step_on() }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if st { STOP.store(true, Relaxed) }
    GUARD.store(false, Relaxed);
    if st { step_off() }
    IN_LIB.store(false, Relaxed);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".to_string() }
    })
}
/// Run lane code (no allocation): panics are returned as Err.
#[inline]
pub fn lane<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    IN_LIB.store(true, Relaxed);
    let st = stepped();
    if st { step_on() }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if st { step_off() }
    IN_LIB.store(false, Relaxed);
    r.map_err(|_| "panic".to_string())
}

// ------------------------------------------------------------------ reporting
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub shard: usize,
    pub shards: usize,
    pub only: Option<(String, String)>,
    pub light: bool,
    task: usize,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub sites: HashMap<String, u64>,
    pub samples: Vec<String>,
    viol: HashMap<String, u64>,
    pub digests: Vec<(String, u64)>,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                  c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o
}

impl Ctx {
    pub fn from_args() -> Ctx {
        let mut c = Ctx { prop: String::new(), tier: Tier::Quick, shard: 0, shards: 1, only: None, light: false, task: 0,
            states: 0, transitions: 0, traces: 0, outcomes: HashSet::new(), sites: HashMap::new(),
            samples: vec![], viol: HashMap::new(), digests: vec![] };
        let a: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < a.len() {
            match a[i].as_str() {
                "--prop" => { c.prop = a[i + 1].clone(); i += 1 }
                "--tier" => { c.tier = if a[i + 1] == "thorough" { Tier::Thorough } else { Tier::Quick }; i += 1 }
                "--shard" => {
                    let v: Vec<usize> = a[i + 1].split('/').map(|x| x.parse().unwrap()).collect();
                    c.shard = v[0]; c.shards = v[1]; i += 1
                }
                "--site" => { let s = a[i + 1].clone(); c.only = Some((s, c.only.map(|x| x.1).unwrap_or_default())); i += 1 }
                "--case" => { let s = a[i + 1].clone(); c.only = Some((c.only.map(|x| x.0).unwrap_or_default(), s)); i += 1 }
                "--step" => STEP.store(true, Relaxed),
                "--light" => c.light = true,
                x => { eprintln!("bad argument {}", x); std::process::exit(2) }
            }
            i += 1;
        }
        unsafe { BUDGET.2 = if c.thorough() { 400_000 } else { 20_000 } }
        init_arena();
        init_signals();
        std::panic::set_hook(Box::new(|i| {
            if !IN_LIB.load(Relaxed) { eprintln!("HARNESS PANIC: {}", i); }
        }));
        c
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    /// Deals tasks out to the shards.
    pub fn mine(&mut self) -> bool {
        self.task += 1;
        if self.only.is_some() { return true }
        (self.task - 1) % self.shards == self.shard
    }
    /// On replay: is this the site asked for?
    pub fn want_site(&self, s: &str) -> bool {
        match &self.only { Some((o, _)) if !o.is_empty() => o == s, _ => true }
    }
    pub fn want_case(&self, f: impl FnOnce() -> String) -> bool {
        match &self.only { Some((_, c)) if !c.is_empty() => *c == f(), _ => true }
    }
    pub fn site(&mut self, s: &str, n: u64) { *self.sites.entry(s.to_string()).or_insert(0) += n; }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 { let s = f(); self.samples.push(s) }
    }
    pub fn outcome(&mut self, h: u64) { if self.outcomes.len() < 1 << 20 { self.outcomes.insert(h); } }
    pub fn fail(&mut self, site: &str, case: impl FnOnce() -> String, msg: impl FnOnce() -> String) {
        if stepping() { return } // not what is being decided
        let n = self.viol.entry(site.to_string()).or_insert(0);
        *n += 1;
        if *n <= 3 {
            println!("{{\"k\":\"violation\",\"site\":\"{}\",\"case\":\"{}\",\"msg\":\"{}\"}}", esc(site), esc(&case()), esc(&msg()));
        }
        if *n > 200000 { self.finish() }
    }
    pub fn failed(&self, site: &str) -> bool { self.viol.contains_key(site) }
    pub fn finish(&self) -> ! {
        let s: Vec<String> = self.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let st: Vec<String> = self.sites.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        let vi: Vec<String> = self.viol.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        let dg: Vec<String> = self.digests.iter().map(|(k, v)| format!("\"{}\":\"{:016x}\"", esc(k), v)).collect();
        let steps = STEPS.load(Relaxed) as u64;
        println!("{{\"k\":\"summary\",\"states\":{},\"transitions\":{},\"traces\":{},\"outcomes\":{},\"samples\":[{}],\"sites\":{{{}}},\"viol\":{{{}}},\"digests\":{{{}}}}}",
            if steps > 0 { unsafe { STEPPED } } else { self.states }, if steps > 0 { steps } else { self.transitions }, if steps > 0 { unsafe { STEPPED } } else { self.traces }, self.outcomes.len(), s.join(","), st.join(","), vi.join(","), dg.join(","));
        std::process::exit(0)
    }
}

pub fn hash64(it: impl Iterator<Item = u64>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for v in it { h = (h ^ v).wrapping_mul(0x100000001b3); h ^= h >> 29; }
    h
}
