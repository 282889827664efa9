//! Interface between a harness and whoever runs it: the symbolic executor (which intercepts the extern functions) or
//! the native replay (feature "native"), which reads the inputs from a file.
extern "C" {
    fn rawsym_any(name: *const u8, len: usize, kind: u64, width: u64, lo: u64, hi: u64) -> u64;
    fn rawsym_assume(c: bool);
    fn rawsym_check(c: bool, msg: *const u8, len: usize);
    fn rawsym_observe(v: u64);
    fn rawsym_reach(msg: *const u8, len: usize);
    fn rawsym_concretize(v: u64) -> u64;
    fn rawsym_tier() -> u64;
    fn rawsym_seed(v: u64);
    fn rawsym_heap() -> u64;
}

fn any(name: &str, kind: u64, width: u64, lo: u64, hi: u64) -> u64 {
    unsafe { rawsym_any(name.as_ptr(), name.len(), kind, width, lo, hi) }
}
/// Any integer in lo..=hi, kept symbolic.
pub fn any_usize(name: &str, lo: usize, hi: usize) -> usize { any(name, 0, 64, lo as u64, hi as u64) as usize }
pub fn any_u32(name: &str, lo: u32, hi: u32) -> u32 { any(name, 0, 32, lo as u64, hi as u64) as u32 }
/// Any signed 64-bit integer in lo..=hi, kept symbolic.
pub fn any_i64(name: &str, lo: i64, hi: i64) -> i64 { any(name, 1, 64, lo as u64, hi as u64) as i64 }
/// Any single-precision number in lo..=hi.
pub fn any_f32(name: &str, lo: f32, hi: f32) -> f32 { f32::from_bits(any(name, 2, 32, lo.to_bits() as u64, hi.to_bits() as u64) as u32) }
/// Any double-precision number in lo..=hi.
pub fn any_f64(name: &str, lo: f64, hi: f64) -> f64 { f64::from_bits(any(name, 3, 64, lo.to_bits(), hi.to_bits())) }
/// Any 32-bit pattern, including NaN and infinities.
pub fn any_bits32(name: &str) -> f32 { f32::from_bits(any(name, 4, 32, 0, 0) as u32) }
/// One of lo..=hi; every value is explored on a path of its own.
pub fn pick(name: &str, lo: usize, hi: usize) -> usize { any(name, 5, 64, lo as u64, hi as u64) as usize }
pub fn concretize(v: usize) -> usize { unsafe { rawsym_concretize(v as u64) as usize } }
/// A bound that is larger in the thorough tier.
pub fn bound(quick: usize, thorough: usize) -> usize { if unsafe { rawsym_tier() } == 0 { quick } else { thorough } }
pub fn thorough() -> bool { unsafe { rawsym_tier() != 0 } }
pub fn assume(c: bool) { unsafe { rawsym_assume(c) } }
pub fn check(c: bool, msg: &str) { unsafe { rawsym_check(c, msg.as_ptr(), msg.len()) } }
pub fn observe(v: f32) { unsafe { rawsym_observe(v.to_bits() as u64) } }
pub fn observe64(v: u64) { unsafe { rawsym_observe(v) } }
/// How often this thread has allocated or freed memory so far.
pub fn heap_operations() -> u64 { unsafe { rawsym_heap() } }
pub fn reach(msg: &str) { unsafe { rawsym_reach(msg.as_ptr(), msg.len()) } }

/// Choose the seeds of the hash maps (before the first one is made): every choice is explored.
pub fn hash_seed(n: usize) { let k = pick("hash_seed", 0, n - 1); unsafe { rawsym_seed(k as u64) } }

/// Numerically equal, or both NaN.
pub fn same(a: f32, b: f32) -> bool { (a == b) | ((a != a) & (b != b)) }
pub fn same64(a: f64, b: f64) -> bool { (a == b) | ((a != a) & (b != b)) }
/// |a - b| <= tol (false for NaN).
pub fn close(a: f32, b: f32, tol: f32) -> bool { (a - b <= tol) & (b - a <= tol) }
pub fn close64(a: f64, b: f64, tol: f64) -> bool { (a - b <= tol) & (b - a <= tol) }

#[cfg(feature = "native")]
mod native {
    use std::sync::Mutex;
    struct St { inputs: Vec<(String, u64)>, pos: usize, observed: Vec<u64>, loaded: bool }
    static ST: Mutex<St> = Mutex::new(St { inputs: vec![], pos: 0, observed: vec![], loaded: false });
    fn with<R>(f: impl FnOnce(&mut St) -> R) -> R {
        let mut s = ST.lock().unwrap_or_else(|e| e.into_inner());
        if !s.loaded {
            s.loaded = true;
            if let Ok(p) = std::env::var("RAWSYM_INPUTS") {
                let t = std::fs::read_to_string(p).expect("inputs");
                s.inputs = t.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')).map(|l| { let (a, b) = l.trim().rsplit_once(' ').unwrap(); (a.to_string(), u64::from_str_radix(b, 16).unwrap()) }).collect();
            }
        }
        f(&mut s)
    }
    unsafe fn st<'a>(p: *const u8, n: usize) -> &'a str { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap() }
    pub fn random(seed: u64) -> u64 { let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03; x ^= x >> 30; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^= x >> 27; x = x.wrapping_mul(0x94d049bb133111eb); x ^ (x >> 31) }
    #[no_mangle]
    pub unsafe extern "C" fn rawsym_any(p: *const u8, n: usize, kind: u64, width: u64, lo: u64, hi: u64) -> u64 {
        let name = st(p, n);
        let v = with(|s| {
            let k = s.pos; s.pos += 1;
            let full = format!("{}#{}", name, k);
            if let Ok(seed) = std::env::var("RAWSYM_RANDOM") {
                let r = random(seed.parse::<u64>().unwrap().wrapping_mul(1_000_003).wrapping_add(k as u64));
                let f = (r >> 11) as f64 / (1u64 << 53) as f64;
                let v = match kind { 0 | 5 => { let span = hi.wrapping_sub(lo); if span == u64::MAX { r } else { lo + r % (span + 1) } } 1 => { let span = hi.wrapping_sub(lo); if span == u64::MAX { r } else { lo.wrapping_add(r % (span + 1)) } }
                    2 => { let (a, b) = (f32::from_bits(lo as u32), f32::from_bits(hi as u32)); ((a as f64 + (b as f64 - a as f64) * f) as f32).clamp(a, b).to_bits() as u64 }
                    3 => { let (a, b) = (f64::from_bits(lo), f64::from_bits(hi)); (a + (b - a) * f).clamp(a, b).to_bits() }
                    _ => if width == 64 { r } else { r & ((1 << width) - 1) } };
                s.inputs.push((full, v));
                return v;
            }
            if k >= s.inputs.len() { println!("INPUT LIST EXHAUSTED at {full}"); std::process::exit(78); }
            let (nm, v) = s.inputs[k].clone();
            if nm != full { println!("INPUT MISMATCH {nm} {full}"); std::process::exit(78); }
            v
        });
        // sign-extend narrow signed values
        if kind == 1 && width < 64 { (((v << (64 - width)) as i64) >> (64 - width)) as u64 } else { v }
    }
    pub fn dump() { with(|s| { for v in &s.observed { println!("OBS {:x}", v); } }) }
    pub fn dump_inputs() { with(|s| { for (n, v) in &s.inputs { println!("IN {} {:x}", n, v); } }) }
    #[no_mangle]
    pub unsafe extern "C" fn rawsym_assume(c: bool) { if !c { println!("ASSUMPTION FALSE"); std::process::exit(77); } }
    #[no_mangle]
    pub unsafe extern "C" fn rawsym_check(c: bool, p: *const u8, n: usize) { if !c { println!("CHECK FAILED: {}", st(p, n)); if std::env::var("RAWSYM_KEEP_GOING").is_err() { std::process::exit(42); } } }
    #[no_mangle]
    pub unsafe extern "C" fn rawsym_observe(v: u64) { with(|s| s.observed.push(v)) }
    #[no_mangle]
    pub unsafe extern "C" fn rawsym_reach(_: *const u8, _: usize) {}
    #[no_mangle]
    pub unsafe extern "C" fn rawsym_tier() -> u64 { std::env::var("RAWSYM_TIER").ok().and_then(|v| v.parse().ok()).unwrap_or(0) }
    static RNG: Mutex<u64> = Mutex::new(0);
    fn seeded(k: u64) -> u64 { let seed: u64 = std::env::var("RAWSYM_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1); seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03 ^ k.wrapping_mul(0x2545F4914F6CDD1D) }
    #[no_mangle]
    pub unsafe extern "C" fn rawsym_seed(k: u64) { *RNG.lock().unwrap() = seeded(k); }
    /// The standard library seeds its hash maps with this: the same numbers as in the symbolic executor.
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize {
        let mut x = RNG.lock().unwrap();
        if *x == 0 { *x = seeded(0); }
        for i in 0..n { *x ^= *x << 13; *x ^= *x >> 7; *x ^= *x << 17; *p.add(i) = (*x >> 32) as u8; }
        n as isize
    }
    use std::alloc::{GlobalAlloc, Layout, System};
    thread_local! { static HEAP: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
    struct Counting;
    fn count() { let _ = HEAP.try_with(|h| h.set(h.get() + 1)); }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { count(); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { count(); System.dealloc(p, l) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { count(); System.alloc_zeroed(l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { count(); System.realloc(p, l, n) }
    }
    #[global_allocator]
    static ALLOCATOR: Counting = Counting;
    #[no_mangle]
    pub unsafe extern "C" fn rawsym_heap() -> u64 { HEAP.with(|h| h.get()) }
    #[no_mangle]
    pub unsafe extern "C" fn rawsym_concretize(v: u64) -> u64 { v }
}
#[cfg(feature = "native")]
pub use native::{dump, dump_inputs};
