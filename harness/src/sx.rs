//! What a harness may ask of the machinery.  Under the symbolic executor these
//! are intrinsics; in the native replay build they read a recorded assignment.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sx_bytes(p: *mut u8, n: usize);
        fn sx_choose(n: u64) -> u64;
        fn sx_assume(c: u32);
        fn sx_check(c: u32, code: u32);
        fn sx_param(i: u64) -> u64;
        fn sx_cover(i: u64);
        fn sx_observe(v: u64);
        fn sx_expect_panic(v: u64);
        fn sx_set_time(v: u64);
        fn sx_stop();
    }
    #[inline(never)]
    pub fn fill(b: &mut [u8]) {
        unsafe { sx_bytes(b.as_mut_ptr(), b.len()) }
    }
    pub fn choose(n: u64) -> u64 {
        unsafe { sx_choose(n) }
    }
    pub fn assume(c: bool) {
        unsafe { sx_assume(c as u32) }
    }
    pub fn check(c: bool, code: u32) {
        unsafe { sx_check(c as u32, code) }
    }
    pub fn param(i: u64) -> u64 {
        unsafe { sx_param(i) }
    }
    pub fn cover(i: u64) {
        unsafe { sx_cover(i) }
    }
    pub fn observe(v: u64) {
        unsafe { sx_observe(v) }
    }
    pub fn expect_panic(v: bool) {
        unsafe { sx_expect_panic(v as u64) }
    }
    pub fn set_time(v: u64) {
        unsafe { sx_set_time(v) }
    }
    pub fn stop() {
        unsafe { sx_stop() }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;

    #[derive(Clone, Debug)]
    pub enum Inp {
        Bytes(Vec<u8>),
        Choice(u64),
    }
    pub struct Stop;
    pub struct Assumed;
    pub struct Check(pub u32);
    pub struct Mismatch(pub String);

    #[derive(Default)]
    pub struct St {
        pub params: Vec<u64>,
        pub inputs: Vec<Inp>,
        pub pos: usize,
        pub hash: u64,
        pub expect_panic: bool,
    }
    thread_local! {
        pub static ST: RefCell<St> = RefCell::new(St::default());
    }
    pub fn reset(params: Vec<u64>, inputs: Vec<Inp>) {
        ST.with(|s| {
            *s.borrow_mut() = St {
                params,
                inputs,
                pos: 0,
                hash: 0xcbf29ce484222325,
                expect_panic: false,
            }
        })
    }
    fn next() -> Option<Inp> {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let r = s.inputs.get(s.pos).cloned();
            s.pos += 1;
            r
        })
    }
    pub fn fill(b: &mut [u8]) {
        match next() {
            Some(Inp::Bytes(v)) if v.len() == b.len() => b.copy_from_slice(&v),
            o => std::panic::panic_any(Mismatch(format!("wanted {} bytes, got {:?}", b.len(), o))),
        }
    }
    pub fn choose(n: u64) -> u64 {
        match next() {
            Some(Inp::Choice(c)) if c < n => c,
            o => std::panic::panic_any(Mismatch(format!("wanted a choice of {}, got {:?}", n, o))),
        }
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Assumed)
        }
    }
    pub fn check(c: bool, code: u32) {
        if !c {
            std::panic::panic_any(Check(code))
        }
    }
    pub fn param(i: u64) -> u64 {
        ST.with(|s| s.borrow().params.get(i as usize).cloned().unwrap_or(0))
    }
    pub fn cover(_: u64) {}
    pub fn observe(v: u64) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            for b in v.to_le_bytes() {
                s.hash ^= b as u64;
                s.hash = s.hash.wrapping_mul(0x100000001b3);
            }
        })
    }
    pub fn expect_panic(v: bool) {
        ST.with(|s| s.borrow_mut().expect_panic = v)
    }
    /// the clock shows what the harness says, as under the executor
    static NOW: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1_000_000_000_000);
    pub fn set_time(v: u64) {
        NOW.store(v, std::sync::atomic::Ordering::SeqCst)
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut [i64; 2]) -> i32 {
        let n = NOW.load(std::sync::atomic::Ordering::SeqCst) as i64;
        *t = [n / 1_000_000_000, n % 1_000_000_000];
        0
    }
    pub fn stop() {
        std::panic::panic_any(Stop)
    }
}

pub use imp::*;

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}

/// `n` symbolic bytes
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v[..]);
    v
}

pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for c in b {
        observe(*c as u64);
    }
}

/// Declares harness entry points and the table the replay binary looks them up in.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $body:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body() })*
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($name), $body as fn())),*]
        }
    };
}
