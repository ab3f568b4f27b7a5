//! Harness interface.  In the symbolic build these are intrinsics of the executor; in the native build they read a
//! recorded input and report failed checks.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn vx_sym(p: *mut u8, n: usize, kind: u32);
        pub fn vx_assume(c: bool);
        pub fn vx_check(c: bool, id: u32);
        pub fn vx_check_eq(a: *const u8, b: *const u8, n: usize, id: u32);
        pub fn vx_param(i: u32) -> u64;
        pub fn vx_unique(x: u64) -> u64;
        pub fn vx_expect_panic(c: bool);
        pub fn vx_expect_end();
        pub fn vx_ct(on: u32);
        pub fn vx_trace(i: u32);
    }
    pub fn int_sym(nb: usize, hi: &abstract_integers::BigInt) -> abstract_integers::BigInt { num::vx_sym_int(nb, hi) }
    pub fn exact(on: bool) { num::vx_exact(on) }
}
#[cfg(feature = "native")]
mod imp {
    static mut INPUT: Vec<u8> = Vec::new();
    static mut POS: usize = 0;
    static mut PARAMS: Vec<u64> = Vec::new();
    static mut EXPECT: bool = false;
    fn end(what: &str) -> ! {
        println!("VX {}", what);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(0)
    }
    fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
    #[no_mangle]
    pub extern "C" fn vx_init() {
        unsafe {
            INPUT = unhex(&std::env::var("VX_INPUT").unwrap_or_default());
            PARAMS = std::env::var("VX_PARAMS").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        }
        std::panic::set_hook(Box::new(|i| {
            if unsafe { EXPECT } { end("ok expected-panic") }
            end(&format!("FAIL panic {}", i).replace('\n', " "))
        }));
    }
    #[no_mangle]
    pub extern "C" fn vx_fini() { if unsafe { EXPECT } { end("FAIL must-panic") } end("ok") }
    pub unsafe fn vx_sym(p: *mut u8, n: usize, _kind: u32) {
        for k in 0..n { *p.add(k) = if POS + k < INPUT.len() { INPUT[POS + k] } else { 0 } }
        POS += n;
    }
    pub unsafe fn vx_assume(c: bool) { if !c { end("assume") } }
    pub unsafe fn vx_check(c: bool, id: u32) { if !c { end(&format!("FAIL check{}", id)) } }
    pub unsafe fn vx_check_eq(a: *const u8, b: *const u8, n: usize, id: u32) {
        let (x, y) = (std::slice::from_raw_parts(a, n), std::slice::from_raw_parts(b, n));
        if x != y { end(&format!("FAIL eq{} got {:02x?} want {:02x?}", id, x, y)) }
    }
    pub unsafe fn vx_param(i: u32) -> u64 { if (i as usize) < PARAMS.len() { PARAMS[i as usize] } else { 0 } }
    pub unsafe fn vx_unique(x: u64) -> u64 { x }
    pub unsafe fn vx_expect_panic(c: bool) { EXPECT = c }
    pub unsafe fn vx_expect_end() { if EXPECT { end("FAIL must-panic") } }
    pub unsafe fn vx_ct(_on: u32) {}
    pub unsafe fn vx_trace(_i: u32) {}
    pub fn int_sym(nb: usize, hi: &abstract_integers::BigInt) -> abstract_integers::BigInt {
        let mut v = vec![0u8; nb];
        unsafe { vx_sym(v.as_mut_ptr(), nb, 0) };
        let x = abstract_integers::BigInt::from_bytes_le(abstract_integers::Sign::Plus, &v);
        if &x > hi { end("assume") }
        x
    }
    pub fn exact(_on: bool) {}
}
pub use imp::{exact, int_sym};

/// arbitrary value of an integer type, public
#[inline(always)]
pub fn any<T: Copy>() -> T { let mut x = std::mem::MaybeUninit::<T>::uninit(); unsafe { imp::vx_sym(x.as_mut_ptr() as *mut u8, std::mem::size_of::<T>(), 0); x.assume_init() } }
/// arbitrary value of an integer type, secret
#[inline(always)]
pub fn secret<T: Copy>() -> T { let mut x = std::mem::MaybeUninit::<T>::uninit(); unsafe { imp::vx_sym(x.as_mut_ptr() as *mut u8, std::mem::size_of::<T>(), 1); x.assume_init() } }
pub fn flag() -> bool { let mut x = 0u8; unsafe { imp::vx_sym(&mut x, 1, 4) }; x & 1 == 1 }
/// n arbitrary bytes
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; unsafe { imp::vx_sym(v.as_mut_ptr(), n, 2) }; v }
/// n bytes, the first c of them fixed
pub fn bytes_from(n: usize, c: usize) -> Vec<u8> { let mut v = vec![0u8; n]; for i in 0..c { v[i] = (i % 251) as u8 } unsafe { imp::vx_sym(v.as_mut_ptr().add(c), n - c, 2) }; v }
pub fn secret_bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; unsafe { imp::vx_sym(v.as_mut_ptr(), n, 3) }; v }
#[inline(always)]
pub fn assume(c: bool) { unsafe { imp::vx_assume(c) } }
#[inline(always)]
pub fn check(c: bool, id: u32) { unsafe { imp::vx_check(c, id) } }
/// equal byte strings (and lengths)
pub fn same(a: &[u8], b: &[u8], id: u32) { check(a.len() == b.len(), 1000 + id); unsafe { imp::vx_check_eq(a.as_ptr(), b.as_ptr(), a.len(), id) } }
pub fn param(i: u32) -> usize { unsafe { imp::vx_param(i) as usize } }
/// case split: f runs once for each possible value of x (at most max); x is a constant in each run
pub fn split<F: FnMut(usize)>(x: usize, max: usize, mut f: F) { assume(x <= max); for i in 0..=max { if x == i { f(unsafe { imp::vx_unique(x as u64) } as usize); } } }
/// from here on a panic is required when c holds and forbidden when it does not
#[inline(always)]
pub fn panics_iff(c: bool) { unsafe { imp::vx_expect_panic(c) } }
#[inline(always)]
pub fn panics_end() { unsafe { imp::vx_expect_end() } }
pub fn ct(on: bool) { unsafe { imp::vx_ct(on as u32) } }
/// equality of two values of an integer type
#[inline(always)]
pub fn eqv<T: Copy>(a: T, b: T, id: u32) { let (a, b) = (a, b); unsafe { imp::vx_check_eq(&a as *const T as *const u8, &b as *const T as *const u8, std::mem::size_of::<T>(), id) } }
#[macro_export]
macro_rules! h { ($($name:ident $body:block)*) => { $( #[no_mangle] pub extern "C" fn $name() $body )* } }
/// harness with a name built from literals: hx!("h_c02_", "u8"; { body })
#[macro_export]
macro_rules! hx { ($($n:expr),+ ; $b:block) => { const _: () = { #[export_name = concat!($($n),+)] pub extern "C" fn f() $b }; } }
