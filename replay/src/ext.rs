//! The library as objects that are linked in: IR made for another processor, compiled for this one.
#![allow(clippy::too_many_arguments)]

pub enum CGemmOption { Standard }

extern "C" {
    pub fn h_sgemm(m: usize, k: usize, n: usize, alpha: f32, a: *const f32, rsa: isize, csa: isize, b: *const f32, rsb: isize, csb: isize, beta: f32, c: *mut f32, rsc: isize, csc: isize);
    pub fn h_dgemm(m: usize, k: usize, n: usize, alpha: f64, a: *const f64, rsa: isize, csa: isize, b: *const f64, rsb: isize, csb: isize, beta: f64, c: *mut f64, rsc: isize, csc: isize);
    fn h_cgemm(m: usize, k: usize, n: usize, ar: f32, ai: f32, a: *const [f32; 2], rsa: isize, csa: isize, b: *const [f32; 2], rsb: isize, csb: isize, br: f32, bi: f32, c: *mut [f32; 2], rsc: isize, csc: isize);
    fn h_zgemm(m: usize, k: usize, n: usize, ar: f64, ai: f64, a: *const [f64; 2], rsa: isize, csa: isize, b: *const [f64; 2], rsb: isize, csb: isize, br: f64, bi: f64, c: *mut [f64; 2], rsc: isize, csc: isize);
}
pub use h_dgemm as dgemm;
pub use h_sgemm as sgemm;
macro_rules! cplx {
    ($name:ident, $h:ident, $t:ty) => {
        pub unsafe fn $name(_: CGemmOption, _: CGemmOption, m: usize, k: usize, n: usize, al: [$t; 2], a: *const [$t; 2], rsa: isize, csa: isize, b: *const [$t; 2], rsb: isize, csb: isize, be: [$t; 2], c: *mut [$t; 2], rsc: isize, csc: isize) {
            $h(m, k, n, al[0], al[1], a, rsa, csa, b, rsb, csb, be[0], be[1], c, rsc, csc)
        }
    };
}
cplx!(cgemm, h_cgemm, f32);
cplx!(zgemm, h_zgemm, f64);

#[cfg(all(mmverif, feature = "constconf"))]
pub mod probes {
    extern "C" {
        pub fn h_parse_exact() -> u64;
        pub fn h_parse_zeros() -> u64;
        pub fn h_parse_reject() -> u64;
        pub fn h_blocks_s() -> u64;
        pub fn h_blocks_d() -> u64;
        pub fn h_blocks_c() -> u64;
        pub fn h_blocks_z() -> u64;
    }
}

/// stands for the core library's panics
#[no_mangle]
extern "C" fn mm_panicked() -> ! { std::process::abort() }
