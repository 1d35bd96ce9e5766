//! Probes of the compile-time parameters; each returns 1 when all is as documented.

use matrixmultiply::verif_hook as hook;
extern "C" {
    fn mmv_env_len() -> usize;
    fn mmv_env_byte(i: usize) -> u8;
}
const MAX: usize = 22;

/// the text as a decimal number below 2^64, read independently of the library
const fn decimal(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    let mut v: usize = 0;
    if b.len() == 0 { return None; }
    while i < b.len() {
        if b[i] < b'0' || b[i] > b'9' { return None; }
        v = match v.checked_mul(10) { Some(x) => x, None => return None };
        v = match v.checked_add((b[i] - b'0') as usize) { Some(x) => x, None => return None };
        i += 1;
    }
    Some(v)
}

#[inline(always)]
unsafe fn with_text(f: impl Fn(&str) -> u64) -> u64 {
    let len = mmv_env_len();
    let mut buf = [0u8; MAX];
    let mut l = 0;
    while l <= MAX {
        if len == l {
            let mut i = 0;
            while i < l { *buf.get_unchecked_mut(i) = mmv_env_byte(i); i += 1; }
            return f(core::str::from_utf8_unchecked(core::slice::from_raw_parts(buf.as_ptr(), l)));
        }
        l += 1;
    }
    1
}

/// every decimal number (without superfluous zeros) is accepted and read exactly
#[no_mangle]
pub unsafe extern "C" fn h_parse_exact() -> u64 {
    with_text(|t| {
        let b = t.as_bytes();
        if b.len() > 1 && b[0] == b'0' { return 1; }
        match decimal(b) { Some(v) => if hook::parse_parameter(t) == v { 1 } else { 2 }, None => 1 }
    })
}

/// zeros in front do not change the value, if the text is accepted at all
#[no_mangle]
pub unsafe extern "C" fn h_parse_zeros() -> u64 {
    with_text(|t| {
        let b = t.as_bytes();
        if b.len() < 2 || b[0] != b'0' { return 1; }
        match decimal(b) { Some(v) => if hook::parse_parameter(t) == v { 1 } else { 2 }, None => 1 }
    })
}

/// text that is not a decimal number, or too large a number, does not give a value
#[no_mangle]
pub unsafe extern "C" fn h_parse_reject() -> u64 {
    with_text(|t| {
        match decimal(t.as_bytes()) { Some(_) => 1, None => { core::hint::black_box(hook::parse_parameter(t)); 0 } }
    })
}

macro_rules! want {
    ($v:expr, $default:expr) => { match option_env!($v) { Some(x) => match decimal(x.as_bytes()) { Some(v) => v, None => 0 }, None => match option_env!($default) { Some(x) => match decimal(x.as_bytes()) { Some(v) => v, None => 0 }, None => 0 } } };
}
macro_rules! blocks {
    ($name:ident, $f:ident, $m:tt $k:tt $n:tt, $dm:tt $dk:tt $dn:tt) => {
        /// the kernel selected on any CPU has the configured block sizes
        #[no_mangle]
        pub unsafe extern "C" fn $name() -> u64 {
            const W: [usize; 3] = [want!($m, $dm), want!($k, $dk), want!($n, $dn)];
            let g = hook::$f();
            if W[0] != 0 && g[0] != W[0] { return 2; }
            if W[1] != 0 && g[1] != W[1] { return 3; }
            if W[2] != 0 && g[2] != W[2] { return 4; }
            1
        }
    };
}
blocks!(h_blocks_s, sgemm_blocks, "MATMUL_SGEMM_MC" "MATMUL_SGEMM_KC" "MATMUL_SGEMM_NC", "MMV_SGEMM_MC" "MMV_SGEMM_KC" "MMV_SGEMM_NC");
blocks!(h_blocks_d, dgemm_blocks, "MATMUL_DGEMM_MC" "MATMUL_DGEMM_KC" "MATMUL_DGEMM_NC", "MMV_DGEMM_MC" "MMV_DGEMM_KC" "MMV_DGEMM_NC");
#[cfg(feature = "cgemm")]
blocks!(h_blocks_c, cgemm_blocks, "MATMUL_CGEMM_MC" "MATMUL_CGEMM_KC" "MATMUL_CGEMM_NC", "MMV_CGEMM_MC" "MMV_CGEMM_KC" "MMV_CGEMM_NC");
#[cfg(feature = "cgemm")]
blocks!(h_blocks_z, zgemm_blocks, "MATMUL_ZGEMM_MC" "MATMUL_ZGEMM_KC" "MATMUL_ZGEMM_NC", "MMV_ZGEMM_MC" "MMV_ZGEMM_KC" "MMV_ZGEMM_NC");
