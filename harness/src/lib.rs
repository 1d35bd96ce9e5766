//! Entry points for the symbolic executor: the public API of matrixmultiply with plain C
//! signatures, probes for CPU feature detection, and models of the environment.
#![allow(clippy::missing_safety_doc)]
#![cfg_attr(not(feature = "std"), no_std)]

macro_rules! real {
    ($name:ident, $f:ident, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(
            m: usize, k: usize, n: usize, alpha: $t,
            a: *const $t, rsa: isize, csa: isize,
            b: *const $t, rsb: isize, csb: isize,
            beta: $t, c: *mut $t, rsc: isize, csc: isize)
        {
            matrixmultiply::$f(m, k, n, alpha, a, rsa, csa, b, rsb, csb, beta, c, rsc, csc)
        }
    };
}
real!(h_sgemm, sgemm, f32);
real!(h_dgemm, dgemm, f64);

#[cfg(feature = "cgemm")]
macro_rules! cplx {
    ($name:ident, $f:ident, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(
            m: usize, k: usize, n: usize, alpha_re: $t, alpha_im: $t,
            a: *const [$t; 2], rsa: isize, csa: isize,
            b: *const [$t; 2], rsb: isize, csb: isize,
            beta_re: $t, beta_im: $t, c: *mut [$t; 2], rsc: isize, csc: isize)
        {
            use matrixmultiply::CGemmOption::Standard;
            matrixmultiply::$f(Standard, Standard, m, k, n, [alpha_re, alpha_im],
                               a, rsa, csa, b, rsb, csb, [beta_re, beta_im], c, rsc, csc)
        }
    };
}
#[cfg(feature = "cgemm")]
cplx!(h_cgemm, cgemm, f32);
#[cfg(feature = "cgemm")]
cplx!(h_zgemm, zgemm, f64);

#[cfg(feature = "std")]
mod detect {
    macro_rules! det {
        ($($name:ident $feat:tt)*) => { $(
            #[no_mangle]
            pub extern "C" fn $name() -> bool { std::is_x86_feature_detected!($feat) }
        )* };
    }
    det! {
        det_sse3 "sse3" det_ssse3 "ssse3" det_sse41 "sse4.1" det_sse42 "sse4.2"
        det_avx "avx" det_avx2 "avx2" det_fma "fma" det_f16c "f16c" det_bmi1 "bmi1" det_bmi2 "bmi2"
        det_popcnt "popcnt" det_lzcnt "lzcnt"
        det_avx512f "avx512f" det_avx512vl "avx512vl" det_avx512bw "avx512bw" det_avx512dq "avx512dq"
    }
}

/// Models of the environment the threading registry consults.
#[cfg(feature = "threading")]
mod env_model {
    use std::env::VarError;
    use std::ffi::OsString;
    extern "C" {
        /// length of the variable's value; usize::MAX when unset, usize::MAX - 1 when not unicode
        fn mmv_env_len() -> usize;
        /// i-th byte
        fn mmv_env_byte(i: usize) -> u8;
    }

    unsafe fn bytes(len: usize) -> Vec<u8> {
        if len == 0 { return Vec::new(); }
        let lay = std::alloc::Layout::from_size_align_unchecked(len, 1);
        let p = std::alloc::alloc(lay);
        if p.is_null() { std::alloc::handle_alloc_error(lay) }
        let mut i = 0;
        while i < len { *p.add(i) = mmv_env_byte(i); i += 1; }
        Vec::from_raw_parts(p, len, len)
    }

    /// stands for std::env::var
    #[no_mangle]
    pub unsafe extern "C" fn model_env_var(out: *mut Result<String, VarError>) {
        let len = mmv_env_len();
        let r = if len == usize::MAX {
            Err(VarError::NotPresent)
        } else if len == usize::MAX - 1 {
            Err(VarError::NotUnicode(OsString::new()))
        } else {
            Ok(String::from_utf8_unchecked(bytes(len)))
        };
        out.write(r);
    }

    /// stands for std::env::var_os
    #[no_mangle]
    pub unsafe extern "C" fn model_env_var_os(out: *mut Option<OsString>) {
        let len = mmv_env_len();
        let r = if len == usize::MAX {
            None
        } else if len == usize::MAX - 1 {
            Some(OsString::new())
        } else {
            Some(OsString::from(String::from_utf8_unchecked(bytes(len))))
        };
        out.write(r);
    }

    extern "C" {
        /// number of physical cores
        fn mmv_phys() -> usize;
    }

    /// How many tasks may run at the same time, as documented: the variable's value if it is a
    /// number, 1 if it is set to something else, the number of physical cores if it is unset or
    /// empty; at least 1 and at most 4. (Not unicode: either of the last two, so the larger.)
    #[no_mangle]
    pub unsafe extern "C" fn h_spec_threads() -> usize {
        let len = mmv_env_len();
        let want = if len >= usize::MAX - 1 || len == 0 {
            mmv_phys()
        } else {
            let mut i = 0;
            let mut ok = true;
            let mut v: usize = 0;
            if mmv_env_byte(0) == b'+' { i = 1; }
            if i == len { ok = false; }
            while ok && i < len {
                let b = mmv_env_byte(i);
                if b < b'0' || b > b'9' { ok = false; break; }
                v = match v.checked_mul(10).and_then(|x| x.checked_add((b - b'0') as usize)) { Some(x) => x, None => { ok = false; break; } };
                i += 1;
            }
            if ok { v } else { 1 }
        };
        if want < 1 { return 1; }
        if want == 1 { return 1; }
        if want == 2 { return 2; }
        if want == 3 { return 3; }
        4
    }

    /// Decimal parsing as documented for usize::from_str: optional '+', at least one digit,
    /// only digits, no overflow.  Returns 1 and the value, or 0.
    #[no_mangle]
    pub unsafe extern "C" fn model_parse_usize(p: *const u8, len: usize, out: *mut usize) -> u8 {
        let mut i = 0;
        if len > 0 && *p == b'+' { i = 1; }
        if i == len { return 0; }
        let mut v: usize = 0;
        while i < len {
            let d = (*p.add(i)).wrapping_sub(b'0');
            if d > 9 { return 0; }
            v = match v.checked_mul(10) { Some(x) => x, None => return 0 };
            v = match v.checked_add(d as usize) { Some(x) => x, None => return 0 };
            i += 1;
        }
        *out = v;
        1
    }
}

#[cfg(all(mmverif, feature = "constconf"))]
mod probes;
