From bf65b1ea466db4125c993021549f5d851e721aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:37 +0000
Subject: [PATCH 1/4] fix: pack_complex no longer doubles strides it does not
 use

With debug assertions 2 * stride overflowed and panicked for the stride of
an extent-1 axis, whose value is arbitrary. Offset on the complex pointer
instead and cast the element pointer.
---
 src/cgemm_common.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/cgemm_common.rs b/src/cgemm_common.rs
index 59d37d5..1c63b41 100644
--- a/src/cgemm_common.rs
+++ b/src/cgemm_common.rs
@@ -143,10 +143,8 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
           T: Element,
           TReal: Element,
 {
-    // use pointers as pointer to TReal
+    // use pointer as pointer to TReal
     let pack = pack.as_mut_ptr() as *mut TReal;
-    let areal = a as *const TReal;
-    let aimag = areal.add(1);
 
     assert_eq!(mem::size_of::<T>(), 2 * mem::size_of::<TReal>());
 
@@ -159,16 +157,16 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
         for j in 0..kc {
             // real row
             for i in 0..mr {
-                let a_elt = areal.stride_offset(2 * rsa, i + row_offset)
-                                 .stride_offset(2 * csa, j);
+                let a_elt = a.stride_offset(rsa, i + row_offset)
+                             .stride_offset(csa, j) as *const TReal;
                 copy_nonoverlapping(a_elt, pack.add(p), 1);
                 p += 1;
             }
             // imag row
             for i in 0..mr {
-                let a_elt = aimag.stride_offset(2 * rsa, i + row_offset)
-                                 .stride_offset(2 * csa, j);
-                copy_nonoverlapping(a_elt, pack.add(p), 1);
+                let a_elt = a.stride_offset(rsa, i + row_offset)
+                             .stride_offset(csa, j) as *const TReal;
+                copy_nonoverlapping(a_elt.add(1), pack.add(p), 1);
                 p += 1;
             }
         }
@@ -184,8 +182,8 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
             // real row
             for i in 0..mr {
                 if i < rest {
-                    let a_elt = areal.stride_offset(2 * rsa, i + row_offset)
-                                     .stride_offset(2 * csa, j);
+                    let a_elt = a.stride_offset(rsa, i + row_offset)
+                                 .stride_offset(csa, j) as *const TReal;
                     copy_nonoverlapping(a_elt, pack.add(p), 1);
                 } else {
                     *pack.add(p) = zero;
@@ -195,9 +193,9 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
             // imag row
             for i in 0..mr {
                 if i < rest {
-                    let a_elt = aimag.stride_offset(2 * rsa, i + row_offset)
-                                     .stride_offset(2 * csa, j);
-                    copy_nonoverlapping(a_elt, pack.add(p), 1);
+                    let a_elt = a.stride_offset(rsa, i + row_offset)
+                                 .stride_offset(csa, j) as *const TReal;
+                    copy_nonoverlapping(a_elt.add(1), pack.add(p), 1);
                 } else {
                     *pack.add(p) = zero;
                 }
-- 
2.43.0


From a37078cf4c4a7282b322fbce71b307e6cc360ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:06 +0000
Subject: [PATCH 2/4] fix: constconf rejects block sizes that are empty or
 exceed usize

The parser wrapped around silently on overflow and took an empty string as
zero; both are now compile-time errors like any other malformed value.
---
 src/constparse.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/constparse.rs b/src/constparse.rs
index f6de70a..cfaee31 100644
--- a/src/constparse.rs
+++ b/src/constparse.rs
@@ -12,6 +12,8 @@
 #[derive(Clone, Copy)]
 pub(crate) enum ParseIntError {
     InvalidDigit,
+    Empty,
+    Overflow,
 }
 
 const fn parse_byte(b: u8, pow10: usize) -> Result<usize, ParseIntError> {
@@ -20,7 +22,13 @@ const fn parse_byte(b: u8, pow10: usize) -> Result<usize, ParseIntError> {
     if r > 9 {
         Err(ParseIntError::InvalidDigit)
     } else {
-        Ok((r as usize) * pow10)
+        let (value, overflow) = (r as usize).overflowing_mul(pow10);
+        // powers of ten that don't fit are stored as zero in the table
+        if overflow || (pow10 == 0 && r != 0) {
+            Err(ParseIntError::Overflow)
+        } else {
+            Ok(value)
+        }
     }
 }
 
@@ -63,6 +71,9 @@ pub(crate) const fn parse(b: &str) -> Result<usize, ParseIntError> {
     let mut result: usize = 0;
 
     let len = bytes.len();
+    if len == 0 {
+        return Err(ParseIntError::Empty);
+    }
 
     // Start at the correct index of the table,
     // (skip the power's that are too large)
@@ -78,7 +89,11 @@ pub(crate) const fn parse(b: &str) -> Result<usize, ParseIntError> {
             Ok(d) => d,
         };
 
-        result = result.wrapping_add(r);
+        let (sum, overflow) = result.overflowing_add(r);
+        if overflow {
+            return Err(ParseIntError::Overflow);
+        }
+        result = sum;
 
         index += 1;
         index_const_table += 1;
-- 
2.43.0


From af85e98eb2834f104fcaf101cef3253fff0bf85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 3/4] verif hook: parameter parsing and block sizes, only with
 --cfg mmverif

---
 src/lib.rs        |  6 ++++++
 src/verif_hook.rs | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)
 create mode 100644 src/verif_hook.rs

diff --git a/src/lib.rs b/src/lib.rs
index 60f09d7..3f64ef4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -127,6 +127,7 @@
 
 #![doc(html_root_url = "https://docs.rs/matrixmultiply/0.3/")]
 #![cfg_attr(not(feature = "std"), no_std)]
+#![allow(unexpected_cfgs)] // for cfg(mmverif)
 
 #[cfg(not(feature = "std"))]
 extern crate alloc;
@@ -186,3 +187,8 @@ pub use crate::gemm::cgemm;
 pub use crate::gemm::zgemm;
 #[cfg(feature = "cgemm")]
 pub use crate::gemm::CGemmOption;
+
+// Access for verification tools; built only with `--cfg mmverif`.
+#[cfg(mmverif)]
+#[doc(hidden)]
+pub mod verif_hook;
diff --git a/src/verif_hook.rs b/src/verif_hook.rs
new file mode 100644
index 0000000..889f1fa
--- /dev/null
+++ b/src/verif_hook.rs
@@ -0,0 +1,37 @@
+//! Access for verification tools; built only with `--cfg mmverif`.
+
+use crate::kernel::{Element, GemmKernel, GemmSelect};
+
+/// The value of a compile-time parameter's text.
+#[cfg(feature = "constconf")]
+pub fn parse_parameter(text: &str) -> usize {
+    crate::constparse::parse_unwarp(text)
+}
+
+struct Blocks<'a>(&'a mut [usize; 3]);
+
+impl<'a, T> GemmSelect<T> for Blocks<'a> {
+    fn select<K>(self, _kernel: K)
+        where K: GemmKernel<Elem=T>,
+              T: Element,
+    {
+        *self.0 = [K::mc(), K::kc(), K::nc()];
+    }
+}
+
+macro_rules! blocks {
+    ($name:ident, $kernel:ident) => {
+        /// MC, KC and NC of the kernel selected on this CPU.
+        pub fn $name() -> [usize; 3] {
+            let mut r = [0; 3];
+            crate::$kernel::detect(Blocks(&mut r));
+            r
+        }
+    }
+}
+blocks!(sgemm_blocks, sgemm_kernel);
+blocks!(dgemm_blocks, dgemm_kernel);
+#[cfg(feature = "cgemm")]
+blocks!(cgemm_blocks, cgemm_kernel);
+#[cfg(feature = "cgemm")]
+blocks!(zgemm_blocks, zgemm_kernel);
-- 
2.43.0


From 3a2c6fb02e53bcb4965b383f775fd050c4af62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 4/4] fix: dgemm's NEON kernel uses dgemm's block sizes

KernelNeon of dgemm took NC, KC and MC from the sgemm parameters, so that
on AArch64 MATMUL_DGEMM_* had no effect and MATMUL_SGEMM_* governed dgemm.
---
 src/dgemm_kernel.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dgemm_kernel.rs b/src/dgemm_kernel.rs
index a5c3eb9..c38a7c9 100644
--- a/src/dgemm_kernel.rs
+++ b/src/dgemm_kernel.rs
@@ -247,11 +247,11 @@ impl GemmKernel for KernelNeon {
     fn always_masked() -> bool { false }
 
     #[inline(always)]
-    fn nc() -> usize { archparam::S_NC }
+    fn nc() -> usize { archparam::D_NC }
     #[inline(always)]
-    fn kc() -> usize { archparam::S_KC }
+    fn kc() -> usize { archparam::D_KC }
     #[inline(always)]
-    fn mc() -> usize { archparam::S_MC }
+    fn mc() -> usize { archparam::D_MC }
 
     #[inline(always)]
     unsafe fn kernel(
-- 
2.43.0

