From 854adfe2604205daa2deaa9772f8d262a5fedc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 1/7] fix: dgemm NEON kernel uses the DGEMM block sizes

KernelNeon in dgemm_kernel.rs took nc, kc and mc from the SGEMM parameters, so
with constconf MATMUL_DGEMM_* had no effect on AArch64 while MATMUL_SGEMM_*
changed dgemm.
---
 src/dgemm_kernel.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dgemm_kernel.rs b/src/dgemm_kernel.rs
index a5c3eb9..c38a7c9 100644
--- a/src/dgemm_kernel.rs
+++ b/src/dgemm_kernel.rs
@@ -247,11 +247,11 @@ impl GemmKernel for KernelNeon {
     fn always_masked() -> bool { false }
 
     #[inline(always)]
-    fn nc() -> usize { archparam::S_NC }
+    fn nc() -> usize { archparam::D_NC }
     #[inline(always)]
-    fn kc() -> usize { archparam::S_KC }
+    fn kc() -> usize { archparam::D_KC }
     #[inline(always)]
-    fn mc() -> usize { archparam::S_MC }
+    fn mc() -> usize { archparam::D_MC }
 
     #[inline(always)]
     unsafe fn kernel(
-- 
2.43.0


From 61350903cbc30d6608bb6315a9119b6fd1be79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 2/7] fix: reject block-size settings that do not fit in usize

The compile-time parser wrapped around silently: 18446744073709551680 (2^64 + 64)
was taken as 64, and on 32-bit targets the digits beyond the tenth were ignored.
---
 src/constparse.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/constparse.rs b/src/constparse.rs
index f6de70a..10795a6 100644
--- a/src/constparse.rs
+++ b/src/constparse.rs
@@ -12,6 +12,7 @@
 #[derive(Clone, Copy)]
 pub(crate) enum ParseIntError {
     InvalidDigit,
+    Overflow,
 }
 
 const fn parse_byte(b: u8, pow10: usize) -> Result<usize, ParseIntError> {
@@ -20,7 +21,13 @@ const fn parse_byte(b: u8, pow10: usize) -> Result<usize, ParseIntError> {
     if r > 9 {
         Err(ParseIntError::InvalidDigit)
     } else {
-        Ok((r as usize) * pow10)
+        let (value, overflow) = (r as usize).overflowing_mul(pow10);
+        // a power of ten that does not fit in usize is zero in the table
+        if overflow || (pow10 == 0 && r != 0) {
+            Err(ParseIntError::Overflow)
+        } else {
+            Ok(value)
+        }
     }
 }
 
@@ -78,7 +85,11 @@ pub(crate) const fn parse(b: &str) -> Result<usize, ParseIntError> {
             Ok(d) => d,
         };
 
-        result = result.wrapping_add(r);
+        let (sum, overflow) = result.overflowing_add(r);
+        if overflow {
+            return Err(ParseIntError::Overflow);
+        }
+        result = sum;
 
         index += 1;
         index_const_table += 1;
-- 
2.43.0


From 0d476fcca98fb361a2e19a89e5bb2d29a1bdb60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 3/7] fix: reject empty block-size settings

An empty variable was parsed as 0, so the build went through and every call
panicked.
---
 src/constparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/constparse.rs b/src/constparse.rs
index 10795a6..6a72960 100644
--- a/src/constparse.rs
+++ b/src/constparse.rs
@@ -11,6 +11,7 @@
 
 #[derive(Clone, Copy)]
 pub(crate) enum ParseIntError {
+    Empty,
     InvalidDigit,
     Overflow,
 }
@@ -71,6 +72,10 @@ pub(crate) const fn parse(b: &str) -> Result<usize, ParseIntError> {
 
     let len = bytes.len();
 
+    if len == 0 {
+        return Err(ParseIntError::Empty);
+    }
+
     // Start at the correct index of the table,
     // (skip the power's that are too large)
     let mut index_const_table = POW10.len().wrapping_sub(len);
-- 
2.43.0


From e1c88bd6c49d60ceffb110e350a9f608fa3f5fa4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 4/7] fix: complex packing accepts any stride along an axis of
 extent one

Doubling the stride overflowed (a panic with overflow checks) for strides
beyond half the range of isize, although such a stride is never used.
---
 src/cgemm_common.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cgemm_common.rs b/src/cgemm_common.rs
index 59d37d5..40ea958 100644
--- a/src/cgemm_common.rs
+++ b/src/cgemm_common.rs
@@ -145,8 +145,6 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
 {
     // use pointers as pointer to TReal
     let pack = pack.as_mut_ptr() as *mut TReal;
-    let areal = a as *const TReal;
-    let aimag = areal.add(1);
 
     assert_eq!(mem::size_of::<T>(), 2 * mem::size_of::<TReal>());
 
@@ -159,16 +157,16 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
         for j in 0..kc {
             // real row
             for i in 0..mr {
-                let a_elt = areal.stride_offset(2 * rsa, i + row_offset)
-                                 .stride_offset(2 * csa, j);
+                let a_elt = a.stride_offset(rsa, i + row_offset)
+                             .stride_offset(csa, j) as *const TReal;
                 copy_nonoverlapping(a_elt, pack.add(p), 1);
                 p += 1;
             }
             // imag row
             for i in 0..mr {
-                let a_elt = aimag.stride_offset(2 * rsa, i + row_offset)
-                                 .stride_offset(2 * csa, j);
-                copy_nonoverlapping(a_elt, pack.add(p), 1);
+                let a_elt = a.stride_offset(rsa, i + row_offset)
+                             .stride_offset(csa, j) as *const TReal;
+                copy_nonoverlapping(a_elt.add(1), pack.add(p), 1);
                 p += 1;
             }
         }
@@ -184,8 +182,8 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
             // real row
             for i in 0..mr {
                 if i < rest {
-                    let a_elt = areal.stride_offset(2 * rsa, i + row_offset)
-                                     .stride_offset(2 * csa, j);
+                    let a_elt = a.stride_offset(rsa, i + row_offset)
+                                 .stride_offset(csa, j) as *const TReal;
                     copy_nonoverlapping(a_elt, pack.add(p), 1);
                 } else {
                     *pack.add(p) = zero;
@@ -195,9 +193,9 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
             // imag row
             for i in 0..mr {
                 if i < rest {
-                    let a_elt = aimag.stride_offset(2 * rsa, i + row_offset)
-                                     .stride_offset(2 * csa, j);
-                    copy_nonoverlapping(a_elt, pack.add(p), 1);
+                    let a_elt = a.stride_offset(rsa, i + row_offset)
+                                 .stride_offset(csa, j) as *const TReal;
+                    copy_nonoverlapping(a_elt.add(1), pack.add(p), 1);
                 } else {
                     *pack.add(p) = zero;
                 }
-- 
2.43.0


From 18d699b08d1004fdd664858dd8214f0d79f08fb1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 5/7] fix: refuse packing buffer sizes that overflow on 32-bit
 targets

With very large configured block sizes the size wrapped around and the
packing code wrote beyond the allocation.
---
 src/aligned_alloc.rs |  7 +++----
 src/gemm.rs          | 10 +++++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/aligned_alloc.rs b/src/aligned_alloc.rs
index 7f319c7..bdca41c 100644
--- a/src/aligned_alloc.rs
+++ b/src/aligned_alloc.rs
@@ -19,10 +19,9 @@ impl<T> Alloc<T> {
     #[inline]
     pub unsafe fn new(nelem: usize, align: usize) -> Self {
         let align = cmp::max(align, mem::align_of::<T>());
-        #[cfg(debug_assertions)]
-        let layout = Layout::from_size_align(mem::size_of::<T>() * nelem, align).unwrap();
-        #[cfg(not(debug_assertions))]
-        let layout = Layout::from_size_align_unchecked(mem::size_of::<T>() * nelem, align);
+        let layout = mem::size_of::<T>().checked_mul(nelem)
+            .and_then(|size| Layout::from_size_align(size, align).ok())
+            .expect("packing buffer size overflow");
         dprint!("Allocating nelem={}, layout={:?}", nelem, layout);
         let ptr = alloc::alloc(layout);
         if ptr.is_null() {
diff --git a/src/gemm.rs b/src/gemm.rs
index f7605d5..66a92e0 100644
--- a/src/gemm.rs
+++ b/src/gemm.rs
@@ -445,9 +445,13 @@ unsafe fn make_packing_buffer<K>(m: usize, k: usize, n: usize, na: usize)
     // round up to multiple of kc
     debug_assert_ne!(na, 0);
     debug_assert!(na <= 128);
-    let apack_size = k * round_up_to(m, K::MR);
-    let bpack_size = k * round_up_to(n, K::NR);
-    let nelem = apack_size * na + bpack_size;
+    // (the sizes can overflow on a 32-bit target with very large block sizes)
+    let (apack_size, bpack_size, nelem) = k.checked_mul(round_up_to(m, K::MR))
+        .and_then(|ap| {
+            let bp = k.checked_mul(round_up_to(n, K::NR))?;
+            Some((ap, bp, ap.checked_mul(na)?.checked_add(bp)?))
+        })
+        .expect("packing buffer size overflow");
 
     dprint!("packed nelem={}, apack={}, bpack={},
              m={} k={} n={}, na={}",
-- 
2.43.0


From 344409d1baaf18204de28ad4926f5425b5370ad8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 6/7] fix: the size estimate for threading can not overflow

On 32-bit targets m * k exceeds usize for broadcast operands (a panic with
overflow checks).
---
 src/threading.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/threading.rs b/src/threading.rs
index 128c89c..3e12dfd 100644
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -123,7 +123,7 @@ impl LoopThreadConfig {
     #[cfg(feature="threading")]
     fn new_impl(m: usize, k: usize, n: usize, max_threads: usize, kmc: usize) -> Self {
         // use a heuristic to try not to use too many threads for smaller matrices
-        let size_factor = m * k + k * n;
+        let size_factor = m.saturating_mul(k).saturating_add(k.saturating_mul(n));
         let thread_factor = 1 << 14;
         // pure guesswork in terms of what the default should be
         let arch_factor = if cfg!(target_arch="arm") {
-- 
2.43.0


From 2a0d65ea016fee88c94d61bd882dddc21864d7f2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 7/7] fix: an invalid MATMUL_NUM_THREADS does not panic when
 stderr can not be written to

---
 src/threading.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/threading.rs b/src/threading.rs
index 3e12dfd..e07bb5b 100644
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -4,6 +4,8 @@
 #[cfg(feature="threading")]
 use std::cmp::min;
 #[cfg(feature="threading")]
+use std::io::Write;
+#[cfg(feature="threading")]
 use std::str::FromStr;
 #[cfg(feature="threading")]
 use once_cell::sync::Lazy;
@@ -64,7 +66,8 @@ static REGISTRY: Lazy<Registry> = Lazy::new(|| {
             if let Ok(nt) = usize::from_str(&s) {
                 nt
             } else {
-                eprintln!("Failed to parse MATMUL_NUM_THREADS");
+                // not eprintln!, which panics if standard error can not be written to
+                let _ = writeln!(std::io::stderr(), "Failed to parse MATMUL_NUM_THREADS");
                 1
             }
         }
-- 
2.43.0

