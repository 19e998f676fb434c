From 631e93db1358060a181280ea5fa6b381db6bb90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 01/14] fix: scalar XMVector{2,3,4}Greater[OrEqual]R report
 all-false when lanes compare false because of NaN

---
 src/vector.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 704b728..607f023 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -7542,8 +7542,8 @@ pub fn XMVector2GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] <= V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] <= V2.vector4_f32[1]))
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -7615,8 +7615,8 @@ pub fn XMVector2GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -9359,9 +9359,9 @@ pub fn XMVector3GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] <= V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] <= V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] <= V2.vector4_f32[2]))
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] > V2.vector4_f32[2]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -9435,9 +9435,9 @@ pub fn XMVector3GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] < V2.vector4_f32[2]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] >= V2.vector4_f32[2]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -11497,10 +11497,10 @@ pub fn XMVector4GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if (V1.vector4_f32[0] <= V2.vector4_f32[0] &&
-            V1.vector4_f32[1] <= V2.vector4_f32[1] &&
-            V1.vector4_f32[2] <= V2.vector4_f32[2] &&
-            V1.vector4_f32[3] <= V2.vector4_f32[3])
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] > V2.vector4_f32[2]) &&
+            !(V1.vector4_f32[3] > V2.vector4_f32[3]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -11578,10 +11578,10 @@ pub fn XMVector4GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] < V2.vector4_f32[2]) &&
-            (V1.vector4_f32[3] < V2.vector4_f32[3]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] >= V2.vector4_f32[2]) &&
+            !(V1.vector4_f32[3] >= V2.vector4_f32[3]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
-- 
2.43.0


From b51dd7bb01ff604e752b0f0609c08e0ff54704af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 02/14] fix: scalar XMVectorInBoundsR records
 XM_CRMASK_CR6BOUNDS

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 607f023..11fe1c0 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -2913,7 +2913,7 @@ pub fn XMVectorInBoundsR(pCR: &mut u32, V: FXMVECTOR, Bounds: FXMVECTOR) -> XMVE
         let mut CR = 0;
         if ubool(ux & uy & uz & uw) {
             // All elements are in bounds
-            CR = XM_CRMASK_CR6TRUE;
+            CR = XM_CRMASK_CR6BOUNDS;
         }
         *pCR = CR;
 
-- 
2.43.0


From 01d7eb36e16832c1603d39923b0e1a52edfff519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 03/14] fix: software XMConvertHalfToFloat normalises denormal
 halves completely

---
 src/packed_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packed_vector.rs b/src/packed_vector.rs
index 3a62443..8712e1e 100644
--- a/src/packed_vector.rs
+++ b/src/packed_vector.rs
@@ -30,7 +30,7 @@ pub fn XMConvertHalfToFloat(Value: HALF) -> f32 {
             {
                 Exponent = Exponent.wrapping_sub(1);
                 Mantissa <<= 1;
-                if ((Mantissa & 0x0400) == 0) {
+                if ((Mantissa & 0x0400) != 0) {
                     break;
                 }
             }
-- 
2.43.0


From be868da50ec5185802e329cf90316d589bb8a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 04/14] fix: XMVectorSetBinaryConstant tests bit 0 of every
 component and does not overflow

---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e1edfda..6c3accd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2808,10 +2808,10 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
         let mut vResult: XMVECTORU32 = crate::undefined();
-        vResult.u[0] = (0 - (C0 & 1)) & 0x3F800000;
-        vResult.u[1] = (0 - (C1 & 1)) & 0x3F800000;
-        vResult.u[2] = (0 - (C2 & 1)) & 0x3F800000;
-        vResult.u[3] = (0 - (C3 & 1)) & 0x3F800000;
+        vResult.u[0] = (0u32.wrapping_sub(C0 & 1)) & 0x3F800000;
+        vResult.u[1] = (0u32.wrapping_sub(C1 & 1)) & 0x3F800000;
+        vResult.u[2] = (0u32.wrapping_sub(C2 & 1)) & 0x3F800000;
+        vResult.u[3] = (0u32.wrapping_sub(C3 & 1)) & 0x3F800000;
         return vResult.v;
     }
 
@@ -2822,7 +2822,7 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 2, 3, 4] };
+        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 1, 1, 1] };
         let mut vTemp = _mm_set_epi32(C3 as i32, C2 as i32, C1 as i32, C0 as i32);
         // Mask off the low bits
         vTemp = _mm_and_si128(vTemp, g_vMask1.m128i());
-- 
2.43.0


From a2da30af5fca65ffe22e3b18862d1089e16100e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 05/14] fix: scalar XMConvertVectorIntToFloat treats lanes as
 signed and divides by 2^DivExponent

---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index cb5e66e..6e198cf 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -13,10 +13,10 @@ pub fn XMConvertVectorIntToFloat(VInt: FXMVECTOR, DivExponent: u32) -> XMVECTOR
 
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
-        let fScale = 1.0 / (1 >> DivExponent) as f32;
+        let fScale = 1.0 / (1u32 << DivExponent) as f32;
         let mut Result: XMVECTOR = crate::undefined();
         for ElementIndex in 0..4 {
-            let iTemp = VInt.vector4_u32[ElementIndex];
+            let iTemp = VInt.vector4_u32[ElementIndex] as i32;
             Result.vector4_f32[ElementIndex] = iTemp as f32 * fScale;
         }
         return Result;
-- 
2.43.0


From 74709dd85955daa6cf33129cd6ba3d5ee1e88b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:21 +0000
Subject: [PATCH 06/14] fix: scalar XMVectorRound rounds each lane, not lane 0
 four times

---
 src/vector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 11fe1c0..4016684 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -3152,9 +3152,9 @@ pub fn XMVectorRound(V: FXMVECTOR) -> XMVECTOR {
         let Result = XMVECTORF32 {
             f: [
                 round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
+                round_to_nearest(V.vector4_f32[1]),
+                round_to_nearest(V.vector4_f32[2]),
+                round_to_nearest(V.vector4_f32[3]),
             ]
         };
         return Result.v;
-- 
2.43.0


From 787b21f3db95c5cf57479c2734e7fc410f50b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:16 +0000
Subject: [PATCH 07/14] fix: XMMatrix += and -= update every row, not row 0
 four times

---
 src/matrix.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 4c78e25..fa4d8f8 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -3785,9 +3785,9 @@ impl std::ops::AddAssign for XMMatrix {
     fn add_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorAdd(self.r[0], M.r[0]);
-            self.r[0] = XMVectorAdd(self.r[1], M.r[1]);
-            self.r[0] = XMVectorAdd(self.r[2], M.r[2]);
-            self.r[0] = XMVectorAdd(self.r[3], M.r[3]);
+            self.r[1] = XMVectorAdd(self.r[1], M.r[1]);
+            self.r[2] = XMVectorAdd(self.r[2], M.r[2]);
+            self.r[3] = XMVectorAdd(self.r[3], M.r[3]);
         }
     }
 }
@@ -3812,9 +3812,9 @@ impl std::ops::SubAssign for XMMatrix {
     fn sub_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorSubtract(self.r[0], M.r[0]);
-            self.r[0] = XMVectorSubtract(self.r[1], M.r[1]);
-            self.r[0] = XMVectorSubtract(self.r[2], M.r[2]);
-            self.r[0] = XMVectorSubtract(self.r[3], M.r[3]);
+            self.r[1] = XMVectorSubtract(self.r[1], M.r[1]);
+            self.r[2] = XMVectorSubtract(self.r[2], M.r[2]);
+            self.r[3] = XMVectorSubtract(self.r[3], M.r[3]);
         }
     }
 }
-- 
2.43.0


From 2441dc1d17ce124ee1835846bee4da5e253d5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:45 +0000
Subject: [PATCH 08/14] fix: XMMatrixDecompose falls back to the X, Y and Z
 basis vectors, not X, Z and W

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index fa4d8f8..9d6c763 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1370,8 +1370,8 @@ pub fn XMMatrixDecompose(
         // PERFORMANCE: We're using a static here insteads of const due to the references
         static pvCanonicalBasis: [&XMVECTOR; 3] = unsafe {[
             &g_XMIdentityR0.v,
+            &g_XMIdentityR1.v,
             &g_XMIdentityR2.v,
-            &g_XMIdentityR3.v,
         ]};
 
         // Get the translation
-- 
2.43.0


From 0db79bd9daff4b71fd96203f458b374657bfe107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:59 +0000
Subject: [PATCH 09/14] fix: BoundingFrustum::IntersectsTriangle tests the
 remaining axes in the frustum's local space

---
 src/collision.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index a7f8cfc..872ed1f 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -4434,8 +4434,8 @@ impl BoundingFrustum {
        Corners[7] = XMVectorMultiply(vLeftBottom, vFar);
 
        // Test the plane of the triangle.
-       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(V1, V0), XMVectorSubtract(V2, V0));
-       let Dist: XMVECTOR = XMVector3Dot(Normal, V0);
+       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(TV1, TV0), XMVectorSubtract(TV2, TV0));
+       let Dist: XMVECTOR = XMVector3Dot(Normal, TV0);
 
        let mut MinDist: XMVECTOR;
        let mut MaxDist: XMVECTOR;
@@ -4457,9 +4457,9 @@ impl BoundingFrustum {
 
        // Check the edge/edge axes (3*6).
        let mut TriangleEdgeAxis: [XMVECTOR; 3] = unsafe { undefined() };
-       TriangleEdgeAxis[0] = XMVectorSubtract(V1, V0);
-       TriangleEdgeAxis[1] = XMVectorSubtract(V2, V1);
-       TriangleEdgeAxis[2] = XMVectorSubtract(V0, V2);
+       TriangleEdgeAxis[0] = XMVectorSubtract(TV1, TV0);
+       TriangleEdgeAxis[1] = XMVectorSubtract(TV2, TV1);
+       TriangleEdgeAxis[2] = XMVectorSubtract(TV0, TV2);
 
        let mut FrustumEdgeAxis: [XMVECTOR; 6] = unsafe { undefined() };
        FrustumEdgeAxis[0] = vRightTop;
@@ -4480,9 +4480,9 @@ impl BoundingFrustum {
                let mut MinA: XMVECTOR;
                let mut MaxA: XMVECTOR;
 
-               let Dist0: XMVECTOR = XMVector3Dot(V0, Axis);
-               let Dist1: XMVECTOR = XMVector3Dot(V1, Axis);
-               let Dist2: XMVECTOR = XMVector3Dot(V2, Axis);
+               let Dist0: XMVECTOR = XMVector3Dot(TV0, Axis);
+               let Dist1: XMVECTOR = XMVector3Dot(TV1, Axis);
+               let Dist2: XMVECTOR = XMVector3Dot(TV2, Axis);
 
                MinA = XMVectorMin(Dist0, Dist1);
                MinA = XMVectorMin(MinA, Dist2);
-- 
2.43.0


From d6d78024cf5af87dddc93916ba95506077988628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:59 +0000
Subject: [PATCH 10/14] fix: triangle_tests::IntersectsTriangle zeroes A's
 small distances from A's own distances

---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index 872ed1f..f0f1b72 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5271,7 +5271,7 @@ pub mod triangle_tests {
 
         // Ensure robustness with co-planar triangles by zeroing small distances.
         let mut ADistIsZeroCR: u32 = unsafe { undefined() };
-        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(BDist));
+        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(ADist));
         ADist = XMVectorSelect(ADist, Zero, ADistIsZero);
 
         let mut ADistIsLessCR: u32 = unsafe { undefined() };
-- 
2.43.0


From 0899274f9aa88899b51e378c7c099de342660ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:59 +0000
Subject: [PATCH 11/14] fix: triangle_tests::IntersectsTriangle points the
 co-planar edge axes outwards

---
 src/collision.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index f0f1b72..ffa1650 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5293,7 +5293,7 @@ pub mod triangle_tests {
             let mut MinDist: XMVECTOR;
 
             // Compute an axis perpindicular to the edge (points out).
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A1, A0));
+            Axis = XMVector3Cross(XMVectorSubtract(A1, A0), N1);
             Dist = XMVector3Dot(Axis, A0);
 
             // Test points of B against the axis.
@@ -5305,7 +5305,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A1, A2)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A2, A1));
+            Axis = XMVector3Cross(XMVectorSubtract(A2, A1), N1);
             Dist = XMVector3Dot(Axis, A1);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5316,7 +5316,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A2, A0)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A0, A2));
+            Axis = XMVector3Cross(XMVectorSubtract(A0, A2), N1);
             Dist = XMVector3Dot(Axis, A2);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5327,7 +5327,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B0, B1)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B1, B0));
+            Axis = XMVector3Cross(XMVectorSubtract(B1, B0), N2);
             Dist = XMVector3Dot(Axis, B0);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5338,7 +5338,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B1, B2)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B2, B1));
+            Axis = XMVector3Cross(XMVectorSubtract(B2, B1), N2);
             Dist = XMVector3Dot(Axis, B1);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5349,7 +5349,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B2,B0)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B0, B2));
+            Axis = XMVector3Cross(XMVectorSubtract(B0, B2), N2);
             Dist = XMVector3Dot(Axis, B2);
 
             MinDist = XMVector3Dot(A0, Axis);
-- 
2.43.0


From ea70f934b62ff8da8c0608994ced20e48877a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:00 +0000
Subject: [PATCH 12/14] fix: BoundingOrientedBox::IntersectsOrientedBox is not
 misled by rounding when box edges are parallel

---
 src/collision.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index ffa1650..141ae91 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -2728,15 +2728,19 @@ impl BoundingOrientedBox {
         let RX1: XMVECTOR = unsafe { R.r[1] };
         let RX2: XMVECTOR = unsafe { R.r[2] };
 
+        // When edges of A and B are parallel their cross product is null up to the rounding errors in R.
+        // The bias keeps those errors from being mistaken for a separating axis.
+        let Bias: XMVECTOR = XMVectorReplicate(1.0e-6);
+
         // Absolute value of rows.
-        let AR0X: XMVECTOR = XMVectorAbs(R0X);
-        let AR1X: XMVECTOR = XMVectorAbs(R1X);
-        let AR2X: XMVECTOR = XMVectorAbs(R2X);
+        let AR0X: XMVECTOR = XMVectorAdd(XMVectorAbs(R0X), Bias);
+        let AR1X: XMVECTOR = XMVectorAdd(XMVectorAbs(R1X), Bias);
+        let AR2X: XMVECTOR = XMVectorAdd(XMVectorAbs(R2X), Bias);
 
         // Absolute value of columns.
-        let ARX0: XMVECTOR = XMVectorAbs(RX0);
-        let ARX1: XMVECTOR = XMVectorAbs(RX1);
-        let ARX2: XMVECTOR = XMVectorAbs(RX2);
+        let ARX0: XMVECTOR = XMVectorAdd(XMVectorAbs(RX0), Bias);
+        let ARX1: XMVECTOR = XMVectorAdd(XMVectorAbs(RX1), Bias);
+        let ARX2: XMVECTOR = XMVectorAdd(XMVectorAbs(RX2), Bias);
 
         // Test each of the 15 possible seperating axii.
         //XMVECTOR d, d_A, d_B;
-- 
2.43.0


From 9b8dd44820ec10799cb1366b65fa3bd4f672887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:15 +0000
Subject: [PATCH 13/14] fix: BoundingOrientedBox::CreateFromPoints rotates
 every point into the box's space, not only the first

---
 src/collision.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 141ae91..407217f 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -3277,11 +3277,11 @@ impl BoundingOrientedBox {
         //for (let i: size_t = 1; i < Count; ++i)
         for (i, point) in pPoints.enumerate()
         {
-            let Point: XMVECTOR = XMLoadFloat3(point);
+            let Point: XMVECTOR = XMVector3TransformNormal(XMLoadFloat3(point), InverseR);
 
             if i == 0 {
-                vMin = XMVector3TransformNormal(Point, InverseR);
-                vMax = vMin;
+                vMin = Point;
+                vMax = Point;
             } else {
                 vMin = XMVectorMin(vMin, Point);
                 vMax = XMVectorMax(vMax, Point);
-- 
2.43.0


From 2f91c328bf4f9887a2482d6192cc874426137d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:42 +0000
Subject: [PATCH 14/14] fix: oriented box from a small point cloud is not NaN

The cubic whose roots are the eigenvalues of the covariance matrix underflowed for point clouds smaller
than about 1e-3 and BoundingOrientedBox::CreateFromPoints returned NaN in every field. Solve it for the
matrix scaled to unit trace, which has the same eigenvectors.
---
 src/collision.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/collision.rs b/src/collision.rs
index 407217f..31e0505 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -464,6 +464,13 @@ mod internal {
         pV3: &mut XMVECTOR,
 
     ) -> bool {
+        // The eigenvectors do not depend on the scale of the matrix. Bring it to unit trace so that the
+        // cubic neither underflows for small point clouds nor overflows for large ones.
+        let Trace: f32 = Cxx + Cyy + Czz;
+        let Scale: f32 = if (Trace > 0.0) { Trace } else { 1.0 };
+        let (Cxx, Cyy, Czz) = (Cxx / Scale, Cyy / Scale, Czz / Scale);
+        let (Cxy, Cxz, Cyz) = (Cxy / Scale, Cxz / Scale, Cyz / Scale);
+
         // Calculate the eigenvalues by solving a cubic equation.
         let e: f32 = -(Cxx + Cyy + Czz);
         let f: f32 = Cxx * Cyy + Cyy * Czz + Czz * Cxx - Cxy * Cxy - Cxz * Cxz - Cyz * Cyz;
-- 
2.43.0

