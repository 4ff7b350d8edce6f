From c0ed9f21fe9696460ccf6343e315c16ab28dfa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 01/44] fix: remove the duplicate definition of the Rusanov
 flux

fluxes.cpp defined D_RUS twice with the same signature, so that the file (and
with it the numerical fluxes) did not compile.
---
 code/cpp/src/solvers/fv/fluxes.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 3811872..abfef71 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -73,14 +73,3 @@ VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
   flux(f, qR, d, MP);
   return f;
 }
-
-VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
-
-  double max1 = max_abs_eigs(qL, d, MP);
-  double max2 = max_abs_eigs(qR, d, MP);
-
-  VecV f = std::max(max1, max2) * (qL - qR);
-  flux(f, qL, d, MP);
-  flux(f, qR, d, MP);
-  return f;
-}
-- 
2.43.0


From 46b4b84ad71d0ea4b7748fc52ab0b9250fdab03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 02/44] fix: initialise the WENO oscillation indicator

oscillation_indicator accumulated into uninitialised memory, so the weights of
the reconstruction depended on what happened to be on the stack.
---
 code/cpp/src/solvers/weno/weno_matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/weno/weno_matrices.cpp b/code/cpp/src/solvers/weno/weno_matrices.cpp
index 44e0ca7..6bbcccb 100644
--- a/code/cpp/src/solvers/weno/weno_matrices.cpp
+++ b/code/cpp/src/solvers/weno/weno_matrices.cpp
@@ -30,7 +30,7 @@ std::vector<MatN_N> coefficient_matrices(const std::vector<poly> &basis) {
 
 MatN_N oscillation_indicator(const std::vector<poly> &basis) {
   // Generate the oscillation indicator matrix from a set of basis polynomials
-  MatN_N ret;
+  MatN_N ret = MatN_N::Zero();
   for (int i = 0; i < N; i++)
     for (int j = 0; j < N; j++)
       for (int a = 1; a < N; a++) {
-- 
2.43.0


From 62c68e608ed0fd8b2b7435b55821e36eae3634f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 03/44] fix: keep a level set that has no interface when
 renormalizing

The fast marching method fails on a function that does not change sign, and
distance returned a vector of zeros. A level set that is negative everywhere
(a material that is not present) then became 0, i.e. positive for
get_material_index, so that every cell changed material.
---
 code/cpp/src/multi/pfmm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/multi/pfmm.cpp b/code/cpp/src/multi/pfmm.cpp
index 233519c..88dc447 100644
--- a/code/cpp/src/multi/pfmm.cpp
+++ b/code/cpp/src/multi/pfmm.cpp
@@ -20,6 +20,8 @@ Vec distance(Vecr phi, aVecr dX, iVecr nX) {
   marcher = new distanceMarcher(phi.data(), dX.data(), FLAG.data(), dist.data(),
                                 ndim, nX.data(), TEST, ORDER, NARROW, PERIODIC);
   marcher->march();
+  if (marcher->getError() != 0) // there is no interface to measure from
+    dist = phi;
   delete marcher;
 
   return dist;
-- 
2.43.0


From dfcf193b383859a0b251f2c20e82efc3e472632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 04/44] fix: write the DG predictor of cells whose iterations
 do not converge

After DG_IT iterations without convergence the loop ended and nothing was ever
written to qh, so that the finite volume update read uninitialised memory.
The last iterate is used instead.
---
 code/cpp/src/solvers/dg/dg1.cpp | 1 +
 code/cpp/src/solvers/dg/dg2.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/code/cpp/src/solvers/dg/dg1.cpp b/code/cpp/src/solvers/dg/dg1.cpp
index 9732355..74fb58e 100644
--- a/code/cpp/src/solvers/dg/dg1.cpp
+++ b/code/cpp/src/solvers/dg/dg1.cpp
@@ -96,6 +96,7 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
 
           if ((absDiff > DG_TOL * (1 + q0.array().abs())).any()) {
             q0 = q1;
+            qi = q1; // kept if the iterations run out
             continue;
           } else if (q1.array().isNaN().any()) {
             stiff_initial_guess(q0, wi, N, dt, MP);
diff --git a/code/cpp/src/solvers/dg/dg2.cpp b/code/cpp/src/solvers/dg/dg2.cpp
index 08234ac..0ed9519 100644
--- a/code/cpp/src/solvers/dg/dg2.cpp
+++ b/code/cpp/src/solvers/dg/dg2.cpp
@@ -149,6 +149,7 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
           if ((absDiff > DG_TOL * (1 + q0.array().abs())).any())
           {
             q0 = q1;
+            qi = q1; // kept if the iterations run out
             continue;
           }
           else if (q1.array().isNaN().any())
-- 
2.43.0


From 6e3907983c70376fba0cf9c0d1b3f2291dc56a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 05/44] fix: size of the stiff initial guess in two dimensions

stiff_initial_guess used the one dimensional guess, whose blocks do not have
the size of the two dimensional reconstruction: the assertion in Eigen aborted
whenever the 2D predictor fell back on the Newton solver.
---
 code/cpp/src/solvers/dg/initial_guess.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/dg/initial_guess.cpp b/code/cpp/src/solvers/dg/initial_guess.cpp
index f5e39f8..c9ec15a 100644
--- a/code/cpp/src/solvers/dg/initial_guess.cpp
+++ b/code/cpp/src/solvers/dg/initial_guess.cpp
@@ -15,7 +15,9 @@ void standard_initial_guess2(Matr q, Matr w) {
 void stiff_initial_guess(Matr q, Matr w, int NT, double dt, Par &MP) {
   // Returns the initial guess found in DOI: 10.1007/s10915-010-9426-6
 
-  standard_initial_guess1(q, w);
+  int n = w.rows();
+  for (int i = 0; i < q.rows() / n; i++)
+    q.block(i * n, 0, n, V) = w;
   /*
 Mat qt = w;
 
-- 
2.43.0


From 05dcb38278913a4bcaf709cfe8d71573a9766b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 06/44] fix: slip conditions with heat conduction left YR
 uninitialised

The rows of the right material were written to YL.
---
 code/cpp/src/system/multi/conditions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/multi/conditions.cpp b/code/cpp/src/system/multi/conditions.cpp
index 1d3a1b4..6693cc3 100644
--- a/code/cpp/src/system/multi/conditions.cpp
+++ b/code/cpp/src/system/multi/conditions.cpp
@@ -37,7 +37,7 @@ void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
     Mat YL(2, n1);
     Mat YR(2, n1);
     YL << RL.block<1, n1>(11, 0), RL.block<1, n1>(14, 0);
-    YL << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
+    YR << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
 
     Vec yL(2);
     Vec yR(2);
-- 
2.43.0


From 623173516540b4d637d8e4d723c7b329a0c0a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 07/44] fix: flux overwrote the mass fraction component

flux adds to ret, and the numerical fluxes rely on it to sum the two sides and
the dissipation, but the flux of the mass fraction replaced what was there.
---
 code/cpp/src/system/equations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/equations.cpp b/code/cpp/src/system/equations.cpp
index 68603a6..9819435 100644
--- a/code/cpp/src/system/equations.cpp
+++ b/code/cpp/src/system/equations.cpp
@@ -43,7 +43,7 @@ void flux(VecVr ret, VecVr Q, int d, Par &MP) {
     ret(14 + d) += T;
   }
   if (MULTI) {
-    ret(mV) = Q(mV) * vd;
+    ret(mV) += Q(mV) * vd;
   }
 }
 
-- 
2.43.0


From 5057f7ce2ac40dff973de4b8d38d116b54b8ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:51 +0000
Subject: [PATCH 08/44] fix: iterator wrote past its outputs when the last
 steps fail

If the solution became NaN after 99 outputs or more had been stored, the last
two states were written beyond the end of the vector of 100 outputs.
---
 code/cpp/src/solvers/iterator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index 9bb70f3..a517930 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -159,8 +159,9 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
     print(dt);
 
     if (u.array().isNaN().any()) {
-      ret[pushCount] = uprev;
-      ret[pushCount + 1] = u;
+      int i = std::min(pushCount, 98); // there are 100 outputs
+      ret[i] = uprev;
+      ret[i + 1] = u;
       return ret;
     }
   }
-- 
2.43.0


From 00e0c47d4571c5818576e5be0e3de3d346b55f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:52 +0000
Subject: [PATCH 09/44] fix: elastic solids do not relax in the split solver

For a solid without a plasticity law the source term is 0 (see theta1inv), but
the analytic solver used the formula for Newtonian fluids with a viscosity of
0, so that all strain vanished at once.
---
 code/cpp/src/system/relaxation/analytic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 5268942..da828f3 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -19,6 +19,9 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
 
   // TODO: implement mixing of μ
 
+  if (MP.SOLID && !MP.POWER_LAW) // elastic: the strain does not relax
+    return 0.;
+
   if (MP.POWER_LAW) {
     double n = MP.n;
     double cs2 = c_s2(ρ, MP);
-- 
2.43.0


From b5c853bfe029716d0ba7eb224381477c7a17a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 10/44] fix: parallel steppers depended on the number of
 threads in 2D

With NO_CORNERS the first sweep of the reconstruction leaves out the stencils
that reach into the corners of the domain, but each thread took the ends of its
own strip for the ends of the domain. The update next to the boundaries in y
therefore changed with the number of threads, and strips of a single row gave
0/0. The strips now know how many rows lie before and after them.
---
 code/cpp/src/solvers/steppers.cpp  | 34 +++++++++++++++++++--------
 code/cpp/src/solvers/weno/weno.cpp | 37 ++++++++++++++++++------------
 code/cpp/src/solvers/weno/weno.h   |  2 ++
 3 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/code/cpp/src/solvers/steppers.cpp b/code/cpp/src/solvers/steppers.cpp
index e095a87..1c4f342 100644
--- a/code/cpp/src/solvers/steppers.cpp
+++ b/code/cpp/src/solvers/steppers.cpp
@@ -7,20 +7,26 @@
 #include "split/ode.h"
 #include "weno/weno.h"
 
-void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
-                  int FLUX, Par &MP, bVecr mask) {
+void ader_strip(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
+                int FLUX, Par &MP, bVecr mask, int before, int after) {
+  // Updates a strip of a domain with other rows before and after it
 
   int ndim = nX.size();
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
   Vec qh(extended_dimensions(nX, 1) * int(pow(N, ndim + 1)) * V);
 
-  weno_launcher(wh, ub, nX, MP);
+  weno_strip(wh, ub, nX, MP, before, after);
 
   predictor(qh, wh, dt, dX, STIFF, false, MP, mask);
 
   fv_launcher(u, qh, nX, dt, dX, true, true, FLUX, MP, mask);
 }
 
+void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
+                  int FLUX, Par &MP, bVecr mask) {
+  ader_strip(u, ub, nX, dt, dX, STIFF, FLUX, MP, mask, 0, 0);
+}
+
 void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                        bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -39,23 +45,25 @@ void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     iVec nX0 = nX;
     nX0(0) = finish - start;
 
-    ader_stepper(
+    ader_strip(
         u.segment(start * uRowSize, (finish - start) * uRowSize),
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize),
         nX0, dt, dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        start, nx - finish);
   }
 }
 
-void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
-                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+void split_strip(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool HALF_STEP,
+                 int FLUX, Par &MP, bVecr mask, int before, int after) {
+  // Updates a strip of a domain with other rows before and after it
 
   int ndim = nX.size();
   ode_launcher(u, dt / 2, MP);
   ode_launcher(ub, dt / 2, MP);
 
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
-  weno_launcher(wh, ub, nX, MP);
+  weno_strip(wh, ub, nX, MP, before, after);
 
   if (HALF_STEP)
     midstepper(wh, dt, dX, MP, mask);
@@ -65,6 +73,11 @@ void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
   ode_launcher(u, dt / 2, MP);
 }
 
+void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
+                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+  split_strip(u, ub, nX, dt, dX, HALF_STEP, FLUX, MP, mask, 0, 0);
+}
+
 void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                         bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -86,9 +99,10 @@ void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     Vec ub_ =
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize);
 
-    split_stepper(
+    split_strip(
         u.segment(start * uRowSize, (finish - start) * uRowSize), ub_, nX0, dt,
         dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        start, nx - finish);
   }
 }
diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index b6c2c38..23d52b4 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -14,7 +14,7 @@ void weight(VecVr ret, MatN_Vr w, double LAM) {
   }
 }
 
-void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
+void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gapL, int gapR, int ind) {
   // Calculate coefficients of basis polynomials and weights
 
   VecV oL, oR, oCL, oCR;
@@ -51,20 +51,20 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
   MatN_V num = MatN_V::Zero();
   VecV den = VecV::Zero();
 
-  if (ind >= gap) {
+  if (ind >= gapL) {
     num.array() += wL.array().rowwise() * oL.transpose().array();
     den += oL;
   }
-  if (ind <= nx - gap - 1) {
+  if (ind <= nx - gapR - 1) {
     num.array() += wR.array().rowwise() * oR.transpose().array();
     den += oR;
   }
   if (N > 2) {
-    if (ind + FN2 >= gap) {
+    if (ind + FN2 >= gapL) {
       num.array() += wCL.array().rowwise() * oCL.transpose().array();
       den += oCL;
     }
-    if ((N % 2 == 0) && (ind - FN2 <= nx - gap - 1)) {
+    if ((N % 2 == 0) && (ind - FN2 <= nx - gapR - 1)) {
       num.array() += wCR.array().rowwise() * oCR.transpose().array();
       den += oCR;
     }
@@ -72,15 +72,16 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
   ret.array() = num.array().rowwise() / den.transpose().array();
 }
 
-void weno1(Matr wh, Matr ub, int nx, int gap) {
+void weno1(Matr wh, Matr ub, int nx, int gapL, int gapR) {
   // Returns the WENO reconstruction of u using polynomials in x
   // Shape of ub: (nx + 2(N-1), V)
   // Shapw of wh: (nx * N, V)
   for (int i = 0; i < nx; i++)
-    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), nx, gap, i);
+    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), nx, gapL,
+           gapR, i);
 }
 
-void weno2(Matr wh, Matr ub, int nx, int ny) {
+void weno2(Matr wh, Matr ub, int nx, int ny, int before, int after) {
   // Returns the WENO reconstruction of u using polynomials in y
   // Size of ub: (nx + 2(N-1)) * (ny + 2(N-1)) * V
   // Size of wh: nx * ny * N * N * V
@@ -97,9 +98,9 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
                  OuterStride((ny + 2 * (N - 1)) * N * V));
 
     if (NO_CORNERS && (j < N || j >= ny + 2 * (N - 1) - N))
-      weno1(tmp0, ubMap, nx, N);
+      weno1(tmp0, ubMap, nx, N - before, N - after);
     else
-      weno1(tmp0, ubMap, nx, 0);
+      weno1(tmp0, ubMap, nx, 0, 0);
     uxMap = tmp0Map;
   }
 
@@ -114,16 +115,18 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
                    OuterStride(N * N * V));
 
       if (NO_CORNERS && (i == 0 || i == nx - 1))
-        weno1(tmp1, uxMap, ny, 1);
+        weno1(tmp1, uxMap, ny, 1, 1);
       else
-        weno1(tmp1, uxMap, ny, 0);
+        weno1(tmp1, uxMap, ny, 0, 0);
       whMap = tmp1Map;
     }
   // TODO: make this n-dimensional by turning these two sets of for loops into
   // n sets of for loops, contained within a large loop over the dimensions
 }
 
-void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+void weno_strip(Vecr wh, Vecr ub, iVecr nX, Par &MP, int before, int after) {
+  // Reconstructs nX(0) rows of a domain in which there are other rows before
+  // and after them
   // NOTE: boundary conditions extend u by two cells in each dimension
 
   int ndim = nX.size();
@@ -143,11 +146,11 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
   switch (ndim) {
 
   case 1:
-    weno1(whMap, ubMap, nX(0) + 2, 0);
+    weno1(whMap, ubMap, nX(0) + 2, 0, 0);
     break;
 
   case 2:
-    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2);
+    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2, before, after);
     break;
   }
 
@@ -155,3 +158,7 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
     for (int i = 0; i < nwh; i++)
       Cvec(wh.segment<V>(i * V), MP);
 }
+
+void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+  weno_strip(wh, ub, nX, MP, 0, 0);
+}
diff --git a/code/cpp/src/solvers/weno/weno.h b/code/cpp/src/solvers/weno/weno.h
index 56def22..fcea1ee 100644
--- a/code/cpp/src/solvers/weno/weno.h
+++ b/code/cpp/src/solvers/weno/weno.h
@@ -3,6 +3,8 @@
 
 #include "../../etc/globals.h"
 
+void weno_strip(Vecr wh, Vecr ub, iVecr nX, Par &MP, int before, int after);
+
 void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP);
 
 #endif // WENO_H
-- 
2.43.0


From b98a26cb4424558157b14a867003a76b2ff4dfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 11/44] fix: ghost cells of interfaces next to the edge of the
 domain

The cells probed on either side of an interface were not checked to lie inside
the domain, so that an interface within a cell of the boundary read (and, for
the interface cell, wrote) out of the bounds of the grid.
---
 code/cpp/src/multi/fill.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 540294a..57a17b7 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -4,6 +4,13 @@
 #include "../system/objects.h"
 #include "functions.h"
 
+iVec cell_at(aVec x, aVecr dX, iVecr nX) {
+  // Returns the indexes of the cell that contains x (or the closest one, if x
+  // is outside the domain)
+  aVec v = (x / dX).max(0.).min(nX.cast<double>().array() - 1.);
+  return v.cast<int>();
+}
+
 int iVec_to_ind(iVecr v) { return v(0) * V; }
 
 int iVec_to_ind(iVecr v, int ny) { return (v(0) * ny + v(1)) * V; }
@@ -105,9 +112,9 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
 
   BoundaryInds ret;
 
-  iVec xiVec = (xi / dX).cast<int>();
-  iVec xLVec = (xL / dX).cast<int>();
-  iVec xRVec = (xR / dX).cast<int>();
+  iVec xiVec = cell_at(xi, dX, nX);
+  iVec xLVec = cell_at(xL, dX, nX);
+  iVec xRVec = cell_at(xR, dX, nX);
 
   int ndim = nX.size();
   switch (ndim) {
@@ -244,7 +251,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   aVec n = normal(Δφi);
   aVec x = (inds.cast<double>().array() + 0.5) * dX;
   aVec xn = x - dX * n;
-  iVec newInds = (xn / dX).cast<int>();
+  iVec newInds = cell_at(xn, dX, nX);
 
   switch (ndim) {
   case 1:
-- 
2.43.0


From 438ee2a049c7889b38da4548682dca768808a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:27 +0000
Subject: [PATCH 12/44] fix: ghost cells where the level set has no gradient

Halfway between two interfaces (in a layer of one or three cells, say) the
central difference of the level set is 0, the normal was 0/0, and the indexes
of the probed cells were computed from NaN. The direction to a neighboring cell
of the material is used instead. Likewise, if no probe finds the material in
1D (n(1) was read there), if the neighbor against the normal lies outside the
domain, and for a cell whose probe is the cell itself.
---
 code/cpp/src/multi/fill.cpp      | 40 ++++++++++++++++++++++++++------
 code/cpp/src/multi/functions.cpp |  5 +++-
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 57a17b7..037d777 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -100,6 +100,22 @@ int neighbor_index(iVecr intMask, int i, int j, int nx, int ny, int N0) {
   return indn;
 }
 
+Vec direction(iVecr inds, int indn, iVecr nX) {
+  // Returns the direction from the neighbor indn to the cell given by inds
+  Vec n(nX.size());
+  if (nX.size() == 1)
+    n(0) = inds(0) - indn;
+  else
+    n << inds(0) - indn / nX(1), inds(1) - indn % nX(1);
+  return n;
+}
+
+bool has_material(Vecr grid, iVecr inds, iVecr nX, int mat) {
+  // Whether the cell is part of the domain and contains the material
+  return (inds.array() >= 0).all() && (inds.array() < nX.array()).all() &&
+         get_material_index(grid.segment<V>(iVec_to_ind(inds, nX(1)))) == mat;
+}
+
 BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   // Calculates indexes of the boundary states at position given by inds
 
@@ -144,6 +160,9 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
   // Attempts to fill the boundary cell at location given by inds.
   // TODO: handle case when QL is chosen to be an isolated point
 
+  if (n.isZero(0.)) // halfway between two interfaces
+    n = direction(inds, indn, nX);
+
   BoundaryInds bInds = boundary_inds(inds, φi, n, dX, nX);
 
   VecV QL;
@@ -156,7 +175,11 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
   else if (get_material_index(grid.segment<V>(bInds.L)) == mat)
     QL = grid.segment<V>(bInds.L);
 
-  else { // should only happen if ndim>1
+  else if (nX.size() == 1) {
+    QL = grid.segment<V>(indn * V);
+    n = direction(inds, indn, nX);
+
+  } else {
     iVec Linds = inds;
     int Lind;
 
@@ -167,7 +190,7 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
     if (std::abs(n(0)) > std::abs(n(1))) {
       Linds(0) -= n0;
       Lind = iVec_to_ind(Linds, nX(1));
-      if (get_material_index(grid.segment<V>(Lind)) == mat) {
+      if (has_material(grid, Linds, nX, mat)) {
         n(0) = n0;
         n(1) = 0.;
       } else {
@@ -180,7 +203,7 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
     } else {
       Linds(1) -= n1;
       Lind = iVec_to_ind(Linds, nX(1));
-      if (get_material_index(grid.segment<V>(Lind)) == mat) {
+      if (has_material(grid, Linds, nX, mat)) {
         n(0) = 0.;
         n(1) = n1;
       } else {
@@ -191,10 +214,12 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
         n(1) = 0.;
       }
     }
-    if (get_material_index(grid.segment<V>(Lind)) == mat)
+    if (has_material(grid, Linds, nX, mat))
       QL = grid.segment<V>(Lind);
-    else
+    else {
       QL = grid.segment<V>(indn * V);
+      n = direction(inds, indn, nX);
+    }
   }
 
   VecV QL_ = left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
@@ -215,10 +240,11 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
   case 1:
     for (int ind = 0; ind < nx; ind++) {
       if (intMask(ind) == 1) {
+        int indn = (ind > 0 && intMask(ind - 1) == -1) ? ind - 1 : ind + 1;
         n = normal(Δφ.row(ind));
         iVec inds(1);
         inds << ind;
-        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, -1);
+        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, indn);
       }
     }
     break;
@@ -266,7 +292,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   }
 
   // must fill from a border cell
-  if (intMask(newInd / V) < 1)
+  if (newInd == ind || intMask(newInd / V) < 1)
     newInd = indn * V;
   grid.segment<V - LSET>(ind) = grid.segment<V - LSET>(newInd);
 }
diff --git a/code/cpp/src/multi/functions.cpp b/code/cpp/src/multi/functions.cpp
index ba93b6d..48aa9c4 100644
--- a/code/cpp/src/multi/functions.cpp
+++ b/code/cpp/src/multi/functions.cpp
@@ -11,7 +11,10 @@ int sign(double x) {
     return 1;
 }
 
-Vec normal(Vecr Δφ) { return Δφ / Δφ.norm(); }
+Vec normal(Vecr Δφ) {
+  // Returns 0 if the gradient vanishes
+  return Δφ.normalized();
+}
 
 void finite_difference(Matr Δφ, Vecr φ, aVecr dX, iVec nX) {
   // Δφ[i,j,..][d] is the derivative in the dth direction in cell (i,j,...)
-- 
2.43.0


From 1ef557fc292d2b30d28b4f48637197012bae8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 13/44] fix: data race between the boundary cells of an
 interface

The parallel loop over the boundary cells wrote the star state of a cell into
the grid (and into the cell containing the interface, which several cells may
share) while other iterations read the same cells as input of their Riemann
problems. The result depended on the schedule. All star states are now
calculated before any is written.
---
 code/cpp/src/multi/fill.cpp | 40 ++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 037d777..ccae40e 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -154,10 +154,11 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   return ret;
 }
 
-void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
-                         int mat, std::vector<Par> &MPs, double dt, Vecr n,
-                         int indn) {
-  // Attempts to fill the boundary cell at location given by inds.
+int fill_boundary_inner(VecVr star, Vecr grid, iVecr inds, aVecr dX, iVecr nX,
+                        double φi, int mat, std::vector<Par> &MPs, double dt,
+                        Vecr n, int indn) {
+  // Calculates the star state that fills the boundary cell at location given by
+  // inds. Returns the index of the cell that contains the interface.
   // TODO: handle case when QL is chosen to be an isolated point
 
   if (n.isZero(0.)) // halfway between two interfaces
@@ -222,19 +223,22 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
     }
   }
 
-  VecV QL_ = left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
-  grid.segment<V - LSET>(bInds.ind) = QL_.head<V - LSET>();
-
-  if (get_material_index(grid.segment<V>(bInds.interf)) != mat)
-    grid.segment<V - LSET>(bInds.interf) = QL_.head<V - LSET>();
+  star = left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
+  return bInds.interf;
 }
 
 void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
                          aVecr dX, std::vector<Par> &MPs, double dt, iVecr nX) {
   int ndim = nX.size();
   int nx = nX(0);
+  int ncell = intMask.size();
   Vec n(ndim);
 
+  // the star states, and the cells containing the interfaces. No cell is filled
+  // until all have been calculated.
+  Vec stars(ncell * V);
+  iVec interf(ncell);
+
   switch (ndim) {
 
   case 1:
@@ -244,7 +248,9 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         n = normal(Δφ.row(ind));
         iVec inds(1);
         inds << ind;
-        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, indn);
+        interf(ind) =
+            fill_boundary_inner(stars.segment<V>(ind * V), grid, inds, dX, nX,
+                                φ(ind), mat, MPs, dt, n, indn);
       }
     }
     break;
@@ -259,12 +265,22 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
           n = normal(Δφ.row(ind));
           iVec inds(2);
           inds << i, j;
-          fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n,
-                              indn);
+          interf(ind) =
+              fill_boundary_inner(stars.segment<V>(ind * V), grid, inds, dX, nX,
+                                  φ(ind), mat, MPs, dt, n, indn);
         }
       }
     break;
   }
+
+  for (int ind = 0; ind < ncell; ind++)
+    if (intMask(ind) == 1 &&
+        get_material_index(grid.segment<V>(interf(ind))) != mat)
+      grid.segment<V - LSET>(interf(ind)) = stars.segment<V - LSET>(ind * V);
+
+  for (int ind = 0; ind < ncell; ind++)
+    if (intMask(ind) == 1)
+      grid.segment<V - LSET>(ind * V) = stars.segment<V - LSET>(ind * V);
 }
 
 void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
-- 
2.43.0


From 5637195217f4d13be0ac840075e27b60eff3d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:28 +0000
Subject: [PATCH 14/44] fix: derivative of the temperature with a reference
 temperature
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The temperature contains Tref * φ(ρ), but its derivative by the density left
the term out (as the TODO said), so that the Jacobian of the system with heat
conduction was not that of its flux.
---
 code/cpp/src/system/energy/mg.cpp | 6 +++---
 code/python/gpr/vars/mg.py        | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/energy/mg.cpp b/code/cpp/src/system/energy/mg.cpp
index d045dce..65adee0 100644
--- a/code/cpp/src/system/energy/mg.cpp
+++ b/code/cpp/src/system/energy/mg.cpp
@@ -283,14 +283,14 @@ double dTdρ(double ρ, double p, Params &MP) {
 
   // TODO: update for multi (required for THERMAL mixtures)
 
-  // TODO: add Tref * dφ
-
   double cv = MP.cv;
   double Γ = Γ_MG(ρ, MP);
   double dΓ = dΓ_MG(ρ, MP);
   double pr = p_ref(ρ, MP);
   double dpr = dp_ref(ρ, MP);
-  return -(dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
+  double dφ = φ(ρ, MP) * Γ / ρ;
+  return MP.Tref * dφ -
+         (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
 }
 
 double dTdp(double ρ, Params &MP) {
diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index 1f599e7..4bfe17c 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -277,7 +277,9 @@ def dTdρ(ρ, p, MP):
     dΓ = dΓ_MG(ρ, MP)
     pr = p_ref(ρ, MP)
     dpr = dp_ref(ρ, MP)
-    return - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
+    dφ = φ(ρ, MP) * Γ / ρ
+    return (MP.Tref * dφ
+            - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv)
 
 
 def dTdp(ρ, MP):
-- 
2.43.0


From 6fa3bf64ae806388c656840f6534d159aa7f104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:28 +0000
Subject: [PATCH 15/44] fix: eigenvectors with a shear speed that depends on
 the density

The contact eigenvectors used the shear speed at the reference density.
---
 code/cpp/src/system/multi/eigenvecs.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/multi/eigenvecs.cpp b/code/cpp/src/system/multi/eigenvecs.cpp
index ff27325..263a686 100644
--- a/code/cpp/src/system/multi/eigenvecs.cpp
+++ b/code/cpp/src/system/multi/eigenvecs.cpp
@@ -6,6 +6,7 @@
 #include "../functions/vectors.h"
 #include "../objects.h"
 #include "../variables/state.h"
+#include "../waves/shear.h"
 
 MatV_V eigen(VecVr Q, int d, Par &MP)
 {
@@ -21,14 +22,14 @@ MatV_V eigen(VecVr Q, int d, Par &MP)
   Mat3_3Map A = get_A(Q);
   Mat3_3 G = A.transpose() * A;
   Mat3_3 A_devG = AdevG(A);
-  double b02 = MP.b02;
+  double cs2 = c_s2(ρ, MP);
 
   for (int i = 0; i < 3; i++)
     for (int j = 0; j < 3; j++)
     {
-      Π1(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 0);
-      Π2(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 1);
-      Π3(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 2);
+      Π1(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 0);
+      Π2(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 1);
+      Π3(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 2);
     }
   Mat Ξ1 = Xi1(ρ, p, Q, MP, d);
   Mat Ξ2 = Xi2(ρ, p, Q, MP, d);
-- 
2.43.0


From 5ae957da7bcacd822ac69c7aaeb92521145e83a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:28 +0000
Subject: [PATCH 16/44] fix: relaxation of fluids whose shear speed depends on
 the density

The analytic solution of the relaxation equation used the shear speed at the
reference density, the source term the one at the current density.
---
 code/cpp/src/system/relaxation/analytic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index da828f3..6c48ff6 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -62,13 +62,13 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
                16. / 27. * a * a * a * b - 4. / 5. * a * a * b * b +
                16. / 33. * a * b * b * b - std::pow(b, 4.) / 9.);
 
-      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * MP.b02);
+      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * c_s2(ρ, MP));
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
       return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
     }
   } else
-    return MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
+    return MP.ρ0 * c_s2(ρ, MP) * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
 }
 
 void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
-- 
2.43.0


From 87b0faccc364373ad5dca147fb62fafa2034818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:28 +0000
Subject: [PATCH 17/44] fix: rotate_distortion could mirror the distortion

If the right singular vectors form a left-handed basis, the determinant of the
rotated distortion had the wrong sign.
---
 code/cpp/src/solvers/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/solvers/utils.cpp b/code/cpp/src/solvers/utils.cpp
index a681a34..6a2e742 100644
--- a/code/cpp/src/solvers/utils.cpp
+++ b/code/cpp/src/solvers/utils.cpp
@@ -33,6 +33,8 @@ void rotate_distortion(Vecr u, std::vector<Par> &MPs) {
       Eigen::JacobiSVD<Mat3_3> svd(A, Eigen::ComputeFullV);
 
       Vec3 s = svd.singularValues();
+      if (A.determinant() * svd.matrixV().determinant() < 0)
+        s *= -1.; // keep the orientation
       A = svd.matrixV();
 
       for (int j = 0; j < 3; j++)
-- 
2.43.0


From 80a9e92f35032417b41e512eb1b119d5053b6982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:57 +0000
Subject: [PATCH 18/44] fix: yield stress of Bingham fluids in the split solver

The source term of a Bingham fluid vanishes below the yield stress, and is
reduced by it above, but the analytic solution that the split solver uses
relaxed the strain as if there were no yield stress.
---
 code/cpp/src/system/relaxation/analytic.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 6c48ff6..fab0c49 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -6,6 +6,7 @@
 #include "../energy/eos.h"
 #include "../functions/matrices.h"
 #include "../functions/vectors.h"
+#include "../variables/state.h"
 #include "../waves/shear.h"
 
 double pos(double x) { return std::max(0., x); }
@@ -91,6 +92,14 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
 
   if (u0 >= 1e-12) {
 
+    if (MP.BINGHAM && !MP.SOLID) { // rate of relaxation above the yield stress
+      Mat3_3 σ = sigma(Q, MP);
+      double sn = σ.norm() / sqrt(2.);
+      if (sn <= MP.σY)
+        return;
+      dt *= 1. - MP.σY / sn;
+    }
+
     double τ = nondimensionalized_time(ρ, detA1_3, m0, u0, dt, MP);
     double e_6τ = exp(-6. * τ);
     double e_9τ = exp(-9. * τ);
-- 
2.43.0


From e4f9e4f46d5c733ac4809a5ff2bfd2062774799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:55 +0000
Subject: [PATCH 19/44] fix: calls of lgmres_wrapper shared their default outer
 vectors

The default value of outer_v was one vector, which every call extended: later
solutions depended on earlier ones, and a system of another size aborted.
---
 code/cpp/bindings/bindings.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/code/cpp/bindings/bindings.cpp b/code/cpp/bindings/bindings.cpp
index ac06eff..5ebb83d 100644
--- a/code/cpp/bindings/bindings.cpp
+++ b/code/cpp/bindings/bindings.cpp
@@ -185,11 +185,19 @@ PYBIND11_MODULE(GPRpy, m) {
   m_multi.def("fill_ghost_cells", &fill_ghost_cells);
   m_multi.def("material_indicator", &material_indicator);
 
-  m_scipy.def("lgmres_wrapper", &lgmres_wrapper, py::arg("A"), py::arg("b"),
+  m_scipy.def("lgmres_wrapper",
+              [](Matr A, Vecr b, Vecr x0, Matr M, const double tol,
+                 const int maxiter, const int inner_m, const int outer_k,
+                 std::vector<Vec> *outer_v) {
+                std::vector<Vec> empty;
+                return lgmres_wrapper(A, b, x0, M, tol, maxiter, inner_m,
+                                      outer_k, outer_v ? *outer_v : empty);
+              },
+              py::arg("A"), py::arg("b"),
               py::arg("x0") = Vec(0), py::arg("M") = Mat(0, 0),
               py::arg("tol") = 1e-5, py::arg("maxiter") = 1000,
               py::arg("inner_m") = 30, py::arg("outer_k") = 3,
-              py::arg("outer_v") = std::vector<Vec>());
+              py::arg("outer_v") = (std::vector<Vec> *)nullptr);
   m_scipy.def("newton_krylov", &nonlin_solve, py::arg("F"), py::arg("x"),
               py::arg("f_tol") = pow(mEPS, 1. / 3), py::arg("f_rtol") = INF,
               py::arg("x_tol") = INF, py::arg("x_rtol") = INF);
-- 
2.43.0


From 8ae169d146dee6cef82166fcd1a861aa01a62b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:54 +0000
Subject: [PATCH 20/44] fix: wave speeds in the y and z directions

The thermo-acoustic tensor had the pressure gradient in the x momentum and
the velocity divergence of v_x, whatever the direction.
---
 code/cpp/src/system/eig.cpp        | 4 ++--
 code/python/gpr/sys/eigenvalues.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index 07288dc..ce3d9a0 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -8,7 +8,7 @@
 Mat Xi1(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ1 = Mat::Zero(4, 5);
-  Ξ1(0, 1) = 1 / ρ;
+  Ξ1(d, 1) = 1 / ρ;
 
   if (VISCOUS) {
     Vec3 dσdρ = dsigmadρ(Q, MP, d);
@@ -32,7 +32,7 @@ Mat Xi2(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ2 = Mat::Zero(5, 4);
   double c0 = c_0(Q, MP);
-  Ξ2(0, 0) = ρ;
+  Ξ2(0, d) = ρ;
   Ξ2(1, d) = ρ * c0 * c0;
 
   if (VISCOUS) {
diff --git a/code/python/gpr/sys/eigenvalues.py b/code/python/gpr/sys/eigenvalues.py
index 7c077fc..1cb741c 100644
--- a/code/python/gpr/sys/eigenvalues.py
+++ b/code/python/gpr/sys/eigenvalues.py
@@ -14,7 +14,7 @@ def Xi1(P, d, MP):
     else:
         ret = zeros([3, 5])
 
-    ret[0, 1] = 1 / ρ
+    ret[d, 1] = 1 / ρ
 
     if VISCOUS:
         dσdρ = P.dσdρ()
@@ -43,7 +43,7 @@ def Xi2(P, d, MP):
     else:
         ret = zeros([5, 3])
 
-    ret[0, 0] = ρ
+    ret[0, d] = ρ
     ret[1, d] = ρ * c0**2
 
     if VISCOUS:
-- 
2.43.0


From 3f98c5a220cb88b13d9cc7b123e960520b1411fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:22 +0000
Subject: [PATCH 21/44] fix: step tolerances of the nonlinear solver

The step was assigned to a variable that shadows the one that the termination
test looks at, so a finite step tolerance was never met.
---
 code/cpp/src/scipy/newton_krylov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/scipy/newton_krylov.cpp b/code/cpp/src/scipy/newton_krylov.cpp
index 7c5a5d4..5fff4b5 100644
--- a/code/cpp/src/scipy/newton_krylov.cpp
+++ b/code/cpp/src/scipy/newton_krylov.cpp
@@ -163,7 +163,7 @@ Vec nonlin_solve(VecFunc F, Vecr x, double f_tol, double f_rtol, double x_tol,
       break;
 
     double tol = std::min(eta, eta * Fx_norm);
-    Vec dx = -jacobian.solve(Fx, tol);
+    dx = -jacobian.solve(Fx, tol);
 
     _nonlin_line_search(F, x, Fx, dx);
     double Fx_norm_new = Fx.norm();
-- 
2.43.0


From 0d48ac69f05c468fb1403a6e62951bfa2fd01c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:20 +0000
Subject: [PATCH 22/44] fix: Osher and Roe fluxes of states at rest with
 different distortions

---
 code/cpp/src/solvers/fv/fluxes.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index abfef71..f4dc74f 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -19,23 +19,28 @@ VecV Bint(VecVr qL, VecVr qR, int d, Par &MP) {
   return ret;
 }
 
+VeccV abs_times(MatV_V &M, VecVr Δq) {
+  // Returns |M|Δq. If the multiple eigenvalue of M is 0, then the eigenvectors
+  // calculated for it can be parallel, unless M is shifted first.
+  double s = M.cwiseAbs().maxCoeff();
+  M.diagonal().array() += s;
+  Eigen::EigenSolver<MatV_V> es(M);
+  VeccV Δqc = VeccV(Δq);
+  VeccV b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
+            (es.eigenvalues().array() - s).abs();
+  return es.eigenvectors() * b;
+}
+
 VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
   // Returns the Osher flux component, in the dth direction
   VeccV ret = VeccV::Zero();
   VecV Δq = qL - qR;
-  VeccV Δqc = VeccV(Δq);
-  Eigen::EigenSolver<MatV_V> es;
-
   VecV q;
-  VeccV b;
   MatV_V J;
   for (int i = 0; i < N; i++) {
     q = qR + NODES(i) * Δq;
     J = system_matrix(q, d, MP);
-    es.compute(J);
-    b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
-        es.eigenvalues().array().abs();
-    ret += WGHTS(i) * (es.eigenvectors() * b);
+    ret += WGHTS(i) * abs_times(J, Δq);
   }
   VecV f = ret.real();
   flux(f, qL, d, MP);
@@ -46,18 +51,13 @@ VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
 VecV D_ROE(VecVr qL, VecVr qR, int d, Par &MP) {
   // Returns the Osher flux component, in the dth direction
   VecV Δq = qL - qR;
-  VeccV Δqc = VeccV(Δq);
   VecV q;
   MatV_V J = MatV_V::Zero();
   for (int i = 0; i < N; i++) {
     q = qR + NODES(i) * Δq;
     J += WGHTS(i) * system_matrix(q, d, MP);
   }
-  Eigen::EigenSolver<MatV_V> es(J);
-  VeccV b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
-            es.eigenvalues().array().abs();
-
-  VecV f = (es.eigenvectors() * b).real();
+  VecV f = abs_times(J, Δq).real();
   flux(f, qL, d, MP);
   flux(f, qR, d, MP);
   return f;
-- 
2.43.0


From 17729a33426c137bcf8c0b0eb893ae646efa476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:56 +0000
Subject: [PATCH 23/44] fix: symmetry boundaries reflect the thermal impulse

---
 code/cpp/src/etc/grid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/cpp/src/etc/grid.cpp b/code/cpp/src/etc/grid.cpp
index c2a7fc6..ab051fa 100644
--- a/code/cpp/src/etc/grid.cpp
+++ b/code/cpp/src/etc/grid.cpp
@@ -60,6 +60,8 @@ void boundaries1(Matr u, Matr ub, int nx, iVecr boundaryTypes, int d) {
       Mat3_3Map A = get_A(ub.row(i));
       A.row(d) *= -1.;
       A.col(d) *= -1.;
+      if (THERMAL)
+        ub(i, 14 + d) *= -1.;
     }
 
     break;
@@ -119,6 +121,8 @@ void boundaries1(Matr u, Matr ub, int nx, iVecr boundaryTypes, int d) {
       Mat3_3Map A = get_A(ub.row(ind));
       A.row(d) *= -1.;
       A.col(d) *= -1.;
+      if (THERMAL)
+        ub(ind, 14 + d) *= -1.;
     }
     break;
   }
-- 
2.43.0


From 227710286cb6cae0cf34dbf3b67134ea69691ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:28 +0000
Subject: [PATCH 24/44] fix: corner cells entered the reconstruction of other
 ghost cells

---
 code/cpp/src/solvers/weno/weno.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index 23d52b4..d228f63 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -60,11 +60,11 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gapL, int gapR, int ind) {
     den += oR;
   }
   if (N > 2) {
-    if (ind + FN2 >= gapL) {
+    if ((ind + FN2 >= gapL) && (ind - CN2 <= nx - gapR - 1)) {
       num.array() += wCL.array().rowwise() * oCL.transpose().array();
       den += oCL;
     }
-    if ((N % 2 == 0) && (ind - FN2 <= nx - gapR - 1)) {
+    if ((N % 2 == 0) && (ind + CN2 >= gapL) && (ind - FN2 <= nx - gapR - 1)) {
       num.array() += wCR.array().rowwise() * oCR.transpose().array();
       den += oCR;
     }
@@ -114,8 +114,9 @@ void weno2(Matr wh, Matr ub, int nx, int ny, int before, int after) {
       MatMap whMap(wh.data() + (i * ny * N + ii) * N * V, ny, N * V,
                    OuterStride(N * N * V));
 
-      if (NO_CORNERS && (i == 0 || i == nx - 1))
-        weno1(tmp1, uxMap, ny, 1, 1);
+      if (NO_CORNERS &&
+          ((i == 0 && before == 0) || (i == nx - 1 && after == 0)))
+        weno1(tmp1, uxMap, ny, N, N);
       else
         weno1(tmp1, uxMap, ny, 0, 0);
       whMap = tmp1Map;
-- 
2.43.0


From a51afefe7df09a8376f7989c0fd0be304583ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 25/44] fix: the root of the relaxed strain took the wrong
 branch
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The angle of the trigonometric solution lies in the second quadrant where Δ is
negative (two large singular values and a small one), and the principal value of
the arctangent does not, so that the distortion jumped to values that are no
root even after a step of length 0.
---
 code/cpp/src/system/relaxation/analytic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index fab0c49..f3d8936 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -120,7 +120,7 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
       double tmp = cbrt(54. * Δ);
       x1 = tmp / 6. + u / tmp + m;
     } else {
-      double θ = atan(sqrt(arg1) / (9. * Δ));
+      double θ = atan2(sqrt(arg1), 9. * Δ);
       x1 = sqrt(6. * u) / 3. * cos(θ / 3.) + m;
     }
     double tmp2 = 3. * m - x1;
-- 
2.43.0


From c75b791e080c3e01458e6709c14dd6c1f8f63a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 26/44] fix: distances were too small on anisotropic grids

Next to an interface the distances of the neighbors may differ by more than the
smaller cell spacing. The quadratic equation then has no root, or one that is
smaller than a value it is calculated from. Leave out the furthest neighbor
until the solution lies beyond all of them.
---
 code/cpp/include/skfmm/distance_marcher.cpp | 32 +++++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/code/cpp/include/skfmm/distance_marcher.cpp b/code/cpp/include/skfmm/distance_marcher.cpp
index 1cadfd6..6fbf9b7 100644
--- a/code/cpp/include/skfmm/distance_marcher.cpp
+++ b/code/cpp/include/skfmm/distance_marcher.cpp
@@ -4,8 +4,10 @@
 
 double distanceMarcher::updatePointOrderOne(int i) {
   double a, b, c;
-  a = b = c = 0;
   int naddr = 0;
+  int n = 0; // dimensions in which there is a frozen neighbor
+  int dims[MaximumDimension];
+  double values[MaximumDimension];
   for (int dim = 0; dim < dim_; dim++) {
     double value = maxDouble;
     for (int j = -1; j < 2; j += 2) // each direction
@@ -18,13 +20,31 @@ double distanceMarcher::updatePointOrderOne(int i) {
       }
     }
     if (value < maxDouble) {
-      a += idx2_[dim];
-      b -= idx2_[dim] * 2 * value;
-      c += idx2_[dim] * pow(value, 2);
+      dims[n] = dim;
+      values[n] = value;
+      n++;
     }
   }
-  double tmp = solveQuadratic(i, a, b, c);
-  return tmp;
+  // the front has to reach a neighbor before it can arrive from there: leave
+  // out the furthest one until the solution lies beyond all of them
+  while (true) {
+    a = b = c = 0;
+    int furthest = 0;
+    for (int k = 0; k < n; k++) {
+      double idx2 = idx2_[dims[k]];
+      a += idx2;
+      b -= idx2 * 2 * values[k];
+      c += idx2 * pow(values[k], 2);
+      if (fabs(values[k]) > fabs(values[furthest]))
+        furthest = k;
+    }
+    double tmp = solveQuadratic(i, a, b, c);
+    if (n <= 1 || (tmp != 0 && fabs(tmp) >= fabs(values[furthest])))
+      return tmp;
+    n--;
+    dims[furthest] = dims[n];
+    values[furthest] = values[n];
+  }
 }
 
 // second order point update
-- 
2.43.0


From a0095ec90555c84c2ae92f3531e2af1d4e4bfd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 27/44] fix: cells exactly on an interface belonged to both
 materials

---
 code/cpp/src/multi/fill.cpp      | 2 +-
 code/cpp/src/multi/functions.cpp | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index ccae40e..2c2d9f3 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -18,7 +18,7 @@ int iVec_to_ind(iVecr v, int ny) { return (v(0) * ny + v(1)) * V; }
 void update_interface_mask(iVecr intMask, Vecr φ, int indL, int indR) {
   double φL = φ(indL);
   double φR = φ(indR);
-  if (φL * φR <= 0.) {
+  if (sign(φL) != sign(φR)) {
     intMask(indL) = sign(φL);
     intMask(indR) = sign(φR);
   }
diff --git a/code/cpp/src/multi/functions.cpp b/code/cpp/src/multi/functions.cpp
index 48aa9c4..fece69a 100644
--- a/code/cpp/src/multi/functions.cpp
+++ b/code/cpp/src/multi/functions.cpp
@@ -1,6 +1,8 @@
 #include <cmath>
+#include <limits>
 
 #include "../etc/types.h"
+#include "../system/functions/vectors.h"
 #include "../system/objects.h"
 #include "pfmm.h"
 
@@ -81,4 +83,9 @@ void material_indicator(Vecr φ, Matr u, int mat, int nmat, aVecr dX, iVecr nX)
 
     φ = distance(φ, dX, nX);
   }
+
+  // a cell lying exactly on an interface belongs to one of its materials only
+  for (int i = 0; i < φ.size(); i++)
+    if (φ(i) == 0. && get_material_index(u.row(i)) != mat)
+      φ(i) = std::numeric_limits<double>::min();
 }
-- 
2.43.0


From f153e8b38c1dbc1b91ddc8648dbb6e863d6adc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:01 +0000
Subject: [PATCH 28/44] fix: the thermal impulse relaxed with the temperature
 of an ideal gas

---
 code/cpp/src/system/relaxation/analytic.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index f3d8936..0c3c501 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -145,13 +145,11 @@ void analyticSolver_thermal(VecVr Q, double dt, Par &MP) {
   // TODO: implement mixing of κ
 
   double ρ = Q(0);
-  double E = Q(1) / ρ;
-  Vec3 v = get_ρv(Q) / ρ;
-  Mat3_3Map A = get_A(Q);
   Vec3Map ρJ = get_ρJ(Q);
 
-  double c1 = E - E_2A(ρ, A, MP) - E_3(v);
+  // cv * temperature = c1 - c2 * J^2
   double c2 = MP.cα2 / 2.;
+  double c1 = MP.cv * temperature(Q, MP) + c2 * ρJ.squaredNorm() / (ρ * ρ);
   double k = 2 * MP.cα2 / (MP.κ * ρ * MP.cv);
   c1 *= k;
   c2 *= k;
-- 
2.43.0


From c196cb656c97c497a34472e86c18ee0c094b721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:01 +0000
Subject: [PATCH 29/44] fix: rounding changed the strain of elastic solids in
 every split step

---
 code/cpp/src/system/relaxation/analytic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 0c3c501..74b6d93 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -101,6 +101,9 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
     }
 
     double τ = nondimensionalized_time(ρ, detA1_3, m0, u0, dt, MP);
+    if (τ == 0.) // no relaxation
+      return;
+
     double e_6τ = exp(-6. * τ);
     double e_9τ = exp(-9. * τ);
 
-- 
2.43.0


From e8a4797f082c4ecb118140a811d04e22f2517128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:33 +0000
Subject: [PATCH 30/44] fix: ignition gave NaN or negative rates in expanded
 explosives

The compression beyond the threshold was raised to a power even where it is
negative: NaN for fractional exponents (the reactant was consumed at once), a
negative contribution for odd ones.
---
 code/cpp/src/system/variables/sources.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/variables/sources.cpp b/code/cpp/src/system/variables/sources.cpp
index 1a0d8ad..26ad94a 100644
--- a/code/cpp/src/system/variables/sources.cpp
+++ b/code/cpp/src/system/variables/sources.cpp
@@ -119,7 +119,8 @@ double reaction_rate(VecVr Q, Par &MP) {
     double ret = 0.;
 
     if (φ < MP.φI)
-      ret += MP.I * std::pow(λ, MP.b) * std::pow(ρ / MP.ρ0 - 1 - MP.a, MP.x);
+      ret += MP.I * std::pow(λ, MP.b) *
+             std::pow(std::max(ρ / MP.ρ0 - 1 - MP.a, 0.), MP.x);
 
     if (φ < MP.φG1)
       ret += MP.G1 * std::pow(λ, MP.c) * std::pow(φ, MP.d) * std::pow(p, MP.y);
-- 
2.43.0


From 353e3639b7848003d81bcd925da5eb7b9930b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:03 +0000
Subject: [PATCH 31/44] fix: LGMRES stagnated when outer vectors were recycled

---
 code/cpp/src/scipy/lgmres.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/scipy/lgmres.cpp b/code/cpp/src/scipy/lgmres.cpp
index 2a5d961..75e52fd 100644
--- a/code/cpp/src/scipy/lgmres.cpp
+++ b/code/cpp/src/scipy/lgmres.cpp
@@ -43,12 +43,12 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
     int j = 1;
     for (; j < ind; j++) {
 
-      if (j < outer_v.size() + 1)
-        z = outer_v[j - 1];
-      else if (j == outer_v.size() + 1)
+      if (j == 1)
         z = vs0;
-      else
+      else if (j <= inner_m)
         z = vs.back();
+      else
+        z = outer_v[j - 1 - inner_m];
 
       mvz = matvec(z);
       Vec v_new = psolve(mvz);
-- 
2.43.0


From a5ddc39a67185279daba15eca8e562ad41d2e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:03 +0000
Subject: [PATCH 32/44] fix: heat conducting interfaces equated J instead of
 the heat flux

---
 code/cpp/src/system/multi/conditions.cpp | 19 +++++++++++--------
 code/cpp/src/system/multi/conditions.h   |  7 +++++--
 code/cpp/src/system/multi/riemann.cpp    |  6 +++---
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/code/cpp/src/system/multi/conditions.cpp b/code/cpp/src/system/multi/conditions.cpp
index 6693cc3..4ab10f5 100644
--- a/code/cpp/src/system/multi/conditions.cpp
+++ b/code/cpp/src/system/multi/conditions.cpp
@@ -5,7 +5,7 @@
 #include "eigenvecs.h"
 
 void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
-               Vecr xR)
+               Vecr xR, Par &MPL, Par &MPR)
 {
 
   Mat YL = RL.block<n1, n1>(11, 0);
@@ -22,27 +22,30 @@ void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
 
   if (THERMAL)
   {
-    yL(3) = QL(14) / QL(0);
-    yR(3) = QR(14) / QR(0);
+    // temperatures are equal, so that α^2 * J must be too
+    yL(3) = MPL.cα2 * QL(14) / QL(0);
+    yR(3) = MPR.cα2 * QR(14) / QR(0);
+    YL.row(3) *= MPL.cα2;
+    YR.row(3) *= MPR.cα2;
   }
   x_ = (YL - YR).inverse() * (yR - yL + YL * xL - YR * xR);
 }
 
 void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
-              Vecr xR)
+              Vecr xR, Par &MPL, Par &MPR)
 {
 
   if (THERMAL)
   {
     Mat YL(2, n1);
     Mat YR(2, n1);
-    YL << RL.block<1, n1>(11, 0), RL.block<1, n1>(14, 0);
-    YR << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
+    YL << RL.block<1, n1>(11, 0), MPL.cα2 * RL.block<1, n1>(14, 0);
+    YR << RR.block<1, n1>(11, 0), MPR.cα2 * RR.block<1, n1>(14, 0);
 
     Vec yL(2);
     Vec yR(2);
-    yL << QL(2) / QL(0), QL(14) / QL(0);
-    yR << QR(2) / QR(0), QR(14) / QR(0);
+    yL << QL(2) / QL(0), MPL.cα2 * QL(14) / QL(0);
+    yR << QR(2) / QR(0), MPR.cα2 * QR(14) / QR(0);
 
     Mat M(2, 2);
     M << YL.col(0) - YR.col(0), YL.col(n1 - 1) - YR.col(n1 - 1);
diff --git a/code/cpp/src/system/multi/conditions.h b/code/cpp/src/system/multi/conditions.h
index 2a14795..dd83270 100644
--- a/code/cpp/src/system/multi/conditions.h
+++ b/code/cpp/src/system/multi/conditions.h
@@ -2,9 +2,12 @@
 #define CONDITIONS_H
 
 #include "../../etc/types.h"
+#include "../objects.h"
 
-void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR);
+void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR,
+               Par &MPL, Par &MPR);
 
-void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR);
+void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR,
+              Par &MPL, Par &MPR);
 
 #endif // CONDITIONS_H
diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index b3be715..f408232 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -85,7 +85,7 @@ MatV_V riemann_constraints(VecVr Q, double sgn, Par &MP) {
    * dΣ = dΣ/dρ * dρ + dΣ/dp * dp + dΣ/dA * dA
    * dT = dT/dρ * dρ + dT/dp * dp
    * v*L = v*R
-   * J*L = J*R
+   * α^2 J*L = α^2 J*R
    */
   MatV_V Rhat = eigen(Q, 0, MP);
 
@@ -176,9 +176,9 @@ void star_stepper(VecVr QL, VecVr QR, Par &MPL, Par &MPR) {
     Vec x_(n1);
 
     if (RIEMANN_STICK)
-      stick_bcs(x_, RL, RR, QL, QR, xL, xR);
+      stick_bcs(x_, RL, RR, QL, QR, xL, xR, MPL, MPR);
     else
-      slip_bcs(x_, RL, RR, QL, QR, xL, xR);
+      slip_bcs(x_, RL, RR, QL, QR, xL, xR, MPL, MPR);
 
     VecV cR = VecV::Zero();
     cL.head<n1>() = x_ - xL;
-- 
2.43.0


From a239c095c8b9a5e9025ce9e3ccaa0bcd7ec1683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:03 +0000
Subject: [PATCH 33/44] fix: slip contact kept tangential stress if the normal
 conditions held

---
 code/cpp/src/system/multi/riemann.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index f408232..24b97c8 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -43,6 +43,9 @@ bool check_star_convergence(VecVr QL_, VecVr QR_, Par &MPL, Par &MPR) {
     } else {
       cond = std::abs(ΣL_(0) - ΣR_(0)) / (b02 * ρ0) < STAR_TOL;
       cond &= std::abs(vL_(0) - vR_(0)) / sqrt(b02) < STAR_TOL;
+      // no tangential tractions
+      cond &= ΣL_.tail<2>().cwiseAbs().maxCoeff() / (b02 * ρ0) < STAR_TOL;
+      cond &= ΣR_.tail<2>().cwiseAbs().maxCoeff() / (b02 * ρ0) < STAR_TOL;
     }
   } else {
     double ρ0 = MPL.ρ0;
-- 
2.43.0


From 3b5ff9d8b4636795e41935c0e6cba7fd6df7d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 34/44] fix: a failed state was also returned before its
 predecessor

---
 code/cpp/src/solvers/iterator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index a517930..14e4743 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -150,11 +150,6 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
     if (contorted(u, contorted_tol))
       reset_distortion(u, MPs);
 
-    if (t >= double(pushCount + 1) / 100. * tf) {
-      ret[pushCount] = u;
-      pushCount += 1;
-    }
-
     print(int(t / tf * 100.));
     print(dt);
 
@@ -164,6 +159,11 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
       ret[i + 1] = u;
       return ret;
     }
+
+    if (t >= double(pushCount + 1) / 100. * tf) {
+      ret[pushCount] = u;
+      pushCount += 1;
+    }
   }
 
   ret[99] = u;
-- 
2.43.0


From e25cc771d9587c5f613e5f42758713911aed7c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 35/44] fix: rotate_distortion turned near-isotropic neighbours
 apart

---
 code/cpp/src/solvers/utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/cpp/src/solvers/utils.cpp b/code/cpp/src/solvers/utils.cpp
index 6a2e742..8eed6b9 100644
--- a/code/cpp/src/solvers/utils.cpp
+++ b/code/cpp/src/solvers/utils.cpp
@@ -33,12 +33,12 @@ void rotate_distortion(Vecr u, std::vector<Par> &MPs) {
       Eigen::JacobiSVD<Mat3_3> svd(A, Eigen::ComputeFullV);
 
       Vec3 s = svd.singularValues();
-      if (A.determinant() * svd.matrixV().determinant() < 0)
-        s *= -1.; // keep the orientation
-      A = svd.matrixV();
-
-      for (int j = 0; j < 3; j++)
-        u.segment<3>(i * V + 5 + 3 * j) = s(j) * A.col(j);
+      Mat3_3 V_ = svd.matrixV();
+      // symmetric: unlike the factor of the SVD, it depends continuously on A
+      Mat3_3 A_ = V_ * s.asDiagonal() * V_.transpose();
+      if (A.determinant() < 0)
+        A_ *= -1.; // keep the orientation
+      u.segment<9>(i * V + 5) = Vec9Map(A_.data());
     }
   }
 }
-- 
2.43.0


From 0c926cd7984bc84bff1de6975c27d185310b97ab Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 02:18:11 +0000
Subject: [PATCH 36/44] fix: second component of a mixture was set up with the
 options of the first

---
 code/python/gpr/misc/objects.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/code/python/gpr/misc/objects.py b/code/python/gpr/misc/objects.py
index cc52910..cd89510 100644
--- a/code/python/gpr/misc/objects.py
+++ b/code/python/gpr/misc/objects.py
@@ -147,36 +147,37 @@ def params(MP, Rc, EOS,
             MP.MP2.cv = cv_2
             MP.MP2.Tref = Tref_2
 
-        if EOS == 'sg':
+        if EOS_2 == 'sg':
             MP.MP2.γ = γ_2
             MP.MP2.pINF = pINF_2
 
-        elif EOS == 'smg':
+        elif EOS_2 == 'smg':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.c02 = c0_2**2
             MP.MP2.s = s_2
 
-        elif EOS == 'gr':
+        elif EOS_2 == 'gr':
             MP.MP2.c02 = c0_2**2
             MP.MP2.α = α_2
             MP.MP2.β = β_2
             MP.MP2.γ = γ_2
 
-        elif EOS == 'jwl' or EOS == 'cc':
+        elif EOS_2 == 'jwl' or EOS_2 == 'cc':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.A = A_2
             MP.MP2.B = B_2
             MP.MP2.R1 = R1_2
             MP.MP2.R2 = R2_2
 
-        if b0 is not None:
+        if b0_2:
             MP.MP2.b02 = b0_2**2
             MP.MP2.β = β_2
-            MP.MP2.μ = μ_2
+            if μ_2:
+                MP.MP2.μ = μ_2
             if n_2:
                 MP.MP2.n = n_2
 
-        if cα:
+        if cα_2:
             MP.MP2.cα2 = cα_2**2
             MP.MP2.κ = κ_2
 
@@ -238,6 +239,9 @@ def material_params(EOS, ρ0,
         if Tref_2 is None:
             Tref_2 = 0
 
+        if γ_2 and (pINF_2 is None):
+            pINF_2 = 0
+
         if β_2 is None:
             β_2 = 0
 
-- 
2.43.0


From 712ef3e13f43f3d2e7eeaf21e91e2c2911a15bfa Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 02:18:11 +0000
Subject: [PATCH 37/44] fix: derivative of the JWL and Cochran-Chan reference
 energies

---
 code/python/gpr/vars/mg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index 4bfe17c..0677f9f 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -195,7 +195,7 @@ def de_ref(ρ, MP):
         return c02 / (ρ * α) * (tmp - 1) * tmp
 
     elif EOS in [JWL, COCHRAN_CHAN]:
-        return e_ref(ρ, MP) / ρ**2
+        return p_ref(ρ, MP) / ρ**2
 
 
 def internal_energy(ρ, p, MP):
-- 
2.43.0


From 943da137c8a665b286c6973dc007cc540b51e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 02:18:11 +0000
Subject: [PATCH 38/44] fix: c_inf and entropy_hyp used names that were not
 imported

---
 code/python/gpr/vars/hyp.py        | 2 +-
 code/python/gpr/vars/wavespeeds.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/python/gpr/vars/hyp.py b/code/python/gpr/vars/hyp.py
index 81edbe4..585f09e 100644
--- a/code/python/gpr/vars/hyp.py
+++ b/code/python/gpr/vars/hyp.py
@@ -1,4 +1,4 @@
-from numpy import dot, exp, eye, zeros
+from numpy import dot, exp, eye, log, zeros
 from numpy.linalg import det, inv
 
 from gpr.misc.functions import I_1, I_2, I_3, gram
diff --git a/code/python/gpr/vars/wavespeeds.py b/code/python/gpr/vars/wavespeeds.py
index 7de5cb5..3d3a022 100644
--- a/code/python/gpr/vars/wavespeeds.py
+++ b/code/python/gpr/vars/wavespeeds.py
@@ -1,6 +1,7 @@
 from numpy import sqrt
 
 from gpr.vars.derivatives import dEdρ, dEdp
+from gpr.vars.shear import c_s2
 
 
 def c_0(ρ, p, A, MP):
@@ -11,10 +12,10 @@ def c_0(ρ, p, A, MP):
     return sqrt((p / ρ**2 - dE_dρ) / dE_dp)
 
 
-def c_inf(ρ, p, MP):
+def c_inf(ρ, p, A, MP):
     """ Returns the longitudinal characteristic speed
     """
-    c0 = c_0(ρ, p, MP)
+    c0 = c_0(ρ, p, A, MP)
     cs2 = c_s2(ρ, MP)
     return sqrt(c0**2 + 4 / 3 * cs2)
 
-- 
2.43.0


From 58c157705412d66e5a9e12710969026f9c2dc8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 02:18:11 +0000
Subject: [PATCH 39/44] fix: theta1inv and K_ing used undefined names and other
 laws than the solver

---
 code/python/gpr/vars/sources.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index cb52065..333eca7 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -30,16 +30,26 @@ def theta1inv(ρ, A, MP):
         else:   # elastic solid
             return 0
 
+    elif MP.BINGHAM:
+
+        σY = MP.σY
+        σ = sigma(ρ, A, MP)
+        sn = norm(σ) / sqrt(2.)
+
+        if sn > σY:
+            return detA5_3 * MP.ρ0 / (2 * MP.μ) * (1 - σY / sn)
+        else:
+            return 0
+
     else:
 
         n = MP.n
-        const = detA5_3 * ρ0 / (2 * μ**(1/n))
+        const = detA5_3 * MP.ρ0 / (2 * MP.μ**(1/n))
 
         if MP.POWER_LAW:  # power law fluid
 
             σ = sigma(ρ, A, MP)
             sn = norm(σ) / sqrt(2.)
-            sn = min(sn, 1e8)   # Hacky fix
 
             return const * sn**((1-n)/n)
 
@@ -93,21 +103,23 @@ def K_ing(ρ, λ, p, MP):
     x = MP.x
     y = MP.y
     z = MP.z
-    φIG = MP.φIG
+    φI = MP.φI
     φG1 = MP.φG1
     φG2 = MP.φG2
 
+    p = max(p, 0)
+    λ = min(max(λ, 0), 1)
     φ = 1 - λ
 
     ret = 0
-    if φIG > φ:
-        ret += I * λ**b * (ρ - 1 - a)**x
+    if φI > φ:
+        ret += I * λ**b * max(ρ / MP.ρ0 - 1 - a, 0)**x
     if φG1 > φ:
         ret += G1 * λ**c * φ**d * p**y
     if φ > φG2:
         ret += G2 * λ**e * φ**g * p**z
 
-    return ret
+    return max(ret, 0)
 
 
 def f_δp(MP):
-- 
2.43.0


From 0266a028b76e477c5d387af9d254342a4187ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:21 +0000
Subject: [PATCH 40/44] fix: gpr.sys and gpr.multi used options that no module
 defined

---
 code/python/gpr/multi/conditions.py |  2 ++
 code/python/gpr/multi/riemann.py    |  1 +
 code/python/gpr/multi/rotations.py  |  2 ++
 code/python/gpr/multi/vectors.py    |  1 +
 code/python/gpr/opts.py             | 10 ++++++++++
 code/python/gpr/sys/conserved.py    |  7 ++++---
 code/python/gpr/sys/eigenvalues.py  |  1 +
 code/python/gpr/sys/eigenvectors.py |  1 +
 code/python/gpr/sys/jacobians.py    | 21 +++++++++++----------
 code/python/gpr/sys/primitive.py    |  9 ++++++---
 10 files changed, 39 insertions(+), 16 deletions(-)
 create mode 100644 code/python/gpr/opts.py

diff --git a/code/python/gpr/multi/conditions.py b/code/python/gpr/multi/conditions.py
index dd83aad..de081ba 100644
--- a/code/python/gpr/multi/conditions.py
+++ b/code/python/gpr/multi/conditions.py
@@ -1,6 +1,8 @@
 from numpy import array, concatenate, dot
 from scipy.linalg import solve
 
+from gpr.opts import THERMAL
+
 
 def stick_bcs(RL, RR, PL, PR, xL, xR):
 
diff --git a/code/python/gpr/multi/riemann.py b/code/python/gpr/multi/riemann.py
index d6f411d..62b9832 100644
--- a/code/python/gpr/multi/riemann.py
+++ b/code/python/gpr/multi/riemann.py
@@ -6,6 +6,7 @@ from gpr.misc.structures import State
 from gpr.multi.conditions import slip_bcs, stick_bcs
 from gpr.multi.rotations import rotation_matrix, rotate_tensors
 from gpr.multi.vectors import Pvec, Pvec_to_Cvec
+from gpr.opts import THERMAL
 from gpr.sys.analytical import ode_solver_cons
 from gpr.sys.eigenvalues import Xi1, Xi2
 from gpr.sys.eigenvectors import eigen, decompose_Ξ, get_indexes
diff --git a/code/python/gpr/multi/rotations.py b/code/python/gpr/multi/rotations.py
index 7ba6958..445e4c5 100644
--- a/code/python/gpr/multi/rotations.py
+++ b/code/python/gpr/multi/rotations.py
@@ -1,5 +1,7 @@
 from numpy import array, dot, sqrt, vstack, zeros
 
+from gpr.opts import THERMAL
+
 
 def rotation_matrix(n):
     """ returns the matrix that rotates vector quantities into a coordinate
diff --git a/code/python/gpr/multi/vectors.py b/code/python/gpr/multi/vectors.py
index 223474e..ca5cebc 100644
--- a/code/python/gpr/multi/vectors.py
+++ b/code/python/gpr/multi/vectors.py
@@ -1,5 +1,6 @@
 from numpy import zeros
 
+from gpr.opts import THERMAL
 from gpr.vars.eos import total_energy
 
 
diff --git a/code/python/gpr/opts.py b/code/python/gpr/opts.py
new file mode 100644
index 0000000..7fd653e
--- /dev/null
+++ b/code/python/gpr/opts.py
@@ -0,0 +1,10 @@
+from GPRpy import options
+
+
+VISCOUS = options.VISCOUS()
+THERMAL = options.THERMAL()
+MULTI = options.MULTI()
+REACTIVE = MULTI
+LSET = options.LSET()
+NV = options.NV()
+mV = 5 + 9 * VISCOUS + 3 * THERMAL  # index of the mass fraction
diff --git a/code/python/gpr/sys/conserved.py b/code/python/gpr/sys/conserved.py
index 1b9f67a..0df1681 100644
--- a/code/python/gpr/sys/conserved.py
+++ b/code/python/gpr/sys/conserved.py
@@ -1,6 +1,7 @@
 from numpy import dot, zeros
 
 from gpr.misc.structures import State
+from gpr.opts import VISCOUS, THERMAL, MULTI, LSET, NV, mV
 from gpr.sys.jacobians import dFdP, dPdQ
 
 
@@ -50,7 +51,7 @@ def F_cons(Q, d, MP):
 
     if MULTI:
         λ = P.λ
-        ret[17] = ρvd * λ
+        ret[mV] = ρvd * λ
 
     return ret
 
@@ -75,9 +76,9 @@ def S_cons(Q, MP):
         θ2_1 = P.θ2_1()
         ret[14:17] = - ρ * H * θ2_1
 
-    if REACTIVE:
+    if MULTI and MP.REACTION > -1:
         K = P.K()
-        ret[17] = - ρ * K
+        ret[mV] = - ρ * K
 
     return ret
 
diff --git a/code/python/gpr/sys/eigenvalues.py b/code/python/gpr/sys/eigenvalues.py
index 1cb741c..aa8af21 100644
--- a/code/python/gpr/sys/eigenvalues.py
+++ b/code/python/gpr/sys/eigenvalues.py
@@ -2,6 +2,7 @@ from numpy import dot, sqrt, zeros
 from numpy.linalg import eigvals
 
 from gpr.misc.structures import State
+from gpr.opts import VISCOUS, THERMAL
 from gpr.vars.wavespeeds import c_0, c_h
 
 
diff --git a/code/python/gpr/sys/eigenvectors.py b/code/python/gpr/sys/eigenvectors.py
index c5aa154..73f4ff4 100644
--- a/code/python/gpr/sys/eigenvectors.py
+++ b/code/python/gpr/sys/eigenvectors.py
@@ -2,6 +2,7 @@ from numpy import array, diag, dot, eye, sqrt, zeros
 from scipy.linalg import eig, inv, solve, norm
 
 from gpr.misc.functions import reorder
+from gpr.opts import THERMAL
 from gpr.sys.eigenvalues import Xi1, Xi2
 from gpr.vars import mg
 from gpr.vars.wavespeeds import c_0
diff --git a/code/python/gpr/sys/jacobians.py b/code/python/gpr/sys/jacobians.py
index 25c3688..ff55645 100644
--- a/code/python/gpr/sys/jacobians.py
+++ b/code/python/gpr/sys/jacobians.py
@@ -1,6 +1,7 @@
 from numpy import dot, eye, outer, tensordot, zeros
 
 from gpr.misc.functions import L2_1D
+from gpr.opts import VISCOUS, THERMAL, MULTI, REACTIVE, NV, mV
 
 
 def dQdP(P, MP):
@@ -36,11 +37,11 @@ def dQdP(P, MP):
             ret[i, i] = ρ
 
     if MULTI:
-        ret[17, 0] = P.λ
-        ret[17, 17] *= ρ
+        ret[mV, 0] = P.λ
+        ret[mV, mV] *= ρ
         if REACTIVE:
             Qc = MP.Qc
-            ret[1, 17] = Qc * ρ
+            ret[1, mV] = Qc * ρ
 
     return ret
 
@@ -87,12 +88,12 @@ def dPdQ(P, MP):
 
     if MULTI:
         λ = P.λ
-        ret[17, 0] = -λ / ρ
-        ret[17, 17] /= ρ
+        ret[mV, 0] = -λ / ρ
+        ret[mV, mV] /= ρ
         if REACTIVE:
             Qc = MP.Qc
             ret[1, 0] += Γ * Qc * λ
-            ret[1, 17] -= Γ * Qc
+            ret[1, mV] -= Γ * Qc
 
     return ret
 
@@ -178,12 +179,12 @@ def dFdP(P, d, MP):
 
     if MULTI:
         λ = P.λ
-        ret[17, 0] = v[d] * λ
-        ret[17, 2 + d] = ρ * λ
-        ret[17, 17] = ρvd
+        ret[mV, 0] = v[d] * λ
+        ret[mV, 2 + d] = ρ * λ
+        ret[mV, mV] = ρvd
         if REACTIVE:
             Qc = MP.Qc
-            ret[1, 17] += Qc * ρvd
+            ret[1, mV] += Qc * ρvd
 
     return ret
 
diff --git a/code/python/gpr/sys/primitive.py b/code/python/gpr/sys/primitive.py
index 0976b29..5d9660c 100644
--- a/code/python/gpr/sys/primitive.py
+++ b/code/python/gpr/sys/primitive.py
@@ -2,7 +2,7 @@ from numpy import eye, zeros
 
 from gpr.misc.functions import L2_1D, L2_2D
 from gpr.misc.structures import State
-from gpr.opts import VISCOUS, THERMAL, REACTIVE, NV
+from gpr.opts import VISCOUS, THERMAL, MULTI, NV, mV
 from gpr.vars.shear import c_s2, dc_s2dρ
 from gpr.vars.wavespeeds import c_0, c_h
 
@@ -65,6 +65,8 @@ def S_prim(SYS, Q, MP):
     cs2 = c_s2(ρ, MP)
     dcs2dρ = dc_s2dρ(ρ, MP)
 
+    ret[2:5] = P.f_body() / ρ
+
     if VISCOUS:
         ψ = P.ψ()
         θ1_1 = P.θ1_1()
@@ -77,8 +79,9 @@ def S_prim(SYS, Q, MP):
         ret[1] += 1 / dEdp * L2_1D(H) * θ2_1
         ret[14:17] = -H * θ2_1
 
-    if REACTIVE:
+    if MULTI and MP.REACTION > -1:
         K = P.K()
-        ret[17] = - K
+        ret[1] += 1 / dEdp * MP.Qc * K
+        ret[mV] = - K
 
     return ret
-- 
2.43.0


From 37ae944bf48c48de8355b14a863a5e0cddcdc719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:21 +0000
Subject: [PATCH 41/44] fix: State read impulse and fraction from other places
 than the solver, and had no reaction rate

---
 code/python/gpr/misc/structures.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/code/python/gpr/misc/structures.py b/code/python/gpr/misc/structures.py
index 17244d5..793f73d 100644
--- a/code/python/gpr/misc/structures.py
+++ b/code/python/gpr/misc/structures.py
@@ -3,6 +3,8 @@ from numpy import zeros
 import GPRpy
 
 from gpr.misc.functions import gram, sigma_norm
+from gpr.misc.objects import REACTION_CODES
+from gpr.opts import THERMAL, MULTI, mV
 from gpr.vars.derivatives import dEdρ, dEdp, dEdA, dEdA_s, dEdJ, dTdρ, dTdp
 from gpr.vars.eos import total_energy
 from gpr.vars.sources import theta1inv, theta2inv, K_arr, K_dis, K_ing, f_δp
@@ -22,13 +24,11 @@ class State():
         self.v = Q[2:5] / self.ρ
         self.A = Q[5:14].reshape([3, 3])
 
-        if MP.cα2:
+        if THERMAL:
             self.J = Q[14:17] / self.ρ
-            if len(Q) > 17:
-                self.λ = Q[17] / Q[0]
-        else:
-            if len(Q) > 14:
-                self.λ = Q[14] / Q[0]
+
+        if MULTI:
+            self.λ = Q[mV] / self.ρ
 
         self.MP = MP
 
@@ -85,11 +85,11 @@ class State():
         return theta2inv(self.ρ, self.T(), self.MP)
 
     def K(self):
-        if self.MP.REACTION == 'a':
+        if self.MP.REACTION == REACTION_CODES['a']:
             return K_arr(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'd':
+        elif self.MP.REACTION == REACTION_CODES['d']:
             return K_dis(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'i':
+        elif self.MP.REACTION == REACTION_CODES['i']:
             return K_ing(self.ρ, self.λ, self.p(), self.MP)
 
     def f_body(self):
-- 
2.43.0


From 43af68bf3eff4224f0635f2bf358c1e955fa614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:21 +0000
Subject: [PATCH 42/44] fix: analytic relaxation in Python differed from the
 solver's

---
 code/python/gpr/sys/analytical.py | 35 +++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/code/python/gpr/sys/analytical.py b/code/python/gpr/sys/analytical.py
index 742bd3c..a0b11b3 100644
--- a/code/python/gpr/sys/analytical.py
+++ b/code/python/gpr/sys/analytical.py
@@ -1,9 +1,11 @@
-from numpy import arctan, array, cbrt, cos, dot, exp, log, pi, prod, sqrt
-from numpy.linalg import svd
+from numpy import arctan, arctan2, array, cbrt, cos, dot, exp, log, pi, prod, sqrt
+from numpy.linalg import norm, svd
 
 from gpr.misc.functions import L2_1D
-from gpr.vars.eos import E_2A, E_3
+from gpr.opts import VISCOUS, THERMAL, MULTI, mV
+from gpr.vars import mg
 from gpr.vars.shear import c_s2
+from gpr.vars.state import pressure, sigma
 
 
 ### DISTORTION ###
@@ -21,6 +23,9 @@ def pos(x):
 
 def nondimensionalized_time(ρ, detA3, m0, u0, dt, MP):
 
+    if MP.SOLID and not MP.POWER_LAW:  # elastic: the strain does not relax
+        return 0
+
     if MP.POWER_LAW:
         n = MP.n
         cs2 = c_s2(ρ, MP)
@@ -57,13 +62,13 @@ def nondimensionalized_time(ρ, detA3, m0, u0, dt, MP):
                      - 8 / 9 * b**3 - a**4 / 6 + 16 / 27 * a**3 * b
                      - 4 / 5 * a**2 * b**2 + 16 / 33 * a * b**3 - b**4 / 9)
 
-            τ1 = 6 * MP.μ**(1/n) / (MP.ρ0 * MP.b02)
+            τ1 = 6 * MP.μ**(1/n) / (MP.ρ0 * cs2)
             tmp1 = k * λ / τ1 * detA3**(4 * k + 7)
             tmp2 = (sqrt(c) * ρ * cs2 / (6 * sqrt(3)))**k
             return 2 / (k * λ) * log(tmp1 * tmp2 * dt + 1)
 
     else:
-        return MP.ρ0 * MP.b02 * detA3**7 / (3 * MP.μ) * dt
+        return MP.ρ0 * c_s2(ρ, MP) * detA3**7 / (3 * MP.μ) * dt
 
 
 def solver_distortion_analytic(A, dt, MP):
@@ -80,7 +85,16 @@ def solver_distortion_analytic(A, dt, MP):
     if u0 < 1e-12:
         return A
 
+    if MP.BINGHAM and not MP.SOLID:  # rate of relaxation above the yield stress
+        sn = norm(sigma(ρ, A, MP)) / sqrt(2)
+        if sn <= MP.σY:
+            return A
+        dt *= 1 - MP.σY / sn
+
     τ = nondimensionalized_time(ρ, detA3, m0, u0, dt, MP)
+    if τ == 0:
+        return A
+
     e_6τ = exp(-6 * τ)
     e_9τ = exp(-9 * τ)
 
@@ -101,7 +115,7 @@ def solver_distortion_analytic(A, dt, MP):
         x1 = tmp / 6 + u / tmp + m
 
     else:
-        θ = arctan(sqrt(arg1) / (9 * Δ))
+        θ = arctan2(sqrt(arg1), 9 * Δ)
         x1 = sqrt(6 * u) / 3 * cos(θ / 3) + m
 
     tmp2 = 3 * m - x1
@@ -117,11 +131,13 @@ def solver_distortion_analytic(A, dt, MP):
 ### THERMAL IMPULSE ###
 
 
-def solver_thermal_analytic(ρ, E, A, J, v, dt, MP):
+def solver_thermal_analytic(ρ, E, A, J, v, dt, MP, λ=None):
     """ Solves the thermal impulse ODE analytically in 3D
     """
-    c1 = E - E_2A(ρ, A, MP) - E_3(v)
+    # cv * temperature = c1 - c2 * J^2
     c2 = MP.cα2 / 2
+    T = mg.temperature(ρ, pressure(ρ, E, v, A, J, λ, MP), MP)
+    c1 = MP.cv * T + c2 * L2_1D(J)
     k = 2 * MP.cα2 / (MP.κ * ρ * MP.cv)
     a = c1 * k
     b = c2 * k
@@ -153,5 +169,6 @@ def ode_solver_cons(Q, dt, MP):
         J = Q[14:17] / ρ
         E = Q[1] / ρ
         v = Q[2:5] / ρ
+        λ = Q[mV] / ρ if MULTI else None
         A2 = (A + A1) / 2
-        Q[14:17] = ρ * solver_thermal_analytic(ρ, E, A2, J, v, dt, MP)
+        Q[14:17] = ρ * solver_thermal_analytic(ρ, E, A2, J, v, dt, MP, λ)
-- 
2.43.0


From 05bb02a20edaa9c6e047ce3d99682809a86a4ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:18 +0000
Subject: [PATCH 43/44] fix: the pressure derivative of the energy of a mixture
 held the densities of its components

---
 code/cpp/src/system/energy/derivatives.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/energy/derivatives.cpp b/code/cpp/src/system/energy/derivatives.cpp
index 0a8a284..bad1448 100644
--- a/code/cpp/src/system/energy/derivatives.cpp
+++ b/code/cpp/src/system/energy/derivatives.cpp
@@ -55,10 +55,25 @@ double dEdp(VecVr Q, Par &MP) {
     double λ = Q(mV) / ρ;
 
     Vec3 sol = solve_multi(Q, MP);
+    double p = sol(0);
     double ρ1 = sol(1);
     double ρ2 = sol(2);
 
-    return λ * dedp(ρ1, MP) + (1 - λ) * dedp(ρ2, MP.MP2);
+    double dT1 = dTdρ(ρ1, p, MP);
+    double dT2 = dTdρ(ρ2, p, MP.MP2);
+
+    double c1 = λ / (ρ1 * ρ1);
+    double c2 = (1 - λ) / (ρ2 * ρ2);
+    double c = (dTdp(ρ2, MP.MP2) - dTdp(ρ1, MP)) / (c1 * dT2 + c2 * dT1);
+
+    // the densities change with p, as the temperatures remain equal
+    double dρ1 = c2 * c;
+    double dρ2 = -c1 * c;
+
+    double tmp1 = λ * (dedp(ρ1, MP) + dedρ(ρ1, p, MP) * dρ1);
+    double tmp2 = (1 - λ) * (dedp(ρ2, MP.MP2) + dedρ(ρ2, p, MP.MP2) * dρ2);
+
+    return tmp1 + tmp2;
   } else {
     return dedp(ρ, MP);
   }
-- 
2.43.0


From 4fdb93218ba0826a5288b0c7aa51e24441759e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:18 +0000
Subject: [PATCH 44/44] fix: the Jacobians of mixtures lacked the dependence of
 the energy on the mass fraction

---
 code/cpp/src/system/energy/derivatives.cpp | 40 ++++++++++++++++++++++
 code/cpp/src/system/energy/derivatives.h   |  1 +
 code/cpp/src/system/jacobians.cpp          | 12 +++----
 3 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/code/cpp/src/system/energy/derivatives.cpp b/code/cpp/src/system/energy/derivatives.cpp
index bad1448..f12bda1 100644
--- a/code/cpp/src/system/energy/derivatives.cpp
+++ b/code/cpp/src/system/energy/derivatives.cpp
@@ -79,6 +79,46 @@ double dEdp(VecVr Q, Par &MP) {
   }
 }
 
+double dEdλ(VecVr Q, Par &MP) {
+  // Returns the partial derivative of E by λ (holding ρ,p,A constant)
+
+  double ret = 0.;
+
+  if (MP.MULTI) {
+
+    double ρ = Q(0);
+    double λ = Q(mV) / ρ;
+
+    Vec3 sol = solve_multi(Q, MP);
+    double p = sol(0);
+    double ρ1 = sol(1);
+    double ρ2 = sol(2);
+
+    ret = E_1(ρ1, p, MP) - E_1(ρ2, p, MP.MP2);
+
+    if (λ > 0. && λ < 1.) {
+
+      double dT1 = dTdρ(ρ1, p, MP);
+      double dT2 = dTdρ(ρ2, p, MP.MP2);
+
+      double c1 = λ / (ρ1 * ρ1);
+      double c2 = (1 - λ) / (ρ2 * ρ2);
+      double c = (1 / ρ1 - 1 / ρ2) / (c1 * dT2 + c2 * dT1);
+
+      // the densities change with λ, as the temperatures remain equal
+      double dρ1 = c * dT2;
+      double dρ2 = c * dT1;
+
+      ret += λ * dedρ(ρ1, p, MP) * dρ1;
+      ret += (1 - λ) * dedρ(ρ2, p, MP.MP2) * dρ2;
+    }
+  }
+  if (MP.REACTION > -1)
+    ret += MP.Qc;
+
+  return ret;
+}
+
 Mat3_3 dEdA(VecVr Q, Par &MP) {
   // Returns the partial derivative of E by A (holding ρ,s constant)
   double ρ = Q(0);
diff --git a/code/cpp/src/system/energy/derivatives.h b/code/cpp/src/system/energy/derivatives.h
index 18e4e40..4350044 100644
--- a/code/cpp/src/system/energy/derivatives.h
+++ b/code/cpp/src/system/energy/derivatives.h
@@ -6,6 +6,7 @@
 
 double dEdρ(VecVr Q, Par &MP);
 double dEdp(VecVr Q, Par &MP);
+double dEdλ(VecVr Q, Par &MP);
 Mat3_3 dEdA(VecVr Q, Par &MP);
 Mat3_3 dEdA_s(VecVr Q, Par &MP);
 Vec3 dEdJ(VecVr Q, Par &MP);
diff --git a/code/cpp/src/system/jacobians.cpp b/code/cpp/src/system/jacobians.cpp
index fdd3ef6..9236df8 100644
--- a/code/cpp/src/system/jacobians.cpp
+++ b/code/cpp/src/system/jacobians.cpp
@@ -91,8 +91,8 @@ MatV_V dFdP(VecVr Q, int d, Par &MP) {
     ret(mV, 2 + d) = ρ * λ;
     ret(mV, mV) = ρvd;
 
-    if (MP.REACTION > -1)
-      ret(1, mV) = MP.Qc * ρvd;
+    if (MP.MULTI || MP.REACTION > -1)
+      ret(1, mV) = dEdλ(Q, MP) * ρvd;
   }
   return ret;
 }
@@ -142,10 +142,10 @@ MatV_V dPdQ(VecVr Q, Par &MP) {
     ret(mV, 0) = -λ / ρ;
     ret(mV, mV) = 1 / ρ;
 
-    if (MP.REACTION > -1) {
-      double Qc = MP.Qc;
-      ret(1, 0) += Γ_ * Qc * λ;
-      ret(1, mV) = -Γ_ * Qc;
+    if (MP.MULTI || MP.REACTION > -1) {
+      double Eλ = dEdλ(Q, MP);
+      ret(1, 0) += Γ_ * Eλ * λ;
+      ret(1, mV) = -Γ_ * Eλ;
     }
   }
   return ret;
-- 
2.43.0

