From e2c26220f46b79a428b968c85ae508d3a030a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 01/39] fix: subtract half the site occupancy per spin in
 spin-polarized chains for NONE, P and PP

---
 c++/symmetry/sym-NONE-impl.hpp | 4 ++--
 c++/symmetry/sym-P-impl.hpp    | 4 ++--
 c++/symmetry/sym-PP-impl.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/c++/symmetry/sym-NONE-impl.hpp b/c++/symmetry/sym-NONE-impl.hpp
index 48f7672..72418ab 100644
--- a/c++/symmetry/sym-NONE-impl.hpp
+++ b/c++/symmetry/sym-NONE-impl.hpp
@@ -76,10 +76,10 @@ void SymmetryNONE<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, con
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryNONE<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-P-impl.hpp b/c++/symmetry/sym-P-impl.hpp
index 1fc54cd..180c1b6 100644
--- a/c++/symmetry/sym-P-impl.hpp
+++ b/c++/symmetry/sym-P-impl.hpp
@@ -95,10 +95,10 @@ void SymmetryP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryP<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-PP-impl.hpp b/c++/symmetry/sym-PP-impl.hpp
index b19c175..a9cee58 100644
--- a/c++/symmetry/sym-PP-impl.hpp
+++ b/c++/symmetry/sym-PP-impl.hpp
@@ -79,10 +79,10 @@ void SymmetryPP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryPP<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
-- 
2.43.0


From 0953d1477ed186392c9458893c9a9d8d28b8c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 02/39] fix: fermionic sign of the added site in the
 recalculation of doublet operators for symtype P

---
 c++/symmetry/coefnew/p/p-1ch-doublet.dat |  4 ++--
 c++/symmetry/coefnew/p/p-2ch-doublet.dat | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/c++/symmetry/coefnew/p/p-1ch-doublet.dat b/c++/symmetry/coefnew/p/p-1ch-doublet.dat
index b3d578f..978f1ee 100644
--- a/c++/symmetry/coefnew/p/p-1ch-doublet.dat
+++ b/c++/symmetry/coefnew/p/p-1ch-doublet.dat
@@ -1,4 +1,4 @@
-{ 1, 1, Invar(-p1), Invar(p1), 1},
-{ 2, 2, Invar(-p1), Invar(p1), 1},
+{ 1, 1, Invar(-p1), Invar(p1), -1},
+{ 2, 2, Invar(-p1), Invar(p1), -1},
 { 3, 3, Invar(p1), Invar(-p1), 1},
 { 4, 4, Invar(p1), Invar(-p1), 1},
diff --git a/c++/symmetry/coefnew/p/p-2ch-doublet.dat b/c++/symmetry/coefnew/p/p-2ch-doublet.dat
index 0c6d08c..4918748 100644
--- a/c++/symmetry/coefnew/p/p-2ch-doublet.dat
+++ b/c++/symmetry/coefnew/p/p-2ch-doublet.dat
@@ -1,11 +1,11 @@
-{ 1, 1, Invar(-p1), Invar(p1), 1},
-{ 2, 2, Invar(-p1), Invar(p1), 1},
-{ 3, 3, Invar(-p1), Invar(p1), 1},
-{ 4, 4, Invar(-p1), Invar(p1), 1},
-{ 5, 5, Invar(-p1), Invar(p1), 1},
-{ 6, 6, Invar(-p1), Invar(p1), 1},
-{ 7, 7, Invar(-p1), Invar(p1), 1},
-{ 8, 8, Invar(-p1), Invar(p1), 1},
+{ 1, 1, Invar(-p1), Invar(p1), -1},
+{ 2, 2, Invar(-p1), Invar(p1), -1},
+{ 3, 3, Invar(-p1), Invar(p1), -1},
+{ 4, 4, Invar(-p1), Invar(p1), -1},
+{ 5, 5, Invar(-p1), Invar(p1), -1},
+{ 6, 6, Invar(-p1), Invar(p1), -1},
+{ 7, 7, Invar(-p1), Invar(p1), -1},
+{ 8, 8, Invar(-p1), Invar(p1), -1},
 { 9, 9, Invar(p1), Invar(-p1), 1},
 { 10, 10, Invar(p1), Invar(-p1), 1},
 { 11, 11, Invar(p1), Invar(-p1), 1},
-- 
2.43.0


From 3fdcb5ec4612aafb1118d6cd9042e31750ce081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 03/39] fix: contraction with the density matrix in DMNRG for
 complex data

The weights contracted the matrix elements with the transpose of the
reduced density matrix. This is harmless for real (symmetric) density
matrices, but wrong for Hermitian ones: the DMNRG and DMNRGmats results
depended on the phases of the basis states.
---
 c++/algo_DMNRG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/algo_DMNRG.hpp b/c++/algo_DMNRG.hpp
index 8ca451c..54e08fc 100644
--- a/c++/algo_DMNRG.hpp
+++ b/c++/algo_DMNRG.hpp
@@ -43,13 +43,13 @@ class Algo_DMNRG : public Algo<S> {
       const auto rhoNIp_kept = submatrix_const(rhoNIp, {0, nrIpKept}, {0, nrIpKept});
       const auto rhoNI1_kept = submatrix_const(rhoNI1, {0, nrI1Kept}, {0, nrI1Kept});
       Matrix sumA(nrI1Kept, nrIpKept);
-      gemm_rowmajor<S>(S(1), op2_kept, GemmTranspose::none, rhoNIp_kept, GemmTranspose::transpose, S(0), sumA);
+      gemm_nn<S>(S(1), op2_kept, rhoNIp_kept, S(0), sumA);
       Matrix op1_conj(nrI1Kept, nrIpKept);
       for (const auto i : range0(nrI1Kept))
         for (const auto j : range0(nrIpKept))
           op1_conj(i, j) = conj_me(op1_kept(i, j));
       Matrix sumB(nrI1Kept, nrIpKept);
-      gemm_nn<S>(S(1), rhoNI1_kept, op1_conj, S(0), sumB);
+      gemm_rowmajor<S>(S(1), rhoNI1_kept, GemmTranspose::transpose, op1_conj, GemmTranspose::none, S(0), sumB);
 
       for (const auto rj: diagI1.kept())
         for (const auto rm: diagIp.kept()) {
@@ -96,13 +96,13 @@ class Algo_DMNRGmats : public Algo<S> {
        const auto rhoNIp_kept = submatrix_const(rhoNIp, {0, nrIpKept}, {0, nrIpKept});
        const auto rhoNI1_kept = submatrix_const(rhoNI1, {0, nrI1Kept}, {0, nrI1Kept});
         Matrix sumA(nrI1Kept, nrIpKept);
-        gemm_rowmajor<S>(S(1), op2_kept, GemmTranspose::none, rhoNIp_kept, GemmTranspose::transpose, S(0), sumA);
+        gemm_nn<S>(S(1), op2_kept, rhoNIp_kept, S(0), sumA);
         Matrix op1_conj(nrI1Kept, nrIpKept);
         for (const auto i : range0(nrI1Kept))
           for (const auto j : range0(nrIpKept))
             op1_conj(i, j) = conj_me(op1_kept(i, j));
         Matrix sumB(nrI1Kept, nrIpKept);
-        gemm_nn<S>(S(1), rhoNI1_kept, op1_conj, S(0), sumB);
+        gemm_rowmajor<S>(S(1), rhoNI1_kept, GemmTranspose::transpose, op1_conj, GemmTranspose::none, S(0), sumB);
 
        const auto term = [this](const auto energy, const auto weightA, const auto weightB, const auto n) {
          if (gt == gf_type::fermionic || n>0 || std::abs(energy) > WEIGHT_TOL) // [[likely]]
-- 
2.43.0


From 0d2bbeccddbfbdc7974550060e39a2a9c7492c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 04/39] fix: do not merge the spectra of the seed into the
 patched FT spectral function

The measurement on the initial Hamiltonian (calc0) has ndx 0 like the first
iteration, thus it was patched in a second time with the window of the first
step: the spectral weight at high energies was counted twice.
---
 c++/step.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/step.hpp b/c++/step.hpp
index c57c376..fdd86b6 100644
--- a/c++/step.hpp
+++ b/c++/step.hpp
@@ -50,6 +50,7 @@ class Step {
    }
    // Return true if the spectral-function merging is to be performed at the current step
    [[nodiscard]] auto N_for_merging() const noexcept {
+     if (trueN < static_cast<int>(firstndx())) return false; // seed (docalc0): the first iteration already covers its energy window
      if (P.NN1) return true;
      if (P.NN2avg) return true;
      return P.NN2even ? is_even(ndxN) : is_odd(ndxN);
-- 
2.43.0


From 5796d04a0d2807380b274383396e3a6cbcaacc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 05/39] fix: repeat a partial diagonalization if all computed
 states of a subspace are kept

---
 c++/truncation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c++/truncation.hpp b/c++/truncation.hpp
index e8c0df5..19cae63 100644
--- a/c++/truncation.hpp
+++ b/c++/truncation.hpp
@@ -87,9 +87,11 @@ void truncate_prepare(const Step &step, DiagInfo<S> &diag, MF mult, const Params
   std::cout << "Cmax=" << Cmax / step.unscale() << " ";
   truncate_stats ts(diag, mult);
   ts.report();
-  if (ranges::any_of(diag, [Cmax](const auto &d) {
+  // If all the computed states of a subspace are retained although there exist further ones, we cannot know whether
+  // some of those should be retained as well (even if the highest computed one is just the one that determines Cmax).
+  if (ranges::any_of(diag, [](const auto &d) {
         const auto &[I, eig] = d;
-        return eig.getnrkept() == eig.getnrcomputed() && eig.values.highest_crit() != Cmax && eig.getnrcomputed() < eig.getdim();
+        return eig.getnrkept() == eig.getnrcomputed() && eig.getnrcomputed() < eig.getdim();
       }))
     throw NotEnough();
   const double ratio = double(ts.nrkept) / ts.nrall;
-- 
2.43.0


From cee63874f11068f009d9b67275e92b643d38e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 06/39] fix: allow storing Hamiltonians to HDF5 when a step is
 repeated

---
 c++/h5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/h5.hpp b/c++/h5.hpp
index 57b5e8e..ccf7078 100644
--- a/c++/h5.hpp
+++ b/c++/h5.hpp
@@ -33,7 +33,7 @@ namespace NRG {
 
    template <real_Eigen_matrix REM>
    void h5_dump_matrix(H5Easy::File &file, const std::string &path, const REM &m) {
-     H5Easy::dump(file, path, m);
+     H5Easy::dump(file, path, m, H5Easy::DumpMode::Overwrite); // the step may be repeated with a larger diagratio
    }
 
   template <complex_Eigen_matrix CEM>
-- 
2.43.0


From de466f5b5d0abef87abf753dcaafe32345e3d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 07/39] fix: integ: integrate between the data points, so that
 narrow features are not missed

---
 tools/integ/integ.cc | 45 +++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 6df8912..49b9322 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -231,24 +231,43 @@ void handle_qag(int status) {
 // number of subintervals is given by limit, which may not exceed the
 // allocated size of the workspace. [GSL manual]
 
+// The integration is performed separately on each interval between the data points, where the interpolant is
+// smooth. A single adaptive integration over [Xmin:Xmax] may miss features that are narrow compared to the full
+// range. The intervals are further divided at X=0 (integrands f_pos, f_neg) and around X=0 (integrand f_fermi).
+DVEC breakpoints() {
+  DVEC pts = Xpts;
+  for (const auto x : {-20.0 * T, 0.0, 20.0 * T})
+    if (Xmin < x && x < Xmax) pts.push_back(x);
+  sort(pts.begin(), pts.end());
+  pts.erase(unique(pts.begin(), pts.end()), pts.end());
+  return pts;
+}
+
 double calc(double (*fnc)(double, void *)) {
   gsl_function F;
   F.function = fnc;
   //   F.params = &Z;
 
-  double integral;
-  double integration_error;
-  int status = gsl_integration_qag(&F,   // integrand function
-                                   Xmin, // lower integration boundary
-                                   Xmax, // upper integration boundary
-                                   EPSABS, EPSREL,
-                                   limit,               // size of workspace w
-                                   GSL_INTEG_GAUSS15,   // Gauss-Kronrod rule
-                                   w,                   // integration workspace
-                                   &integral,           // final approximation
-                                   &integration_error); // estimate of absolute error
-
-  handle_qag(status);
+  const DVEC pts           = breakpoints();
+  double integral          = 0.0;
+  double integration_error = 0.0;
+  for (size_t i = 0; i + 1 < pts.size(); i++) {
+    double piece;
+    double piece_error;
+    int status = gsl_integration_qag(&F,         // integrand function
+                                     pts[i],     // lower integration boundary
+                                     pts[i + 1], // upper integration boundary
+                                     EPSABS, EPSREL,
+                                     limit,             // size of workspace w
+                                     GSL_INTEG_GAUSS15, // Gauss-Kronrod rule
+                                     w,                 // integration workspace
+                                     &piece,            // final approximation
+                                     &piece_error);     // estimate of absolute error
+
+    handle_qag(status);
+    integral += piece;
+    integration_error += piece_error;
+  }
 
   if (veryverbose) {
     cout << scientific;
-- 
2.43.0


From 1e591968fbaa46cabcad55c44c1db2a2bb055347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 08/39] fix: hilb: evaluate the limit from above for arguments
 on the real axis instead of printing nan or 0

---
 tools/hilb/hilb.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index 80f3039..b8f3f50 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -197,7 +197,8 @@ template <typename FNCR, typename FNCI> auto hilbert_transform(FNCR rhor, FNCI r
   gsl_set_error_handler_off();
   integrator integr;
   const auto x = real(z);
-  const auto y = imag(z);
+  const auto ymin = 1e-30; // On the real axis we evaluate the limit y -> +0 (y -> -0 for negative zero)
+  const auto y = std::abs(imag(z)) < ymin ? std::copysign(ymin, imag(z)) : imag(z);
   // Low-level Hilbert-transform routines. calcA routine handles the case with removed singularity and
   // perform the integration after a change of variables. calcB routine directly evaluates the defining
   // integral of the Hilbert transform. Real and imaginary parts are determined in separate steps.
-- 
2.43.0


From b67cc34ed5771eb46e448d62bfc37449deeff88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 09/39] fix: broaden: the logarithmic kernel is 0 at zero
 frequency (a mesh from a file may contain 0, which gave nan)

---
 tools/broaden/broaden.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/broaden/broaden.hpp b/tools/broaden/broaden.hpp
index 474b458..7ef08e9 100644
--- a/tools/broaden/broaden.hpp
+++ b/tools/broaden/broaden.hpp
@@ -423,7 +423,7 @@ class Broaden {
    // energy of the spectral function point being computed. ept is the energy of point.
    inline auto BR_L_orig(const double e, const double ept) {
      if ((e < 0.0 && ept > 0.0) || (e > 0.0 && ept < 0.0)) return 0.0;
-     if (ept == 0.0) return 0.0;
+     if (e == 0.0 || ept == 0.0) return 0.0;
      const auto gamma = alpha / 4;
      return exp(-sqr(log(e / ept) / alpha - gamma)) / (alpha * std::abs(e) * m_SQRTPI);
    }
@@ -443,7 +443,7 @@ class Broaden {
        ept              = ept - shift;
      }
      if ((e < 0.0 && ept > 0.0) || (e > 0.0 && ept < 0.0)) return 0.0;
-     if (ept == 0.0) return 0.0;
+     if (e == 0.0 || ept == 0.0) return 0.0;
      const auto gamma = alpha / 4;
      return exp(-sqr(log(e / ept) / alpha - gamma)) / (alpha * std::abs(e) * m_SQRTPI);
    }
-- 
2.43.0


From 5b459f145520022131210ae9fbe875cc63009f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 10/39] fix: matrix: return to the enclosing file at the end of
 a file included with 'parse' (it was closed twice)

---
 tools/matrix/parser.cc | 5 +++++
 tools/matrix/parser.yy | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 610dcc0..221c60b 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1940,10 +1940,15 @@ int remaining;
 int current = 0;
 FILE *file;
 extern FILE *yyin;
+extern int include_depth;
 
 extern "C" {
 int yywrap(void)
 {
+    // At the end of an included file, return to the enclosing file. The list of files is not affected.
+    if (include_depth > 0)
+      return 1;
+
     if (current != 0 && file) {
       fclose(file);
       file = nullptr;
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index b067ba3..dde698e 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -339,10 +339,15 @@ int remaining;
 int current = 0;
 FILE *file;
 extern FILE *yyin;
+extern int include_depth;
 
 extern "C" {
 int yywrap(void)
 {
+    // At the end of an included file, return to the enclosing file. The list of files is not affected.
+    if (include_depth > 0)
+      return 1;
+
     if (current != 0 && file) {
       fclose(file);
       file = nullptr;
-- 
2.43.0


From 1a58ca1d980c454791abd2638222b49221c75e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 11/39] fix: matrix: f[x] with a variable as the argument is a
 function call, not a section header

---
 tools/matrix/matrix.cc | 16 +++++++++++++++-
 tools/matrix/matrix.ll | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/tools/matrix/matrix.cc b/tools/matrix/matrix.cc
index 3d25b41..812c2a9 100644
--- a/tools/matrix/matrix.cc
+++ b/tools/matrix/matrix.cc
@@ -552,6 +552,15 @@ void parse_file(const char *);
 int count_braces = 0;
 int include_depth = 0;
 
+// Only white space precedes the current token in its line?
+bool line_start = true;
+bool blank_so_far = true;
+#define YY_USER_ACTION { \
+  line_start = blank_so_far; \
+  const char last = yytext[yyleng-1]; \
+  blank_so_far = (last == '\n') || (blank_so_far && (last == ' ' || last == '\t')); \
+}
+
 
 
 #line 554 "matrix.cc"
@@ -940,7 +949,12 @@ YY_RULE_SETUP
 case 18:
 YY_RULE_SETUP
 #line 70 "matrix.ll"
-;          /* ignore sections (param) */
+{          /* ignore sections (param), but not arguments as in log[x] */
+         if (!line_start) {
+           yyless(1);
+           return yytext[0];
+         }
+       }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
diff --git a/tools/matrix/matrix.ll b/tools/matrix/matrix.ll
index 230948c..20847ec 100644
--- a/tools/matrix/matrix.ll
+++ b/tools/matrix/matrix.ll
@@ -20,6 +20,15 @@ void parse_file(const char *);
 int count_braces = 0;
 int include_depth = 0;
 
+// Only white space precedes the current token in its line?
+bool line_start = true;
+bool blank_so_far = true;
+#define YY_USER_ACTION { \
+  line_start = blank_so_far; \
+  const char last = yytext[yyleng-1]; \
+  blank_so_far = (last == '\n') || (blank_so_far && (last == ' ' || last == '\t')); \
+}
+
 %}
 
 %x incl
@@ -71,7 +80,12 @@ parse      { BEGIN(incl); }
 
 [ \t]	;		 /* ignore white space */
 
-\[{ALPHANAME}\] ;          /* ignore sections (param) */
+\[{ALPHANAME}\] {          /* ignore sections (param), but not arguments as in log[x] */
+         if (!line_start) {
+           yyless(1);
+           return yytext[0];
+         }
+       }
 
 {ALPHANAME}={TEXT} { 
                      if (veryverbose) {
-- 
2.43.0


From cd0fd22a1129048fb97f9a3ce7e662505d999764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 12/39] fix: nrgchain: report loss of orthogonality instead of
 writing meaningless coefficients

---
 tools/nrgchain/nrgchain.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 9cdddbd..69ec9cf 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -336,6 +336,7 @@ class my_mpf {
   }
   ~my_mpf() { mpf_clear(val); }
   inline operator mpf_t &() { return val; }
+  inline operator const mpf_t &() const { return val; }
 };
 
 using vmpf = std::vector<my_mpf>;
@@ -413,6 +414,9 @@ void tridiag() {
   }
 
   fix_norm(up_prev, um_prev, mMAX);
+  const vmpf up_0 = up_prev; // first basis vector, used in the orthogonality test
+  const vmpf um_0 = um_prev;
+  double dxi_0 = 0.0;
 
   for (unsigned int n = 0; n <= Nmax; n++) {
     // Calculate zeta_n, xi2_n and xi_n
@@ -441,8 +445,8 @@ void tridiag() {
     mpf_mul(tempsq, mpzeta, mpzeta);
     mpf_sub(xi2, xi2, tempsq);
 
-    if (!mpf_cmp_d(xi2, 0.0)) {
-      cerr << "xi2 negative, aborting." << endl;
+    if (mpf_cmp_d(xi2, 0.0) <= 0) {
+      cerr << "xi2 not positive, aborting." << endl;
       exit(1);
     }
 
@@ -488,6 +492,23 @@ void tridiag() {
     // Save results
     double dxi       = mpf_get_d(mpxi);
     double dzeta     = mpf_get_d(mpzeta);
+    if (n == 0) dxi_0 = dxi;
+
+    // The basis vectors must remain orthogonal. If they are not, the precision is too low (or the chain is longer
+    // than the number of discretization intervals permits) and the coefficients are meaningless.
+    mpf_set(sum, mpZERO);
+    for (unsigned int m = 0; m <= mMAX; m++) {
+      mpf_mul(temp, up[m], up_0[m]);
+      mpf_add(sum, sum, temp);
+      mpf_mul(temp, um[m], um_0[m]);
+      mpf_add(sum, sum, temp);
+    }
+    const double ORTHOGONALITY_LIMIT = 1e-10;
+    if (!(std::abs(mpf_get_d(sum)) * std::abs(dxi_0) <= ORTHOGONALITY_LIMIT * std::abs(dxi))) {
+      cerr << "Loss of orthogonality at n=" << n << ". Increase preccpp or mMAX. Aborting." << endl;
+      exit(1);
+    }
+
     double coef_xi   = dxi / (rescalexi == true ? SCALE(n + 1) : 1.0);
     double coef_zeta = dzeta; // NEVER RESCALED!!!
     
-- 
2.43.0


From 949d1b21a8c514736277f5c0c359bd3dcfe15027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 13/39] fix: engine tridiagonalisation: report loss of
 orthogonality instead of using meaningless coefficients

---
 c++/tridiag.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/c++/tridiag.hpp b/c++/tridiag.hpp
index 83bfd67..c1f9045 100644
--- a/c++/tridiag.hpp
+++ b/c++/tridiag.hpp
@@ -4,6 +4,9 @@
 #ifndef _tridiag_hpp_
 #define _tridiag_hpp_
 
+#include <cmath>
+#include <stdexcept>
+#include <string>
 #include "mp.hpp"
 #include "coef.hpp"
 #include "params.hpp"
@@ -99,6 +102,13 @@ void Tridiag<S>::tridiag_ch(const size_t alpha, Coef<S> &coef) {
   }
 
   fix_norm(up_prev, um_prev, mMAX);
+  vmpf up_0(mMAX + 1); // first basis vector, used in the orthogonality test
+  vmpf um_0(mMAX + 1);
+  for (unsigned int m = 0; m <= mMAX; m++) {
+    mpf_set(up_0[m], up_prev[m]);
+    mpf_set(um_0[m], um_prev[m]);
+  }
+  double dxi_0 = 0.0;
 
   for (unsigned int n = 0; n <= Nmax; n++) {
     // Calculate zeta_n, xi2_n and xi_n
@@ -127,6 +137,7 @@ void Tridiag<S>::tridiag_ch(const size_t alpha, Coef<S> &coef) {
     mpf_mul(tempsq, mpzeta, mpzeta);
     mpf_sub(xi2, xi2, tempsq);
 
+    if (mpf_cmp_d(xi2, 0.0) <= 0) throw std::runtime_error("Tridiagonalisation: xi2 not positive.");
     mpf_sqrt(mpxi, xi2);
 
     // compute u_{n+1,m}, v_{n+1,m}
@@ -169,6 +180,21 @@ void Tridiag<S>::tridiag_ch(const size_t alpha, Coef<S> &coef) {
     // Save results
     double dxi       = mpf_get_d(mpxi);
     double dzeta     = mpf_get_d(mpzeta);
+    if (n == 0) dxi_0 = dxi;
+
+    // The basis vectors must remain orthogonal. If they are not, the precision is too low (or the chain is longer
+    // than the number of discretization intervals permits) and the coefficients are meaningless.
+    mpf_set(sum, mpZERO);
+    for (unsigned int m = 0; m <= mMAX; m++) {
+      mpf_mul(temp, up[m], up_0[m]);
+      mpf_add(sum, sum, temp);
+      mpf_mul(temp, um[m], um_0[m]);
+      mpf_add(sum, sum, temp);
+    }
+    const double ORTHOGONALITY_LIMIT = 1e-10;
+    if (!(std::abs(mpf_get_d(sum)) * std::abs(dxi_0) <= ORTHOGONALITY_LIMIT * std::abs(dxi)))
+      throw std::runtime_error("Tridiagonalisation: loss of orthogonality at n=" + std::to_string(n) + ". Increase preccpp or mMAX.");
+
     double coef_xi   = dxi * P.bandrescale;
     double coef_zeta = dzeta * P.bandrescale;
 
-- 
2.43.0


From 3336ad05fedc6324667fedd094ae28cedf3bf941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 14/39] fix: nrgchain: reject a hybridisation function without
 weight

---
 tools/nrgchain/nrgchain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 69ec9cf..3a4b8ca 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -291,7 +291,7 @@ void tables() {
 
   // A large deviation probably indicates a serious problem!
   const double CHECKSUM_LIMIT = 1e-10;
-  if (std::abs(1 - checksum) > CHECKSUM_LIMIT) {
+  if (!(std::abs(1 - checksum) <= CHECKSUM_LIMIT)) { // also true for NaN (zero or negative weights)
     cerr << "Checksum test failed." << endl;
     exit(1);
   }
-- 
2.43.0


From c76b29e1f431586f85038033b24a97030f8b9f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 15/39] fix: adapt, nrgchain: reject fields which are not
 finite numbers in tabulated input

---
 tools/common/tabulated.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tools/common/tabulated.hpp b/tools/common/tabulated.hpp
index 73473cf..09ad866 100644
--- a/tools/common/tabulated.hpp
+++ b/tools/common/tabulated.hpp
@@ -36,6 +36,15 @@ inline auto split_fields(const std::string &s, const unsigned int atleast = 0) {
   return substrings;
 }
 
+// Convert a field to a finite number. Throws if the field is anything else.
+inline double parse_number(const std::string &s) {
+  char *end = nullptr;
+  const auto value = std::strtod(s.c_str(), &end);
+  if (end == s.c_str() || *end != '\0' || !std::isfinite(value))
+    throw std::runtime_error("Invalid number: " + s);
+  return value;
+}
+
 template<typename Vec, typename Stream, typename NextLine>
 auto load_pairs(Stream &input, NextLine next_line) {
   Vec vec;
@@ -43,7 +52,7 @@ auto load_pairs(Stream &input, NextLine next_line) {
     const auto line = next_line(input);
     if (!input) break;
     const auto columns = split_fields(line, 2);
-    vec.emplace_back(std::make_pair(std::atof(columns[0].c_str()), std::atof(columns[1].c_str())));
+    vec.emplace_back(std::make_pair(parse_number(columns[0]), parse_number(columns[1])));
   }
   if (vec.empty())
     throw std::runtime_error("No data found.");
@@ -78,8 +87,8 @@ auto load_abs_pairs(Stream &input, const Sign sign, AcceptSign accept_sign, Next
     const auto line = next_line(input);
     if (!input) break;
     const auto columns = split_fields(line, 2);
-    const auto x = std::atof(columns[0].c_str());
-    const auto y = std::atof(columns[1].c_str());
+    const auto x = parse_number(columns[0]);
+    const auto y = parse_number(columns[1]);
     if (accept_sign(sign, x)) {
       if (y < 0.0)
         throw std::runtime_error("Negative y found.");
@@ -120,7 +129,7 @@ void load_values(Stream &input, std::vector<double> &values, NextLine next_line)
   while (input) {
     const auto line = next_line(input);
     if (!input) break;
-    values.push_back(std::atof(line.c_str()));
+    values.push_back(parse_number(split_fields(line, 1)[0]));
   }
 }
 
-- 
2.43.0


From 5784457cea85ee4cc5b95fc64b964ac2548f96f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 16/39] fix: intavg: report malformed rows instead of averaging
 only the rows before them

---
 tools/intavg/intavg.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index b1db08a..33bbbdb 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -88,6 +88,8 @@ Vec load(int i) {
   Vec data;
 
   while (f) {
+    f >> ws;
+    if (f.eof()) break;
     if (f.peek() == '#') { // skip comment lines
       string line;
       getline(f, line);
@@ -95,7 +97,10 @@ Vec load(int i) {
       double x, y;
       f >> x >> y;
 
-      if (f.fail()) break;
+      if (f.fail()) {
+        cerr << "Error parsing file " << filename << " after " << data.size() << " data points" << endl;
+        exit(1);
+      }
 
       assert(std::isfinite(x) && std::isfinite(y));
       data.push_back(make_pair(x, y));
-- 
2.43.0


From 06b8c428ada4c9d8b993ca26f0996d5587fb38b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 17/39] fix: integ: report malformed rows instead of
 integrating only the data before them

---
 tools/integ/integ.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 49b9322..12ffd2e 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -115,6 +115,8 @@ void cmd_line(int argc, char *argv[]) {
 // Read data from stream F.
 void readtable(istream &F, XYFUNC &v) {
   while (F) {
+    F >> ws;
+    if (F.eof()) break;
     if (F.peek() == '#') { // skip comment lines
       string line;
       getline(F, line);
@@ -122,7 +124,10 @@ void readtable(istream &F, XYFUNC &v) {
       double x, y;
       F >> x >> y;
 
-      if (F.fail()) break;
+      if (F.fail()) {
+        cerr << "Error parsing the input after " << v.size() << " data points" << endl;
+        exit(1);
+      }
 
       assert(std::isfinite(x) && std::isfinite(y));
       v.push_back(make_pair(x, y));
-- 
2.43.0


From 7628fb2e19e0d4b7c154b12eff709ee229c69a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 18/39] fix: kk: report malformed rows instead of transforming
 only the data before them

---
 tools/kk/kk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index fb1fcfa..866e277 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -66,13 +66,15 @@ constexpr auto OUTPUT_PRECISION = 16;
 inline auto read(std::istream &F) {
   XYFUNC v;
   while (F) {
+    F >> std::ws;
+    if (F.eof()) break;
     if (F.peek() == '#') { // skip comment lines
       std::string line;
       std::getline(F, line);
     } else {
       double x, y;
       F >> x >> y;
-      if (F.fail()) break;
+      if (F.fail()) throw std::runtime_error("Error parsing the input after " + std::to_string(v.size()) + " data points.");
       assert(std::isfinite(x) && std::isfinite(y));
       v.push_back({x, y});
     }
-- 
2.43.0


From 36fac3af80112e7382ddc94ada41e04a761273fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 19/39] fix: hilb: report malformed rows and unequal numbers of
 points instead of ending the input there

---
 tools/hilb/hilb.hpp | 87 ++++++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 37 deletions(-)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index b8f3f50..b869f7a 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -16,6 +16,7 @@
 #include <complex>
 #include <utility>
 #include <functional>
+#include <limits>
 #include <algorithm>
 #include <vector>
 #include <string>
@@ -304,44 +305,58 @@ class Hilb {
       OUT << res << std::endl;
   }
 
+  // Skip white space and comment lines. Returns false at the end of the stream.
+  static bool more_data(std::istream &F) {
+    while (F >> std::ws && F.peek() == '#') F.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+    if (F.bad()) throw std::runtime_error("Error reading the input.");
+    return F.good();
+  }
+
+  // Read the values of one row
+  template <typename... T> static void read_row(std::istream &F, T &... values) {
+    (F >> ... >> values);
+    if (F.fail()) throw std::runtime_error("Error parsing the input.");
+  }
+
   void do_stream(std::istream &F, std::ostream &OUT) {
-    while (F.good()) {
+    if (!more_data(F)) throw std::runtime_error("No data points in the input file.");
+    while (more_data(F)) {
       double label, x, y;
-      F >> label >> x >> y;
-      if (!F.fail()) {
-        const auto res = hilbert(x, y);
-        if (!G)
-          OUT << label << " " << res.imag() << std::endl;
-        else
-          OUT << label << " " << res.real() << " " << res.imag() << std::endl;      
-      }
+      read_row(F, label, x, y);
+      const auto res = hilbert(x, y);
+      if (!G)
+        OUT << label << " " << res.imag() << std::endl;
+      else
+        OUT << label << " " << res.real() << " " << res.imag() << std::endl;
     }
   }
 
   void do_hilb(std::istream &Fr, std::istream &Fi, std::ostream &Or, std::ostream &Oi) {
-    while (Fr.good()) {
+    if (!more_data(Fr)) throw std::runtime_error("No data points in the input file.");
+    while (true) {
+      const auto more = more_data(Fr);
+      if (more_data(Fi) != more) throw std::runtime_error("Unequal number of points in do_hilb()");
+      if (!more) break;
       double label1, label2, x, y;
-      Fr >> label1 >> x;
-      Fi >> label2 >> y;
-      if (!Fr.fail() && !Fi.fail()) {
-        if (std::abs(label1 - label2) > 1e-6) throw std::runtime_error("Frequency mismatch in do_hilb()");
-        // Ensure ImSigma is negative
-        const double CLIPPING = 1e-8;
-        y                     = std::min(y, -CLIPPING);
-        // The argument to calcre/im() is actually omega-Sigma(omega)
-        x              = label1 - x;
-        y              = -y;
-        const auto res = hilbert(x, y);
-        double resre   = res.real();
-        double resim   = res.imag();
-        if (!G) {
-          // We include the -1/pi factor here
-          resre /= -M_PI;
-          resim /= -M_PI;
-        } // Otherwise we are saving the Green's function G itself and no factor is required!
-        Or << label1 << " " << resre << std::endl;
-        Oi << label2 << " " << resim << std::endl;
-      }
+      read_row(Fr, label1, x);
+      read_row(Fi, label2, y);
+      if (std::abs(label1 - label2) > 1e-6) throw std::runtime_error("Frequency mismatch in do_hilb()");
+      // Ensure ImSigma is negative
+      const double CLIPPING = 1e-8;
+      y                     = std::min(y, -CLIPPING);
+      // The argument to calcre/im() is actually omega-Sigma(omega)
+      x              = label1 - x;
+      y              = -y;
+      const auto res = hilbert(x, y);
+      double resre   = res.real();
+      double resim   = res.imag();
+      if (!G) {
+        // We include the -1/pi factor here
+        resre /= -M_PI;
+        resim /= -M_PI;
+      } // Otherwise we are saving the Green's function G itself and no factor is required!
+      Or << label1 << " " << resre << std::endl;
+      Oi << label2 << " " << resim << std::endl;
     }
   }
 
@@ -362,13 +377,11 @@ class Hilb {
     if (verbose) { std::cout << "Density of states filename: " << filename << std::endl; }
     auto F = safe_open_rd(filename);
     std::vector<std::pair<double, double>> pts;
-    while (F) {
+    while (more_data(F)) {
       double x, y;
-      F >> x >> y;
-      if (!F.fail()) {
-        assert(std::isfinite(x) && std::isfinite(y));
-        pts.emplace_back(x, y);
-      }
+      read_row(F, x, y);
+      assert(std::isfinite(x) && std::isfinite(y));
+      pts.emplace_back(x, y);
     }
     std::sort(pts.begin(), pts.end());
     Xpts.clear();
-- 
2.43.0


From c0305ccaefa464419c7b102d7769887c367e4f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 20/39] fix: tdavg: reject fields which are not numbers instead
 of reading them as 0

---
 tools/tdavg/tdavg.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index c254b09..bedeb9e 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -120,6 +120,18 @@ dvec split(const string &s) {
   return elements;
 }
 
+// Check that all the elements of a string are floating point numbers.
+bool all_numbers(const string &s) {
+  istringstream stream(s);
+  string element;
+  while (stream >> element) {
+    char *end = nullptr;
+    strtod(element.c_str(), &end);
+    if (*end != '\0') return false;
+  }
+  return true;
+}
+
 ostream &operator<<(ostream &os, const dvec &v) {
   for (double i : v) { os << i << " "; }
   return os;
@@ -152,8 +164,12 @@ DataType load(const string &filename) {
       getline(f, line);
       if (veryverbose) cout << line << endl;
       if (f.fail()) break;
+      if (!all_numbers(line)) {
+        cerr << "Error parsing line: " << line << endl;
+        exit(1);
+      }
       dvec elements = split(line);
-      if (elements.size() == 0) {
+      if (elements.size() < 2) {
         cerr << "Error parsing line: " << line << endl;
         exit(1);
       }
@@ -166,6 +182,10 @@ DataType load(const string &filename) {
         }
       }
       double T    = elements[0]; // temperature
+      if (!std::isfinite(T)) {
+        cerr << "Error parsing line: " << line << endl;
+        exit(1);
+      }
       dvec values = dvec(elements.begin() + 1, elements.end());
       if (veryverbose) cout << T << " " << values << endl;
       data.push_back(make_pair(T, values));
-- 
2.43.0


From a2524f9e3c13574c983ed40cd4577cb19badda5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 21/39] fix: diag: reject a matrix with elements which are not
 numbers

---
 tools/diag/diag.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tools/diag/diag.cc b/tools/diag/diag.cc
index bf9a97d..05eb333 100644
--- a/tools/diag/diag.cc
+++ b/tools/diag/diag.cc
@@ -163,10 +163,19 @@ void diagonalize(unsigned int dim, DVEC &d) {
 void diag_stream(istream &F) {
   DVEC data;
 
-  while (F.good()) {
+  while (F >> ws && !F.eof()) {
+    if (F.peek() == '#') { // skip comment lines
+      string line;
+      getline(F, line);
+      continue;
+    }
     double x;
     F >> x;
-    if (!F.fail()) { data.push_back(x); }
+    if (F.fail()) {
+      cerr << "ERROR: cannot parse matrix element " << data.size() + 1 << endl;
+      exit(1);
+    }
+    data.push_back(x);
   }
 
   const auto size = data.size();
-- 
2.43.0


From c543ddb2015735e88a62f65c0f1273e95638a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 22/39] fix: unitary, h5write: reject empty and malformed
 matrices

---
 c++/io.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c++/io.hpp b/c++/io.hpp
index aa7c8e8..d320e04 100644
--- a/c++/io.hpp
+++ b/c++/io.hpp
@@ -93,8 +93,11 @@ auto read_matrix_text(GEN && generate_matrix, const std::string &filename, const
     if (is_blank_or_comment_line(line)) continue;
     filtered << line << '\n';
   }
+  if (F.bad() || dim1 == 0) throw std::runtime_error(fmt::format("No matrix data in {}", filename));
   std::istringstream data(filtered.str());
-  return read_matrix_data(generate_matrix, [&data]() { return read_one<double>(data); }, dim1, dim2);
+  auto M = read_matrix_data(generate_matrix, [&data]() { return read_one<double>(data); }, dim1, dim2);
+  if (!(data >> std::ws).eof()) throw std::runtime_error(fmt::format("Malformed matrix data in {}", filename));
+  return M;
 }
 
 // Read a matrix from stream (binary). Format: two unit32_t for matrix size, followed by
-- 
2.43.0


From 8df831e04f0399843927ee7832fc0510b5385335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 23/39] fix: resample: reject an empty grid

---
 tools/resample/resample.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/resample/resample.hpp b/tools/resample/resample.hpp
index b68041e..9ddee6e 100644
--- a/tools/resample/resample.hpp
+++ b/tools/resample/resample.hpp
@@ -156,6 +156,7 @@ class Resample
         void init(std::vector<std::pair<T, T>> &im)
         {
             if (im.empty()) throw std::runtime_error("No input data points available for resampling.");
+            if (grid.empty()) throw std::runtime_error("No grid points available for resampling.");
             int len;      // number of data points
             std::vector<T>  Xpts, Ypts;
 
-- 
2.43.0


From 818c78d46dc09f04a134f6b3d0362374d66dd515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 24/39] fix: adapt, nrgchain: a directory in place of an input
 file was read as an empty file

---
 tools/common/io.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/common/io.hpp b/tools/common/io.hpp
index d7cc393..b68df58 100644
--- a/tools/common/io.hpp
+++ b/tools/common/io.hpp
@@ -10,8 +10,10 @@ namespace NRG::Tools {
 
 inline void open_input(std::ifstream &stream, const std::string &filename) {
   stream.open(filename.c_str());
-  if (!stream)
+  if (stream) stream.peek(); // detects files which cannot be read, e.g. directories
+  if (!stream && !stream.eof())
     throw std::runtime_error("Can't open " + filename + " for reading.");
+  stream.clear();
 }
 
 inline void open_output(std::ofstream &stream, const std::string &filename, const int precision = 16) {
-- 
2.43.0


From bd6681e3dcd0f6e6124f2432827b2f9a3909548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 25/39] fix: specmoments: a truncated input file overflowed the
 read buffer; specmoments, intavg: reject Nz<1

---
 tools/intavg/intavg.cc           |  5 ++++-
 tools/specmoments/specmoments.cc | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 33bbbdb..5ba999e 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -64,7 +64,10 @@ void cmd_line(int argc, char *argv[]) {
   }
   name = string(argv[optind]);   // Name of spectral density files
   Nz   = atoi(argv[optind + 1]); // Number of z-values
-  assert(Nz >= 1);
+  if (!(Nz >= 1)) {
+    cerr << "Nz must be greater than or equal to 1." << endl;
+    exit(1);
+  }
 }
 
 string tostring(int i) {
diff --git a/tools/specmoments/specmoments.cc b/tools/specmoments/specmoments.cc
index 40fc85c..2c5dfd2 100644
--- a/tools/specmoments/specmoments.cc
+++ b/tools/specmoments/specmoments.cc
@@ -104,7 +104,10 @@ void cmd_line(int argc, char *argv[]) {
   }
   name = string(argv[optind]);
   Nz   = atoi(argv[optind + 1]);
-  assert(Nz >= 1);
+  if (!(Nz >= 1)) {
+    cerr << "Nz must be greater than or equal to 1." << endl;
+    exit(1);
+  }
   if (verbose) cout << "Processing: " << name << " Nz=" << Nz << endl;
 }
 
@@ -148,7 +151,10 @@ void load(int i) {
   f.seekg(0, ios::end);
   const ios::pos_type end_pos = f.tellg();
   const long len              = end_pos - begin_pos;
-  assert(len % (rows * sizeof(double)) == 0);
+  if (len % (rows * sizeof(double)) != 0) {
+    cerr << "Incomplete row data in " << filename << endl;
+    exit(1);
+  }
   const int nr = len / (rows * sizeof(double)); // number of lines
   if (verbose) cout << "len=" << len << " nr=" << nr << " data points" << endl;
   // Allocate the read buffer. The data will be kept in memory for the
-- 
2.43.0


From 8e70dca61c03e829dd95a80b8cabd0a66956563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 26/39] fix: broaden, bw: reject mesh parameters for which the
 mesh is never completed

---
 tools/broaden/broaden.hpp | 4 ++--
 tools/bw/bw.cc            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/broaden/broaden.hpp b/tools/broaden/broaden.hpp
index 7ef08e9..8cda2f6 100644
--- a/tools/broaden/broaden.hpp
+++ b/tools/broaden/broaden.hpp
@@ -111,8 +111,8 @@ template<typename T> T trapez(const std::vector<T> &x, const std::vector<T> &y)
 // Create a mesh on which the output spectral function will be computed. a is the accumulation point of the mesh.
 auto make_mesh(const double min, const double max, const double ratio, 
                const double a, const bool add_positive = true, const bool add_negative = false) {
-  assert(min < max);
-  assert(ratio > 1.0);
+  if (!(0.0 < min && min < max)) throw std::invalid_argument("The mesh limits must satisfy 0 < min < max.");
+  if (!(ratio > 1.0)) throw std::invalid_argument("The mesh ratio must be greater than 1.");
   const auto rescale_factor = (max-a)/max;
   std::vector<double> mesh;
   for (double z = max; z > min; z /= ratio) {
diff --git a/tools/bw/bw.cc b/tools/bw/bw.cc
index 3c2c797..2d93ea9 100644
--- a/tools/bw/bw.cc
+++ b/tools/bw/bw.cc
@@ -304,8 +304,8 @@ void combinations(const vec &mesh_, const vec &inta_, vec &intb_, vec &intc_) {
 
 // Create a mesh on which the output spectral function will be computed.
 void make_mesh(vec &mesh_) {
-  assert(broaden_min < broaden_max);
-  assert(broaden_ratio > 1.0);
+  if (!(0.0 < broaden_min && broaden_min < broaden_max)) throw std::invalid_argument("The mesh limits must satisfy 0 < min < max.");
+  if (!(broaden_ratio > 1.0)) throw std::invalid_argument("The mesh ratio must be greater than 1.");
 
   double z;
   for (z = broaden_min; z < broaden_max; z *= broaden_ratio) {
-- 
2.43.0


From f725acd7c919865957d0f3f2a87405d959574252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 27/39] fix: unitary: reject matrices whose dimensions do not
 match

---
 tools/unitary/unitary.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/unitary/unitary.hpp b/tools/unitary/unitary.hpp
index 6a19c64..37677e1 100644
--- a/tools/unitary/unitary.hpp
+++ b/tools/unitary/unitary.hpp
@@ -79,8 +79,7 @@ class Unitary {
    void run(const RM &A_, const RM &B, const RM &C_) {
      auto A = transpose_first ? NRG::trans(A_) : A_;
      auto C = transpose_last ? NRG::trans(C_) : C_;
-     assert(size2(A) == size1(B));
-     assert(size2(B) == size1(C));
+     if (size2(A) != size1(B) || size2(B) != size1(C)) throw std::runtime_error("Matrix dimensions do not match.");
      auto N = matrix_prod<double>(B, C); // XXX: use rotate() instead?
      auto M = matrix_prod<double>(A, N);
      if (scale_factor != 1.0) M = scale_factor * M;
-- 
2.43.0


From 1e13182c031aacc2096d44b12dd39b5a23a8fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 28/39] fix: hilb: a density of states with too few points
 crashed the tool

---
 tools/hilb/hilb.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index b869f7a..205d521 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -137,6 +137,7 @@ class interpolator {
     acc.reset(gsl_interp_accel_alloc());
     len    = X.size();
     spline.reset(gsl_spline_alloc(gsl_interp_cspline, len));
+    if (!spline) throw std::runtime_error("Too few data points for interpolation.");
     gsl_spline_init(spline.get(), X.data(), Y.data(), len);
     Xmin = X.front();
     Xmax = X.back();
-- 
2.43.0


From 756bf91f599ad81859cc3d6e1413c64b8ab3d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 29/39] fix: adapt: reject outputstep and xmax for which the
 integration never ends

---
 tools/adapt/adapt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/adapt/adapt.hpp b/tools/adapt/adapt.hpp
index 1e4d96a..0d32193 100644
--- a/tools/adapt/adapt.hpp
+++ b/tools/adapt/adapt.hpp
@@ -298,11 +298,11 @@ class Adapt {
      boundary = P.P("boundary", 0.0);      // The boundary of the exclusion interval.
      bandrescale = P.P("bandrescale", 1.0); // band rescaling parameter
      xmax = P.P("xmax", 30); // Integrate over [1..xmax]
-     if (!(xmax > 1)) throw std::invalid_argument("xmax must be greater than 1.");
+     if (!(xmax > 1 && std::isfinite(xmax))) throw std::invalid_argument("xmax must be greater than 1 and finite.");
      xfine = P.P("xfine", 5); // Fine stepsize integral [1..xfine]
      if (!(xfine > 1)) throw std::invalid_argument("xfine must be greater than 1.");
      output_step = P.P("outputstep", 1.0 / 64.0); // Stepsize for output file
-     if (!(output_step <= 1.0)) throw std::invalid_argument("outputstep must be less than or equal to 1.");
+     if (!(output_step > 0.0 && output_step <= 1.0)) throw std::invalid_argument("outputstep must be greater than 0 and less than or equal to 1.");
      dx_fine       = P.P("dx_fine", 1e-5);        // Integration stepsize in [1..xfine]
      dx_fast       = P.P("dx_fast", 1e-4);        // Integration stepsize in [xfine..xmax]
      allowed_error = P.P("allowed_error", 1e-10); // error control for adaptable stepsize
-- 
2.43.0


From 063c2f29c88f7227a9fc8344eceea68764a141e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 30/39] fix: nrgchain: report non-finite discretization
 coefficients instead of dying in GMP

---
 tools/nrgchain/nrgchain.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 3a4b8ca..6b11320 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -405,6 +405,8 @@ void tridiag() {
   vmpf ep2(mMAX + 1);
   vmpf em2(mMAX + 1);
   for (unsigned int m = 0; m <= mMAX; m++) {
+    if (!std::isfinite(du_pos[m]) || !std::isfinite(du_neg[m]) || !std::isfinite(de_pos[m]) || !std::isfinite(de_neg[m]))
+      throw std::runtime_error("Discretization coefficients are not finite.");
     mpf_set_d(up_prev[m], du_pos[m]);
     mpf_set_d(um_prev[m], du_neg[m]);
     mpf_set_d(ep1[m], de_pos[m]);
-- 
2.43.0


From 85cd8ee1b92b765422172ec287d8b789b19cfb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 31/39] fix: adapt, nrgchain: reject parameter values which are
 not numbers

---
 tools/adapt/parser.hpp  | 4 ++--
 tools/common/parser.hpp | 8 ++++++++
 tools/nrgchain/parser.h | 4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/tools/adapt/parser.hpp b/tools/adapt/parser.hpp
index 2745994..c0ef648 100644
--- a/tools/adapt/parser.hpp
+++ b/tools/adapt/parser.hpp
@@ -24,10 +24,10 @@ class Params : public std::map<std::string, std::string> {
     }
     // Return a parameter of type double, use default value if not found.
     auto P(const std::string &keyword, const double def) const {
-      return NRG::Tools::get_or_default(*this, keyword, def, [](const auto &value) { return atof(value); });
+      return NRG::Tools::get_or_default(*this, keyword, def, [&keyword](const auto &value) { NRG::Tools::check_number(keyword, value); return atof(value); });
     }
     auto Pint(const std::string &keyword, const int def) const {
-      return NRG::Tools::get_or_default(*this, keyword, def, [](const auto &value) { return atoi(value); });
+      return NRG::Tools::get_or_default(*this, keyword, def, [&keyword](const auto &value) { NRG::Tools::check_number(keyword, value); return atoi(value); });
     }
     auto Pstr(const std::string &keyword, const std::string &def) const {
       return NRG::Tools::get_or_default(*this, keyword, def, [](const auto &value) { return value; });
diff --git a/tools/common/parser.hpp b/tools/common/parser.hpp
index f4ce3e8..eba3bec 100644
--- a/tools/common/parser.hpp
+++ b/tools/common/parser.hpp
@@ -1,7 +1,9 @@
 #ifndef _tools_common_parser_hpp_
 #define _tools_common_parser_hpp_
 
+#include <cstdlib>
 #include <fstream>
+#include <stdexcept>
 #include <string>
 
 namespace NRG::Tools {
@@ -43,6 +45,12 @@ void parse_key_value_block(std::ifstream &stream, Map &params) {
   }
 }
 
+inline void check_number(const std::string &keyword, const std::string &value) {
+  char *end = nullptr;
+  std::strtod(value.c_str(), &end);
+  if (value.empty() || *end != '\0') throw std::invalid_argument("Parameter " + keyword + " is not a number: " + value);
+}
+
 template<typename Map, typename T, typename Converter>
 T get_or_default(const Map &params, const std::string &keyword, const T &def, Converter convert) {
   if (const auto it = params.find(keyword); it != params.end())
diff --git a/tools/nrgchain/parser.h b/tools/nrgchain/parser.h
index 6e52143..2067f52 100644
--- a/tools/nrgchain/parser.h
+++ b/tools/nrgchain/parser.h
@@ -11,11 +11,11 @@ map<string, string> params;
 
 // Return a parameter of type double, use default value if not found.
 double P(const string &keyword, double def) {
-  return NRG::Tools::get_or_default(params, keyword, def, [](const auto &value) { return atof(value); });
+  return NRG::Tools::get_or_default(params, keyword, def, [&keyword](const auto &value) { NRG::Tools::check_number(keyword, value); return atof(value); });
 }
 
 int Pint(const string &keyword, int def) {
-  return NRG::Tools::get_or_default(params, keyword, def, [](const auto &value) { return atoi(value); });
+  return NRG::Tools::get_or_default(params, keyword, def, [&keyword](const auto &value) { NRG::Tools::check_number(keyword, value); return atoi(value); });
 }
 
 string Pstr(const string &keyword, string def) {
-- 
2.43.0


From a04674af9bcd333b6f080fd1774c4bc408b17cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 32/39] fix: hilb, unitary, diag: report failure when the
 number of arguments is wrong

---
 tools/diag/diag.cc        | 1 +
 tools/hilb/hilb.hpp       | 1 +
 tools/unitary/unitary.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/tools/diag/diag.cc b/tools/diag/diag.cc
index 05eb333..081995f 100644
--- a/tools/diag/diag.cc
+++ b/tools/diag/diag.cc
@@ -248,6 +248,7 @@ void run(int argc, char *argv[]) {
   }
 
   usage();
+  exit(EXIT_FAILURE);
 }
 
 int main(int argc, char *argv[]) {
diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index 205d521..9c1c722 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -513,6 +513,7 @@ class Hilb {
     }
     about();
     usage();
+    exit(EXIT_FAILURE);
   }
 
   public:
diff --git a/tools/unitary/unitary.hpp b/tools/unitary/unitary.hpp
index 37677e1..efcec87 100644
--- a/tools/unitary/unitary.hpp
+++ b/tools/unitary/unitary.hpp
@@ -103,6 +103,7 @@ class Unitary {
        run(fnA, fnB, fnC);
      } else {
        usage();
+       exit(EXIT_FAILURE);
      }
    }
    
-- 
2.43.0


From f875de5c1c6f2ff732268954b6225afdf9f511cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 33/39] fix: dsyevr, zheevr: partial diagonalization of
 matrices with degenerate eigenvalues could return non-orthogonal eigenvectors

---
 c++/diag.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/c++/diag.hpp b/c++/diag.hpp
index 7544482..ca493fa 100644
--- a/c++/diag.hpp
+++ b/c++/diag.hpp
@@ -342,9 +342,10 @@ auto diagonalise_dsyevr(RM &m, const double ratio = 1.0, const char jobz = 'V',
   double VU     = 0;
   lapack_int IL        = 1; // index range
   lapack_int IU        = M;
-  double ABSTOL = 0;
-  // If ABSTOL=0, EPS*|T| where |T| is the 1-norm of the tridiagonal
-  // matrix obtained by reducing m to tridiagonal form.
+  double ABSTOL = std::numeric_limits<double>::min();
+  // The safe minimum, DLAMCH('S'), gives the most accurate eigenvalues. With ABSTOL=0 the tolerance is EPS*|T|, where
+  // |T| is the 1-norm of the tridiagonal matrix obtained by reducing m to tridiagonal form: this is not enough for
+  // the inverse iteration (RANGE='I') to return orthogonal eigenvectors if there are degenerate eigenvalues.
   lapack_int MM{}; // total number of eigenvalues found
   lapack_int LDZ = dim;
   std::vector<lapack_int> ISUPPZ(2 * M);
@@ -470,9 +471,10 @@ auto diagonalise_zheevr(CM &m, const double ratio = 1.0, const char jobz = 'V',
   double VU     = 0;
   lapack_int IL        = 1; // index range
   lapack_int IU        = M;
-  double ABSTOL = 0;
-  // If ABSTOL=0, EPS*|T| where |T| is the 1-norm of the tridiagonal
-  // matrix obtained by reducing m to tridiagonal form.
+  double ABSTOL = std::numeric_limits<double>::min();
+  // The safe minimum, DLAMCH('S'), gives the most accurate eigenvalues. With ABSTOL=0 the tolerance is EPS*|T|, where
+  // |T| is the 1-norm of the tridiagonal matrix obtained by reducing m to tridiagonal form: this is not enough for
+  // the inverse iteration (RANGE='I') to return orthogonal eigenvectors if there are degenerate eigenvalues.
   lapack_int MM = 0; // total number of eigenvalues found
   lapack_int LDZ = dim;
   std::vector<lapack_int> ISUPPZ(2 * M);
-- 
2.43.0


From 6d6b07d9b97c10209187122ed2f8013e57972c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 34/39] fix: remove the work directory when a calculation ends
 with an error

An exception that left run_nrg_master() terminated the program without
unwinding the stack, so the temporary work directory stayed behind.
---
 c++/nrg.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c++/nrg.cc b/c++/nrg.cc
index f43ed25..b808952 100644
--- a/c++/nrg.cc
+++ b/c++/nrg.cc
@@ -245,8 +245,14 @@ int main(int argc, char **argv) {
   if (mpiw.rank() == 0) {
     std::cout << "MPI job running on " << mpiw.size() << " processors." << std::endl << std::endl;
     report_openMP(std::cout, mpiw.size());
-    auto workdir = set_workdir(argc, argv);
-    run_nrg_master(mpienv, mpiw, std::move(workdir));
+    try {
+      auto workdir = set_workdir(argc, argv);
+      run_nrg_master(mpienv, mpiw, std::move(workdir));
+    } catch (const std::exception &e) { // the stack is unwound: the workdir has been removed
+      std::cerr << "Error: " << e.what() << std::endl;
+      if (mpiw.size() > 1) mpienv.abort(EXIT_FAILURE); // stop the slaves
+      return EXIT_FAILURE;
+    }
   } else {
     run_nrg_slave(mpienv, mpiw); // slaves do no disk I/O to workdir
   }
-- 
2.43.0


From 484592fadc8a56073c7d13fafd70f93f96213c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:42 +0000
Subject: [PATCH 35/39] fix: report failed writes of the engine's output files

The output streams were never checked after opening, so that with a full
disk (or any other write error) the engine ended with status 0 and a DONE
file although td, custom, spectra, ... were incomplete.
---
 c++/basicio.hpp     | 1 +
 c++/nrg-general.hpp | 2 +-
 c++/outfield.hpp    | 2 +-
 c++/spectrum.hpp    | 1 +
 c++/store.hpp       | 4 ++--
 5 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/c++/basicio.hpp b/c++/basicio.hpp
index 3cf1c36..b4f78d7 100644
--- a/c++/basicio.hpp
+++ b/c++/basicio.hpp
@@ -111,6 +111,7 @@ inline std::ofstream safe_open(const std::string &filename, const bool binary =
   if (binary) flag |= std::ios::binary;
   std::ofstream F(filename, flag);
   if (!F) throw std::runtime_error(fmt::format("Can't open {} for writing", filename));
+  F.exceptions(std::ios::failbit | std::ios::badbit); // write errors must not go unnoticed
   return F;
 }
 
diff --git a/c++/nrg-general.hpp b/c++/nrg-general.hpp
index 5cf4450..722a652 100644
--- a/c++/nrg-general.hpp
+++ b/c++/nrg-general.hpp
@@ -213,7 +213,7 @@ public:
       run_dm_phase(operators_seed, coef_seed, diag_seed);
     }
 
-    if (P.done) { std::ofstream D("DONE"); } // Indicate successful completion by creating a flag file
+    if (P.done) safe_open("DONE"); // Indicate successful completion by creating a flag file
   }
   NRG_calculation(const NRG_calculation &) = delete;
   NRG_calculation(NRG_calculation &&) = delete;
diff --git a/c++/outfield.hpp b/c++/outfield.hpp
index 8732c07..c42d723 100644
--- a/c++/outfield.hpp
+++ b/c++/outfield.hpp
@@ -84,7 +84,7 @@ class TD_generic {
   template<typename T> void set(const std::string &desc, const T &x) { allfields.set(desc,x); }
   void save_values() {
     if (!O) {
-      O.emplace(filename);
+      O = safe_open(filename);
       allfields.save_header(O.value());
     }
     allfields.save_values(O.value());
diff --git a/c++/spectrum.hpp b/c++/spectrum.hpp
index 4fbc03d..c52d779 100644
--- a/c++/spectrum.hpp
+++ b/c++/spectrum.hpp
@@ -171,6 +171,7 @@ void SpectrumRealFreq<S>::savebins() {
     if (P.reim)
       Fbins.write((char *)&wi, sizeof(double));
   }
+  Fbins.close(); // report errors
 }
 
 // Energy mesh for spectral functions
diff --git a/c++/store.hpp b/c++/store.hpp
index 4183500..9dc5e4f 100644
--- a/c++/store.hpp
+++ b/c++/store.hpp
@@ -64,12 +64,12 @@ class ThermoStore : public std::vector<ThermoSubs<S>> {
      }
    }
    void dump_all_absolute_energies(const std::string &filename = "absolute_energies.dat"s) {
-     std::ofstream F(filename);
+     auto F = safe_open(filename);
      this->dump_abs_G(F);
    }
    // Save a dump of all subspaces, with dimension info, etc.
    void dump_subspaces(const std::string &filename = "subspaces.dat"s) const {
-     std::ofstream O(filename);
+     auto O = safe_open(filename);
      for (const auto N : Nall()) {
        O << "Iteration " << N << std::endl;
        O << "len_dm=" << this->at(N).size() << std::endl;
-- 
2.43.0


From ce19dde043f6ceaa2245e0d55d8122e1a4a9cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 36/39] fix: reject negative values of unsigned parameters
 instead of wrapping them around

---
 c++/basicio.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/basicio.hpp b/c++/basicio.hpp
index b4f78d7..28d1a10 100644
--- a/c++/basicio.hpp
+++ b/c++/basicio.hpp
@@ -11,6 +11,7 @@
 #include <iomanip> // set_precision
 #include <iterator> // ostream_iterator
 #include <stdexcept>
+#include <type_traits>
 #include <cctype>
 #include <strings.h> // strcasecmp
 
@@ -46,6 +47,8 @@ inline std::string strip_whitespace(const std::string &in) {
 
 template <class T>
 inline T from_string(const std::string &str) {
+  if constexpr (std::is_unsigned_v<T>) // lexical_cast would wrap negative values around
+    if (!str.empty() && str[0] == '-') throw std::runtime_error(fmt::format("Lexical cast [{}] failed.", str));
   T result;
   try {
     result = boost::lexical_cast<T>(str);
-- 
2.43.0


From 874ff366c6128c5ade6928b087091a89122a3f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:48 +0000
Subject: [PATCH 37/39] fix: reject substeps=true for symmetry types that do
 not support it (out-of-bounds writes)

---
 c++/mk_sym.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/mk_sym.hpp b/c++/mk_sym.hpp
index 7c733bd..87d2be9 100644
--- a/c++/mk_sym.hpp
+++ b/c++/mk_sym.hpp
@@ -98,6 +98,9 @@ std::shared_ptr<Symmetry<S>> set_symmetry(Params &P, const std::string &sym_stri
   Invar::qntype.clear();
   Invar::names.clear();
   P.symtype = sym_string;
+  // The tables of the other symmetry types are larger than the arrays allocated when substeps=true
+  if (P.substeps && sym_string != "QS" && sym_string != "QSZ" && sym_string != "SPSU2" && sym_string != "SPU1")
+    throw std::invalid_argument("substeps=true is not supported for symmetry type " + sym_string);
   P.set_channels_and_combs(channels);
   std::cout << "\nSYMMETRY TYPE: " << sym_string << std::endl;
   auto Sym = get<S>(sym_string, P);
-- 
2.43.0


From e2d050e40bc1d8ff9bb0d08349a6ef358adab2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:48 +0000
Subject: [PATCH 38/39] fix: symmetry type QJ requires three channels
 (out-of-bounds writes otherwise)

---
 c++/symmetry/sym-QJ-impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/symmetry/sym-QJ-impl.hpp b/c++/symmetry/sym-QJ-impl.hpp
index e1ee0f7..0006b5f 100644
--- a/c++/symmetry/sym-QJ-impl.hpp
+++ b/c++/symmetry/sym-QJ-impl.hpp
@@ -32,6 +32,7 @@ class SymmetryQJ : public Symmetry<SC> {
   }
 
   void load() override {
+    my_assert(P.channels == 3);
 #include "qj/qj-In2.dat"
 #include "qj/qj-QN.dat"
   }
-- 
2.43.0


From 2cf4373487d75d26525eef90fcc7e9d290dc5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:24 +0000
Subject: [PATCH 39/39] fix: integers in the data file must be complete tokens
 (the beginning of a real number was accepted)

---
 c++/basicio.hpp | 5 +++++
 c++/invar.hpp   | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/c++/basicio.hpp b/c++/basicio.hpp
index 28d1a10..bf90d4d 100644
--- a/c++/basicio.hpp
+++ b/c++/basicio.hpp
@@ -143,6 +143,9 @@ inline bool is_blank_or_comment_line(const std::string &s) {
   return first == s.end() || *first == '#';
 }
 
+// True if the token just read ends here. Otherwise an integer is only the first part of another token, for example 0.5.
+inline bool at_token_end(std::istream &F) { return F.eof() || F.peek() == std::char_traits<char>::eof() || std::isspace(F.peek()); }
+
 // Read one object of type S from an object F which has an extractor operator. Use as read_one<S>(F).
 template<typename S, typename T>
 inline auto read_one(T &F) {
@@ -150,6 +153,8 @@ inline auto read_one(T &F) {
   F >> value;
   if constexpr (requires { F.fail(); })
     if (F.fail()) throw std::runtime_error("read_one() error. Input is corrupted.");
+  if constexpr (std::is_base_of_v<std::istream, T> && std::is_integral_v<S> && !std::is_same_v<S, char>)
+    if (!at_token_end(F)) throw std::runtime_error("read_one() error. Integer expected.");
   return value;
 }
   
diff --git a/c++/invar.hpp b/c++/invar.hpp
index 9d75952..41a2698 100644
--- a/c++/invar.hpp
+++ b/c++/invar.hpp
@@ -15,6 +15,7 @@
 #include <fmt/format.h>
 
 #include "portabil.hpp"
+#include "basicio.hpp" // at_token_end
 
 namespace NRG {
 
@@ -68,7 +69,7 @@ class Invar {
    auto & extractor(std::istream &is) {
      for (auto &i : data) {
        int qn{};
-       if (is >> qn)
+       if (is >> qn && at_token_end(is))
          i = qn;
        else
          throw std::runtime_error("Failed reading quantum numbers.");
-- 
2.43.0

