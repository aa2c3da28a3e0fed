From 5dcd4c7e5294ac9f2e3cfbefb55e910547c9c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 01/22] fix: ecdf1-new with a single bound failed the assertion
 jump_size <= n

For n=1 the block size sqrt(n)+1 is 2, so that 'crossprob ecdf1-new' aborted.
---
 src/ecdf1_new.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index b87b17f..b01c438 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -121,6 +121,7 @@ double ecdf1_new_B(const vector<double>& B)
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
     // however, empirically slightly lower numbers give better results.
     int k = sqrt(n) + 1; // The +1 is to prevent it from being zero for small array sizes.
+    k = min(k, n); // A block cannot have more than n steps (for n=1, sqrt(n)+1 is 2).
 
 
     vector<double> poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n, n, B, k);
-- 
2.43.0


From fd3b68a91985c442119cfdf1618580349b762bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 02/22] fix: ecdf1_new_b and ecdf1_new_B read out of bounds for
 an empty list

The other algorithms return 1 for n=0, ecdf1_new accessed B[-1].
---
 src/ecdf1_new.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index b01c438..87751c1 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -116,6 +116,9 @@ double ecdf1_new_B(const vector<double>& B)
     //cout << "Called ecdf1_new_B()\n";
     int n = B.size();
     check_boundary_vector("B", n, B);
+    if (n == 0) {
+        return 1.0; // No constraints, as in ecdf2() and ecdf1_mns2016_B().
+    }
 
     // Asymptotically any k in the range [logn, n/logn] should give optimal results as n goes to infinity.
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
-- 
2.43.0


From 019b6e41f0fe4ee8d88ecf36131b9c1b053d6020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 03/22] fix: ecdf2 aborted on boundaries that cannot be
 satisfied

When the bounds leave no possible number of points the window size
became negative and PoissonPMFGenerator::compute_array failed an assertion
(without assertions: negative sizes). The probability is 0 if b_i > B_i for some i.
---
 src/ecdf2.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ecdf2.cc b/src/ecdf2.cc
index 9cf2dd7..e658fcb 100644
--- a/src/ecdf2.cc
+++ b/src/ecdf2.cc
@@ -121,6 +121,13 @@ double ecdf2(const vector<double>& b, const vector<double>& B, bool use_fft)
     check_boundary_vector("b", n, b);
     check_boundary_vector("B", n, B);
 
+    // The sweep over the bounds below assumes that at every point there is some value the process can take.
+    for (int i = 0; i < n; ++i) {
+        if (b[i] > B[i]) {
+            return 0.0;
+        }
+    }
+
     vector<double> poisson_nocross_probs = poisson_process_noncrossing_probability(n, n, b, B, use_fft);
 
     return poisson_nocross_probs[n] / poisson_pmf(n, n);
-- 
2.43.0


From a56e54737719ca8d8276b00be53cfc20ad5d11a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 04/22] fix: ecdf1_mns2016 returned NaN for probabilities that
 are zero or tiny

For these the polynomial evaluates to zero or, by cancellation, a negative number,
whose logarithm was taken.
---
 src/ecdf1_mns2016.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 6d858b6..4eb5025 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -228,6 +228,9 @@ double ecdf1_mns2016_b(const vector<double>& b)
     //FLOAT max_coef = maximum_multiplicative_coefficient(p);
     //FLOAT min_coef = minimum_multiplicative_coefficient(p);
     FLOAT integral_result = p.evaluate(1);
+    if (integral_result <= 0) {
+        return 0.0; // Zero, or so small that cancellation left nothing of it.
+    }
     FLOAT log_integral_result = LOG(integral_result);
     FLOAT noncrossing_probability = EXP(LOG_GAMMA(n+1) + log_integral_result - total_exponent_delta*LOG(2));
     // cout << p << endl;
-- 
2.43.0


From 4e32bb5e4d58a4495012ce8e5e8db1a4dc35dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 05/22] fix: boundary lists with NaN entries were accepted

All comparisons with NaN are false, so that check_boundary_vector let NaN pass and
the algorithms returned garbage or aborted.
---
 src/common.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/common.cc b/src/common.cc
index 4519e10..962dc67 100644
--- a/src/common.cc
+++ b/src/common.cc
@@ -2,6 +2,8 @@
 
 #include <stdexcept>
 #include <sstream>
+#include <cstring>
+#include <stdint.h>
 
 using namespace std;
 
@@ -18,6 +20,19 @@ static bool is_monotone_increasing(const vector<double>& v)
     return true;
 }
 
+// Looks at the bits, since std::isnan() is optimized away when compiling with -ffast-math.
+static bool has_nan(const vector<double>& v)
+{
+    for (int i = 0; i < (int)v.size(); ++i) {
+        uint64_t bits;
+        memcpy(&bits, &v[i], sizeof(bits));
+        if ((bits & UINT64_C(0x7fffffffffffffff)) > UINT64_C(0x7ff0000000000000)) {
+            return true;
+        }
+    }
+    return false;
+}
+
 void check_boundary_vector(string name, int n, const vector<double>& v)
 {
     if ((int)v.size() != n) {
@@ -26,6 +41,12 @@ void check_boundary_vector(string name, int n, const vector<double>& v)
         throw runtime_error(ss.str());
     }
 
+    if (has_nan(v)) {
+        stringstream ss;
+        ss << name << "_1,...," << name << "_" << n << " must be numbers but one of them is NaN.";
+        throw runtime_error(ss.str());
+    }
+
     if (!is_monotone_increasing(v)) {
         stringstream ss;
         ss << name << "_1,...," << name << "_" << n << " must be monotone non-decreasing.";
-- 
2.43.0


From a2f464d67aad7219401897475810c1fc2cf290a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 06/22] fix: crossprob_mc poisson always printed 0 when the
 first list is empty

The simulation stopped and counted a crossing as soon as there were more than
b.size()=0 steps, although an empty list means no such limit.
---
 src/crossprob_mc.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index c515271..3670374 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -121,7 +121,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
 
 static bool does_random_poisson_process_cross(const vector<double>& b, const vector<double>& B, ExponentialRNG& exprng, vector<double>& tmp_buffer)
 {
-    size_t max_steps = b.size();
+    // With no upper limit on the number of steps (b empty), only the first B.size() steps matter.
+    size_t max_steps = (b.size() > 0) ? b.size() : B.size();
     assert(tmp_buffer.size() >= max_steps);
 
     size_t num_steps = 0;
@@ -132,7 +133,7 @@ static bool does_random_poisson_process_cross(const vector<double>& b, const vec
             return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
         if (num_steps >= max_steps) {
-            return true;
+            return (b.size() > 0) || does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
         tmp_buffer[num_steps] = last_x;
         ++num_steps;
@@ -147,7 +148,7 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
 
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
-    vector<double> buffer(b.size() + 1);
+    vector<double> buffer(max(b.size(), B.size()) + 1);
     int count_crossings = 0;
     for (int reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
-- 
2.43.0


From dc0e043742b50a9f631c5114757b98a1cadd9451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 07/22] fix: crossprob_mc used uninitialized parameters in its
 random number generator

tinymt64_init() reads mat1, mat2 and tmat, which were never set: the generator
depended on what was in memory and was not guaranteed to have its full period.
---
 src/crossprob_mc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 3670374..f133d6f 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -17,6 +17,10 @@ class RandomNumberGenerator {
 public:
     RandomNumberGenerator(uint64_t seed) {
         // cout << "Random seed: " << seed << endl;
+        // tinymt64_init() expects these to be set. The values are those of TinyMT's check64 program.
+        random_state.mat1 = 0xfa051f40;
+        random_state.mat2 = 0xffd0fff4;
+        random_state.tmat = UINT64_C(0x58d02ffeffbfffbc);
         tinymt64_init(&random_state, seed);
     }
     double generate_uniform01()
-- 
2.43.0


From ae6c7e80bc6e98fe1eb1919b5376c0ba25de897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 08/22] fix: crossprob_mc never ended with 2^31 or more
 simulations

num_simulations is long but the loop counter and the count were int.
---
 src/crossprob_mc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index f133d6f..a01e06c 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -115,8 +115,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
     RandomNumberGenerator rng(time(NULL) + (n<<20));
 
     vector<double> tmp_buffer(n);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);
     }
 
@@ -153,8 +153,8 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(max(b.size(), B.size()) + 1);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
     }
 
-- 
2.43.0


From 937548ee1eb1d53b98342c0ca2414e2efc942a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 09/22] fix: crossprob_mc printed nan (0/0) for zero
 simulations

---
 src/crossprob_mc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index a01e06c..42a430b 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -205,9 +205,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
 
     string filename = string(argv[2]);
     long num_simulations = string_to_long(argv[3]);
-    if (num_simulations < 0) {
+    if (num_simulations <= 0) {
         print_usage();
-        throw runtime_error("num-simulations must be non-negative!");
+        throw runtime_error("num-simulations must be positive!");
     }
 
     pair<vector<double>, vector<double> > bounds = read_and_check_boundaries_file(filename);
-- 
2.43.0


From cba908feb8178698d1014909d29c5576589df80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 10/22] fix: integer overflow in the seed of crossprob_mc
 poisson for 2148 or more bounds

Converting intensity*1000000.0 to int is undefined behaviour above 2^31-1 (in
practice all such sizes used the same seed).
---
 src/crossprob_mc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 42a430b..f119de7 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -150,7 +150,7 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
         return 1.0;
     }
 
-    ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
+    ExponentialRNG exprng(time(NULL) + (int64_t)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(max(b.size(), B.size()) + 1);
     long count_crossings = 0;
-- 
2.43.0


From d4d44cb3ed1111e0ea286115da8f546676da9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 11/22] fix: crossprob_mc ecdf referred to element 0 of an
 empty vector when both lists are empty

---
 src/crossprob_mc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index f119de7..16428b0 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -100,7 +100,7 @@ static double does_random_ecdf_cross(const vector<double>& b, const vector<doubl
     for (size_t i = 0; i < tmp_buffer.size(); ++i) {
         tmp_buffer[i] /= normalizing_factor;
     }
-    return does_integer_step_function_cross(&tmp_buffer[0], tmp_buffer.size(), b, B);
+    return does_integer_step_function_cross(tmp_buffer.data(), tmp_buffer.size(), b, B);
 }
 
 static double ecdf_crossing_probability_montecarlo(long n, const vector<double>& b, const vector<double>& B, long num_simulations)
-- 
2.43.0


From 1dc41a085c2e49d58167130e85d1c5881dee88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 12/22] fix: Python module crashed when a sequence raises an
 error for one of its items

For a sequence object whose __getitem__ raises (such as a pandas Series without
the label 0), PySequence_GetItem returns NULL, which the generated wrapper
dereferenced before testing for it. Same change as in later releases of SWIG.
---
 python_extension/crossprob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 4bb2635..47a2b85 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -3515,8 +3515,8 @@ namespace swig {
   struct traits_as<Type, value_category> {
     static Type as(PyObject *obj) {
       Type v;
-      int res = asval(obj, &v);
-      if (!obj || !SWIG_IsOK(res)) {
+      int res = obj ? asval(obj, &v) : SWIG_ERROR;
+      if (!SWIG_IsOK(res)) {
 	if (!PyErr_Occurred()) {
 	  ::SWIG_Error(SWIG_TypeError,  swig::type_name<Type>());
 	}
-- 
2.43.0


From 41e3c3baa7731b2849f83e8c7583eeda54aa98f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 13/22] fix: Python module leaked a vector for each list with
 an element that is not a number

The vector under construction was not deleted when the conversion of an element
failed. Later releases of SWIG delete it too.
---
 python_extension/crossprob.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 47a2b85..68f3404 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -4453,7 +4453,12 @@ namespace swig {
 	  SwigPySequence_Cont<value_type> swigpyseq(obj);
 	  if (seq) {
 	    sequence *pseq = new sequence();
-	    assign(swigpyseq, pseq);
+	    try {
+	      assign(swigpyseq, pseq);
+	    } catch (...) {
+	      delete pseq;
+	      throw;
+	    }
 	    *seq = pseq;
 	    return SWIG_NEWOBJ;
 	  } else {
-- 
2.43.0


From a536e679aedb1c46153c4d8dc7e264b2d8357128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 14/22] fix: exceptions of the vector type were not translated
 by the SWIG interface

The %exception directive applied only to what follows it, so that for example
VectorDouble(10**15) ended the interpreter by an uncaught std::bad_alloc
(in a wrapper generated from this file).
---
 src/crossprob.i | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crossprob.i b/src/crossprob.i
index 622aa55..61ed09e 100644
--- a/src/crossprob.i
+++ b/src/crossprob.i
@@ -58,11 +58,6 @@ MODULE REFERENCE
 %module(docstring=DOCSTRING) crossprob
 
 
-%include "std_vector.i"
-namespace std {
-   %template(VectorDouble) vector<double>;
-};
-
 %exception {
     try {
         $action
@@ -75,6 +70,11 @@ namespace std {
     }
 }
 
+%include "std_vector.i"
+namespace std {
+   %template(VectorDouble) vector<double>;
+};
+
 %{
 #include "../src/ecdf2.hh"
 #include "../src/ecdf1_mns2016.hh"
-- 
2.43.0


From e2a193c676f5878058df119919b10a9f18faa17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 15/22] fix: out of memory in the aligned buffers crashed

_mm_malloc returns NULL when it fails; the buffers were then written to. Throw std::bad_alloc instead.
---
 src/aligned_mem.hh   | 14 ++++++++++++--
 src/ecdf1_mns2016.cc | 10 +++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/aligned_mem.hh b/src/aligned_mem.hh
index 213133b..44607ad 100644
--- a/src/aligned_mem.hh
+++ b/src/aligned_mem.hh
@@ -3,18 +3,28 @@
 
 #include <complex>
 #include <cstdlib>
+#include <new>
 #include "mm_malloc.h"
 
 #define ALIGNMENT (32)
 
+inline void* allocate_aligned_mem(size_t size)
+{
+    void* p = _mm_malloc(size, ALIGNMENT);
+    if (p == NULL) {
+        throw std::bad_alloc();
+    }
+    return p;
+}
+
 inline double* allocate_aligned_doubles(int n)
 {
-    return static_cast<double*>(_mm_malloc(n*sizeof(double), ALIGNMENT));
+    return static_cast<double*>(allocate_aligned_mem(n*sizeof(double)));
 }
 
 inline std::complex<double>* allocate_aligned_complexes(int n)
 {
-    return static_cast<std::complex<double>*>(_mm_malloc(n*sizeof(std::complex<double>), ALIGNMENT));
+    return static_cast<std::complex<double>*>(allocate_aligned_mem(n*sizeof(std::complex<double>)));
 }
 
 
diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 4eb5025..5471b5f 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -4,9 +4,9 @@
 #include <sstream>
 #include <cstring>
 #include <cassert>
-#include "mm_malloc.h"
 
 #include "ecdf1_mns2016.hh"
+#include "aligned_mem.hh"
 #include "common.hh"
 
 using namespace std;
@@ -94,16 +94,16 @@ PolynomialTranslatedMonomials::PolynomialTranslatedMonomials(int max_degree) :
     degree(0)
 {
     assert(max_degree >= 0);
-    multiplicative_coefficients = (FLOAT*)_mm_malloc(sizeof(FLOAT)*(max_degree+1), 32);
-    additive_coefficients = (FLOAT*)_mm_malloc(sizeof(FLOAT)*(max_degree+1), 32);
+    multiplicative_coefficients = (FLOAT*)allocate_aligned_mem(sizeof(FLOAT)*(max_degree+1));
+    additive_coefficients = (FLOAT*)allocate_aligned_mem(sizeof(FLOAT)*(max_degree+1));
     memset(multiplicative_coefficients, 0, sizeof(FLOAT)*(max_degree+1));
     memset(additive_coefficients, 0, sizeof(FLOAT)*(max_degree+1));
 }
 
 PolynomialTranslatedMonomials::~PolynomialTranslatedMonomials()
 {
-    _mm_free(multiplicative_coefficients);
-    _mm_free(additive_coefficients);
+    free_aligned_mem(multiplicative_coefficients);
+    free_aligned_mem(additive_coefficients);
 }
 
 FLOAT PolynomialTranslatedMonomials::get_multiplicative_coefficient(int degree) const
-- 
2.43.0


From b6d5459a9329cf0e05eaccb9eb1ce9340cdbdc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 16/22] fix: the programs aborted when they ran out of memory

std::bad_alloc and std::length_error were not caught in main.
---
 src/crossprob.cc    | 4 ++++
 src/crossprob_mc.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/crossprob.cc b/src/crossprob.cc
index 10b279c..aae6d7f 100644
--- a/src/crossprob.cc
+++ b/src/crossprob.cc
@@ -191,5 +191,9 @@ int main(int argc, char* argv[])
         cout << "Error:" << endl;
         cout << e.what() << endl;
         return 3;
+    } catch (exception& e) {
+        cout << "Error:" << endl;
+        cout << e.what() << endl;
+        return 4;
     }
 }
diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 16428b0..94ddbd9 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -244,5 +244,9 @@ int main(int argc, char* argv[])
         cout << "runtime_error exception caught:" << endl;
         cout << e.what() << endl;
         return 2;
+    } catch (exception& e) {
+        cout << "exception caught:" << endl;
+        cout << e.what() << endl;
+        return 3;
     }
 }
-- 
2.43.0


From c446005d1949f7797d1573102eed2a3bf5e53db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 17/22] fix: the programs exited with status 0 when the result
 could not be written

---
 src/crossprob.cc    | 3 +++
 src/crossprob_mc.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/crossprob.cc b/src/crossprob.cc
index aae6d7f..a4899c5 100644
--- a/src/crossprob.cc
+++ b/src/crossprob.cc
@@ -169,6 +169,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
     }
 
     cout << result << endl;
+    if (!cout) {
+        throw runtime_error("Unable to write the result");
+    }
 
     return 0;
 }
diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 94ddbd9..91b5707 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -227,6 +227,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
         print_usage();
         throw runtime_error("Second command line argument must be 'ecdf' or 'poisson'");
     }
+    if (!cout) {
+        throw runtime_error("Unable to write the result");
+    }
 
     return 0;
 }
-- 
2.43.0


From 3292ea3a6b3563614955c668df8f85b6e8e7c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 18/22] fix: buffers were lost when a later one could not be
 allocated

---
 src/ecdf1_mns2016.cc |  7 ++++++-
 src/fftwconvolver.cc | 25 ++++++++++++++++++++-----
 src/fftwconvolver.hh |  2 ++
 src/poisson_pmf.cc   |  7 ++++++-
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 5471b5f..8e2e1f9 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -95,7 +95,12 @@ PolynomialTranslatedMonomials::PolynomialTranslatedMonomials(int max_degree) :
 {
     assert(max_degree >= 0);
     multiplicative_coefficients = (FLOAT*)allocate_aligned_mem(sizeof(FLOAT)*(max_degree+1));
-    additive_coefficients = (FLOAT*)allocate_aligned_mem(sizeof(FLOAT)*(max_degree+1));
+    try {
+        additive_coefficients = (FLOAT*)allocate_aligned_mem(sizeof(FLOAT)*(max_degree+1));
+    } catch (...) {
+        free_aligned_mem(multiplicative_coefficients);
+        throw;
+    }
     memset(multiplicative_coefficients, 0, sizeof(FLOAT)*(max_degree+1));
     memset(additive_coefficients, 0, sizeof(FLOAT)*(max_degree+1));
 }
diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 4b98a62..4cab5b9 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -27,18 +27,28 @@ int round_up(int n, int rounding)
 
 FFTWConvolver::FFTWConvolver(int maximum_input_size) :
     maximum_input_size(maximum_input_size+ROUNDING-1),
+    tmp_complex(NULL),
+    r2c_in(NULL),
+    r2c_out(NULL),
     r2c_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL),
+    c2r_in(NULL),
+    c2r_out(NULL),
     c2r_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL)
 {
     int maximum_padded_input_size = round_up(2*maximum_input_size, ROUNDING);
 
-    r2c_in = allocate_aligned_doubles(maximum_padded_input_size);
-    r2c_out = allocate_aligned_complexes(maximum_padded_input_size);
+    try {
+        r2c_in = allocate_aligned_doubles(maximum_padded_input_size);
+        r2c_out = allocate_aligned_complexes(maximum_padded_input_size);
 
-    c2r_in = allocate_aligned_complexes(maximum_padded_input_size);
-    c2r_out = allocate_aligned_doubles(maximum_padded_input_size);
+        c2r_in = allocate_aligned_complexes(maximum_padded_input_size);
+        c2r_out = allocate_aligned_doubles(maximum_padded_input_size);
 
-    tmp_complex = allocate_aligned_complexes(maximum_padded_input_size);
+        tmp_complex = allocate_aligned_complexes(maximum_padded_input_size);
+    } catch (...) {
+        free_buffers();
+        throw;
+    }
 }
 
 void convolve_same_size_naive(int size, const double* __restrict__ src0, const double* __restrict__ src1, double* __restrict__ dest)
@@ -157,6 +167,11 @@ FFTWConvolver::~FFTWConvolver()
         }
     }
 
+    free_buffers();
+}
+
+void FFTWConvolver::free_buffers()
+{
     free_aligned_mem(r2c_in);
     free_aligned_mem(r2c_out);
 
diff --git a/src/fftwconvolver.hh b/src/fftwconvolver.hh
index d694a43..75130f5 100644
--- a/src/fftwconvolver.hh
+++ b/src/fftwconvolver.hh
@@ -13,6 +13,8 @@ public:
 private:
     int maximum_input_size;
 
+    void free_buffers();
+
     std::complex<double>* tmp_complex;
 
 
diff --git a/src/poisson_pmf.cc b/src/poisson_pmf.cc
index 76599c2..57281a7 100644
--- a/src/poisson_pmf.cc
+++ b/src/poisson_pmf.cc
@@ -16,7 +16,12 @@ PoissonPMFGenerator::PoissonPMFGenerator(int max_k)
     for (int i = 0; i < max_k+2; ++i) {
         log_gamma_LUT[i] = lgamma(i);
     }
-   pmf_array_ptr = allocate_aligned_doubles(max_k+1);
+    try {
+        pmf_array_ptr = allocate_aligned_doubles(max_k+1);
+    } catch (...) {
+        free_aligned_mem(log_gamma_LUT);
+        throw;
+    }
     for (int i = 0; i < max_k+1; ++i) {
         pmf_array_ptr[i] = 0;
     }
-- 
2.43.0


From d33a1edc617b2d29d7a57cc8d94bdf5aa03cdc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 19/22] fix: calls of ecdf1-mns2016 in several threads shared a
 static variable

---
 src/ecdf1_mns2016.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 8e2e1f9..a46f1ff 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -194,7 +194,7 @@ static FLOAT maximum_multiplicative_coefficient(const PolynomialTranslatedMonomi
 
 static int extract_exponent(FLOAT x)
 {
-    static int exponent;
+    int exponent;
     FREXP(x, &exponent);
     return exponent;
 }
-- 
2.43.0


From 873a4118e36cb46366a22ce2c935000e2d7eec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 20/22] fix: FFTW's planner was used by several threads at once

---
 src/fftwconvolver.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 4cab5b9..7487dc1 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <cassert>
 #include <cstring>
+#include <mutex>
 #include "fftwconvolver.hh"
 #include "aligned_mem.hh"
 
@@ -19,6 +20,9 @@ const int ROUNDING = 2048;
 const int MINIMUM_SIZE_FOR_FFTW_CONVOLUTION = 128;
 
 
+// Of all FFTW functions only fftw_execute*() may be called by several threads at once.
+static mutex fftw_planner_mutex;
+
 int round_up(int n, int rounding)
 {
     assert(rounding >= 0);
@@ -84,6 +88,7 @@ fftw_plan FFTWConvolver::memoized_r2c_plan(int rounded_size)
     assert(index < r2c_plans.size());
 
     if (r2c_plans[index] == NULL) {
+        lock_guard<mutex> lock(fftw_planner_mutex);
         r2c_plans[index] = fftw_plan_dft_r2c_1d(rounded_size, r2c_in, reinterpret_cast<fftw_complex*>(r2c_out), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
     }
 
@@ -99,6 +104,7 @@ fftw_plan FFTWConvolver::memoized_c2r_plan(int rounded_size)
     assert(index < c2r_plans.size());
 
     if (c2r_plans[index] == NULL) {
+        lock_guard<mutex> lock(fftw_planner_mutex);
         c2r_plans[index] = fftw_plan_dft_c2r_1d(rounded_size, reinterpret_cast<fftw_complex*>(c2r_in), c2r_out, FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
     }
 
@@ -157,12 +163,14 @@ FFTWConvolver::~FFTWConvolver()
 {
     for (size_t i = 0; i < r2c_plans.size(); ++i) {
         if (r2c_plans[i] != NULL) {
+            lock_guard<mutex> lock(fftw_planner_mutex);
             fftw_destroy_plan(r2c_plans[i]);
         }
     }
 
     for (size_t i = 0; i < c2r_plans.size(); ++i) {
         if (c2r_plans[i] != NULL) {
+            lock_guard<mutex> lock(fftw_planner_mutex);
             fftw_destroy_plan(c2r_plans[i]);
         }
     }
-- 
2.43.0


From a45b1ef4883548fa5d9a3a056e2caa4385e2f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 21/22] fix: no invalid escape sequence in the module's
 documentation (a warning at each import, an error where warnings are errors)

---
 python_extension/crossprob.py | 2 +-
 src/crossprob.i               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python_extension/crossprob.py b/python_extension/crossprob.py
index 4b83ba7..3146997 100644
--- a/python_extension/crossprob.py
+++ b/python_extension/crossprob.py
@@ -14,7 +14,7 @@ This module implements several algorithms for computing the probability
     Pr[for all i: b_i <= X_(i) <= B_i]        (1)
 
 Equivalently, let the empirical cumulative distribution function of X_1,...,X_n be
-    F_n(t) := \sum_i 1(X_i <= t).
+    F_n(t) := sum_i 1(X_i <= t).
 The probability in Eq. (1) is equivalent to the probability that F_n(t) does not cross
 a two-sided boundary,
 
diff --git a/src/crossprob.i b/src/crossprob.i
index 61ed09e..521fb60 100644
--- a/src/crossprob.i
+++ b/src/crossprob.i
@@ -12,7 +12,7 @@ This module implements several algorithms for computing the probability
     Pr[for all i: b_i <= X_(i) <= B_i]        (1)
 
 Equivalently, let the empirical cumulative distribution function of X_1,...,X_n be
-    F_n(t) := \sum_i 1(X_i <= t).
+    F_n(t) := sum_i 1(X_i <= t).
 The probability in Eq. (1) is equivalent to the probability that F_n(t) does not cross
 a two-sided boundary,
 
-- 
2.43.0


From be6cd1f8362ed54e6597ab263e6adc1cfdf39eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:11 +0000
Subject: [PATCH 22/22] fix: accept boundaries too small for a normal double
 (underflow of strtod is no error)

---
 src/string_utils.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string_utils.cc b/src/string_utils.cc
index be9340c..49e2e0b 100644
--- a/src/string_utils.cc
+++ b/src/string_utils.cc
@@ -46,7 +46,9 @@ double string_to_double(const string& s)
         throw runtime_error(string("Error converting string to double '") + s + "'");
     }
 
-    if (errno != 0) {
+    // A number that is too small for a double becomes zero or a denormal number, which is no error.
+    bool is_underflow = (errno == ERANGE) && (value > -1.0) && (value < 1.0);
+    if ((errno != 0) && !is_underflow) {
         throw runtime_error(string("Error converting string to double '") + s + "'\n" + strerror(errno));
     }
 
-- 
2.43.0

