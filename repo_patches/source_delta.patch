From 05b869d28719dca1a28bcc9ed72dd9ec0c2bf18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:57 +0000
Subject: [PATCH 01/13] fix: IIR SSE downsampler reads two samples past the end
 of its input

Downsampler2xSse loaded four floats to process two samples, so the last
iteration of a block read 8 bytes beyond the caller's input buffer.
---
 include/pandaresampler/hiir/Downsampler2xSse.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index be91346..be6fc8b 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -109,7 +109,8 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	// Loads exactly 2 samples: the input block may end after them
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
@@ -145,7 +146,8 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		// Loads exactly 2 samples: the input block may end after them
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
@@ -180,7 +182,8 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	// Loads exactly 2 samples: the input block may end after them
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
@@ -228,7 +231,8 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		// Loads exactly 2 samples: the input block may end after them
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
-- 
2.43.0


From 57a3ede9d98adca508c85411d0bb01e033bbf491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 02/13] fix: IIR SSE filters with odd number of coefficients
 accumulate rounding errors

---
 .../pandaresampler/hiir/Downsampler2xSse.h    |  3 ++
 .../pandaresampler/hiir/Downsampler2xSse.hpp  | 28 +++++++++++++------
 include/pandaresampler/hiir/Upsampler2xSse.h  |  3 ++
 .../pandaresampler/hiir/Upsampler2xSse.hpp    | 24 ++++++++++++----
 4 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.h b/include/pandaresampler/hiir/Downsampler2xSse.h
index 7935fe5..eeebe64 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.h
+++ b/include/pandaresampler/hiir/Downsampler2xSse.h
@@ -102,6 +102,9 @@ private:
 
 	Filter         _filter;		// Should be the first member (thus easier to align)
 
+	hiir_FORCEINLINE void
+	               process_stages (__m128 &x);
+
 
 
 /*\\\ FORBIDDEN MEMBER FUNCTIONS \\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\*/
diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index be6fc8b..4a0e0a8 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -53,10 +53,6 @@ Downsampler2xSse <NC>::Downsampler2xSse ()
 	{
 		_mm_store_ps (_filter [i]._coef, _mm_setzero_ps ());
 	}
-	if (NBR_COEFS < _nbr_stages * 2)
-	{
-		_filter [_nbr_stages]._coef [0] = 1;
-	}
 
 	clear_buffers ();
 }
@@ -111,7 +107,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 
 	// Loads exactly 2 samples: the input block may end after them
 	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
 
@@ -148,7 +144,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	{
 		// Loads exactly 2 samples: the input block may end after them
 		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		process_stages (x);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
 		out_ptr [pos] = _mm_cvtss_f32 (x);
@@ -184,7 +180,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 
 	// Loads exactly 2 samples: the input block may end after them
 	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
 	low  = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -233,7 +229,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	{
 		// Loads exactly 2 samples: the input block may end after them
 		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		process_stages (x);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
 		out_l_ptr [pos] = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -272,6 +268,22 @@ void	Downsampler2xSse <NC>::clear_buffers ()
 
 
 
+// With an odd number of coefficients, the first lane has no cell in the last
+// stage and skips it. An all-pass cell with a coefficient of 1 would be a
+// pass-through too, but would accumulate its rounding errors forever.
+template <int NC>
+void	Downsampler2xSse <NC>::process_stages (__m128 &x)
+{
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	if (NBR_COEFS < _nbr_stages * 2)
+	{
+		// Memory of the stage before: input of the last stage
+		x = _mm_move_ss (x, _mm_load_ps (_filter [_nbr_stages - 1]._mem));
+	}
+}
+
+
+
 }  // namespace hiir
 
 }  // namespace PandaResampler
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.h b/include/pandaresampler/hiir/Upsampler2xSse.h
index 8b026f1..00fea3a 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.h
+++ b/include/pandaresampler/hiir/Upsampler2xSse.h
@@ -100,6 +100,9 @@ private:
 
 	Filter         _filter;		// Should be the first member (thus easier to align)
 
+	hiir_FORCEINLINE void
+	               process_stages (__m128 &x);
+
 
 
 /*\\\ FORBIDDEN MEMBER FUNCTIONS \\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\*/
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.hpp b/include/pandaresampler/hiir/Upsampler2xSse.hpp
index 0b72838..af538a4 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Upsampler2xSse.hpp
@@ -56,10 +56,6 @@ Upsampler2xSse <NC>::Upsampler2xSse ()
 	{
 		_mm_store_ps (_filter [i]._coef, _mm_setzero_ps ());
 	}
-	if (NBR_COEFS < _nbr_stages * 2)
-	{
-		_filter [_nbr_stages]._coef [0] = 1;
-	}
 
 	clear_buffers ();
 }
@@ -113,7 +109,7 @@ template <int NC>
 void	Upsampler2xSse <NC>::process_sample (float &out_0, float &out_1, float input)
 {
 	auto           x = _mm_set1_ps (input);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	out_1 = _mm_cvtss_f32 (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	out_0 = _mm_cvtss_f32 (x);
@@ -150,7 +146,7 @@ void	Upsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr []
 		process_sample (out_ptr [pos * 2], out_ptr [pos * 2 + 1], in_ptr [pos]);
 #else
 	auto           x = _mm_set1_ps (in_ptr [pos]);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	_mm_storel_pi (reinterpret_cast <__m64 *> (out_ptr + pos * 2), x);
 #endif
@@ -188,6 +184,22 @@ void	Upsampler2xSse <NC>::clear_buffers ()
 
 
 
+// With an odd number of coefficients, the first lane has no cell in the last
+// stage and skips it. An all-pass cell with a coefficient of 1 would be a
+// pass-through too, but would accumulate its rounding errors forever.
+template <int NC>
+void	Upsampler2xSse <NC>::process_stages (__m128 &x)
+{
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	if (NBR_COEFS < _nbr_stages * 2)
+	{
+		// Memory of the stage before: input of the last stage
+		x = _mm_move_ss (x, _mm_load_ps (_filter [_nbr_stages - 1]._mem));
+	}
+}
+
+
+
 }  // namespace hiir
 
 }  // namespace PandaResampler
-- 
2.43.0


From 93c8e66a3cb23a31ffc3870edaf00b6eeef02747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 03/13] fix: zero-length block aborts (or overruns the buffers)
 with factor 2 IIR filters

---
 include/pandaresampler.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c7fba41..316f0cd 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -196,6 +196,9 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output)
   {
+    if (n_input_samples == 0)
+      return;
+
     if (ratio_ == 2)
       {
         impl_x2->process_block (input, n_input_samples, output);
-- 
2.43.0


From d3ed51ceb94c2fc310da231f006385236460df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 04/13] fix: order() and sse_enabled() dereference a null
 pointer for ratio 1

---
 include/pandaresampler.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 316f0cd..ae5621c 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -258,7 +258,7 @@ public:
   uint
   order() const
   {
-    return impl_x2->order(); // FIXME
+    return impl_x2 ? impl_x2->order() : 0; // FIXME
   }
   /**
    * Return the delay introduced by the resampler. This delay is guaranteed to
@@ -315,7 +315,7 @@ public:
   bool
   sse_enabled() const
   {
-    return impl_x2->sse_enabled();
+    return impl_x2 && impl_x2->sse_enabled();
   }
 protected:
   /* Creates implementation from filter coefficients and Filter implementation class
-- 
2.43.0


From 6f4dae7645204724cf124181cc10d4963b6e7401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 05/13] fix: downsampling a block which is not a multiple of
 the ratio computes garbage

---
 include/pandaresampler.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index ae5621c..e0f23f4 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -199,6 +199,10 @@ public:
     if (n_input_samples == 0)
       return;
 
+    /* downsampling: only complete output samples can be computed */
+    if (mode_ == DOWN && !PANDA_RESAMPLER_CHECK (n_input_samples % ratio_ == 0))
+      return;
+
     if (ratio_ == 2)
       {
         impl_x2->process_block (input, n_input_samples, output);
-- 
2.43.0


From 170db2165f29f9a5e00670b30568368d3eb905ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 06/13] fix: copying an AlignedArray frees the same memory
 twice

---
 include/pandaresampler.hh | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index e0f23f4..2538784 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -75,6 +75,21 @@ public:
   {
     std::copy (elements.begin(), elements.end(), data);
   }
+  AlignedArray (const AlignedArray& other) :
+    AlignedArray (other.n_elements)
+  {
+    std::copy (other.data, other.data + n_elements, data);
+  }
+  AlignedArray&
+  operator= (const AlignedArray& other)
+  {
+    AlignedArray copy (other);
+
+    std::swap (unaligned_mem, copy.unaligned_mem);
+    std::swap (data, copy.data);
+    std::swap (n_elements, copy.n_elements);
+    return *this;
+  }
   ~AlignedArray()
   {
     /* C++ destruction order: last allocated element is deleted first */
-- 
2.43.0


From d7a07909f23d489373df2ba3995262c937e47034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 07/13] fix: group delay IIR design reports success if it did
 not converge

---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index bf4c479..c5de6bb 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -309,7 +309,7 @@ PolyphaseIir2Designer::ResCode	PolyphaseIir2Designer::compute_coefs_spec_order_g
 		while (conv_flag && nbr_it < max_it);
 
 		// Checks convergence
-		if (nbr_it >= max_it && ! conv_flag)
+		if (nbr_it >= max_it && conv_flag)
 		{
 			ret_val = ResCode_FAIL_CONV;
 		}
-- 
2.43.0


From 774ef68ed9ed454ddf52fa4c83355dab0cc63762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 08/13] fix: IIR design computes a negative number of
 coefficients for low attenuation

---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index c5de6bb..dd40937 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -492,7 +492,7 @@ int	PolyphaseIir2Designer::compute_order (double attenuation, double q)
 	{
 		++ order;
 	}
-	if (order == 1)
+	if (order < 3)
 	{
 		order = 3;
 	}
-- 
2.43.0


From 0197126055b6e35371baa759faf74ad98718667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 09/13] fix: AlignedArray crashes if its memory cannot be
 allocated

---
 include/pandaresampler.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 2538784..487fffc 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -55,7 +55,7 @@ class AlignedArray {
      */
     const size_t cache_line_size = 64;
 
-    unaligned_mem = (unsigned char *) malloc (n_elements * sizeof (T) + 2 * (cache_line_size - 1));
+    unaligned_mem = (unsigned char *) ::operator new (n_elements * sizeof (T) + 2 * (cache_line_size - 1));
     unsigned char *aligned_mem = unaligned_mem;
     if ((ptrdiff_t) aligned_mem % cache_line_size)
       aligned_mem += cache_line_size - (ptrdiff_t) aligned_mem % cache_line_size;
@@ -95,7 +95,7 @@ public:
     /* C++ destruction order: last allocated element is deleted first */
     while (n_elements)
       data[--n_elements].~T();
-    free (unaligned_mem);
+    ::operator delete (unaligned_mem);
   }
   T&
   operator[] (size_t pos)
-- 
2.43.0


From 2f63349d08db215bf10ffdc24554216807dd3028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 10/13] fix: FIR upsampling writes to wrong output positions
 for blocks of 2^31 samples and more

---
 include/pandaresampler/pandaresampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index ae6bbd1..f8111e1 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -388,7 +388,7 @@ protected:
                          uint         n_input_samples,
 			 float       *output)
   {
-    uint i = 0;
+    size_t i = 0; /* output index (2 * i) can exceed uint */
     if (USE_SSE)
       {
         /* (i + 6) -> need to take into account that the filter needs to access
@@ -412,7 +412,7 @@ protected:
                            uint         n_input_samples,
 			   float       *output)
   {
-    uint i = 0;
+    size_t i = 0; /* output index (2 * i) can exceed uint */
     if (USE_SSE)
       {
 	while ((reinterpret_cast<ptrdiff_t> (&input[i]) & 15) && i < n_input_samples)
-- 
2.43.0


From 200c4eb6fa158fb1332100a4abbd9e881cea896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:35 +0000
Subject: [PATCH 11/13] fix: IIR design misses the attenuation for narrow and
 very wide transitions

The nome q was computed from a power series with four terms, which is not
accurate for narrow transitions (116 dB instead of 144 dB for 23 coefficients
and a transition of 0.00176), and suffers from cancellation for wide ones.
---
 .../hiir/PolyphaseIir2Designer.cpp            | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index dd40937..27f4a29 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -470,11 +470,20 @@ void	PolyphaseIir2Designer::compute_transition_param (double &k, double &q, doub
 	k *= k;
 	assert (k < 1);
 	assert (k > 0);
-	double         kksqrt = pow (1 - k * k, 0.25);
-	const double   e = 0.5 * (1 - kksqrt) / (1 + kksqrt);
-	const double   e2 = e * e;
-	const double   e4 = e2 * e2;
-	q = e * (1 + e4 * (2 + e4 * (15 + 150 * e4)));
+	// q = exp (-pi * K(k') / K(k)), the arithmetic-geometric mean is accurate
+	// for narrow and wide transitions, unlike a truncated power series
+	const auto     agm = [] (double a, double b)
+	{
+		for (int i = 0; i < 20 && fabs (a - b) > 1e-15 * a; ++i)
+		{
+			const double   m = 0.5 * (a + b);
+			b = sqrt (a * b);
+			a = m;
+		}
+		return a;
+	};
+	const double   kp = sqrt ((1 - k) * (1 + k));
+	q = exp (-hiir::PI * agm (1, kp) / agm (1, k));
 	assert (q > 0);
 }
 
-- 
2.43.0


From a7e21195b4d48000feb1fc024d517e663c62b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:33 +0000
Subject: [PATCH 12/13] fix: AlignedArray leaks memory and elements if an
 element constructor throws

---
 include/pandaresampler.hh | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 487fffc..cb0cab0 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -47,15 +47,22 @@ class AlignedArray {
   T *data;
   size_t n_elements;
 
+  struct Unconstructed {};
+
+  AlignedArray (size_t capacity, Unconstructed) :
+    n_elements (0)
+  {
+    allocate_aligned_data (capacity);
+  }
   void
-  allocate_aligned_data()
+  allocate_aligned_data (size_t capacity)
   {
     /* for SSE we need 16-byte alignment, but we also ensure that no false
      * sharing will occur (at begin and end of data)
      */
     const size_t cache_line_size = 64;
 
-    unaligned_mem = (unsigned char *) ::operator new (n_elements * sizeof (T) + 2 * (cache_line_size - 1));
+    unaligned_mem = (unsigned char *) ::operator new (capacity * sizeof (T) + 2 * (cache_line_size - 1));
     unsigned char *aligned_mem = unaligned_mem;
     if ((ptrdiff_t) aligned_mem % cache_line_size)
       aligned_mem += cache_line_size - (ptrdiff_t) aligned_mem % cache_line_size;
@@ -64,11 +71,11 @@ class AlignedArray {
   }
 public:
   AlignedArray (size_t n_elements) :
-    n_elements (n_elements)
+    AlignedArray (n_elements, Unconstructed())
   {
-    allocate_aligned_data();
-    for (size_t i = 0; i < n_elements; i++)
-      new (data + i) T();
+    /* if an element constructor throws, the destructor destroys the elements constructed so far */
+    for (; this->n_elements < n_elements; this->n_elements++)
+      new (data + this->n_elements) T();
   }
   AlignedArray (const std::vector<T>& elements) :
     AlignedArray (elements.size())
-- 
2.43.0


From e877a2fe4156bb24d7dc38aef53be7d1be3191e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:33 +0000
Subject: [PATCH 13/13] fix: AlignedArray overruns its memory if the size in
 bytes overflows

---
 include/pandaresampler.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index cb0cab0..f85292d 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -62,7 +62,13 @@ class AlignedArray {
      */
     const size_t cache_line_size = 64;
 
-    unaligned_mem = (unsigned char *) ::operator new (capacity * sizeof (T) + 2 * (cache_line_size - 1));
+    const size_t padding = 2 * (cache_line_size - 1);
+
+    /* more elements than the address space can hold: let operator new fail */
+    const size_t max_size = ~size_t (0);
+    const bool   too_large = capacity > (max_size - padding) / sizeof (T);
+
+    unaligned_mem = (unsigned char *) ::operator new (too_large ? max_size : capacity * sizeof (T) + padding);
     unsigned char *aligned_mem = unaligned_mem;
     if ((ptrdiff_t) aligned_mem % cache_line_size)
       aligned_mem += cache_line_size - (ptrdiff_t) aligned_mem % cache_line_size;
-- 
2.43.0

