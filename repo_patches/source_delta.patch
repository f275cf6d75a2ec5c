From 88e7b870cebe8a4d438a933a16c65002cd6f1c27 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:52 +0000
Subject: [PATCH 01/43] fix: overlap_add_convolver keeps partially filled input
 blocks

The inverse transform overwrote the input gathered so far, so chunks that
are not a multiple of the block size produced wrong output.
---
 src/neo/convolution/overlap_add_convolver.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index a15fced..a3d1fab 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -40,6 +40,7 @@ private:
 
     fft::rfft_plan<real_type> _rfft{fft::from_order, fft::next_order(size_type(4))};
 
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _input_window{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _real_window{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _complex_window{_rfft.size() / 2 + 1};
@@ -59,6 +60,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
 
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
+    _input_window   = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _overlap        = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
 
@@ -76,6 +78,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
     auto const num_samples = inout.extent(0);
     auto num_processed     = size_type(0);
 
+    auto input_window    = _input_window.to_mdspan();
     auto real_window     = _real_window.to_mdspan();
     auto complex_window  = _complex_window.to_mdspan();
     auto overlap         = _overlap.to_mdspan();
@@ -88,8 +91,8 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
 
         auto const sub_inout  = stdex::submdspan(inout, std::tuple{num_processed, num_processed + num_to_process});
         auto const sub_window = stdex::submdspan(real_window, std::tuple{_input_pos, _input_pos + num_to_process});
-        copy(sub_inout, sub_window);
-        rfft(_rfft, real_window, complex_window);
+        copy(sub_inout, stdex::submdspan(input_window, std::tuple{_input_pos, _input_pos + num_to_process}));
+        rfft(_rfft, input_window, complex_window);
 
         _fdl.insert(complex_window, _current_segment);
 
@@ -126,7 +129,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
                 stdex::submdspan(real_window, std::tuple{_block_size, _block_size * 2}),
                 stdex::submdspan(overlap, std::tuple{0, _block_size})
             );
-            fill(real_window, real_type{});
+            fill(input_window, real_type{});
 
             _current_segment = (_current_segment > 0) ? (_current_segment - 1) : (_num_segments - 1);
         }
-- 
2.43.0


From 990691f44ce266555a933c8639872e74014cf458 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:52 +0000
Subject: [PATCH 02/43] fix: overlap_add_convolver restarts its stream when a
 filter is loaded

The write positions of the previous stream survived filter(), which
indexed out of bounds after loading a shorter filter mid-stream.
---
 src/neo/convolution/overlap_add_convolver.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index a3d1fab..7ed9275 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -55,8 +55,10 @@ private:
 template<complex Complex, typename Fdl, typename Filter>
 auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> auto f) -> void
 {
-    _block_size   = f.extent(1) - 1;
-    _num_segments = f.extent(0);
+    _block_size      = f.extent(1) - 1;
+    _num_segments    = f.extent(0);
+    _input_pos       = 0;
+    _current_segment = 0;
 
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
-- 
2.43.0


From 5281b5f470ca75e631c2b7ebc5d4dd6a8ec3a1db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:42 +0000
Subject: [PATCH 03/43] fix: convolvers survive a failed filter load

filter() updated its members one by one, so an allocation failure half way
left buffers of different sizes behind and the next block ran out of
bounds. Build the new state first, then move it in.
---
 src/neo/convolution/overlap_add_convolver.hpp | 34 +++++++++++--------
 .../uniform_partitioned_convolver.hpp         | 17 +++++++---
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index 7ed9275..ed3508f 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -13,6 +13,7 @@
 #include <neo/fft/rfft.hpp>
 
 #include <cassert>
+#include <utility>
 
 namespace neo::convolution {
 
@@ -55,21 +56,24 @@ private:
 template<complex Complex, typename Fdl, typename Filter>
 auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> auto f) -> void
 {
-    _block_size      = f.extent(1) - 1;
-    _num_segments    = f.extent(0);
-    _input_pos       = 0;
-    _current_segment = 0;
-
-    _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
-    _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
-    _input_window   = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
-    _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
-    _overlap        = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
-
-    _fdl             = Fdl{f.extents()};
-    _accumulator     = accumulator_type{f.extent(1)};
-    _tmp_accumulator = accumulator_type{f.extent(1)};
-    _filter.filter(f);
+    // A failed allocation must not leave a half updated convolver behind
+    auto next = overlap_add_convolver{};
+
+    next._block_size   = f.extent(1) - 1;
+    next._num_segments = f.extent(0);
+
+    next._rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(next._block_size * 2U)};
+    next._complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{next._rfft.size() / 2 + 1};
+    next._input_window   = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{next._rfft.size()};
+    next._real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{next._rfft.size()};
+    next._overlap        = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{next._rfft.size()};
+
+    next._fdl             = Fdl{f.extents()};
+    next._accumulator     = accumulator_type{f.extent(1)};
+    next._tmp_accumulator = accumulator_type{f.extent(1)};
+    next._filter.filter(f);
+
+    *this = std::move(next);
 }
 
 template<complex Complex, typename Fdl, typename Filter>
diff --git a/src/neo/convolution/uniform_partitioned_convolver.hpp b/src/neo/convolution/uniform_partitioned_convolver.hpp
index 00783ab..8178a65 100644
--- a/src/neo/convolution/uniform_partitioned_convolver.hpp
+++ b/src/neo/convolution/uniform_partitioned_convolver.hpp
@@ -7,6 +7,8 @@
 #include <neo/container/mdspan.hpp>
 #include <neo/convolution/fdl_index.hpp>
 
+#include <utility>
+
 namespace neo::convolution {
 
 /// \ingroup neo-convolution
@@ -37,11 +39,16 @@ private:
 template<typename Overlap, typename Fdl, typename Filter>
 auto uniform_partitioned_convolver<Overlap, Fdl, Filter>::filter(in_matrix auto filter, auto... args) -> void
 {
-    _overlap     = Overlap{filter.extent(1) - 1, filter.extent(1) - 1};
-    _indexer     = fdl_index<size_t>{filter.extent(0)};
-    _fdl         = Fdl{filter.extents()};
-    _accumulator = accumulator_type{filter.extent(1)};
-    _filter.filter(filter, args...);
+    // A failed allocation must not leave a half updated convolver behind
+    auto next = uniform_partitioned_convolver{};
+
+    next._overlap     = Overlap{filter.extent(1) - 1, filter.extent(1) - 1};
+    next._indexer     = fdl_index<size_t>{filter.extent(0)};
+    next._fdl         = Fdl{filter.extents()};
+    next._accumulator = accumulator_type{filter.extent(1)};
+    next._filter.filter(filter, args...);
+
+    *this = std::move(next);
 }
 
 template<typename Overlap, typename Fdl, typename Filter>
-- 
2.43.0


From c851e3a894c8138197fd5a9b06991ea503a5330b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:27 +0000
Subject: [PATCH 04/43] fix: overlap_add handles filters longer than a block

Only block_size samples of the convolution tail were zero padded and
carried over, so filters longer than the block lost their tail and small
filters addressed samples past the transform.
---
 src/neo/convolution/overlap_add.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/neo/convolution/overlap_add.hpp b/src/neo/convolution/overlap_add.hpp
index 0472aeb..3be3684 100644
--- a/src/neo/convolution/overlap_add.hpp
+++ b/src/neo/convolution/overlap_add.hpp
@@ -14,6 +14,7 @@
 #include <neo/fft/rfft.hpp>
 #include <neo/math/idiv.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <functional>
 
@@ -47,7 +48,9 @@ private:
 
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _window{_rfft.size()};
     stdex::mdarray<complex_type, stdex::dextents<size_t, 1>> _spectrum{_rfft.size() / 2 + 1};
-    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_block_size};
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{
+        std::max(_block_size, _rfft.size() - _block_size),
+    };
 };
 
 template<complex Complex>
@@ -81,7 +84,7 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
 
     auto const window   = _window.to_mdspan();
     auto const signal   = stdex::submdspan(window, std::tuple{0, block_size()});
-    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), block_size() * 2U});
+    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), transform_size()});
     auto const spectrum = _spectrum.to_mdspan();
     auto const overlap  = _overlap.to_mdspan();
 
@@ -100,10 +103,14 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
     scale(1.0F / static_cast<real_type>(_rfft.size()), window);
 
     // Copy to output
-    add(signal, overlap, block);
-
-    // Save overlap for next iteration
-    copy(padding, overlap);
+    add(signal, stdex::submdspan(overlap, std::tuple{0, block_size()}), block);
+
+    // Save overlap for next iterations
+    auto const num_overlap = transform_size() - block_size();
+    for (auto i{0UL}; i < num_overlap; ++i) {
+        auto const pending = i + block_size();
+        overlap[i]         = pending < num_overlap ? padding[i] + overlap[pending] : padding[i];
+    }
 }
 
 }  // namespace neo::convolution
-- 
2.43.0


From 65db9b010e25ed4d11079d5715002e08a28410dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:27 +0000
Subject: [PATCH 05/43] fix: overlap_save slides its window by exactly one
 block

The history was shifted in whole multiples of the block size, which
scrambled it whenever the block size does not divide the transform size.
---
 src/neo/convolution/overlap_save.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/neo/convolution/overlap_save.hpp b/src/neo/convolution/overlap_save.hpp
index fb2ff9e..e89ab10 100644
--- a/src/neo/convolution/overlap_save.hpp
+++ b/src/neo/convolution/overlap_save.hpp
@@ -36,15 +36,9 @@ struct overlap_save
 private:
     auto slide_window_left(auto window) -> void
     {
-        auto const step      = static_cast<int>(block_size());
-        auto const num_steps = static_cast<int>(window.extent(0)) / step;
-        for (auto i{0}; i < num_steps - 1; ++i) {
-            auto const dest_idx = i * step;
-            auto const src_idx  = dest_idx + step;
-
-            auto const src_block  = stdex::submdspan(window, std::tuple{src_idx, src_idx + step});
-            auto const dest_block = stdex::submdspan(window, std::tuple{dest_idx, src_idx});
-            copy(src_block, dest_block);
+        auto const num_keep = window.extent(0) - block_size();
+        for (auto i{0UL}; i < num_keep; ++i) {
+            window[i] = window[i + block_size()];
         }
     }
 
-- 
2.43.0


From 9ee1397f55378aa699232f2960222d516dce7bb2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:27 +0000
Subject: [PATCH 06/43] fix: csr_matrix::insert overwrites an existing element

Inserting at an occupied position stored a second entry for it, which
multiply_add then counted twice.
---
 src/neo/container/csr_matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neo/container/csr_matrix.hpp b/src/neo/container/csr_matrix.hpp
index c267467..09ebd76 100644
--- a/src/neo/container/csr_matrix.hpp
+++ b/src/neo/container/csr_matrix.hpp
@@ -147,6 +147,11 @@ auto csr_matrix<T, IndexType, ValueContainer, IndexContainer>::insert(index_type
         idx++;
     }
 
+    if (idx < _row_indices[row + 1] && _colum_indices[idx] == col) {
+        _values[idx] = value;
+        return;
+    }
+
     auto const pidx = static_cast<std::ptrdiff_t>(idx);
     _values.insert(std::next(_values.begin(), pidx), value);
     _colum_indices.insert(std::next(_colum_indices.begin(), pidx), col);
-- 
2.43.0


From 6a40da3c871b92175d6b3185f64f641e8dd5af91 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:17 +0000
Subject: [PATCH 07/43] fix: csr_matrix::insert leaves the matrix unchanged
 when it fails

If the second container could not grow, the value array kept an element
without a column, which shifted every element stored behind it.
---
 src/neo/container/csr_matrix.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/neo/container/csr_matrix.hpp b/src/neo/container/csr_matrix.hpp
index 09ebd76..a6e37ef 100644
--- a/src/neo/container/csr_matrix.hpp
+++ b/src/neo/container/csr_matrix.hpp
@@ -154,7 +154,12 @@ auto csr_matrix<T, IndexType, ValueContainer, IndexContainer>::insert(index_type
 
     auto const pidx = static_cast<std::ptrdiff_t>(idx);
     _values.insert(std::next(_values.begin(), pidx), value);
-    _colum_indices.insert(std::next(_colum_indices.begin(), pidx), col);
+    try {
+        _colum_indices.insert(std::next(_colum_indices.begin(), pidx), col);
+    } catch (...) {
+        _values.erase(std::next(_values.begin(), pidx));
+        throw;
+    }
 
     for (auto i{row + 1}; i <= rows(); ++i) {
         ++_row_indices[i];
-- 
2.43.0


From 204c6528eaf2c1f558ac7613c37d9300f3d48eff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:30 +0000
Subject: [PATCH 08/43] fix: radix-4 Cooley-Tukey plans compute the discrete
 Fourier transform

The radix-4 butterfly rotated in the opposite direction of the twiddle factors,
so only forward+backward round trips were right, not the spectrum itself.
---
 src/neo/fft/reference/c2c_dit4_plan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 3a9f7d1..ec597a0 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -35,7 +35,7 @@ struct c2c_radix4_plan
     {
         using Float = value_type_t<Complex>;
 
-        auto const sign = dir == direction::forward ? Float(-1.0) : Float(1.0);
+        auto const sign = dir == direction::forward ? Float(1.0) : Float(-1.0);
         auto const w    = dir == direction::forward ? stdex::submdspan(_w.to_mdspan(), 0, stdex::full_extent)
                                                     : stdex::submdspan(_w.to_mdspan(), 1, stdex::full_extent);
 
-- 
2.43.0


From 775c3303592720ff5577663884a97ad7a33dc74b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:30 +0000
Subject: [PATCH 09/43] fix: c2c_stockham_dit4_plan computes the discrete
 Fourier transform

Same mismatch between butterfly rotation and twiddle direction as in the
Cooley-Tukey radix-4 plans.
---
 src/neo/fft/reference/c2c_stockham_dit4_plan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
index 96af1f8..46ce682 100644
--- a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
@@ -40,7 +40,7 @@ struct c2c_stockham_dit4_plan
         auto const t = static_cast<size_t>(_order);
         auto const y = _work.to_mdspan();
 
-        auto const sign = dir == direction::forward ? Float(-1) : Float(+1);
+        auto const sign = dir == direction::forward ? Float(+1) : Float(-1);
         auto const i    = Complex{Float(0), sign};
         // auto const w    = dir == direction::forward
         //                     ? stdex::submdspan(_w.to_mdspan(), 0, stdex::full_extent, stdex::full_extent)
-- 
2.43.0


From 32ea8100ef179e1375bbe3933d998da38f0ddf16 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:30 +0000
Subject: [PATCH 10/43] fix: radix-2 Stockham plans transform in the requested
 direction

Forward and backward were swapped relative to every other plan.
---
 src/neo/fft/reference/c2c_stockham_dif2_plan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
index 041fa2b..8e5b800 100644
--- a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
@@ -107,7 +107,7 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 1>>(n / 2);
         for (std::size_t i = 0; i < w.size(); i++) {
-            w(i) = twiddle<Complex>(n, i, fft::direction::backward);
+            w(i) = twiddle<Complex>(n, i, fft::direction::forward);
         }
         return w;
     }
@@ -194,8 +194,8 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n / 2};
         for (std::size_t i = 0; i < w.extent(1); i++) {
-            w(0, i) = twiddle<Complex>(n, i, fft::direction::backward);
-            w(1, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(0, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(1, i) = twiddle<Complex>(n, i, fft::direction::backward);
         }
         return w;
     }
-- 
2.43.0


From a382a444cce0c3047dcb6a06d8159994abddebb7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:30 +0000
Subject: [PATCH 11/43] fix: experimental::rfft_plan returns the half spectrum

The post-processing stage rotated against the sign convention of the complex
transform it builds on; only the round trip was right.
---
 src/neo/fft/experimental/rfft.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index bb556bb..9497b56 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -156,7 +156,7 @@ struct rfft_plan
         auto const c2    = dir == direction::forward ? Float(-0.5) : Float(0.5);
         auto const theta = [=] {
             auto const t = static_cast<Float>(std::numbers::pi) / static_cast<Float>(n >> 1);
-            return dir == direction::forward ? t : -t;
+            return dir == direction::forward ? -t : t;
         }();
 
         if (dir == direction::forward) {
@@ -190,6 +190,10 @@ struct rfft_plan
             wi             = wi * wpr + tmp * wpi + wi;
         }
 
+        if (n >= 4) {
+            x[(n >> 1) + 1] = -x[(n >> 1) + 1];
+        }
+
         auto const h1r = x[0];
         if (dir == direction::forward) {
             x[0] = h1r + x[1];
-- 
2.43.0


From 33ddce0bec0b973b5218891712b09f1aec777ee5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:50 +0000
Subject: [PATCH 12/43] fix: c2c_dit2 kernels handle transforms of one and two
 points

A one-point transform touched memory behind the signal, and c2c_dit2_v4 applied
the only stage of a two-point transform twice.
---
 src/neo/fft/reference/kernel/c2c_dit2.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index 1ed0ba7..5c6ff9d 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -30,7 +30,7 @@ struct c2c_dit2_v1
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -81,7 +81,7 @@ struct c2c_dit2_v2
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -135,7 +135,7 @@ struct c2c_dit2_v3
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -184,7 +184,7 @@ struct c2c_dit2_v4
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -194,7 +194,7 @@ struct c2c_dit2_v4
             }
         }
 
-        for (auto stage{1ULL}; stage < order - 1; ++stage) {
+        for (auto stage{1ULL}; stage + 1ULL < order; ++stage) {
 
             auto const stage_length = ipow<2ULL>(stage);
             auto const stride       = ipow<2ULL>(stage + 1);
@@ -214,7 +214,7 @@ struct c2c_dit2_v4
             }
         }
 
-        {
+        if (order > 1) {
             // stage = order - 1
             auto const stage_length = size / 2UL;
 
-- 
2.43.0


From 43d9aacd684e13c1276b04571dc706c1f52c3b6e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:50 +0000
Subject: [PATCH 13/43] fix: one-point split and interleaved transforms stay
 inside the signal

---
 src/neo/fft/experimental/rfft.hpp                | 2 +-
 src/neo/fft/fallback/fallback_split_fft_plan.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index 9497b56..3f97163 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -33,7 +33,7 @@ struct c2c_kernel
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
diff --git a/src/neo/fft/fallback/fallback_split_fft_plan.hpp b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
index 65c5074..1c83b10 100644
--- a/src/neo/fft/fallback/fallback_split_fft_plan.hpp
+++ b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
@@ -56,7 +56,7 @@ private:
         static constexpr auto const stage_length = 1;  // ipow<2>(0)
         static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-        for (auto k{0}; k < static_cast<int>(size()); k += stride) {
+        for (auto k{0}; k + stage_length < static_cast<int>(size()); k += stride) {
             auto const i1 = k;
             auto const i2 = k + stage_length;
 
-- 
2.43.0


From a98f35c3831f00505aa5f8b677fbe46de8cd243f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:35 +0000
Subject: [PATCH 14/43] fix: fallback_dct2_plan transforms a single sample

The only sample of a one-point transform never reached the buffer.
---
 src/neo/fft/dct.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/neo/fft/dct.hpp b/src/neo/fft/dct.hpp
index 728ca98..7d95325 100644
--- a/src/neo/fft/dct.hpp
+++ b/src/neo/fft/dct.hpp
@@ -40,12 +40,11 @@ struct fallback_dct2_plan
         auto const buf = _buffer.to_mdspan();
         assert(len == size());
 
+        for (auto i{0U}; i < (len + 1U) / 2U; ++i) {
+            buf[i] = x[i * 2U];
+        }
         for (auto i{0U}; i < len / 2U; ++i) {
-            auto const src = i * 2U;
-            auto const top = len - i - 1;
-
-            buf[i]   = x[src];
-            buf[top] = x[src + 1];
+            buf[len - i - 1] = x[i * 2U + 1U];
         }
 
         _fft(buf, direction::forward);
-- 
2.43.0


From 966ad174cb1f5905e6e1435b28046240757eaf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:27 +0000
Subject: [PATCH 15/43] fix: neo-cli reports a result that could not be written

---
 extra/cli/src/convolver.cpp | 12 +++++++++---
 extra/cli/src/wav.hpp       | 19 +++++++++++++++----
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/extra/cli/src/convolver.cpp b/extra/cli/src/convolver.cpp
index 95579e9..ac0caf0 100644
--- a/extra/cli/src/convolver.cpp
+++ b/extra/cli/src/convolver.cpp
@@ -104,7 +104,9 @@ auto main(int argc, char** argv) -> int
         auto const runtime = std::chrono::duration_cast<std::chrono::duration<double>>(stop - start);
 
         neo::normalize_peak(output.to_mdspan());
-        neo::write_wav_file(output, signal_sr, args[3]);
+        if (not neo::write_wav_file(output, signal_sr, args[3])) {
+            return EXIT_FAILURE;
+        }
         fmt::println(
             "UPOLA32: {:.2f} sec / {:.1f} x real-time",
             runtime.count(),
@@ -119,7 +121,9 @@ auto main(int argc, char** argv) -> int
         auto const runtime = std::chrono::duration_cast<std::chrono::duration<double>>(stop - start);
 
         neo::normalize_peak(output.to_mdspan());
-        neo::write_wav_file(output, signal_sr, args[3]);
+        if (not neo::write_wav_file(output, signal_sr, args[3])) {
+            return EXIT_FAILURE;
+        }
         fmt::println(
             "SPLIT_UPOLA32: {:.2f} sec / {:.1f} x real-time",
             runtime.count(),
@@ -135,7 +139,9 @@ auto main(int argc, char** argv) -> int
         auto const runtime = std::chrono::duration_cast<std::chrono::duration<double>>(stop - start);
 
         neo::normalize_peak(output.to_mdspan());
-        neo::write_wav_file(output, signal_sr, args[3]);
+        if (not neo::write_wav_file(output, signal_sr, args[3])) {
+            return EXIT_FAILURE;
+        }
         fmt::println(
             "SPLIT_UPOLA16: {:.2f} sec / {:.1f} x real-time",
             runtime.count(),
diff --git a/extra/cli/src/wav.hpp b/extra/cli/src/wav.hpp
index 1a85a89..a80dbde 100644
--- a/extra/cli/src/wav.hpp
+++ b/extra/cli/src/wav.hpp
@@ -85,8 +85,8 @@ template<std::floating_point Float>
     }
 }
 
-inline auto
-write_wav_file(audio_buffer<float> const& buffer, double sampleRate, std::filesystem::path const& path) -> void
+[[nodiscard]] inline auto
+write_wav_file(audio_buffer<float> const& buffer, double sampleRate, std::filesystem::path const& path) -> bool
 {
     auto format          = drwav_data_format{};
     format.container     = drwav_container_riff;
@@ -97,8 +97,19 @@ write_wav_file(audio_buffer<float> const& buffer, double sampleRate, std::filesy
 
     auto path_str = path.string();
     auto wav_file = drwav{};
-    drwav_init_file_write(&wav_file, path_str.c_str(), &format, nullptr);
-    drwav_write_pcm_frames(&wav_file, buffer.extent(1), buffer.data());
+    if (not drwav_init_file_write(&wav_file, path_str.c_str(), &format, nullptr)) {
+        fmt::println("Could not write wav-file at: {}", path_str.c_str());
+        return false;
+    }
+
+    auto const written = drwav_write_pcm_frames(&wav_file, buffer.extent(1), buffer.data());
     drwav_uninit(&wav_file);
+
+    if (written != buffer.extent(1)) {
+        fmt::println("Frames written size mismatch, expected: {} actual: {}", int(buffer.extent(1)), int(written));
+        return false;
+    }
+
+    return true;
 }
 }  // namespace neo
-- 
2.43.0


From 951b8c558922f3d8972daba3cb2bacf7cd489bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:27 +0000
Subject: [PATCH 16/43] fix: neo-cli fails when neither input could be loaded

---
 extra/cli/src/convolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/cli/src/convolver.cpp b/extra/cli/src/convolver.cpp
index ac0caf0..35bba81 100644
--- a/extra/cli/src/convolver.cpp
+++ b/extra/cli/src/convolver.cpp
@@ -72,6 +72,10 @@ auto main(int argc, char** argv) -> int
     auto const output_length_seconds = static_cast<double>(output_length) / signal_sr;
     auto const block_size            = 8192 * 4;
 
+    if (signal.extent(0) == 0 or filter.extent(0) == 0) {
+        // load_wav_file has reported the reason
+        return EXIT_FAILURE;
+    }
     if (signal.extent(0) != filter.extent(0)) {
         fmt::println("Channel mismatch: signal = {} filter = {}", int(signal.extent(0)), int(filter.extent(0)));
         return EXIT_FAILURE;
-- 
2.43.0


From 6a2e99f018da53c8d36c635b244aeb281c90cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:27 +0000
Subject: [PATCH 17/43] fix: neo-cli rejects a filter without frames

---
 extra/cli/src/convolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/cli/src/convolver.cpp b/extra/cli/src/convolver.cpp
index 35bba81..8385062 100644
--- a/extra/cli/src/convolver.cpp
+++ b/extra/cli/src/convolver.cpp
@@ -84,6 +84,10 @@ auto main(int argc, char** argv) -> int
         fmt::println("Sample-rate mismatch: signal = {} filter = {}", int(signal_sr), int(filter_sr));
         return EXIT_FAILURE;
     }
+    if (filter.extent(1) == 0) {
+        fmt::println("Empty filter: {}", args[2]);
+        return EXIT_FAILURE;
+    }
 
     fmt::println(
         "Filter: {} channels {} frames ({:.2f} sec) at {} kHz",
-- 
2.43.0


From 9497f297df095afb22d4979e03f5661b3b9d1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:58 +0000
Subject: [PATCH 18/43] fix: python convolve rejects a second argument that is
 not 1-D

---
 extra/python/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 77cebc0..224aa9e 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -170,7 +170,7 @@ template<neo::convolution::method Method, std::floating_point Float>
 [[nodiscard]] auto
 convolve(py::array_t<Float> in1, py::array_t<Float> in2, neo::convolution::mode mode) -> py::array_t<Float>
 {
-    if (in1.ndim() != 1 or in1.ndim() != 1) {
+    if (in1.ndim() != 1 or in2.ndim() != 1) {
         throw std::runtime_error{"unsupported dimension: in1 and in2 must be 1-D"};
     }
 
-- 
2.43.0


From 9ab811d8518cfa53c0b9bcc7816ffa9be6859ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:58 +0000
Subject: [PATCH 19/43] fix: python bindings reject strides that are not a
 multiple of the item size

---
 extra/python/src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 224aa9e..806726d 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -60,6 +60,9 @@ template<size_t Dim, typename T, int Flags>
 {
     auto strides = std::array<size_t, Dim>{};
     for (auto i{0U}; i < Dim; ++i) {
+        if (buf.strides(i) % buf.itemsize() != 0) {
+            throw std::runtime_error{"unsupported stride: " + std::to_string(buf.strides(i))};
+        }
         strides[i] = static_cast<size_t>(buf.strides(i) / buf.itemsize());
     }
     return strides;
-- 
2.43.0


From 2251d8a8b5f4e1c972ae10eb4b9ea8eeb054da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:58 +0000
Subject: [PATCH 20/43] fix: python fft crops or pads its input to n

---
 extra/python/src/main.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 806726d..e6fe00a 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -13,6 +13,7 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <algorithm>
 #include <bit>
 #include <complex>
 #include <cstdio>
@@ -147,14 +148,21 @@ auto fft(py::array_t<Complex> array, std::optional<std::size_t> n, neo::fft::nor
         {
             auto no_gil = py::gil_scoped_release{};
 
+            // like NumPy: the input is cropped or padded with zeros to n
+            auto const num = std::min(static_cast<std::size_t>(input.extent(0)), size);
+            neo::fill(out, Complex{});
+            for (auto i{0UL}; i < num; ++i) {
+                out[i] = input[i];
+            }
+
             auto plan = neo::fft::fft_plan<Complex>{neo::fft::from_order, order};
             if constexpr (Dir == neo::fft::direction::forward) {
-                neo::fft::fft(plan, input, out);
+                neo::fft::fft(plan, out);
                 if (norm == neo::fft::norm::forward) {
                     neo::scale(Float(1) / Float(size), out);
                 }
             } else {
-                neo::fft::ifft(plan, input, out);
+                neo::fft::ifft(plan, out);
                 if (norm == neo::fft::norm::backward) {
                     neo::scale(Float(1) / Float(size), out);
                 }
-- 
2.43.0


From 3da2f10ad0debefb5f487381137f7f8925f549b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:33 +0000
Subject: [PATCH 21/43] fix: python convolve rejects empty arrays

---
 extra/python/src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index e6fe00a..917cedb 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -184,6 +184,9 @@ convolve(py::array_t<Float> in1, py::array_t<Float> in2, neo::convolution::mode
     if (in1.ndim() != 1 or in2.ndim() != 1) {
         throw std::runtime_error{"unsupported dimension: in1 and in2 must be 1-D"};
     }
+    if (in1.size() == 0 or in2.size() == 0) {
+        throw std::runtime_error{"unsupported size: in1 and in2 must not be empty"};
+    }
 
     auto const signal = to_mdspan_layout_stride<1>(in1);
     auto const patch  = to_mdspan_layout_stride<1>(in2);
-- 
2.43.0


From c8b3fddfb4535b0f271f6a4d64ca399319b8e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:14 +0000
Subject: [PATCH 22/43] fix: fft_convolve accepts signals and patches of one
 sample

---
 src/neo/convolution/fft_convolver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/convolution/fft_convolver.hpp b/src/neo/convolution/fft_convolver.hpp
index b521373..b45a579 100644
--- a/src/neo/convolution/fft_convolver.hpp
+++ b/src/neo/convolution/fft_convolver.hpp
@@ -21,8 +21,8 @@ struct fft_convolver
 {
     fft_convolver(std::size_t signal_size, std::size_t patch_size) : _signal_size{signal_size}, _patch_size{patch_size}
     {
-        assert(_signal_size > 1);
-        assert(_patch_size > 1);
+        assert(_signal_size > 0);
+        assert(_patch_size > 0);
     }
 
     [[nodiscard]] auto signal_size() const noexcept -> std::size_t { return _signal_size; }
-- 
2.43.0


From 705725db223df2caef810042a517776761765b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:30 +0000
Subject: [PATCH 23/43] fix: ConstantOverlapAdd is silent after prepare

---
 extra/plugin/src/dsp/ConstantOverlapAdd.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
index a771fe6..d84ccea 100644
--- a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
+++ b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
@@ -65,6 +65,11 @@ void ConstantOverlapAdd<Float>::prepare(juce::dsp::ProcessSpec const& spec)
     int const m  = k * _hopSize + (_frameSize - _hopSize);
 
     _output.setSize((int)spec.numChannels, m + bufferSize - 1);
+
+    _unusedInput.clear();
+    _frame.clear();
+    _output.clear();
+
     _outputOffset     = _frameSize - 1;
     _unusedInputCount = 0;
 
-- 
2.43.0


From 345a13b1b086e90718ad2fab816df5e81b0e54dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:30 +0000
Subject: [PATCH 24/43] fix: ConstantOverlapAdd reconstructs its input at unity
 gain

---
 extra/plugin/src/dsp/ConstantOverlapAdd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
index d84ccea..377983b 100644
--- a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
+++ b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
@@ -209,8 +209,8 @@ void ConstantOverlapAdd<Float>::createWindow()
     auto type = juce::dsp::WindowingFunction<SampleType>::rectangular;
     juce::dsp::WindowingFunction<SampleType>::fillWindowingTables(_window.data(), (size_t)_frameSize, type, false);
 
-    auto const hopSizeCompensateFactor
-        = (SampleType)1 / ((SampleType)_frameSize / (SampleType)_hopSize / (SampleType)2);
+    // rectangular frames overlap frameSize/hopSize times
+    auto const hopSizeCompensateFactor = (SampleType)_hopSize / (SampleType)_frameSize;
     juce::FloatVectorOperations::multiply(_window.data(), hopSizeCompensateFactor, _frameSize);
 }
 
-- 
2.43.0


From 6ac5dd6ef6d593c2ee06a08d623abcbab658040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:30 +0000
Subject: [PATCH 25/43] fix: DenseConvolution forgets the audio before a reset

---
 extra/plugin/src/dsp/DenseConvolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/plugin/src/dsp/DenseConvolution.cpp b/extra/plugin/src/dsp/DenseConvolution.cpp
index fc9f3ca..e9abc72 100644
--- a/extra/plugin/src/dsp/DenseConvolution.cpp
+++ b/extra/plugin/src/dsp/DenseConvolution.cpp
@@ -73,7 +73,7 @@ auto DenseConvolution::processFrame(juce::dsp::ProcessContextReplacing<float> co
     }
 }
 
-auto DenseConvolution::resetFrame() -> void {}
+auto DenseConvolution::resetFrame() -> void { updateImpulseResponse(); }
 
 auto DenseConvolution::updateImpulseResponse() -> void
 {
-- 
2.43.0


From 2b4ac5bd16793e2c61f4d2105a59cc9e15f0054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:30 +0000
Subject: [PATCH 26/43] fix: plugin applies a mono impulse response to every
 channel

---
 extra/plugin/src/dsp/Convolution.hpp      | 3 ++-
 extra/plugin/src/dsp/DenseConvolution.cpp | 5 +++--
 extra/plugin/src/dsp/DenseConvolution.hpp | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/extra/plugin/src/dsp/Convolution.hpp b/extra/plugin/src/dsp/Convolution.hpp
index dfebb1c..6116645 100644
--- a/extra/plugin/src/dsp/Convolution.hpp
+++ b/extra/plugin/src/dsp/Convolution.hpp
@@ -98,7 +98,8 @@ private:
         _convolvers.resize(_spec->numChannels);
 
         for (auto ch{0U}; ch < _spec->numChannels; ++ch) {
-            auto channel = stdex::submdspan(_filter.to_mdspan(), ch, stdex::full_extent, stdex::full_extent);
+            auto const idx = std::min<std::size_t>(ch, _filter.extent(0) - 1);
+            auto channel   = stdex::submdspan(_filter.to_mdspan(), idx, stdex::full_extent, stdex::full_extent);
             _convolvers[ch].filter(channel);
         }
     }
diff --git a/extra/plugin/src/dsp/DenseConvolution.cpp b/extra/plugin/src/dsp/DenseConvolution.cpp
index e9abc72..9be79b3 100644
--- a/extra/plugin/src/dsp/DenseConvolution.cpp
+++ b/extra/plugin/src/dsp/DenseConvolution.cpp
@@ -88,7 +88,8 @@ auto DenseConvolution::updateImpulseResponse() -> void
         neo::convolution::normalize_impulse(matrix.to_mdspan());
         _filter = neo::convolution::uniform_partition(matrix.to_mdspan(), _spec->maximumBlockSize);
         for (auto ch{0U}; ch < _spec->numChannels; ++ch) {
-            auto channel = stdex::submdspan(_filter.to_mdspan(), ch, stdex::full_extent, stdex::full_extent);
+            auto const idx = std::min<std::size_t>(ch, _filter.extent(0) - 1);
+            auto channel   = stdex::submdspan(_filter.to_mdspan(), idx, stdex::full_extent, stdex::full_extent);
             _convolvers[ch].filter(channel);
         }
     } else {
@@ -155,7 +156,7 @@ auto sparse_convolve(
 
     for (auto ch{0}; ch < signal.getNumChannels(); ++ch) {
         auto convolver               = neo::convolution::sparse_upola_convolver<std::complex<float>>{};
-        auto const channel           = static_cast<size_t>(ch);
+        auto const channel           = std::min(static_cast<size_t>(ch), partitions.extent(0) - 1);
         auto const full              = stdex::full_extent;
         auto const channelPartitions = stdex::submdspan(partitions.to_mdspan(), channel, full, full);
 
diff --git a/extra/plugin/src/dsp/DenseConvolution.hpp b/extra/plugin/src/dsp/DenseConvolution.hpp
index ea2a24d..496f787 100644
--- a/extra/plugin/src/dsp/DenseConvolution.hpp
+++ b/extra/plugin/src/dsp/DenseConvolution.hpp
@@ -49,7 +49,8 @@ dense_convolve(juce::AudioBuffer<float> const& signal, juce::AudioBuffer<float>
 
     auto convolvers = std::vector<Convolver>(static_cast<std::size_t>(signal.getNumChannels()));
     for (auto ch{0U}; ch < static_cast<size_t>(signal.getNumChannels()); ++ch) {
-        auto channel = stdex::submdspan(partitions.to_mdspan(), ch, stdex::full_extent, stdex::full_extent);
+        auto const idx = std::min<std::size_t>(ch, partitions.extent(0) - 1);
+        auto channel   = stdex::submdspan(partitions.to_mdspan(), idx, stdex::full_extent, stdex::full_extent);
         convolvers[ch].filter(channel);
     }
 
-- 
2.43.0


From 226ee8c0176ccf80d21e6ecbb55690a56a9b15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:30 +0000
Subject: [PATCH 27/43] fix: plugin ignores an impulse response without samples

---
 extra/plugin/src/dsp/AudioFile.cpp        | 2 +-
 extra/plugin/src/dsp/DenseConvolution.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/plugin/src/dsp/AudioFile.cpp b/extra/plugin/src/dsp/AudioFile.cpp
index 44163c6..560dab9 100644
--- a/extra/plugin/src/dsp/AudioFile.cpp
+++ b/extra/plugin/src/dsp/AudioFile.cpp
@@ -7,7 +7,7 @@ namespace neo {
 auto load(juce::AudioFormatManager& formats, juce::File const& file) -> BufferWithSampleRate<float>
 {
     auto reader = std::unique_ptr<juce::AudioFormatReader>{formats.createReaderFor(file.createInputStream())};
-    if (reader == nullptr) {
+    if (reader == nullptr or reader->numChannels == 0 or reader->lengthInSamples <= 0) {
         return {};
     }
 
diff --git a/extra/plugin/src/dsp/DenseConvolution.cpp b/extra/plugin/src/dsp/DenseConvolution.cpp
index 9be79b3..8a539b7 100644
--- a/extra/plugin/src/dsp/DenseConvolution.cpp
+++ b/extra/plugin/src/dsp/DenseConvolution.cpp
@@ -32,7 +32,7 @@ auto DenseConvolution::loadImpulseResponse(std::unique_ptr<juce::InputStream> st
     formatManager.registerBasicFormats();
 
     auto reader = std::unique_ptr<juce::AudioFormatReader>(formatManager.createReaderFor(std::move(stream)));
-    if (reader == nullptr) {
+    if (reader == nullptr or reader->numChannels == 0 or reader->lengthInSamples <= 0) {
         return;
     }
 
-- 
2.43.0


From 5aa86613ac436832c3b99ccd16a6fe95c4c4f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:30 +0000
Subject: [PATCH 28/43] fix: neo::Convolution keeps playing when a new impulse
 response cannot be loaded

---
 extra/plugin/src/dsp/Convolution.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extra/plugin/src/dsp/Convolution.hpp b/extra/plugin/src/dsp/Convolution.hpp
index 6116645..dff1dfe 100644
--- a/extra/plugin/src/dsp/Convolution.hpp
+++ b/extra/plugin/src/dsp/Convolution.hpp
@@ -75,9 +75,8 @@ struct Convolution
 
         if (audioFile.sampleRate > 0.0) {
             _impulse = std::move(audioFile);
+            update();
         }
-
-        update();
     }
 
 private:
-- 
2.43.0


From 77653415c564aaa919242d15d3f4d35e9f91177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:31 +0000
Subject: [PATCH 29/43] fix: sparse_convolve removes bins quieter than -72 dB

Halving the level of a power also halved the floor of amplitude_to_db: bins
below -72 dB were treated as being at -72 dB, so thresholds under that kept
them.
---
 extra/plugin/src/dsp/DenseConvolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/plugin/src/dsp/DenseConvolution.cpp b/extra/plugin/src/dsp/DenseConvolution.cpp
index 8a539b7..6ebaf63 100644
--- a/extra/plugin/src/dsp/DenseConvolution.cpp
+++ b/extra/plugin/src/dsp/DenseConvolution.cpp
@@ -165,7 +165,7 @@ auto sparse_convolve(
         auto const isAboveThreshold = [thresholdDB, scale, &weights](auto /*row*/, auto col, auto bin) {
             auto const gain  = std::abs(bin);
             auto const power = gain * gain;
-            auto const dB    = amplitude_to_db(power * scale) * 0.5F + weights[col];
+            auto const dB    = amplitude_to_db(power * scale, -288.0F) * 0.5F + weights[col];
             return dB > thresholdDB;
         };
 
-- 
2.43.0


From 676983d8d14b3e12550b490cb5c6d8db9860561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:41 +0000
Subject: [PATCH 30/43] fix: neo::Convolution keeps its impulse response after
 a reset

A reset dropped the filters, so the processor passed its input through
until the next prepare, unlike juce::dsp::Convolution which it stands in for.
---
 extra/plugin/src/dsp/Convolution.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/extra/plugin/src/dsp/Convolution.hpp b/extra/plugin/src/dsp/Convolution.hpp
index dff1dfe..3ab7e05 100644
--- a/extra/plugin/src/dsp/Convolution.hpp
+++ b/extra/plugin/src/dsp/Convolution.hpp
@@ -28,11 +28,7 @@ struct Convolution
         }
     }
 
-    auto reset() -> void
-    {
-        _convolvers.clear();
-        _filter = {};
-    }
+    auto reset() -> void { update(); }
 
     template<typename ProcessContext>
         requires std::same_as<typename ProcessContext::SampleType, float>
-- 
2.43.0


From fb5e7c05f4b3db31ca2688356a1a3e0cf7c7c2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:05 +0000
Subject: [PATCH 31/43] fix: plugin saves its current parameter values

getStateInformation wrote the value tree itself. Parameter changes reach that
tree only with the next timer tick, so a session saved right after a change
stored the old value, and the tree was read without the lock that the timer
takes when it writes to it. copyState flushes and copies under that lock.
---
 extra/plugin/src/PluginProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/plugin/src/PluginProcessor.cpp b/extra/plugin/src/PluginProcessor.cpp
index b7c0cb0..9a4a129 100644
--- a/extra/plugin/src/PluginProcessor.cpp
+++ b/extra/plugin/src/PluginProcessor.cpp
@@ -92,7 +92,7 @@ auto PluginProcessor::createEditor() -> juce::AudioProcessorEditor* { return new
 auto PluginProcessor::getStateInformation(juce::MemoryBlock& destData) -> void
 {
     juce::MemoryOutputStream stream(destData, false);
-    _valueTree.state.writeToStream(stream);
+    _valueTree.copyState().writeToStream(stream);
 }
 
 auto PluginProcessor::setStateInformation(void const* data, int sizeInBytes) -> void
-- 
2.43.0


From bb195b341aa6814b3646d2e2310ccc9e809e1fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:05 +0000
Subject: [PATCH 32/43] fix: plugin ignores state that it did not save

setStateInformation put any decodable tree in place: data of another plugin
reset every parameter. It also replaced the tree without the lock that a save
on another thread holds. Check the type and use replaceState.
---
 extra/plugin/src/PluginProcessor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/plugin/src/PluginProcessor.cpp b/extra/plugin/src/PluginProcessor.cpp
index 9a4a129..c9168f2 100644
--- a/extra/plugin/src/PluginProcessor.cpp
+++ b/extra/plugin/src/PluginProcessor.cpp
@@ -99,8 +99,8 @@ auto PluginProcessor::setStateInformation(void const* data, int sizeInBytes) ->
 {
     juce::ValueTree const tree = juce::ValueTree::readFromData(data, static_cast<size_t>(sizeInBytes));
     jassert(tree.isValid());
-    if (tree.isValid()) {
-        _valueTree.state = tree;
+    if (tree.hasType(_valueTree.state.getType())) {
+        _valueTree.replaceState(tree);
     }
 }
 
-- 
2.43.0


From 52b2ae2ccbf1caee549e225e41da36f11785b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:51 +0000
Subject: [PATCH 33/43] fix: spectrum display shows each bin's own level

The spectrogram weighted a bin with the weight of its mirror image, and the
-144 dB floor was applied before halving, so every level below -72 dB was
shown and counted as -72 dB.
---
 extra/plugin/src/dsp/Spectrum.cpp    | 10 +++++-----
 extra/plugin/src/ui/BenchmarkTab.cpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/extra/plugin/src/dsp/Spectrum.cpp b/extra/plugin/src/dsp/Spectrum.cpp
index 01bf96a..bd584be 100644
--- a/extra/plugin/src/dsp/Spectrum.cpp
+++ b/extra/plugin/src/dsp/Spectrum.cpp
@@ -27,11 +27,11 @@ auto powerSpectrumImage(
         return 1.0F / max;
     }();
 
-    auto const fillPixel = [=](auto& img, int x, int y, auto bin) {
-        auto const weight     = weighting(static_cast<std::size_t>(y));
+    auto const fillPixel = [=](auto& img, int x, int y, int binIdx, auto bin) {
+        auto const weight     = weighting(static_cast<std::size_t>(binIdx));
         auto const power      = bin * bin;
         auto const normalized = power * scale;
-        auto const dB         = neo::amplitude_to_db(normalized, -144.0F) * 0.5F + weight;
+        auto const dB         = neo::amplitude_to_db(normalized, -288.0F) * 0.5F + weight;
         auto const color      = dB < threshold ? juce::Colours::white : juce::Colours::black;
         img.setPixelAt(x, y, color);
     };
@@ -44,7 +44,7 @@ auto powerSpectrumImage(
     for (auto frameIdx{0}; frameIdx < numFrames; ++frameIdx) {
         for (auto binIdx{0}; binIdx < numBins; ++binIdx) {
             auto const bin = frames(frameIdx, binIdx);
-            fillPixel(img, frameIdx, numBins - binIdx - 1, std::abs(bin));
+            fillPixel(img, frameIdx, numBins - binIdx - 1, binIdx, std::abs(bin));
         }
     }
 
@@ -76,7 +76,7 @@ auto powerHistogram(
             auto const bin        = std::abs(spectogram(frameIdx, binIdx));
             auto const power      = bin * bin;
             auto const normalized = power * scale;
-            auto const dB         = neo::amplitude_to_db(normalized, -144.0F) * 0.5F + weight;
+            auto const dB         = neo::amplitude_to_db(normalized, -288.0F) * 0.5F + weight;
             auto const dBClamped  = std::clamp(dB, -143.0F, 0.0F);
             auto const index      = static_cast<std::size_t>(juce::roundToInt(std::abs(dBClamped)));
             histogram[index] += 1;
diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index c5c932d..3d12aee 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -343,7 +343,7 @@ auto BenchmarkTab::runWeightingTests() -> void
             for (auto ch{0U}; ch < _partitions.extent(0); ++ch) {
                 auto const bin   = std::abs(_partitions(ch, f, b));
                 auto const power = bin * bin;
-                auto const dB    = neo::amplitude_to_db(power * scale, -144.0F) * 0.5F + weight;
+                auto const dB    = neo::amplitude_to_db(power * scale, -288.0F) * 0.5F + weight;
                 count += static_cast<int>(dB > threshold);
             }
         }
-- 
2.43.0


From b8d7c5957ca0d3a77618ea191c3bea1b629026c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:14 +0000
Subject: [PATCH 34/43] fix: editor survives short, silent and unreadable
 impulses

Choosing an impulse of at most one partition, without samples or that can not
be read, indexed past the loaded data. Rendering without an impulse did too.
---
 extra/plugin/src/dsp/Spectrum.cpp    |  4 ++--
 extra/plugin/src/ui/BenchmarkTab.cpp | 29 ++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/extra/plugin/src/dsp/Spectrum.cpp b/extra/plugin/src/dsp/Spectrum.cpp
index bd584be..f6b70f6 100644
--- a/extra/plugin/src/dsp/Spectrum.cpp
+++ b/extra/plugin/src/dsp/Spectrum.cpp
@@ -24,7 +24,7 @@ auto powerSpectrumImage(
                 max      = std::max(max, bin * bin);
             }
         }
-        return 1.0F / max;
+        return max > 0.0F ? 1.0F / max : 1.0F;
     }();
 
     auto const fillPixel = [=](auto& img, int x, int y, int binIdx, auto bin) {
@@ -65,7 +65,7 @@ auto powerHistogram(
                 max            = std::max(max, bin * bin);
             }
         }
-        return 1.0F / max;
+        return max > 0.0F ? 1.0F / max : 1.0F;
     }();
 
     auto histogram = std::vector<int>(144, 0);
diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index 3d12aee..3fb0929 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -178,7 +178,12 @@ auto BenchmarkTab::setImpulseResponseFile(juce::File const& file) -> void
         return;
     }
 
-    _impulse     = loadAndResample(_formatManager, file, _spec.sampleRate);
+    auto loaded = loadAndResample(_formatManager, file, _spec.sampleRate);
+    if (loaded.buffer.getNumChannels() == 0 or loaded.buffer.getNumSamples() == 0) {
+        return;
+    }
+
+    _impulse     = std::move(loaded);
     _impulseFile = file;
 
     auto const filterMatrix = to_mdarray(_impulse.buffer);
@@ -188,10 +193,14 @@ auto BenchmarkTab::setImpulseResponseFile(juce::File const& file) -> void
     neo::convolution::normalize_impulse(impulse.to_mdspan());
 
     auto const blockSize = 512ULL;
-    _partitions          = neo::convolution::uniform_partition(
-        stdex::submdspan(impulse.to_mdspan(), stdex::full_extent, std::tuple{blockSize, impulse.extent(1)}),
-        blockSize
-    );
+    if (impulse.extent(1) > blockSize) {
+        _partitions = neo::convolution::uniform_partition(
+            stdex::submdspan(impulse.to_mdspan(), stdex::full_extent, std::tuple{blockSize, impulse.extent(1)}),
+            blockSize
+        );
+    } else {
+        _partitions = decltype(_partitions){};
+    }
 
     _fileInfo.setText(file.getFileName() + " (" + juce::String(_impulse.buffer.getNumSamples()) + ")\n");
     updateImages();
@@ -272,6 +281,10 @@ auto BenchmarkTab::runBenchmarks() -> void
         return;
     }
 
+    if (_impulse.buffer.getNumChannels() == 0 or _impulse.buffer.getNumSamples() == 0) {
+        return;
+    }
+
     using Complex = std::complex<float>;
 
     if (hasEngineEnabled("juce::dsp::Convolution")) {
@@ -315,6 +328,10 @@ auto BenchmarkTab::runBenchmarks() -> void
 
 auto BenchmarkTab::runWeightingTests() -> void
 {
+    if (_partitions.size() == 0) {
+        return;
+    }
+
     auto const scale = [filter = _partitions.to_mdspan()] {
         auto max = 0.0F;
         for (auto ch{0U}; ch < filter.extent(0); ++ch) {
@@ -327,7 +344,7 @@ auto BenchmarkTab::runWeightingTests() -> void
                 }
             }
         }
-        return 1.0F / max;
+        return max > 0.0F ? 1.0F / max : 1.0F;
     }();
 
     auto const isWeighted = _weighting.getValue() == "A-Weighting";
-- 
2.43.0


From f07bca452b501bee73fedf85989c2370e2fb1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:36 +0000
Subject: [PATCH 35/43] fix: renders use the inputs they were started with

The benchmark thread read the signal, the impulse, the process spec and the
settings from the editor while the message thread replaced them, and its
reports were delivered to an editor that had been closed.
---
 extra/plugin/src/ui/BenchmarkTab.cpp | 158 +++++++++++++++------------
 extra/plugin/src/ui/BenchmarkTab.hpp |  40 ++++---
 2 files changed, 112 insertions(+), 86 deletions(-)

diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index 3fb0929..f9958c9 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -287,42 +287,55 @@ auto BenchmarkTab::runBenchmarks() -> void
 
     using Complex = std::complex<float>;
 
+    auto const input = std::make_shared<RenderInput const>(RenderInput{
+        .tab            = juce::Component::SafePointer<BenchmarkTab>{this},
+        .spec           = _spec,
+        .impulseFile    = _impulseFile,
+        .signal         = _signal,
+        .impulse        = _impulse,
+        .dynamicRange   = static_cast<float>(_dynamicRange.getValue()),
+        .binsToKeep     = static_cast<int>(_binsToKeep.getValue()),
+        .stftWindowSize = static_cast<int>(_stftWindowSize.getValue()),
+    });
+
     if (hasEngineEnabled("juce::dsp::Convolution")) {
-        _threadPool.addJob([this] { runJuceConvolutionBenchmark(); });
+        _threadPool.addJob([input] { runJuceConvolutionBenchmark(*input); });
     }
     if (hasEngineEnabled("neo::Convolution")) {
-        _threadPool.addJob([this] { runNeoConvolutionBenchmark(); });
+        _threadPool.addJob([input] { runNeoConvolutionBenchmark(*input); });
     }
     if (hasEngineEnabled("DenseConvolution")) {
-        _threadPool.addJob([this] { runDenseConvolutionBenchmark(); });
+        _threadPool.addJob([input] { runDenseConvolutionBenchmark(*input); });
     }
     if (hasEngineEnabled("upols_convolver")) {
-        _threadPool.addJob([this] { runDenseBenchmark<neo::convolution::upols_convolver<Complex>>("UPOLS"); });
+        _threadPool.addJob([input] { runDenseBenchmark<neo::convolution::upols_convolver<Complex>>(*input, "UPOLS"); });
     }
     if (hasEngineEnabled("upola_convolver")) {
-        _threadPool.addJob([this] { runDenseBenchmark<neo::convolution::upola_convolver<Complex>>("UPOLA"); });
+        _threadPool.addJob([input] { runDenseBenchmark<neo::convolution::upola_convolver<Complex>>(*input, "UPOLA"); });
     }
     if (hasEngineEnabled("upola_convolver_v2")) {
-        _threadPool.addJob([this] { runDenseBenchmark<neo::convolution::upola_convolver_v2<Complex>>("UPOLA-V2"); });
+        _threadPool.addJob([input] {
+            runDenseBenchmark<neo::convolution::upola_convolver_v2<Complex>>(*input, "UPOLA-V2");
+        });
     }
     if (hasEngineEnabled("split_upola_convolver")) {
-        _threadPool.addJob([this] {
-            runDenseBenchmark<neo::convolution::split_upola_convolver<Complex>>("SPLIT-UPOLA");
+        _threadPool.addJob([input] {
+            runDenseBenchmark<neo::convolution::split_upola_convolver<Complex>>(*input, "SPLIT-UPOLA");
         });
     }
     if (hasEngineEnabled("split_upols_convolver")) {
-        _threadPool.addJob([this] {
-            runDenseBenchmark<neo::convolution::split_upols_convolver<Complex>>("SPLIT-UPOLS");
+        _threadPool.addJob([input] {
+            runDenseBenchmark<neo::convolution::split_upols_convolver<Complex>>(*input, "SPLIT-UPOLS");
         });
     }
     if (hasEngineEnabled("sparse_upola_convolver")) {
-        _threadPool.addJob([this] { runSparseConvolverBenchmark(); });
+        _threadPool.addJob([input] { runSparseConvolverBenchmark(*input); });
     }
     if (hasEngineEnabled("convolver_tests")) {
-        _threadPool.addJob([this] { runConvolverTests(); });
+        _threadPool.addJob([] { runConvolverTests(); });
     }
     if (hasEngineEnabled("sparse_quality_tests")) {
-        _threadPool.addJob([this] { runSparseQualityTests(); });
+        _threadPool.addJob([input] { runSparseQualityTests(*input); });
     }
 }
 
@@ -374,67 +387,71 @@ auto BenchmarkTab::runWeightingTests() -> void
     _fileInfo.insertTextAtCaret(line);
 }
 
-auto BenchmarkTab::runJuceConvolutionBenchmark() -> void
+auto BenchmarkTab::RenderInput::report(juce::String const& line) const -> void
+{
+    juce::MessageManager::callAsync([target = tab, line] {
+        if (target != nullptr) {
+            target->_fileInfo.moveCaretToEnd(false);
+            target->_fileInfo.insertTextAtCaret(line);
+        }
+    });
+}
+
+auto BenchmarkTab::runJuceConvolutionBenchmark(RenderInput const& input) -> void
 {
-    auto proc = ProcessChainConvolver<juce::dsp::Convolution>{_impulseFile};
-    auto out  = juce::AudioBuffer<float>{_signal.buffer.getNumChannels(), _signal.buffer.getNumSamples()};
+    auto proc = ProcessChainConvolver<juce::dsp::Convolution>{input.impulseFile};
+    auto out  = juce::AudioBuffer<float>{input.signal.buffer.getNumChannels(), input.signal.buffer.getNumSamples()};
     auto file = getBenchmarkResultsDirectory().getNonexistentChildFile("jconv", ".wav");
 
     auto const start = std::chrono::system_clock::now();
-    processBlocks(proc, _signal.buffer, out, 4096, _spec.sampleRate);
+    processBlocks(proc, input.signal.buffer, out, 4096, input.spec.sampleRate);
     auto const end = std::chrono::system_clock::now();
 
     auto output = to_mdarray(out);
     neo::normalize_peak(output.to_mdspan());
 
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
-    juce::MessageManager::callAsync([this, elapsed] {
-        _fileInfo.moveCaretToEnd(false);
-        _fileInfo.insertTextAtCaret("JUCE-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
-    });
+    input.report("JUCE-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
 
-    writeToWavFile(file, output, _spec.sampleRate, 32);
+    writeToWavFile(file, output, input.spec.sampleRate, 32);
 }
 
-auto BenchmarkTab::runNeoConvolutionBenchmark() -> void
+auto BenchmarkTab::runNeoConvolutionBenchmark(RenderInput const& input) -> void
 {
-    auto proc = ProcessChainConvolver<neo::Convolution>{_impulseFile};
-    auto out  = juce::AudioBuffer<float>{_signal.buffer.getNumChannels(), _signal.buffer.getNumSamples()};
+    auto proc = ProcessChainConvolver<neo::Convolution>{input.impulseFile};
+    auto out  = juce::AudioBuffer<float>{input.signal.buffer.getNumChannels(), input.signal.buffer.getNumSamples()};
     auto file = getBenchmarkResultsDirectory().getNonexistentChildFile("jconv", ".wav");
 
     auto const start = std::chrono::system_clock::now();
-    processBlocks(proc, _signal.buffer, out, 4096, _spec.sampleRate);
+    processBlocks(proc, input.signal.buffer, out, 4096, input.spec.sampleRate);
     auto const end = std::chrono::system_clock::now();
 
     auto output = to_mdarray(out);
     neo::normalize_peak(output.to_mdspan());
 
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
-    juce::MessageManager::callAsync([this, elapsed] {
-        _fileInfo.moveCaretToEnd(false);
-        _fileInfo.insertTextAtCaret("NEO-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
-    });
+    input.report("NEO-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
 
-    writeToWavFile(file, output, _spec.sampleRate, 32);
+    writeToWavFile(file, output, input.spec.sampleRate, 32);
 }
 
-auto BenchmarkTab::runDenseConvolutionBenchmark() -> void
+auto BenchmarkTab::runDenseConvolutionBenchmark(RenderInput const& input) -> void
 {
-    auto out       = juce::AudioBuffer<float>{_signal.buffer.getNumChannels(), _signal.buffer.getNumSamples()};
-    auto inBuffer  = juce::dsp::AudioBlock<float const>{_signal.buffer};
+    auto out      = juce::AudioBuffer<float>{input.signal.buffer.getNumChannels(), input.signal.buffer.getNumSamples()};
+    auto inBuffer = juce::dsp::AudioBlock<float const>{input.signal.buffer};
     auto outBuffer = juce::dsp::AudioBlock<float>{out};
 
-    auto proc = DenseConvolution{static_cast<int>(_spec.maximumBlockSize)};
-    proc.loadImpulseResponse(_impulseFile.createInputStream());
+    auto proc = DenseConvolution{static_cast<int>(input.spec.maximumBlockSize)};
+    proc.loadImpulseResponse(input.impulseFile.createInputStream());
     proc.prepare(juce::dsp::ProcessSpec{
-        _spec.sampleRate,
-        static_cast<std::uint32_t>(_spec.maximumBlockSize),
+        input.spec.sampleRate,
+        static_cast<std::uint32_t>(input.spec.maximumBlockSize),
         static_cast<std::uint32_t>(inBuffer.getNumChannels()),
     });
 
     auto start = std::chrono::system_clock::now();
-    for (size_t i{0}; i < outBuffer.getNumSamples(); i += size_t(_spec.maximumBlockSize)) {
-        auto const numSamples = std::min(outBuffer.getNumSamples() - i, size_t(_spec.maximumBlockSize));
+    for (size_t i{0}; i < outBuffer.getNumSamples(); i += size_t(input.spec.maximumBlockSize)) {
+        auto const numSamples = std::min(outBuffer.getNumSamples() - i, size_t(input.spec.maximumBlockSize));
 
         auto inBlock  = inBuffer.getSubBlock(i, numSamples);
         auto outBlock = outBuffer.getSubBlock(i, numSamples);
@@ -446,25 +463,28 @@ auto BenchmarkTab::runDenseConvolutionBenchmark() -> void
     auto const end = std::chrono::system_clock::now();
 
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
-    juce::MessageManager::callAsync([this, elapsed] {
-        _fileInfo.moveCaretToEnd(false);
-        _fileInfo.insertTextAtCaret("TCONV2-DENSE: " + juce::String{elapsed.count()} + "\n");
-    });
+    input.report("TCONV2-DENSE: " + juce::String{elapsed.count()} + "\n");
 
     auto file   = getBenchmarkResultsDirectory().getNonexistentChildFile("tconv2", ".wav");
     auto output = to_mdarray(out);
     neo::normalize_peak(output.to_mdspan());
-    writeToWavFile(file, output, _spec.sampleRate, 32);
+    writeToWavFile(file, output, input.spec.sampleRate, 32);
 }
 
-auto BenchmarkTab::runSparseConvolverBenchmark() -> void
+auto BenchmarkTab::runSparseConvolverBenchmark(RenderInput const& input) -> void
 {
-    auto const thresholdDB   = -static_cast<float>(_dynamicRange.getValue());
-    auto const numBinsToKeep = static_cast<int>(_binsToKeep.getValue());
-
-    auto const start = std::chrono::system_clock::now();
-    auto const result
-        = neo::sparse_convolve(_signal.buffer, _impulse.buffer, 4096, _impulse.sampleRate, thresholdDB, numBinsToKeep);
+    auto const thresholdDB   = -input.dynamicRange;
+    auto const numBinsToKeep = input.binsToKeep;
+
+    auto const start  = std::chrono::system_clock::now();
+    auto const result = neo::sparse_convolve(
+        input.signal.buffer,
+        input.impulse.buffer,
+        4096,
+        input.impulse.sampleRate,
+        thresholdDB,
+        numBinsToKeep
+    );
     auto const end = std::chrono::system_clock::now();
 
     auto output = to_mdarray(result);
@@ -473,22 +493,18 @@ auto BenchmarkTab::runSparseConvolverBenchmark() -> void
     auto const elapsed       = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
     auto const thresholdText = juce::String(juce::roundToInt(std::abs(thresholdDB) * 100));
 
-    juce::MessageManager::callAsync([this, elapsed, thresholdText] {
-        auto const line = "TCONV-SPARSE(" + thresholdText + "): " + juce::String{elapsed.count()} + "\n";
-        _fileInfo.moveCaretToEnd(false);
-        _fileInfo.insertTextAtCaret(line);
-    });
+    input.report("TCONV-SPARSE(" + thresholdText + "): " + juce::String{elapsed.count()} + "\n");
 
     auto const filename = "tconv_sparse_" + thresholdText;
     auto const file     = getBenchmarkResultsDirectory().getNonexistentChildFile(filename, ".wav");
-    writeToWavFile(file, output, _spec.sampleRate, 32);
+    writeToWavFile(file, output, input.spec.sampleRate, 32);
 }
 
 auto BenchmarkTab::runConvolverTests() -> void {}
 
-auto BenchmarkTab::runSparseQualityTests() -> void
+auto BenchmarkTab::runSparseQualityTests(RenderInput const& input) -> void
 {
-    auto const stftSize    = static_cast<std::size_t>(static_cast<int>(_stftWindowSize.getValue()));
+    auto const stftSize    = static_cast<std::size_t>(input.stftWindowSize);
     auto const stftOptions = neo::fft::stft_options<double>{
         .frame_size     = stftSize,
         .transform_size = stftSize * 2,
@@ -496,10 +512,10 @@ auto BenchmarkTab::runSparseQualityTests() -> void
     };
     auto stftPlan = neo::fft::stft_plan<double>{stftOptions};
 
-    auto const dense = [this] {
+    auto const dense = [&input] {
         auto result = to_mdarray(neo::dense_convolve<neo::convolution::upols_convolver<std::complex<float>>>(
-            _signal.buffer,
-            _impulse.buffer,
+            input.signal.buffer,
+            input.impulse.buffer,
             4096
         ));
         neo::normalize_peak(result.to_mdspan());
@@ -508,14 +524,14 @@ auto BenchmarkTab::runSparseQualityTests() -> void
 
     auto const denseSpectogram = stftPlan(dense.to_mdspan());
 
-    auto const numBinsToKeep = static_cast<int>(_binsToKeep.getValue());
+    auto const numBinsToKeep = input.binsToKeep;
 
-    auto calculateErrorsForDynamicRange = [=, this](auto dynamicRange) {
+    auto calculateErrorsForDynamicRange = [=, &input](auto dynamicRange) {
         auto sparse = to_mdarray(neo::sparse_convolve(
-            _signal.buffer,
-            _impulse.buffer,
+            input.signal.buffer,
+            input.impulse.buffer,
             4096,
-            _impulse.sampleRate,
+            input.impulse.sampleRate,
             -dynamicRange,
             numBinsToKeep
         ));
@@ -526,18 +542,16 @@ auto BenchmarkTab::runSparseQualityTests() -> void
         return maxChannelRMSError(denseSpectogram, sparseSpectogram);
     };
 
-    juce::MessageManager::callAsync([this] { _fileInfo.moveCaretToEnd(false); });
-
     for (auto i{180}; i > 0; --i) {
         auto const range = juce::jmap(static_cast<double>(i), 1.0, 180.0, 1.0, 90.0);
         auto const rmse  = calculateErrorsForDynamicRange(static_cast<float>(range));
         auto const text  = "SPARSE-QUALITY(" + juce::String{range} + "): rmse = " + juce::String{rmse, 7}
                         + " rmse(dB) = " + juce::String{amplitude_to_db(rmse)} + "\n";
 
-        juce::MessageManager::callAsync([this, text] { _fileInfo.insertTextAtCaret(text); });
+        input.report(text);
     }
 
-    juce::MessageManager::callAsync([this] { _fileInfo.insertTextAtCaret("SPARSE-QUALITY: Done\n"); });
+    input.report("SPARSE-QUALITY: Done\n");
 }
 
 auto BenchmarkTab::updateImages() -> void
diff --git a/extra/plugin/src/ui/BenchmarkTab.hpp b/extra/plugin/src/ui/BenchmarkTab.hpp
index 863d1d8..3482ef7 100644
--- a/extra/plugin/src/ui/BenchmarkTab.hpp
+++ b/extra/plugin/src/ui/BenchmarkTab.hpp
@@ -12,6 +12,7 @@
 #include <juce_gui_extra/juce_gui_extra.h>
 
 #include <complex>
+#include <memory>
 
 namespace neo {
 
@@ -35,34 +36,45 @@ private:
     auto selectSignalFile() -> void;
     auto loadSignalFile(juce::File const& file) -> void;
 
+    /// What a render was started with. Later changes in the editor, or closing it, do not affect a running render.
+    struct RenderInput
+    {
+        auto report(juce::String const& line) const -> void;
+
+        juce::Component::SafePointer<BenchmarkTab> tab;
+        juce::dsp::ProcessSpec spec{};
+        juce::File impulseFile{};
+        BufferWithSampleRate<float> signal{};
+        BufferWithSampleRate<float> impulse{};
+        float dynamicRange{0};
+        int binsToKeep{0};
+        int stftWindowSize{0};
+    };
+
     auto runBenchmarks() -> void;
     auto runWeightingTests() -> void;
-    auto runJuceConvolutionBenchmark() -> void;
-    auto runNeoConvolutionBenchmark() -> void;
-    auto runDenseConvolutionBenchmark() -> void;
-    auto runSparseConvolverBenchmark() -> void;
-    auto runConvolverTests() -> void;
-    auto runSparseQualityTests() -> void;
+    static auto runJuceConvolutionBenchmark(RenderInput const& input) -> void;
+    static auto runNeoConvolutionBenchmark(RenderInput const& input) -> void;
+    static auto runDenseConvolutionBenchmark(RenderInput const& input) -> void;
+    static auto runSparseConvolverBenchmark(RenderInput const& input) -> void;
+    static auto runConvolverTests() -> void;
+    static auto runSparseQualityTests(RenderInput const& input) -> void;
 
     template<typename Convolver>
-    auto runDenseBenchmark(juce::String const& name) -> void
+    static auto runDenseBenchmark(RenderInput const& input, juce::String const& name) -> void
     {
         auto start     = std::chrono::system_clock::now();
-        auto result    = neo::dense_convolve<Convolver>(_signal.buffer, _impulse.buffer, 4096);
+        auto result    = neo::dense_convolve<Convolver>(input.signal.buffer, input.impulse.buffer, 4096);
         auto const end = std::chrono::system_clock::now();
 
         auto output = to_mdarray(result);
         neo::normalize_peak(output.to_mdspan());
 
         auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
-
-        juce::MessageManager::callAsync([this, elapsed, name] {
-            _fileInfo.moveCaretToEnd(false);
-            _fileInfo.insertTextAtCaret(name + ": " + juce::String{elapsed.count()} + "\n");
-        });
+        input.report(name + ": " + juce::String{elapsed.count()} + "\n");
 
         auto file = getBenchmarkResultsDirectory().getNonexistentChildFile(name, ".wav");
-        writeToWavFile(file, output, _spec.sampleRate, 32);
+        writeToWavFile(file, output, input.spec.sampleRate, 32);
     }
 
     auto updateImages() -> void;
-- 
2.43.0


From d02587444497397de572140edbe1986afc26b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:13 +0000
Subject: [PATCH 36/43] fix: peak normalisation of subnormal signals

The reciprocal of a subnormal peak overflows to infinity, and the scaled
signal is infinity and NaN.
---
 src/neo/algorithm/normalize_peak.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/algorithm/normalize_peak.hpp b/src/neo/algorithm/normalize_peak.hpp
index eee0faa..ef04ac8 100644
--- a/src/neo/algorithm/normalize_peak.hpp
+++ b/src/neo/algorithm/normalize_peak.hpp
@@ -7,7 +7,6 @@
 #include <neo/algorithm/scale.hpp>
 #include <neo/container/mdspan.hpp>
 #include <neo/math/abs.hpp>
-#include <neo/math/float_equality.hpp>
 #include <neo/type_traits/value_type_t.hpp>
 
 #include <algorithm>
@@ -44,7 +43,8 @@ template<in_object InObj>
         }
     }
 
-    if (float_equality::exact(abs_max, Float(0))) {
+    // the reciprocal of a subnormal peak may overflow
+    if (abs_max < std::numeric_limits<Float>::min()) {
         return Float(1);
     }
 
-- 
2.43.0


From 41b7c8d4a270df71279de6739a2f208bd0d19721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:30 +0000
Subject: [PATCH 37/43] fix: vDSP plans release their setup when assigned to or
 when construction fails

---
 src/neo/fft/backend/vdsp.hpp | 68 +++++++++++++++---------------------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/src/neo/fft/backend/vdsp.hpp b/src/neo/fft/backend/vdsp.hpp
index 217c4e1..6caa85d 100644
--- a/src/neo/fft/backend/vdsp.hpp
+++ b/src/neo/fft/backend/vdsp.hpp
@@ -14,10 +14,26 @@
 #include <Accelerate/Accelerate.h>
 
 #include <cassert>
+#include <memory>
+#include <type_traits>
 #include <utility>
 
 namespace neo::fft {
 
+namespace detail {
+
+struct vdsp_destroy_setup
+{
+    auto operator()(FFTSetup setup) const noexcept -> void { vDSP_destroy_fftsetup(setup); }
+
+    auto operator()(FFTSetupD setup) const noexcept -> void { vDSP_destroy_fftsetupD(setup); }
+};
+
+template<typename NativeHandle>
+using vdsp_setup = std::unique_ptr<std::remove_pointer_t<NativeHandle>, vdsp_destroy_setup>;
+
+}  // namespace detail
+
 /// \ingroup neo-fft
 template<typename Complex>
     requires(std::same_as<typename Complex::value_type, float> or std::same_as<typename Complex::value_type, double>)
@@ -29,7 +45,6 @@ struct apple_vdsp_fft_plan
     using native_handle_type = std::conditional_t<std::same_as<real_type, float>, FFTSetup, FFTSetupD>;
 
     apple_vdsp_fft_plan(from_order_tag /*tag*/, size_type order);
-    ~apple_vdsp_fft_plan();
 
     apple_vdsp_fft_plan(apple_vdsp_fft_plan const& other)                    = delete;
     auto operator=(apple_vdsp_fft_plan const& other) -> apple_vdsp_fft_plan& = delete;
@@ -37,7 +52,7 @@ struct apple_vdsp_fft_plan
     apple_vdsp_fft_plan(apple_vdsp_fft_plan&& other) noexcept
         : _order{std::exchange(other._order, size_type{0})}
         , _size{std::exchange(other._size, 0)}
-        , _plan{std::exchange(other._plan, nullptr)}
+        , _plan{std::move(other._plan)}
         , _input{std::move(other._input)}
         , _output{std::move(other._output)}
     {}
@@ -46,7 +61,7 @@ struct apple_vdsp_fft_plan
     {
         _order  = std::exchange(other._order, size_type{0});
         _size   = std::exchange(other._size, 0);
-        _plan   = std::exchange(other._plan, nullptr);
+        _plan   = std::move(other._plan);
         _input  = std::move(other._input);
         _output = std::move(other._output);
         return *this;
@@ -65,7 +80,7 @@ struct apple_vdsp_fft_plan
 private:
     size_type _order;
     size_type _size{fft::size(order())};
-    native_handle_type _plan;
+    detail::vdsp_setup<native_handle_type> _plan;
     stdex::mdarray<real_type, stdex::dextents<size_t, 2>> _input{2, _size};
     stdex::mdarray<real_type, stdex::dextents<size_t, 2>> _output{2, _size};
 };
@@ -89,19 +104,6 @@ apple_vdsp_fft_plan<Complex>::apple_vdsp_fft_plan(from_order_tag /*tag*/, size_t
     assert(_plan != nullptr);
 }
 
-template<typename Complex>
-    requires(std::same_as<typename Complex::value_type, float> or std::same_as<typename Complex::value_type, double>)
-apple_vdsp_fft_plan<Complex>::~apple_vdsp_fft_plan()
-{
-    if (_plan != nullptr) {
-        if constexpr (std::same_as<real_type, float>) {
-            vDSP_destroy_fftsetup(_plan);
-        } else {
-            vDSP_destroy_fftsetupD(_plan);
-        }
-    }
-}
-
 template<typename Complex>
     requires(std::same_as<typename Complex::value_type, float> or std::same_as<typename Complex::value_type, double>)
 auto apple_vdsp_fft_plan<Complex>::size() const noexcept -> size_type
@@ -135,9 +137,9 @@ auto apple_vdsp_fft_plan<Complex>::operator()(InOutVec x, direction dir) noexcep
     }
 
     if constexpr (std::same_as<real_type, float>) {
-        vDSP_fft_zop(_plan, &in, 1, &out, 1, static_cast<vDSP_Length>(_order), sign);
+        vDSP_fft_zop(_plan.get(), &in, 1, &out, 1, static_cast<vDSP_Length>(_order), sign);
     } else {
-        vDSP_fft_zopD(_plan, &in, 1, &out, 1, static_cast<vDSP_Length>(_order), sign);
+        vDSP_fft_zopD(_plan.get(), &in, 1, &out, 1, static_cast<vDSP_Length>(_order), sign);
     }
 
     for (auto i{0}; std::cmp_less(i, x.extent(0)); ++i) {
@@ -155,7 +157,6 @@ struct apple_vdsp_split_fft_plan
     using native_handle_type = std::conditional_t<std::same_as<Float, float>, FFTSetup, FFTSetupD>;
 
     apple_vdsp_split_fft_plan(from_order_tag /*tag*/, size_type order);
-    ~apple_vdsp_split_fft_plan();
 
     apple_vdsp_split_fft_plan(apple_vdsp_split_fft_plan const& other)                    = delete;
     auto operator=(apple_vdsp_split_fft_plan const& other) -> apple_vdsp_split_fft_plan& = delete;
@@ -163,7 +164,7 @@ struct apple_vdsp_split_fft_plan
     apple_vdsp_split_fft_plan(apple_vdsp_split_fft_plan&& other) noexcept
         : _order{std::exchange(other._order, size_type{0})}
         , _size{std::exchange(other._size, 0)}
-        , _plan{std::exchange(other._plan, nullptr)}
+        , _plan{std::move(other._plan)}
         , _input{std::move(other._input)}
         , _output{std::move(other._output)}
     {}
@@ -172,7 +173,7 @@ struct apple_vdsp_split_fft_plan
     {
         _order  = std::exchange(other._order, size_type{0});
         _size   = std::exchange(other._size, 0);
-        _plan   = std::exchange(other._plan, nullptr);
+        _plan   = std::move(other._plan);
         _input  = std::move(other._input);
         _output = std::move(other._output);
         return *this;
@@ -190,7 +191,7 @@ struct apple_vdsp_split_fft_plan
 private:
     size_type _order;
     size_type _size{fft::size(order())};
-    native_handle_type _plan;
+    detail::vdsp_setup<native_handle_type> _plan;
     stdex::mdarray<Float, stdex::dextents<size_t, 2>> _input{2, _size};
     stdex::mdarray<Float, stdex::dextents<size_t, 2>> _output{2, _size};
 };
@@ -210,19 +211,6 @@ apple_vdsp_split_fft_plan<Float>::apple_vdsp_split_fft_plan(from_order_tag /*tag
     assert(_plan != nullptr);
 }
 
-template<std::floating_point Float>
-    requires(std::same_as<Float, float> or std::same_as<Float, double>)
-apple_vdsp_split_fft_plan<Float>::~apple_vdsp_split_fft_plan()
-{
-    if (_plan != nullptr) {
-        if constexpr (std::same_as<Float, float>) {
-            vDSP_destroy_fftsetup(_plan);
-        } else {
-            vDSP_destroy_fftsetupD(_plan);
-        }
-    }
-}
-
 template<std::floating_point Float>
     requires(std::same_as<Float, float> or std::same_as<Float, double>)
 auto apple_vdsp_split_fft_plan<Float>::size() const noexcept -> size_type
@@ -256,9 +244,9 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(split_complex<InOutVec> x, dir
         };
 
         if constexpr (std::same_as<Float, float>) {
-            vDSP_fft_zip(_plan, &split_x, 1, static_cast<vDSP_Length>(_order), sign);
+            vDSP_fft_zip(_plan.get(), &split_x, 1, static_cast<vDSP_Length>(_order), sign);
         } else {
-            vDSP_fft_zipD(_plan, &split_x, 1, static_cast<vDSP_Length>(_order), sign);
+            vDSP_fft_zipD(_plan.get(), &split_x, 1, static_cast<vDSP_Length>(_order), sign);
         }
     } else {
         always_false<InOutVec>;
@@ -286,9 +274,9 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(
         auto const split_out = split_complex{.realp = out.real.data_handle(), .imagp = out.imag.data_handle()};
 
         if constexpr (std::same_as<Float, float>) {
-            vDSP_fft_zop(_plan, &split_in, 1, &split_out, 1, static_cast<vDSP_Length>(_order), sign);
+            vDSP_fft_zop(_plan.get(), &split_in, 1, &split_out, 1, static_cast<vDSP_Length>(_order), sign);
         } else {
-            vDSP_fft_zopD(_plan, &split_in, 1, &split_out, 1, static_cast<vDSP_Length>(_order), sign);
+            vDSP_fft_zopD(_plan.get(), &split_in, 1, &split_out, 1, static_cast<vDSP_Length>(_order), sign);
         }
     } else {
         always_false<InVec>;
-- 
2.43.0


From 9f616bc8f79c61614716a44f60f713e9dd0c6c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:30 +0000
Subject: [PATCH 38/43] fix: vDSP plans report a setup that could not be
 created

---
 src/neo/fft/backend/vdsp.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/backend/vdsp.hpp b/src/neo/fft/backend/vdsp.hpp
index 6caa85d..ec13e5b 100644
--- a/src/neo/fft/backend/vdsp.hpp
+++ b/src/neo/fft/backend/vdsp.hpp
@@ -15,6 +15,8 @@
 
 #include <cassert>
 #include <memory>
+#include <stdexcept>
+#include <string>
 #include <type_traits>
 #include <utility>
 
@@ -101,7 +103,9 @@ apple_vdsp_fft_plan<Complex>::apple_vdsp_fft_plan(from_order_tag /*tag*/, size_t
         }
     }()}
 {
-    assert(_plan != nullptr);
+    if (_plan == nullptr) {
+        throw std::runtime_error{"vdsp: failed to create setup for order '" + std::to_string(int(order)) + "'"};
+    }
 }
 
 template<typename Complex>
@@ -208,7 +212,9 @@ apple_vdsp_split_fft_plan<Float>::apple_vdsp_split_fft_plan(from_order_tag /*tag
         }
     }()}
 {
-    assert(_plan != nullptr);
+    if (_plan == nullptr) {
+        throw std::runtime_error{"vdsp: failed to create setup for order '" + std::to_string(int(order)) + "'"};
+    }
 }
 
 template<std::floating_point Float>
-- 
2.43.0


From c0692195ee78907d4f57e6c535378a280da36908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:30 +0000
Subject: [PATCH 39/43] fix: vDSP split transforms of strided views

---
 src/neo/fft/backend/vdsp.hpp | 38 +++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/backend/vdsp.hpp b/src/neo/fft/backend/vdsp.hpp
index ec13e5b..400a398 100644
--- a/src/neo/fft/backend/vdsp.hpp
+++ b/src/neo/fft/backend/vdsp.hpp
@@ -9,7 +9,6 @@
 #include <neo/container/mdspan.hpp>
 #include <neo/fft/direction.hpp>
 #include <neo/fft/order.hpp>
-#include <neo/type_traits/always_false.hpp>
 
 #include <Accelerate/Accelerate.h>
 
@@ -255,7 +254,23 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(split_complex<InOutVec> x, dir
             vDSP_fft_zipD(_plan.get(), &split_x, 1, static_cast<vDSP_Length>(_order), sign);
         }
     } else {
-        always_false<InOutVec>;
+        auto const buffer = split_complex{.realp = std::addressof(_input(0, 0)), .imagp = std::addressof(_input(1, 0))};
+
+        for (auto i{0}; std::cmp_less(i, x.real.extent(0)); ++i) {
+            buffer.realp[i] = x.real[i];
+            buffer.imagp[i] = x.imag[i];
+        }
+
+        if constexpr (std::same_as<Float, float>) {
+            vDSP_fft_zip(_plan.get(), &buffer, 1, static_cast<vDSP_Length>(_order), sign);
+        } else {
+            vDSP_fft_zipD(_plan.get(), &buffer, 1, static_cast<vDSP_Length>(_order), sign);
+        }
+
+        for (auto i{0}; std::cmp_less(i, x.real.extent(0)); ++i) {
+            x.real[i] = buffer.realp[i];
+            x.imag[i] = buffer.imagp[i];
+        }
     }
 }
 
@@ -285,7 +300,24 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(
             vDSP_fft_zopD(_plan.get(), &split_in, 1, &split_out, 1, static_cast<vDSP_Length>(_order), sign);
         }
     } else {
-        always_false<InVec>;
+        auto const split_in  = split_complex{.realp = std::addressof(_input(0, 0)), .imagp = std::addressof(_input(1, 0))};
+        auto const split_out = split_complex{.realp = std::addressof(_output(0, 0)), .imagp = std::addressof(_output(1, 0))};
+
+        for (auto i{0}; std::cmp_less(i, in.real.extent(0)); ++i) {
+            split_in.realp[i] = in.real[i];
+            split_in.imagp[i] = in.imag[i];
+        }
+
+        if constexpr (std::same_as<Float, float>) {
+            vDSP_fft_zop(_plan.get(), &split_in, 1, &split_out, 1, static_cast<vDSP_Length>(_order), sign);
+        } else {
+            vDSP_fft_zopD(_plan.get(), &split_in, 1, &split_out, 1, static_cast<vDSP_Length>(_order), sign);
+        }
+
+        for (auto i{0}; std::cmp_less(i, out.real.extent(0)); ++i) {
+            out.real[i] = split_out.realp[i];
+            out.imag[i] = split_out.imagp[i];
+        }
     }
 }
 
-- 
2.43.0


From 6f4f862c7baeed445a2dcce7eeb7b3a50c0bd4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:30 +0000
Subject: [PATCH 40/43] fix: IPP inverse real transform of read-only and of
 scalar_complex spectra

---
 src/neo/fft/backend/ipp.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/backend/ipp.hpp b/src/neo/fft/backend/ipp.hpp
index 1d77245..b50ad31 100644
--- a/src/neo/fft/backend/ipp.hpp
+++ b/src/neo/fft/backend/ipp.hpp
@@ -9,6 +9,8 @@
 #include <neo/container/mdspan.hpp>
 #include <neo/fft/direction.hpp>
 #include <neo/fft/order.hpp>
+#include <neo/math/imag.hpp>
+#include <neo/math/real.hpp>
 #include <neo/type_traits/always_false.hpp>
 
 #include <ipp.h>
@@ -443,13 +445,13 @@ struct intel_ipp_rfft_plan
     {
         if constexpr (always_vectorizable<InVec> and always_vectorizable<OutVec>
                       and (sizeof(complex_type) == sizeof(Float) * 2)) {
-            auto* const in_ptr = reinterpret_cast<Float*>(in.data_handle());
+            auto const* const in_ptr = reinterpret_cast<Float const*>(in.data_handle());
             setup::backward_copy(in_ptr, out.data_handle(), _handle, _work_buf.get());
         } else {
             auto buf = _buffer.to_mdspan();
             for (auto i{0U}; i < in.size(); ++i) {
-                buf[i * 2]     = real(in[i]);
-                buf[i * 2 + 1] = imag(in[i]);
+                buf[i * 2]     = math::real(in[i]);
+                buf[i * 2 + 1] = math::imag(in[i]);
             }
 
             setup::backward_inplace(_buffer.data(), _handle, _work_buf.get());
-- 
2.43.0


From 1249eb16b8d27fc0d2bc983a5132b68e9fb07f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:30 +0000
Subject: [PATCH 41/43] fix: IPP plans report memory that could not be
 allocated

---
 src/neo/fft/backend/ipp.hpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/neo/fft/backend/ipp.hpp b/src/neo/fft/backend/ipp.hpp
index b50ad31..74bb47f 100644
--- a/src/neo/fft/backend/ipp.hpp
+++ b/src/neo/fft/backend/ipp.hpp
@@ -17,6 +17,7 @@
 
 #include <cassert>
 #include <memory>
+#include <new>
 #include <stdexcept>
 
 namespace neo::fft {
@@ -52,6 +53,15 @@ inline auto ipp_check(int status) -> void
     }
 }
 
+[[nodiscard]] inline auto make_ipp_buffer(int size) -> ipp_buffer
+{
+    auto buffer = ipp_buffer{::ippsMalloc_8u(size)};
+    if (size > 0 and buffer == nullptr) {
+        throw std::bad_alloc{};
+    }
+    return buffer;
+}
+
 template<typename Setup>
 [[nodiscard]] auto make_ipp_fft_handle(std::size_t order
 ) -> std::tuple<typename Setup::handle_type*, ipp_buffer, ipp_buffer>
@@ -65,11 +75,11 @@ template<typename Setup>
     ipp_check(Setup::get_size(static_cast<int>(order), flag, hint, &spec_size, &init_size, &work_size));
 
     auto* handle        = static_cast<typename Setup::handle_type*>(nullptr);
-    auto spec_buf       = ipp_buffer{::ippsMalloc_8u(spec_size)};
-    auto const init_buf = ipp_buffer{::ippsMalloc_8u(init_size)};
+    auto spec_buf       = make_ipp_buffer(spec_size);
+    auto const init_buf = make_ipp_buffer(init_size);
     ipp_check(Setup::init(&handle, static_cast<int>(order), flag, hint, spec_buf.get(), init_buf.get()));
 
-    return {handle, std::move(spec_buf), ipp_buffer{::ippsMalloc_8u(work_size)}};
+    return {handle, std::move(spec_buf), make_ipp_buffer(work_size)};
 }
 
 template<typename Setup>
@@ -84,12 +94,12 @@ template<typename Setup>
     auto work_size = 0;
     ipp_check(Setup::get_size(static_cast<int>(size), flag, hint, &spec_size, &init_size, &work_size));
 
-    auto const init_buf = ipp_buffer{::ippsMalloc_8u(init_size)};
-    auto spec_buf       = ipp_buffer{::ippsMalloc_8u(spec_size)};
+    auto const init_buf = make_ipp_buffer(init_size);
+    auto spec_buf       = make_ipp_buffer(spec_size);
     auto* handle        = reinterpret_cast<typename Setup::handle_type*>(spec_buf.get());
     ipp_check(Setup::init(static_cast<int>(size), flag, hint, handle, init_buf.get()));
 
-    return {handle, std::move(spec_buf), ipp_buffer{::ippsMalloc_8u(work_size)}};
+    return {handle, std::move(spec_buf), make_ipp_buffer(work_size)};
 }
 
 template<typename Setup>
@@ -106,11 +116,11 @@ template<typename Setup>
     ipp_check(Setup::get_size(len, hint, &spec_size, &init_size, &work_size));
 
     auto* handle        = static_cast<typename Setup::handle_type*>(nullptr);
-    auto spec_buf       = ipp_buffer{::ippsMalloc_8u(spec_size)};
-    auto const init_buf = ipp_buffer{::ippsMalloc_8u(init_size)};
+    auto spec_buf       = make_ipp_buffer(spec_size);
+    auto const init_buf = make_ipp_buffer(init_size);
     ipp_check(Setup::init(&handle, len, hint, spec_buf.get(), init_buf.get()));
 
-    return {handle, std::move(spec_buf), ipp_buffer{::ippsMalloc_8u(work_size)}};
+    return {handle, std::move(spec_buf), make_ipp_buffer(work_size)};
 }
 
 }  // namespace detail
-- 
2.43.0


From 75138d6ec8920110e3efb4bed1c41a3f3b317fe4 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:51:52 +0000
Subject: [PATCH 42/43] fix: IPP split transforms of strided views

---
 src/neo/fft/backend/ipp.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/backend/ipp.hpp b/src/neo/fft/backend/ipp.hpp
index 74bb47f..97b9314 100644
--- a/src/neo/fft/backend/ipp.hpp
+++ b/src/neo/fft/backend/ipp.hpp
@@ -11,7 +11,6 @@
 #include <neo/fft/order.hpp>
 #include <neo/math/imag.hpp>
 #include <neo/math/real.hpp>
-#include <neo/type_traits/always_false.hpp>
 
 #include <ipp.h>
 
@@ -346,7 +345,7 @@ struct intel_ipp_split_fft_plan
         if constexpr (always_vectorizable<InOutVec>) {
             transform(x.real.data_handle(), x.imag.data_handle(), _handle, _work_buf.get());
         } else {
-            always_false<InOutVec>;
+            (*this)(x, x, dir);
         }
     }
 
@@ -368,7 +367,14 @@ struct intel_ipp_split_fft_plan
                 _work_buf.get()
             );
         } else {
-            always_false<InVec>;
+            auto const real = stdex::submdspan(_buffer.to_mdspan(), 0, stdex::full_extent);
+            auto const imag = stdex::submdspan(_buffer.to_mdspan(), 1, stdex::full_extent);
+
+            copy(in.real, real);
+            copy(in.imag, imag);
+            (*this)(split_complex{real, imag}, dir);
+            copy(real, out.real);
+            copy(imag, out.imag);
         }
     }
 
-- 
2.43.0


From e4452b62d3c6f958c0f4cbe52d50676a5fe24031 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:51:52 +0000
Subject: [PATCH 43/43] fix: MKL plans free their descriptor when assigned to
 and report failures

---
 src/neo/fft/backend/mkl.hpp | 47 ++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/neo/fft/backend/mkl.hpp b/src/neo/fft/backend/mkl.hpp
index ad4536f..80643fd 100644
--- a/src/neo/fft/backend/mkl.hpp
+++ b/src/neo/fft/backend/mkl.hpp
@@ -11,6 +11,13 @@
 
 #include <mkl_dfti.h>
 
+#include <cassert>
+#include <memory>
+#include <stdexcept>
+#include <string>
+#include <type_traits>
+#include <utility>
+
 namespace neo::fft {
 
 /// \ingroup neo-fft
@@ -24,13 +31,6 @@ struct intel_mkl_fft_plan
 
     intel_mkl_fft_plan(from_order_tag /*tag*/, size_type order) : _order{order}, _handle{make(order)} {}
 
-    ~intel_mkl_fft_plan() noexcept
-    {
-        if (_handle) {
-            DftiFreeDescriptor(&_handle->ptr);
-        }
-    }
-
     intel_mkl_fft_plan(intel_mkl_fft_plan const& other)                    = delete;
     auto operator=(intel_mkl_fft_plan const& other) -> intel_mkl_fft_plan& = delete;
 
@@ -53,9 +53,9 @@ struct intel_mkl_fft_plan
 
         auto perform = [this, dir](auto* ptr) {
             if (dir == direction::forward) {
-                DftiComputeForward(_handle->ptr, static_cast<void*>(ptr));
+                DftiComputeForward(_handle.get(), static_cast<void*>(ptr));
             } else {
-                DftiComputeBackward(_handle->ptr, static_cast<void*>(ptr));
+                DftiComputeBackward(_handle.get(), static_cast<void*>(ptr));
             }
         };
 
@@ -69,12 +69,21 @@ struct intel_mkl_fft_plan
     }
 
 private:
-    struct handle_t
+    struct free_descriptor
     {
-        DFTI_DESCRIPTOR_HANDLE ptr;
+        auto operator()(DFTI_DESCRIPTOR_HANDLE ptr) const noexcept -> void { DftiFreeDescriptor(&ptr); }
     };
 
-    [[nodiscard]] static auto make(size_type order)
+    using handle_t = std::unique_ptr<std::remove_pointer_t<DFTI_DESCRIPTOR_HANDLE>, free_descriptor>;
+
+    static auto check(auto status) -> void
+    {
+        if (status != DFTI_NO_ERROR) {
+            throw std::runtime_error{"mkl: error '" + std::to_string(status) + "'"};
+        }
+    }
+
+    [[nodiscard]] static auto make(size_type order) -> handle_t
     {
         if (order > max_order()) {
             throw std::runtime_error{"mkl: unsupported order '" + std::to_string(int(order)) + "'"};
@@ -84,18 +93,18 @@ private:
         static constexpr auto const domain     = DFTI_COMPLEX;
         static constexpr auto const dimensions = 1;
 
-        auto* handle   = DFTI_DESCRIPTOR_HANDLE{};
+        auto* ptr      = DFTI_DESCRIPTOR_HANDLE{};
         auto const len = ipow<size_type(2)>(order);
 
-        DftiCreateDescriptor(&handle, precision, domain, dimensions, len);
-        DftiSetValue(handle, DFTI_PLACEMENT, DFTI_INPLACE);
-        DftiCommitDescriptor(handle);
-
-        return std::make_unique<handle_t>(handle_t{.ptr = handle});
+        check(DftiCreateDescriptor(&ptr, precision, domain, dimensions, len));
+        auto handle = handle_t{ptr};
+        check(DftiSetValue(handle.get(), DFTI_PLACEMENT, DFTI_INPLACE));
+        check(DftiCommitDescriptor(handle.get()));
+        return handle;
     }
 
     size_type _order;
-    std::unique_ptr<handle_t> _handle;
+    handle_t _handle;
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _buffer{size()};
 };
 
-- 
2.43.0

