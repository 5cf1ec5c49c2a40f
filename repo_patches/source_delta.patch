From 9563a0e42ccac3b4abb5cd805a4ce69e6e3c0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 01/36] fix: kalman: keep error covariance symmetric

Rounding differences between the two halves of the error covariance grow
exponentially with two measurements, until estimate and covariance diverge
after some 45 updates.
---
 include/dsp/kalman.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dsp/kalman.hpp b/include/dsp/kalman.hpp
index dc44dce..ef13d26 100644
--- a/include/dsp/kalman.hpp
+++ b/include/dsp/kalman.hpp
@@ -96,6 +96,16 @@ public:
 
         // 2c: Update the error covariance:
         P = (I() - K * H) * P;
+
+        // 2d: Keep the error covariance symmetric, otherwise rounding differences
+        // between its halves can grow with each update:
+        for ( int row = 1; row < P.rows(); ++row )
+        {
+            for ( int col = 0; col < row; ++col )
+            {
+                P(row, col) = P(col, row);
+            }
+        }
     }
 
     // Observers:
-- 
2.43.0


From f776ea5c2e8423e64494ee490aeb386f0e724c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 02/36] fix: kalman: initialise gain, kalman_gain() returned an
 indeterminate value before the first update

---
 include/dsp/kalman.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/kalman.hpp b/include/dsp/kalman.hpp
index ef13d26..902eb0c 100644
--- a/include/dsp/kalman.hpp
+++ b/include/dsp/kalman.hpp
@@ -63,6 +63,7 @@ public:
         , H( H_)
         , Q( Q_)
         , R( R_)
+        , K( real_t( 0 ) )
         , P( P_)
         , xhat( xhat_)
         , t(  0  )
-- 
2.43.0


From e90034013f24d4c3e4b62de4351f7f46f2007ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 03/36] fix: fixed-point: divide without left-shifting a
 negative value

Shifting a negative dividend left is undefined before C++20.
---
 include/num/fixed-point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 533bb8a..903cd2c 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -160,7 +160,7 @@ public:
 
     constexpr auto operator/=( fixed_point rhs )
     {
-        storage = static_cast<T>( (static_cast<detail::promote_t<T>>(storage) << F ) / rhs.storage );
+        storage = static_cast<T>( (static_cast<detail::promote_t<T>>(storage) * static_cast<detail::promote_t<T>>(detail::power2(F)) ) / rhs.storage );
         return *this;
     }
 
-- 
2.43.0


From f18cd8631c50e2e24d23ff1eb144cffaa1b57491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 04/36] fix: fixed-point: as<>() to an integer type narrower
 than the representation

as<int8_t>() of fixed_point<int32_t,..> cut off the representation before
dividing it and gave 0 for 5.
---
 include/num/fixed-point.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 903cd2c..8798c3e 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -129,7 +129,10 @@ public:
     template< typename U >
     constexpr auto as() const
     {
-        return static_cast<U>( underlying_value() ) / detail::power2(F);
+        if constexpr ( std20::is_integral_v<U> )
+            return static_cast<U>( underlying_value() / detail::power2(F) );
+        else
+            return static_cast<U>( underlying_value() ) / detail::power2(F);
     }
 
     constexpr auto as_double() const
-- 
2.43.0


From ad8d377144351bd58534984baebbb355300223de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 05/36] fix: fixed-point: construct nearest value from float
 and double

Adding 0.5 rounds for large float values: fixed_point<int32_t,15,16>(128.0000153f),
which is exactly representable, was off by one.
---
 include/num/fixed-point.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 8798c3e..9331725 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -52,6 +52,17 @@ constexpr auto power2( std20::int64_t n )
     return result;
 }
 
+// Round to nearest, away from zero halfway; value +/- 0.5 itself may be rounded:
+
+template< typename T, typename U >
+constexpr T round( U value )
+{
+    const T result = static_cast<T>( value );
+    const U rest   = value - static_cast<U>( result );
+
+    return static_cast<T>( result + ( rest >= U(0.5) ) - ( rest <= U(-0.5) ) );
+}
+
 } // namespace detail
 
 // fixed_point:
@@ -102,11 +113,11 @@ public:
     {}
 
     constexpr fixed_point( float value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0f ? 0.5f : -0.5f) ) )
+    : storage( detail::round<T>( detail::power2(F) * value ) )
     {}
 
     constexpr fixed_point( double value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0 ? 0.5 : -0.5) ) )
+    : storage( detail::round<T>( detail::power2(F) * value ) )
     {}
 
     // Observers:
-- 
2.43.0


From 3da8b6ced67506201632751ed1c0fcacd8cfbc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 06/36] fix: matrix: row vector times matrix has as many
 columns as the matrix

rowvec<T,N> * matrix<T,N,M> wrote outside its N-element result for M > N and
returned too many elements for M < N.
---
 include/num/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 5d7912b..356096e 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -401,9 +401,9 @@ constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const
 // x * A - rowvec:
 
 template< typename T, int N, int M >
-constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
+constexpr rowvec<T,M> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
 {
-    rowvec<T,N> result( 0 );
+    rowvec<T,M> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
     {
         for ( int col = 0; col < A.columns(); ++col )
-- 
2.43.0


From 251f477935e91fb55b06535fc39a0a5b2f157425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 07/36] fix: matrix: restrict products to conformable operands

matrix<T,N,M> * matrix<T,N,M> read outside its right operand for N != M, and
matrix<T,N,M> * colvec took vectors of N instead of M elements, reading outside
the vector for M > N; vectors of M elements were rejected.
---
 include/num/matrix.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 356096e..368c139 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -17,6 +17,7 @@
 #define matrix_STRINGIFY_( x )  #x
 
 #include "std/algorithm.hpp"    // constexpr std20::copy(), std20::fill()
+#include "std/type_traits.hpp"  // std20::enable_if_t
 #include "std/utility.hpp"      // std20::swap(), std::initializer_list
 
 namespace num {
@@ -379,10 +380,10 @@ constexpr matrix<T,N,M> operator-( matrix<T,N,M> const & a, matrix<T,N,M> const
 
 // A * B:
 
-template< typename T, int N, int M >
-constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const & B )
+template< typename T, int N >
+constexpr matrix<T,N,N> operator*( matrix<T,N,N> const & A, matrix<T,N,N> const & B )
 {
-    matrix<T,N,M> result(0);
+    matrix<T,N,N> result(0);
 
     for ( int row = 0; row < A.rows(); ++row )
     {
@@ -416,8 +417,8 @@ constexpr rowvec<T,M> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A
 
 // A * x - colvec:
 
-template< typename T, int N, int M >
-constexpr colvec<T,N> operator*( matrix<T,N,M> const & A, colvec<T,N> const & x )
+template< typename T, int N, int M, typename = std20::enable_if_t<M != 1> >
+constexpr colvec<T,N> operator*( matrix<T,N,M> const & A, colvec<T,M> const & x )
 {
     colvec<T,N> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
-- 
2.43.0


From 9ec95ccedab769e3f276c667dce80aab0c6e40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 08/36] fix: dsp: break circular include, biquad-design.hpp
 could not be included on its own

---
 include/dsp/biquad-design.hpp | 27 ---------------------------
 include/dsp/filter-design.hpp | 27 ++++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/include/dsp/biquad-design.hpp b/include/dsp/biquad-design.hpp
index 80e46b7..4ee6b17 100644
--- a/include/dsp/biquad-design.hpp
+++ b/include/dsp/biquad-design.hpp
@@ -20,33 +20,6 @@
 # define dsp_MAYBE_UNUSED
 #endif
 
-namespace dsp {
-
-// filter type selection (lp, hp, ...)
-
-enum class FilterResponse
-{
-    all_pass,
-    low_pass,
-    high_pass,
-    band_pass,
-    band_stop,
-    low_shelf,
-    high_shelf,
-    peak_band_eq
-};
-
-// biquad realization form (direct form 1, 2, transposed):
-
-enum class BiquadForm
-{
-    df1,
-    df2,
-    df2_transposed
-};
-
-} // namespace dsp
-
 namespace dsp { namespace biquad_designs {
 
 // ToDo
diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 162b017..5c6c2f4 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -10,11 +10,36 @@
 
 #include "core/shims.hpp"
 #include "core/traits.hpp"
-#include "dsp/filter.hpp"
 #include "num/constants.hpp"
 
+#include <cmath>
+#include <type_traits>
+
 namespace dsp {
 
+// filter type selection (lp, hp, ...)
+
+enum class FilterResponse
+{
+    all_pass,
+    low_pass,
+    high_pass,
+    band_pass,
+    band_stop,
+    low_shelf,
+    high_shelf,
+    peak_band_eq
+};
+
+// biquad realization form (direct form 1, 2, transposed):
+
+enum class BiquadForm
+{
+    df1,
+    df2,
+    df2_transposed
+};
+
 // algorithm: pre-warp frequency:
 
 template< typename P, typename Q >
-- 
2.43.0


From f05b00e512cbb19d5d252e1a1fb8f16d4cabb141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 09/36] fix: filter-design: voltage factor is 10^(dB/20), not
 half the power factor

---
 include/dsp/filter-design.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 5c6c2f4..f9263bc 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -81,7 +81,9 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv ) / T{2};
+    using U = std::common_type_t<float, T>;
+
+    return dbP_factor( dbv / U{2} );
 }
 
 } // namespace dsp
-- 
2.43.0


From 2cff5ac1b8fd8455ddd843f48995aea4826b6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 10/36] fix: filter-design: power factor of an integer level in
 dB

---
 include/dsp/filter-design.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index f9263bc..c3fdd1e 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -65,7 +65,9 @@ auto dbP( T vout, core::identity_t<T> vin )
 template< typename T >
 auto dbP_factor( T dbv )
 {
-    return std::pow( T{10}, std::abs( dbv ) / T{10} );
+    using U = std::common_type_t<float, T>;
+
+    return std::pow( U{10}, std::abs( dbv ) / U{10} );
 }
 
 // factor as dbV
-- 
2.43.0


From 6580b2686caaca8440fd8be973a7b3423766c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 11/36] fix: onepole: report the actual pole

---
 include/dsp/onepole.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index f7bd41c..4e5c84c 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -75,7 +75,7 @@ auto solve( V a, V b )
     // normalize:
     b /= a;
 
-    return Solution{ 7 };
+    return Solution{ -b };
 }
 
 // normalized a:
-- 
2.43.0


From 456f15d2e4c780d5671ea5f1820fd09bf0d4bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 12/36] fix: onepole: report stability from the pole

---
 include/dsp/onepole.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index 4e5c84c..43f270b 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -205,11 +205,11 @@ public:
         return SolutionT<T>{};
     }
 
-    // stable if the magnitude of both poles is less or equal to leq unity:
+    // stable if the magnitude of the pole is less or equal to unity:
 
     auto is_stable() const
     {
-        return true;
+        return abs( poles().s0 ) <= value_type{1};
     }
 
     // Modifiers:
-- 
2.43.0


From 262ebe03e87996e87b294ccdda11cda23940825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 13/36] fix: onepole-design: abs() was the integer one, gain b0
 was always one

---
 include/dsp/onepole-design.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index b823e78..b6a39b5 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -76,7 +76,7 @@ struct onepole_design_method<FilterResponse::low_pass, T >
     static auto design( T f, T fs )
     {
         const auto a1 = -exp( -T{1} * num::pi<T> * f / fs );
-        const auto b0 = T{1} - abs(a1);
+        const auto b0 = T{1} - std::abs(a1);
         
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
@@ -90,7 +90,7 @@ struct onepole_design_method<FilterResponse::high_pass, T >
     static auto design( T f, T fs )
     {
         const auto a1 = +exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
-        const auto b0 = T{1} - abs(a1);
+        const auto b0 = T{1} - std::abs(a1);
 
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
-- 
2.43.0


From 3044ad7ff279cfe3dc2ef57268aac8e4b912a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 14/36] fix: onepole-design: pole is at exp(-2 pi f/fs)

---
 include/dsp/onepole-design.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index b6a39b5..c1b597c 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -75,7 +75,7 @@ struct onepole_design_method<FilterResponse::low_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = -exp( -T{1} * num::pi<T> * f / fs );
+        const auto a1 = -exp( -T{2} * num::pi<T> * f / fs );
         const auto b0 = T{1} - std::abs(a1);
         
         return OnePoleCoeffT<T>{ {b0}, {a1} };
@@ -89,7 +89,7 @@ struct onepole_design_method<FilterResponse::high_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = +exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
+        const auto a1 = +exp( -T{2} * num::pi<T> * (T{0.5} - f / fs ) );
         const auto b0 = T{1} - std::abs(a1);
 
         return OnePoleCoeffT<T>{ {b0}, {a1} };
-- 
2.43.0


From 88245b02c1eed88117ac1ef79443e2a4ad926c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 15/36] fix: chebyshev-design: type I poles follow from the
 pass-band ripple

---
 include/dsp/chebyshev-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index f24e5f3..5b63a0a 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -116,7 +116,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
     const auto r     = N % 2;
     const auto K     = ( N - r ) / 2;
 
-    const auto a     = std::asinh( estop ) / N;
+    const auto a     = std::asinh( 1 / epass ) / N;
     const auto W3    = real( Wpass * std::cosh( std::acosh( complex_t{1} / complex_t{epass} ) / complex_t(N) ) );
     const auto f3    = (fs / num::pi<T> ) * std::atan( std::pow( W3, s ) );
     const auto W0    = std::sinh( a ) * Wpass;
-- 
2.43.0


From 5599147851f8b0371f2d42b8763cfaf0f2ac545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 16/36] fix: chebyshev-design: gain of the first-order section
 of type I

---
 include/dsp/chebyshev-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index 5b63a0a..1339eb7 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -128,7 +128,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
 
     if ( r == 1 )
     {
-        const auto G = 1 / (1 + W0);
+        const auto G = W0 / (1 + W0);
 
         A.emplace_back( /*1,*/ s * ( 2 * G - 1 ), T{0} );
         B.emplace_back(   G,   s * G            , T{0} );
-- 
2.43.0


From 6386160ab96b5e45d684dff5c2e0221b29559369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 17/36] fix: chebyshev-design: peak gain of even-order type I
 is 0 dB

---
 include/dsp/chebyshev-design.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index 1339eb7..c681fe5 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -134,6 +134,10 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
         B.emplace_back(   G,   s * G            , T{0} );
     }
 
+    // even order: ripple minimum at DC (low-pass) or Nyquist (high-pass), put this gain in first section:
+
+    auto H0 = r == 1 ? T{1} : 1 / std::sqrt( 1 + epass * epass );
+
     for ( auto i : core::range( 1, K+1 ) )        // [1..K+1)
     {
         const auto th = num::pi<T> * (N - 1 + 2 * i) / (2 * N);
@@ -144,7 +148,9 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
         const auto a2 = (1 + 2 * W0 * cos(th) + W0 * W0 + Wi * Wi) / D;
 
         A.emplace_back( /*1,*/ s * a1, a2 );
-        B.emplace_back( G, G * s * 2, G  );
+        B.emplace_back( H0 * G, H0 * G * s * 2, H0 * G );
+
+        H0 = T{1};
     }
 
     return coeff;
-- 
2.43.0


From c70a9f16855061135f73bb9d1c1e9e93ab753055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 18/36] fix: onepole-io: print the actual stability

---
 include/dsp/onepole-io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/onepole-io.hpp b/include/dsp/onepole-io.hpp
index 96ee1fd..c0dafd9 100644
--- a/include/dsp/onepole-io.hpp
+++ b/include/dsp/onepole-io.hpp
@@ -48,7 +48,7 @@ template< typename T, typename S >
 std::ostream & operator<<( std::ostream & os, OnePoleT<T,S> const & bq )
 {
     return os <<
-        "\nOnePole is always stable" <<
+        "\nOnePole is " << ( bq.is_stable() ? "stable:":"NOT stable:" ) <<
         "\na: " << bq.coeff_a() <<
         "\nb: " << bq.coeff_b() <<
         "\nw: " << bq.state() <<
-- 
2.43.0


From ab14cef310a6026790797a715562a30e17b56232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 19/36] fix: range: unit-step range ends when its end is not
 hit exactly or lies before its begin

---
 include/core/range.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/core/range.hpp b/include/core/range.hpp
index a872826..5c397ec 100644
--- a/include/core/range.hpp
+++ b/include/core/range.hpp
@@ -83,6 +83,18 @@ struct range_proxy
         iterator( T current_ )
         : detail::range_iter_base<T>( current_ )
         {}
+
+        // at or beyond: also ends if last is not hit exactly or lies before first
+
+        bool operator==( iterator const & other ) const
+        {
+            return this->current >= other.current;
+        }
+
+        bool operator!=( iterator const & other ) const
+        {
+            return ! ( *this == other );
+        }
     };
 
     range_proxy( T first_, T last_)
-- 
2.43.0


From d569991a4155f6f6e437ba82e716d20565cc7dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:05 +0000
Subject: [PATCH 20/36] fix: limits: unsigned types are not signed on AVR

---
 include/std/limits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/std/limits.hpp b/include/std/limits.hpp
index 72065b2..0b7f5b0 100644
--- a/include/std/limits.hpp
+++ b/include/std/limits.hpp
@@ -57,7 +57,7 @@ class numeric_limits<__UINT8_TYPE__>
 {
     using T = __UINT8_TYPE__;
 public:
-    static constexpr bool is_signed  = true;
+    static constexpr bool is_signed  = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -83,7 +83,7 @@ class numeric_limits<__UINT16_TYPE__>
 {
     using T = __UINT16_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -109,7 +109,7 @@ class numeric_limits<__UINT32_TYPE__>
 {
     using T = __UINT32_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -135,7 +135,7 @@ class numeric_limits<__UINT64_TYPE__>
 {
     using T = __UINT64_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
-- 
2.43.0


From 5a419f3b374d4531df78d9da46d5344ce0722370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 21/36] fix: TC1 force-compare bits are in TCCR1C, not TCCR1A

---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 9faf03d..8b3616e 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1131,8 +1131,8 @@ namespace tc1
         namespace tccr1c
         {
             using whole = register8_t< rw_t, tccr1c_addr >;
-            using foc1a = bitfield8_t< rw_t, tccr1a_addr, FOC1A >;
-            using foc1b = bitfield8_t< rw_t, tccr1a_addr, FOC1B >;
+            using foc1a = bitfield8_t< rw_t, tccr1c_addr, FOC1A >;
+            using foc1b = bitfield8_t< rw_t, tccr1c_addr, FOC1B >;
 
             using value_type = whole::value_type;
         }
-- 
2.43.0


From c905904cebe6e85738cbe6b4505ca1153ebf9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 22/36] fix: read back waveform mode with its upper bits at
 position 2

---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 8b3616e..522d20b 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -899,7 +899,7 @@ namespace tc0
 
         inline auto current( waveform w )
         {
-            return waveform( shl(reg::tccr0b::wgm02::read(), WGM02) + reg::tccr0a::wgm0::read() );
+            return waveform( shl(reg::tccr0b::wgm02::read(), 2) + reg::tccr0a::wgm0::read() );
         }
 
         inline auto set( waveform w )
@@ -1324,7 +1324,7 @@ namespace tc1
 
         inline auto current( waveform )
         {
-            return waveform( shl(reg::tccr1b::wgm1::read(), WGM12) + reg::tccr1a::wgm1::read() );
+            return waveform( shl(reg::tccr1b::wgm1::read(), 2) + reg::tccr1a::wgm1::read() );
         }
 
         inline auto set( waveform w )
-- 
2.43.0


From 92151bb1b6fe99ddc5b4c64e559165b230a43fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 23/36] fix: return the current timer compare values

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 522d20b..e615433 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -955,7 +955,7 @@ namespace tc0
 
             inline auto current( a )
             {
-                a{ reg::ocr0a::whole::read() };
+                return a{ reg::ocr0a::whole::read() };
             }
 
             inline auto set( a v )
@@ -965,7 +965,7 @@ namespace tc0
 
             inline auto current( b )
             {
-                b{ reg::ocr0b::whole::read() };
+                return b{ reg::ocr0b::whole::read() };
             }
 
             inline auto set( b v )
@@ -1380,7 +1380,7 @@ namespace tc1
 
             inline auto current( a )
             {
-                a{ reg::ocr1a::whole::read() };
+                return a{ reg::ocr1a::whole::read() };
             }
 
             inline auto set( a v )
@@ -1390,7 +1390,7 @@ namespace tc1
 
             inline auto current( b )
             {
-                b{ reg::ocr1b::whole::read() };
+                return b{ reg::ocr1b::whole::read() };
             }
 
             inline auto set( b v )
-- 
2.43.0


From d318ad8b5bb2774a6148ca8ec06cac3f0468ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 24/36] fix: twi: write transmits the data byte after the
 address

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index e615433..9e9495b 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2079,7 +2079,7 @@ namespace twi
                 if ( expect_status( 0x18 ) )
                     return true;  // error
 
-                data( address );
+                data( byte );
 
                 if ( expect_status( 0x28 ) )
                     return true;  // error
-- 
2.43.0


From db48593dd445ab3edfe70cd9e51cf147fc18972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 25/36] fix: twi: init sets the requested prescaler

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 9e9495b..85263e2 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2019,7 +2019,7 @@ namespace twi
                 gpio<config::twi_port>::p<config::scl_pin>::inp::set();
 
                 //set SCL to 400kHz
-                TWSR = 0x00;
+                TWSR = to_integral( ps );
                 TWBR = to_integral( br );
                 //enable TWI
                 TWCR = (1<<TWEN);
-- 
2.43.0


From 2b8c8cc002cbe72703e86273c011130135b6a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 26/36] fix: twi: init enables the pull-ups instead of toggling
 them

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 85263e2..504ee2d 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1981,8 +1981,8 @@ namespace twi
                 set( twi::enable::interface::on );
 
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
             }
 
             inline auto flag()   { return current( twi::interrupt::flag{} ); }
@@ -2015,8 +2015,8 @@ namespace twi
                 , twi::control::prescale::factor ps = twi::control::prescale::factor::x1 )
             {
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
                 TWSR = to_integral( ps );
-- 
2.43.0


From 6643ee6880928a7e524065dc10490db16be7a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 27/36] fix: ei: pin change interrupt flags are cleared by
 writing one

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 504ee2d..86aaac2 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -576,7 +576,7 @@ namespace ei
     // 17.2.5 PCIFR: Pin Change Interrupt Flag Register
 
     template< pcint i >
-    using pcifr = bitfield8_t< rw_t, pcifr_addr, to_integral(i) >;
+    using pcifr = bitfield8_t< rc_w1_t, pcifr_addr, to_integral(i) >;
 
     inline auto pin_change_int2_flag()
     {
-- 
2.43.0


From f187e4765d5c4a9b7da0c6c560164407787a5a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 28/36] fix: tc1: TIFR1 as a whole can be read and written,
 like TIFR0

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 86aaac2..de19cf0 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1198,7 +1198,7 @@ namespace tc1
 
         namespace tifr1
         {
-            using whole = register8_t< rc_w1_t, tifr1_addr >;
+            using whole = register8_t< rw_t, tifr1_addr >;
             using icf1  = bitfield8_t< rc_w1_t, tifr1_addr, ICF1  >;
             using ocf1b = bitfield8_t< rc_w1_t, tifr1_addr, OCF1B >;
             using ocf1a = bitfield8_t< rc_w1_t, tifr1_addr, OCF1A >;
-- 
2.43.0


From a758bd2de7c940472dc5bdcf81831a0a1e622fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 29/36] fix: twi: address mask is in bits 7..1 of TWAMR

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index de19cf0..2a27472 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1784,7 +1784,7 @@ namespace twi
         namespace twamr
         {
             using whole = register8_t< rw_t, addr_twamr >;
-            using twam  = bitfield8_t< rw_t, addr_twamr, TWAM6, TWAM0 >;
+            using twam  = bitfield8_t< rw_t, addr_twamr, 7, 1 >;   // avr-libc defines TWAM6:0 as 6..0, see data sheet 26.9.6
         }
     } // namespace reg
 
-- 
2.43.0


From 1be14e61341450f8b56debf405b8d6ac1c49cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:13 +0000
Subject: [PATCH 30/36] fix: subtract a scalar from a matrix without negating
 it first

---
 include/num/matrix.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 368c139..956b09f 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -309,7 +309,13 @@ constexpr matrix<T,N,M> operator+( identity_t<T> v, matrix<T,N,M> const & A )
 template< typename T, int N, int M >
 constexpr matrix<T,N,M> operator-( matrix<T,N,M> const & A, identity_t<T> v )
 {
-    return A + -v;
+    matrix<T,N,M> result(0);
+
+    for( int i = 0; i < A.size(); ++i )
+    {
+        result(i) = A(i) - v;
+    }
+    return result;
 }
 
 // A * v:
-- 
2.43.0


From e273891f62e8f82f7a2d48ef5d211a0b4a0e24fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:39 +0000
Subject: [PATCH 31/36] fix: stepping ranges of integers that end near the
 type's largest value wrapped around and never ended

---
 include/core/range.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/core/range.hpp b/include/core/range.hpp
index 5c397ec..1ce5a0a 100644
--- a/include/core/range.hpp
+++ b/include/core/range.hpp
@@ -13,6 +13,7 @@
 
 //#include <cassert>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 
 #ifndef _MSC_VER
@@ -126,6 +127,16 @@ struct step_range_proxy
 
         iterator & operator++()
         {
+            // an end near the largest value: stop there, do not wrap around.
+
+            if ( std::is_integral<T>::value && !infinite )
+            {
+                constexpr T max = (std::numeric_limits<T>::max)();
+
+                this->current = step > T(0) && this->current > max - step ? max : static_cast<T>( this->current + step );
+                return *this;
+            }
+
             this->current = first + ++factor * step; return *this;
         }
 
-- 
2.43.0


From f9c144799df6f6c58e4aeadccb9386b861db2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:31 +0000
Subject: [PATCH 32/36] fix: stepping floating-point ranges of more than 2^24
 (float) steps never ended

---
 include/core/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/core/range.hpp b/include/core/range.hpp
index 1ce5a0a..e06fdd8 100644
--- a/include/core/range.hpp
+++ b/include/core/range.hpp
@@ -156,7 +156,7 @@ struct step_range_proxy
         }
 
     private:
-        T factor = 0;
+        std::conditional_t<std::is_floating_point<T>::value, unsigned long long, T> factor = 0;
         T first;
         T step;
         bool infinite;
-- 
2.43.0


From 2ef098f5fbd71979dd36e10fe69f8d09dfcdbe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:26 +0000
Subject: [PATCH 33/36] fix: level of an integer against a fractional reference
 truncated the reference

---
 include/dsp/filter-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index c3fdd1e..fee52f1 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -53,7 +53,7 @@ inline auto prewarp( P f, Q fs )
 // factor as dbP
 
 template< typename T >
-auto dbP( T vout, core::identity_t<T> vin )
+auto dbP( T vout, core::identity_t<std::common_type_t<float, T>> vin )
 {
     using U = std::common_type_t<float, T>;
 
-- 
2.43.0


From dc27d7b88e0be373aa2af2365d0eb6f39d374557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:45 +0000
Subject: [PATCH 34/36] fix: tuple: terminate the conditional, the header could
 not be included

---
 include/std/tuple.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/std/tuple.hpp b/include/std/tuple.hpp
index 23e958c..995d73a 100644
--- a/include/std/tuple.hpp
+++ b/include/std/tuple.hpp
@@ -33,4 +33,6 @@ struct ignore
 
 } // namespace std20
 
+#endif  // __AVR
+
 #endif // STD_TUPLE_INCLUDED
-- 
2.43.0


From b6017875029ad99b21bec2067ed144e05d6c3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:45 +0000
Subject: [PATCH 35/36] fix: complex: assignments on AVR return the object

---
 include/std/complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index f4ad926..176f63c 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -46,12 +46,14 @@ public:
     {
         re_ = x;
         im_ = T();
+        return *this;
     }
 
     constexpr complex & operator=( complex const & cx )
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     template<class X>
@@ -59,6 +61,7 @@ public:
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     constexpr T real() const
-- 
2.43.0


From 01d1b66aa2e11f3a445602df2c654e05b0151b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:39 +0000
Subject: [PATCH 36/36] fix: text.hpp includes what it uses, it could not be
 included on its own

---
 include/core/text.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/core/text.hpp b/include/core/text.hpp
index 4df0c6f..38f7d34 100644
--- a/include/core/text.hpp
+++ b/include/core/text.hpp
@@ -8,6 +8,8 @@
 #ifndef CORE_TEXT_HPP_INCLUDED
 #define CORE_TEXT_HPP_INCLUDED
 
+#include <string>
+
 namespace core {
 
 using Text = std::string;
-- 
2.43.0

