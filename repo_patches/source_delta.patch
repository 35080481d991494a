From e84847f017bd03d80057d6ad2bff267d3d8f705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 01/33] fix: do not simplify products of spin-1/2 and
 higher-spin generators

generator_spin::simplify_prod() compared only indices, so that a product of
a spin-1/2 operator and an operator of a different spin carrying the same
indices was reduced as if both belonged to the same spin-1/2 site.
---
 include/libcommute/expression/generator_spin.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/generator_spin.hpp b/include/libcommute/expression/generator_spin.hpp
index 849c210..94a3197 100644
--- a/include/libcommute/expression/generator_spin.hpp
+++ b/include/libcommute/expression/generator_spin.hpp
@@ -96,7 +96,8 @@ public:
     // cppcheck-suppress-begin knownConditionTrueFalse
     auto const& g2_ = dynamic_cast<generator_spin const&>(g2);
     // cppcheck-suppress knownConditionTrueFalse
-    if(!base::equal(g2) || this->multiplicity_ != 2) return false;
+    if(!base::equal(g2) || this->multiplicity_ != 2 || g2_.multiplicity_ != 2)
+      return false;
 
     if(this->c_ == g2_.c_) {
       f.set(this->c_ == spin_component::z ? var_number(1, 4) : var_number(0));
-- 
2.43.0


From ad5067cfeb9de8ebc21b6eb514976dfd0c0e3080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 02/33] fix: subtraction of an expression from itself in place

operator-=() with an expression as both operands erased elements of
the container it was iterating over.
---
 include/libcommute/expression/expression.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index c56ad7f..f622dae 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -260,6 +260,11 @@ public:
 
   // Compound assignment/subtraction
   template <typename S> expression& operator-=(expression_t<S> const& expr) {
+    // Self-subtraction must not erase elements from the map being traversed
+    if(static_cast<void const*>(&expr) == static_cast<void const*>(this)) {
+      monomials_.clear();
+      return *this;
+    }
     auto const z = scalar_traits<ScalarType>::make_const(0);
     for(auto const& p : expr.get_monomials()) {
       auto it = monomials_.find(p.first);
-- 
2.43.0


From 8a1f61721225ac504fc006921f410cda23ea727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 03/33] fix: in-place multiplication of an expression by its
 own coefficient

operator*=() kept a reference to the factor while modifying coefficients, so
that a factor being one of these coefficients changed halfway through.
---
 include/libcommute/expression/expression.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index f622dae..faa9741 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -384,9 +384,12 @@ public:
   expression& operator*=(S const& alpha) {
     if(scalar_traits<remove_cvref_t<S>>::is_zero(alpha))
       monomials_.clear();
-    else
+    else {
+      // 'alpha' may refer to one of the coefficients being multiplied
+      auto const factor = alpha;
       for(auto& p : monomials_)
-        mul_assign(p.second, alpha);
+        mul_assign(p.second, factor);
+    }
     return *this;
   }
 
-- 
2.43.0


From 4c3c52f559886bf905977c3a8052b59551cf9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 04/33] fix: conj() of an expression with a near-zero
 coefficient repeated the preceding term

---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index faa9741..6d4143b 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -206,8 +206,8 @@ public:
           (*m_it).conj(f);
           m_contrib *= expression(f);
         }
+        res += m_contrib;
       }
-      res += m_contrib;
     }
     return res;
   }
-- 
2.43.0


From c5e93fd004fcc51753b4f11f959274af8096475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 05/33] fix: reject floating-point constants outside the range
 of an integral ScalarType

---
 include/libcommute/scalar_traits.hpp          | 4 +++-
 include/libcommute/scalars/boost_rational.hpp | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/scalar_traits.hpp b/include/libcommute/scalar_traits.hpp
index 443644b..7898d50 100644
--- a/include/libcommute/scalar_traits.hpp
+++ b/include/libcommute/scalar_traits.hpp
@@ -54,7 +54,9 @@ template <typename S> struct scalar_traits<S, with_trait<std::is_integral, S>> {
   static bool is_zero(S const& x) { return x == 0; }
   // Make a constant from a double value
   static S make_const(double x) {
-    if(std::nearbyint(x) != x) {
+    if(std::nearbyint(x) != x ||
+       x < static_cast<double>(std::numeric_limits<S>::min()) ||
+       x >= std::ldexp(1.0, std::numeric_limits<S>::digits)) {
       throw std::runtime_error("Cannot convert " + std::to_string(x) +
                                " to an integral ScalarType");
     }
diff --git a/include/libcommute/scalars/boost_rational.hpp b/include/libcommute/scalars/boost_rational.hpp
index aa53d42..f79b5ca 100644
--- a/include/libcommute/scalars/boost_rational.hpp
+++ b/include/libcommute/scalars/boost_rational.hpp
@@ -17,6 +17,8 @@
 
 #include <boost/rational.hpp>
 
+#include <cmath>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -33,7 +35,10 @@ template <typename IntType> struct scalar_traits<boost::rational<IntType>> {
   static bool is_zero(rational_t const& x) { return x == 0; }
   // Make a constant from a double value
   static rational_t make_const(double x) {
-    if(std::nearbyint(x) != x) {
+    using lim = std::numeric_limits<IntType>;
+    if(std::nearbyint(x) != x ||
+       (lim::is_bounded && (x >= std::ldexp(1.0, lim::digits) ||
+                            x < -std::ldexp(lim::is_signed, lim::digits)))) {
       throw std::runtime_error("Cannot convert " + std::to_string(x) +
                                " to boost::rational");
     }
-- 
2.43.0


From 6d8e622d6041b3f21a781089fa8ff3c9f5607533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 06/33] fix: canonicalize rational structure constants
 converted to mpq_class

---
 include/libcommute/scalars/gmpxx.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/scalars/gmpxx.hpp b/include/libcommute/scalars/gmpxx.hpp
index 0f9ce71..549b2d7 100644
--- a/include/libcommute/scalars/gmpxx.hpp
+++ b/include/libcommute/scalars/gmpxx.hpp
@@ -123,9 +123,11 @@ template <> struct scalar_traits<mpq_class> {
   static mpq_class make_const(var_number const& vn) {
     if(vn.number_type == var_number::integer)
       return int(vn);
-    else if(vn.number_type == var_number::rational)
-      return {vn.numerator(), vn.denominator()};
-    else {
+    else if(vn.number_type == var_number::rational) {
+      mpq_class q(vn.numerator(), vn.denominator());
+      q.canonicalize();
+      return q;
+    } else {
       std::stringstream ss;
       ss << vn;
       throw std::runtime_error("Cannot convert the variant number " + ss.str() +
-- 
2.43.0


From 73b77240987b28d825ebece6fc236f84b4f009f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 07/33] fix: do not store short monomials with a vanishing
 coefficient

---
 include/libcommute/expression/expression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 6d4143b..ef029ba 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -695,11 +695,11 @@ private:
         }
         --n_max;
       } while(is_swapped);
-
-      // Check that coefficient in front of this monomial is not zero
-      if(scalar_traits<ScalarType>::is_zero(coeff)) return;
     }
 
+    // Check that coefficient in front of this monomial is not zero
+    if(scalar_traits<ScalarType>::is_zero(coeff)) return;
+
     // Store the result
     reduce_powers_and_store(std::move(m), coeff, target);
   }
-- 
2.43.0


From f46cb64852d99a89443ccf647c1c9f150c308dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 08/33] fix: simplify products of generators put next to each
 other by the last swaps

---
 include/libcommute/expression/expression.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index ef029ba..9c2664b 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -662,7 +662,7 @@ private:
         }
       };
 
-      std::size_t n_max = m.size() - 1;
+      std::size_t const n_max = m.size() - 1;
       bool is_swapped = false;
       do {
         is_swapped = false;
@@ -693,7 +693,8 @@ private:
             }
           }
         }
-        --n_max;
+        // The search range must not be reduced here: A pair of generators that
+        // have just been swapped may still allow for a simplification.
       } while(is_swapped);
     }
 
-- 
2.43.0


From 5031777e3408c41fb4e563536d80bdf06833f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 09/33] fix: portable implementation of popcount() computed
 running parities

---
 include/libcommute/loperator/bit_ops.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/libcommute/loperator/bit_ops.hpp b/include/libcommute/loperator/bit_ops.hpp
index b3e7c69..870d82e 100644
--- a/include/libcommute/loperator/bit_ops.hpp
+++ b/include/libcommute/loperator/bit_ops.hpp
@@ -57,13 +57,11 @@ inline unsigned int popcount(std::uint64_t i) {
 #if defined(__GNUC__) || defined(__clang__)
   return __builtin_popcountll(i);
 #else
-  i ^= i >> 32;
-  i ^= i >> 16;
-  i ^= i >> 8;
-  i ^= i >> 4;
-  i ^= i >> 2;
-  i ^= i >> 1;
-  return i;
+  // https://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetParallel
+  i = i - ((i >> 1) & 0x5555555555555555ULL);
+  i = (i & 0x3333333333333333ULL) + ((i >> 2) & 0x3333333333333333ULL);
+  i = (i + (i >> 4)) & 0x0f0f0f0f0f0f0f0fULL;
+  return static_cast<unsigned int>((i * 0x0101010101010101ULL) >> 56);
 #endif
 }
 
-- 
2.43.0


From f1163fa7e05c543613c6b8bcea5b0e706d55ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 10/33] fix: disjoint_sets::compress_sets() and
 normalize_sets() for trees of more than one level

---
 include/libcommute/loperator/disjoint_sets.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/disjoint_sets.hpp b/include/libcommute/loperator/disjoint_sets.hpp
index 3287b38..999381b 100644
--- a/include/libcommute/loperator/disjoint_sets.hpp
+++ b/include/libcommute/loperator/disjoint_sets.hpp
@@ -108,12 +108,13 @@ public:
 
   // Compress all sets (make every element represented by its parent)
   void compress_sets() {
-    for(std::size_t x : parents_)
+    for(std::size_t x = 0; x < size(); ++x)
       find_root(x);
   }
 
   // Normalize all sets (make every representative be the smallest in its set)
   void normalize_sets() {
+    compress_sets();
     for(std::size_t x = 0; x < size(); ++x) {
       std::size_t p = parents_[x];
       if(x > p || parents_[p] != p)
-- 
2.43.0


From 530a66887c83c60cfa29497f7603ff59a9a2b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 11/33] fix: copy and (self-)assignment of hilbert_space

---
 include/libcommute/loperator/hilbert_space.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index bb4d1cd..2098b66 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -233,7 +233,8 @@ public:
 
   // Value semantics
   hilbert_space(hilbert_space const& hs)
-    : bit_range_end_(hs.bit_range_end_),
+    : algebra_bit_ranges_(hs.algebra_bit_ranges_),
+      bit_range_end_(hs.bit_range_end_),
       dim_(hs.dim_),
       foreach_alg_(hs.foreach_alg_ ?
                        make_unique<detail::sparse_foreach_basis_state>(
@@ -247,6 +248,8 @@ public:
   }
   hilbert_space(hilbert_space&&) noexcept = default;
   hilbert_space& operator=(hilbert_space const& hs) {
+    if(this == &hs) return *this;
+    algebra_bit_ranges_ = hs.algebra_bit_ranges_;
     bit_range_end_ = hs.bit_range_end_;
     elementary_spaces_.clear();
     for(auto const& es : hs.elementary_spaces_) {
-- 
2.43.0


From 2496cc8a054697997eb1a17beb79e988263d133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 12/33] fix: leave hilbert_space unchanged when add() throws
 hilbert_space_too_big

---
 include/libcommute/loperator/hilbert_space.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 2098b66..9c4bdc9 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -289,7 +289,14 @@ public:
   void add(elementary_space_t const& es) {
     auto r = elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
     if(!r.second) throw elementary_space_exists(es);
-    recompute_bit_ranges();
+    try {
+      recompute_bit_ranges();
+    } catch(hilbert_space_too_big const&) {
+      // Restore the state preceding the call
+      elementary_spaces_.erase(r.first);
+      recompute_bit_ranges();
+      throw;
+    }
     dim_ *= es.dim();
     init_foreach_alg();
   }
-- 
2.43.0


From 36dae69e63797c2e23850c764ef83b8c783b93d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 13/33] fix: number of bits of an elementary bosonic space of a
 large dimension

---
 .../loperator/elementary_space_boson.hpp         | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/elementary_space_boson.hpp b/include/libcommute/loperator/elementary_space_boson.hpp
index 3ffd78c..c3fe265 100644
--- a/include/libcommute/loperator/elementary_space_boson.hpp
+++ b/include/libcommute/loperator/elementary_space_boson.hpp
@@ -20,7 +20,9 @@
 #include "elementary_space.hpp"
 
 #include <cassert>
-#include <cmath>
+#include <limits>
+#include <memory>
+#include <utility>
 
 namespace libcommute {
 
@@ -39,7 +41,7 @@ public:
   elementary_space_boson(sv_index_type dim, Args&&... indices)
     : base(std::forward<Args>(indices)...),
       dim_(dim),
-      n_bits_(std::ceil(std::log2(dim))) {
+      n_bits_(ceil_log2(dim)) {
     assert(dim > 0);
   }
   elementary_space_boson(elementary_space_boson const&) = default;
@@ -66,6 +68,16 @@ public:
   int n_bits() const override { return n_bits_; }
 
 private:
+  // Integer arithmetic is used here because a dimension just above a large
+  // power of two cannot be told from that power after conversion to 'double'.
+  static int ceil_log2(sv_index_type dim) {
+    int n_bits = 0;
+    while(n_bits < std::numeric_limits<sv_index_type>::digits &&
+          ((dim - 1) >> n_bits) != 0)
+      ++n_bits;
+    return n_bits;
+  }
+
   // This space is spanned by bosonic states |0>, |1>, ..., |dim-1>
   sv_index_type const dim_;
 
-- 
2.43.0


From 4cdda56915da245899b7a3efbcaa7432f6b1ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 14/33] fix: enumeration of basis states of Hilbert spaces with
 2^31 or more states

---
 include/libcommute/loperator/hilbert_space.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 9c4bdc9..cabdc67 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -76,7 +76,7 @@ public:
                     0 :
                     std::accumulate(sizes_.begin(),
                                     sizes_.end(),
-                                    1,
+                                    sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
       jumps_(init_jumps(sizes_)),
       indices_(sizes_.size()) {}
-- 
2.43.0


From 8fb1cc214a938c8be737fa15b0c5228bab6fa844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 15/33] fix: equality of Hilbert spaces with bosons of
 different dimensions

---
 include/libcommute/loperator/hilbert_space.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index cabdc67..220ffb1 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -277,7 +277,11 @@ public:
                       hs1.elementary_spaces_.end(),
                       hs2.elementary_spaces_.begin(),
                       [](value_type const& v1, value_type const& v2) {
-                        return *v1.first == *v2.first && v1.second == v2.second;
+                        // Elementary spaces of different dimensions can be
+                        // equal (bosons) and span equally many bits.
+                        return *v1.first == *v2.first &&
+                               v1.first->dim() == v2.first->dim() &&
+                               v1.second == v2.second;
                       });
   }
   inline friend bool operator!=(hilbert_space const& hs1,
-- 
2.43.0


From 9d3be35e2ec7a0c577d57096290f09232090160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 16/33] fix: nested enumeration of basis states of one Hilbert
 space

---
 include/libcommute/loperator/hilbert_space.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 220ffb1..fa2abaa 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -52,8 +52,6 @@ class sparse_foreach_basis_state {
   // jumps_[d] is the additional jump in the basis state index introduced when
   // indices_[d] reaches sizes_[d] and indices_[d + 1] is incremented.
   std::vector<sv_index_type> jumps_;
-  // Current set of integers
-  std::vector<sv_index_type> mutable indices_;
 
   static std::vector<sv_index_type>
   init_jumps(std::vector<sv_index_type> const& sizes) {
@@ -78,8 +76,7 @@ public:
                                     sizes_.end(),
                                     sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
-      jumps_(init_jumps(sizes_)),
-      indices_(sizes_.size()) {}
+      jumps_(init_jumps(sizes_)) {}
 
   // Value semantics
   sparse_foreach_basis_state(sparse_foreach_basis_state const&) = default;
@@ -91,7 +88,9 @@ public:
   ~sparse_foreach_basis_state() = default;
 
   template <typename Function> inline void operator()(Function&& f) const {
-    std::fill(indices_.begin(), indices_.end(), 0);
+    // Current set of integers
+    // It must not be shared between (possibly nested) calls.
+    std::vector<sv_index_type> indices_(sizes_.size(), 0);
     sv_index_type state = 0;
     for(sv_index_type i = 0; i < n_states_; ++i) {
       std::forward<Function>(f)(state);
-- 
2.43.0


From 081cb0f28d5ca1e72381d04c9268c33463a4f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 17/33] fix: unknown generators following a vanishing power of
 a bosonic generator were not reported

---
 include/libcommute/loperator/monomial_action_boson.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/monomial_action_boson.hpp b/include/libcommute/loperator/monomial_action_boson.hpp
index d117e42..e824935 100644
--- a/include/libcommute/loperator/monomial_action_boson.hpp
+++ b/include/libcommute/loperator/monomial_action_boson.hpp
@@ -98,9 +98,11 @@ public:
         sqr_roots_size = std::max(sqr_roots_size, n_max + 1);
 
         // Application of this monomial would inevitably give 0. Skipping.
+        // The remaining generators still have to be checked.
         if(power > n_max) {
           vanishing_ = true;
-          return;
+          power = 1;
+          continue;
         }
 
         bool dagger =
-- 
2.43.0


From 203fb0ae756abc46de3e1e1dfc447ae6fc840254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 18/33] fix: compressed views of Hilbert spaces spanned only by
 one-dimensional spaces

---
 include/libcommute/loperator/compressed_state_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/compressed_state_view.hpp b/include/libcommute/loperator/compressed_state_view.hpp
index 8a8032e..9558050 100644
--- a/include/libcommute/loperator/compressed_state_view.hpp
+++ b/include/libcommute/loperator/compressed_state_view.hpp
@@ -95,7 +95,8 @@ private:
             mask = 0;
           }
         });
-    if(dim != 1) {
+    // A space spanned only by one-dimensional elementary spaces has one state
+    if(dim != 1 || (sizes.empty() && hs.size() != 0)) {
       sizes.push_back(dim);
       masks.push_back(mask);
     }
-- 
2.43.0


From 77556707499f682795493ad0d3bbfc884984cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 19/33] fix: nested enumeration of basis states of one
 fermionic (multi)sector view

---
 .../loperator/n_fermion_sector_view.hpp        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 640d380..3d87ed6 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -568,9 +568,12 @@ foreach(n_fermion_sector_view<StateVector, Ref, RankingAlgorithm> const& view,
   sv_index_type const dim_nonfermion = detail::pow2(view.M_nonfermion);
   sv_index_type sector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type const unranked = view.unranking.next();
+  // Unranking generators are stateful and must not be shared between
+  // (possibly nested) calls.
+  auto const unranking = view.unranking;
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type const unranked = unranking.next();
     for(sv_index_type index_nf = 0; index_nf < dim_nonfermion; ++index_nf) {
 
       // Emulate decltype(auto)
@@ -955,9 +958,12 @@ inline void foreach(
   sv_index_type const dim_nonmultisector = detail::pow2(view.M_nonmultisector);
   sv_index_type multisector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type unranked = view.unranking.next();
+  // Unranking generators are stateful and must not be shared between
+  // (possibly nested) calls.
+  auto const unranking = view.unranking;
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type unranked = unranking.next();
     for(sv_index_type index_nms = 0; index_nms < dim_nonmultisector;
         ++index_nms) {
 
-- 
2.43.0


From 65e9959980f4a2ce6a1e89b7e313f998ce5a9036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 20/33] fix: overflow in computation of large binomial
 coefficients

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 3d87ed6..fb87f99 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -54,8 +54,11 @@ inline sv_index_type binomial(unsigned int n, unsigned int k) {
   if(k > n) return 0;
   if(k > n / 2) k = n - k;
   sv_index_type C = 1;
-  for(unsigned int i = 0; i < k; ++i)
-    C = (C * (n - i)) / (i + 1);
+  for(unsigned int i = 0; i < k; ++i) {
+    // Compute C * (n - i) / (i + 1) without overflowing in the product
+    sv_index_type const d = i + 1;
+    C = (C / d) * (n - i) + ((C % d) * (n - i)) / d;
+  }
   return C;
 }
 
-- 
2.43.0


From 43f6e1ea2f9a7be7dd0f33bbc59d90a1fd206a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 21/33] fix: copied and moved fermionic multisector views
 referred to data of their originals

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index fb87f99..7e8bf5f 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -719,8 +719,9 @@ unsigned int make_nonmultisector_mask(HSType const& hs,
 // Generator of multi-sector unranked basis states
 class multisector_unranking_generator {
 
-  // Parameters of sectors
-  detail::sector_params_vec_t const& sector_params;
+  // Parameters of sectors (stored by value, so that copies of a generator do
+  // not depend on lifetime of the object the original was constructed from)
+  detail::sector_params_vec_t sector_params;
 
   // State unranking generators for each sector
   std::vector<unranking_generator> sector_gens;
-- 
2.43.0


From 7103f35be7db0f892efa4eb689a8c5698faa4c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 22/33] fix: fermionic multisectors with modes at bits 32 and
 higher

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 7e8bf5f..f422c54 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -100,7 +100,7 @@ private:
   }
 
   template <typename... IndexTypes>
-  static unsigned int
+  static sv_index_type
   init_mask(hilbert_space<IndexTypes...> const& hs,
             sector_descriptor<hilbert_space<IndexTypes...>> const& sector) {
     sv_index_type m = 0;
-- 
2.43.0


From accf0679bdbc0b07a136754314db1705739d740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 23/33] fix: number of basis states in fermionic multisectors
 with 2^31 or more configurations

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index f422c54..4955a61 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -746,7 +746,7 @@ public:
       sector_gens(params.begin(), params.end()),
       total(std::accumulate(sector_gens.begin(),
                             sector_gens.end(),
-                            1,
+                            sv_index_type(1),
                             [](sv_index_type n, unranking_generator const& g) {
                               return n * g.size();
                             })),
-- 
2.43.0


From 021876fef38a27c39653d476dbf608da0b6cf775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 24/33] fix: merging of subspaces with targets of previously
 merged subspaces

---
 .../libcommute/loperator/space_partition.hpp  | 29 ++++++++-----------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 429c8e1..dfbc47f 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -173,25 +173,20 @@ public:
     // Merge all 'out' subspaces corresponding to the same 'in' subspace
     // in 'conn'.
     auto merge_conn_targets = [this](conn_t const& conn) -> bool {
-      if(conn.empty()) return false;
-
       bool subspaces_linked = false;
 
-      auto conn_it = conn.cbegin();
-      sv_index_type in_subspace = ds.find_root(conn_it->first);
-      sv_index_type out_subspace = ds.find_root(conn_it->second);
-      ++conn_it;
-      for(; conn_it != conn.cend(); ++conn_it) {
-        if(ds.find_root(conn_it->first) == ds.find_root(in_subspace)) {
-          sv_index_type out_subspace1 = ds.find_root(out_subspace);
-          sv_index_type out_subspace2 = ds.find_root(conn_it->second);
-          if(out_subspace1 != out_subspace2) {
-            ds.root_union(out_subspace1, out_subspace2);
-            subspaces_linked = true;
-          }
-        } else {
-          in_subspace = ds.find_root(conn_it->first);
-          out_subspace = ds.find_root(conn_it->second);
+      // Representatives of the 'in' subspaces and one of their targets each.
+      // Elements of 'conn' that share an 'in' subspace do not have to be
+      // adjacent, since the 'in' subspaces could have been merged.
+      std::map<sv_index_type, sv_index_type> targets;
+      for(auto const& c : conn) {
+        auto res = targets.emplace(ds.find_root(c.first), c.second);
+        if(res.second) continue;
+        sv_index_type out_subspace1 = ds.find_root(res.first->second);
+        sv_index_type out_subspace2 = ds.find_root(c.second);
+        if(out_subspace1 != out_subspace2) {
+          ds.root_union(out_subspace1, out_subspace2);
+          subspaces_linked = true;
         }
       }
 
-- 
2.43.0


From 9ba1d09b6a09b785dc07d226933264379d290ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 25/33] fix: merging of subspaces could break one-to-one
 connections generated by operators of the previous merges

---
 .../libcommute/loperator/space_partition.hpp  | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index dfbc47f..d6350be 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -55,6 +55,9 @@ template <typename HSType> class space_partition {
   disjoint_sets ds;
   // Map representative basis state to subspace index
   std::map<sv_index_type, sv_index_type> root_to_subspace;
+  // Connections between representatives of subspaces generated by all operators
+  // merge_subspaces() has been called for
+  std::vector<connections_map> merged_conns;
 
   template <typename LOpScalarType, int... LOpAlgebraIDs>
   using loperator_melem_t = matrix_elements_map<
@@ -140,12 +143,11 @@ public:
     using scalar_type = typename loperator_t::scalar_type;
     matrix_elements_map<scalar_type> Cd_elements, C_elements;
 
-    using conn_t = std::multimap<sv_index_type, sv_index_type>;
-    conn_t Cd_conn, C_conn;
+    connections_map Cd_conn, C_conn;
 
     sv_index_type d = get_vec_size(hs);
 
-    // Fill connection multimaps
+    // Fill connection maps
     sparse_state_vector<scalar_type> in_state(d);
     sparse_state_vector<scalar_type> out_state(d);
     foreach(hs, [&](sv_index_type in_index) {
@@ -153,7 +155,7 @@ public:
       sv_index_type in_subspace = ds.find_root(in_index);
 
       auto fill_conn = [&, this](loperator_t const& lop,
-                                 conn_t& conn,
+                                 connections_map& conn,
                                  matrix_elements_map<scalar_type>& elem) {
         lop(in_state, out_state);
         // Iterate over non-zero final amplitudes
@@ -172,7 +174,7 @@ public:
 
     // Merge all 'out' subspaces corresponding to the same 'in' subspace
     // in 'conn'.
-    auto merge_conn_targets = [this](conn_t const& conn) -> bool {
+    auto merge_conn_targets = [this](connections_map const& conn) -> bool {
       bool subspaces_linked = false;
 
       // Representatives of the 'in' subspaces and one of their targets each.
@@ -193,14 +195,20 @@ public:
       return subspaces_linked;
     };
 
+    merged_conns.emplace_back(std::move(Cd_conn));
+    merged_conns.emplace_back(std::move(C_conn));
+
     // Repeatedly call merge_conn_targets() until no further subspaces can
-    // be merged.
+    // be merged. Connections generated by the previously processed operators
+    // are taken into account as they can also be affected by the merges.
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    bool sl_Cd, sl_C;
+    bool subspaces_linked;
     do {
-      sl_Cd = merge_conn_targets(Cd_conn);
-      sl_C = merge_conn_targets(C_conn);
-    } while(sl_Cd || sl_C);
+      subspaces_linked = false;
+      for(auto const& conn : merged_conns) {
+        if(merge_conn_targets(conn)) subspaces_linked = true;
+      }
+    } while(subspaces_linked);
 
     update_root_to_subspace();
 
-- 
2.43.0


From bf9d1418b1578c068733dd1452bbc955d3763b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 26/33] fix: order of operators in products used to build basis
 mappings

---
 include/libcommute/loperator/mapped_basis_view.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/libcommute/loperator/mapped_basis_view.hpp b/include/libcommute/loperator/mapped_basis_view.hpp
index 0e2a4ad..8ab4422 100644
--- a/include/libcommute/loperator/mapped_basis_view.hpp
+++ b/include/libcommute/loperator/mapped_basis_view.hpp
@@ -131,6 +131,7 @@ class basis_mapper {
 
   std::unordered_map<sv_index_type, sv_index_type> map_;
 
+  // Operators O_list[m - 1], ..., O_list[0] are yet to be applied to 'st'
   template <typename LOpScalarType, int... LOpAlgebraIDs>
   void compositions_constructor_impl(
       std::vector<loperator<LOpScalarType, LOpAlgebraIDs...>> const& O_list,
@@ -149,16 +150,16 @@ class basis_mapper {
               });
     }
 
-    if(std::size_t(m) == O_list.size()) return;
+    if(m == 0) return;
 
-    compositions_constructor_impl(O_list, st, m + 1, sum_n, N);
+    compositions_constructor_impl(O_list, st, m - 1, sum_n, N);
 
     auto from_st = st;
     auto to_st = zeros_like(st);
     for(; sum_n < N; ++sum_n) {
-      O_list[m](from_st, to_st);
+      O_list[m - 1](from_st, to_st);
       if(to_st.n_nonzeros() == 0) return;
-      compositions_constructor_impl(O_list, to_st, m + 1, sum_n + 1, N);
+      compositions_constructor_impl(O_list, to_st, m - 1, sum_n + 1, N);
       from_st = to_st;
     }
   }
@@ -208,7 +209,7 @@ public:
         typename loperator<LOpScalarType, LOpAlgebraIDs...>::scalar_type;
     sparse_state_vector<scalar_type> vac(get_vec_size(hs));
     vac[0] = 1;
-    compositions_constructor_impl(O_list, vac, 0, 0, N);
+    compositions_constructor_impl(O_list, vac, O_list.size(), 0, N);
   }
 
   // Number of basis states in the mapping
-- 
2.43.0


From e8c042db8551178f7e6f1c0312ec578188c152c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 27/33] fix: arguments of parametric operators were moved from
 by the first coefficient

---
 include/libcommute/loperator/loperator.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/libcommute/loperator/loperator.hpp b/include/libcommute/loperator/loperator.hpp
index 9843151..25d7e3e 100644
--- a/include/libcommute/loperator/loperator.hpp
+++ b/include/libcommute/loperator/loperator.hpp
@@ -225,9 +225,10 @@ public:
   inline loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...>
   at(CoeffArgs&&... args) const {
     loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...> lop;
+    // The arguments are shared by all coefficients and must not be forwarded
+    // (moved from).
     for(auto const& m : base::m_actions()) {
-      lop.add_monomial_action(m.first,
-                              m.second(std::forward<CoeffArgs>(args)...));
+      lop.add_monomial_action(m.first, m.second(args...));
     }
     return lop;
   }
@@ -243,11 +244,12 @@ private:
 
     auto const& m_act = base::m_actions();
 
-    // Evaluate coefficients
+    // Evaluate coefficients. The arguments are shared by all of them and must
+    // not be forwarded (moved from).
     evaluated_coeffs.reserve(m_act.size());
     for(auto const& a : m_act)
       // cppcheck-suppress useStlAlgorithm
-      evaluated_coeffs.emplace_back(a.second(std::forward<CoeffArgs>(args)...));
+      evaluated_coeffs.emplace_back(a.second(args...));
 
     // Apply monomials
     foreach(
-- 
2.43.0


From 3a60ea5cc718ac420081bf9726d38de53ddf763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 28/33] fix: multiplication by a scalar could leave zero
 coefficients in an expression

---
 include/libcommute/expression/expression.hpp | 39 +++++++++++++++-----
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 9c2664b..cc98741 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -387,8 +387,14 @@ public:
     else {
       // 'alpha' may refer to one of the coefficients being multiplied
       auto const factor = alpha;
-      for(auto& p : monomials_)
-        mul_assign(p.second, factor);
+      for(auto it = monomials_.begin(); it != monomials_.end();) {
+        mul_assign(it->second, factor);
+        // Product of two nonzero scalars can still be zero
+        if(scalar_traits<ScalarType>::is_zero(it->second))
+          it = monomials_.erase(it);
+        else
+          ++it;
+      }
     }
     return *this;
   }
@@ -615,6 +621,8 @@ private:
   static void store_monomial(monomial_t&& m,
                              scalar_type const& coeff,
                              monomials_map_t& target) {
+    if(scalar_traits<ScalarType>::is_zero(coeff)) return;
+
     // C++17 structured bindings would be the real solution here
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
     bool is_new_monomial;
@@ -765,8 +773,7 @@ private:
   // NOLINTNEXTLINE(cppcoreguidelines-missing-std-forward)
   inline expression mul_const_postfix_impl(S&& alpha, std::true_type) const {
     expression res(*this);
-    for(auto& p : res.monomials_)
-      mul_assign(p.second, alpha);
+    res *= alpha;
     return res;
   }
 
@@ -778,8 +785,11 @@ private:
   mul_const_postfix_impl(S&& alpha, std::false_type) const {
     expression_t<mul_res_t<ScalarType, S>> res;
     auto& res_mons = res.get_monomials();
-    for(auto const& p : monomials_)
-      res_mons.emplace_hint(res_mons.end(), p.first, p.second * alpha);
+    for(auto const& p : monomials_) {
+      mul_res_t<ScalarType, S> const val = p.second * alpha;
+      if(!scalar_traits<mul_res_t<ScalarType, S>>::is_zero(val))
+        res_mons.emplace_hint(res_mons.end(), p.first, val);
+    }
     return res;
   }
 
@@ -789,8 +799,14 @@ private:
   // NOLINTNEXTLINE(cppcoreguidelines-missing-std-forward)
   inline expression mul_const_prefix_impl(S&& alpha, std::true_type) const {
     expression res(*this);
-    for(auto& p : res.monomials_)
-      p.second = alpha * p.second;
+    auto& res_mons = res.monomials_;
+    for(auto it = res_mons.begin(); it != res_mons.end();) {
+      it->second = alpha * it->second;
+      if(scalar_traits<ScalarType>::is_zero(it->second))
+        it = res_mons.erase(it);
+      else
+        ++it;
+    }
     return res;
   }
 
@@ -802,8 +818,11 @@ private:
   mul_const_prefix_impl(S&& alpha, std::false_type) const {
     expression_t<mul_res_t<S, ScalarType>> res;
     auto& res_mons = res.get_monomials();
-    for(auto const& p : monomials_)
-      res_mons.emplace_hint(res_mons.end(), p.first, alpha * p.second);
+    for(auto const& p : monomials_) {
+      mul_res_t<S, ScalarType> const val = alpha * p.second;
+      if(!scalar_traits<mul_res_t<S, ScalarType>>::is_zero(val))
+        res_mons.emplace_hint(res_mons.end(), p.first, val);
+    }
     return res;
   }
 
-- 
2.43.0


From 5c4cd75316b64516f03ad79c3fe3b135a69a4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 29/33] fix: adding an expression to itself erased elements of
 the map being traversed

---
 include/libcommute/expression/expression.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index cc98741..8d96b3a 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -246,6 +246,10 @@ public:
 
   // Compound assignment/addition
   template <typename S> expression& operator+=(expression_t<S> const& expr) {
+    // Self-addition must not erase elements from the map being traversed
+    if(static_cast<void const*>(&expr) == static_cast<void const*>(this))
+      return *this += expression_t<S>(expr);
+
     for(auto const& p : expr.get_monomials()) {
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
-- 
2.43.0


From 496cdc5a792573fe7dfa79426f0ea9f8ec0080ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 30/33] fix: Hilbert spaces were left inconsistent by failed
 assignments and additions

---
 .../libcommute/loperator/hilbert_space.hpp    | 35 +++++--------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index fa2abaa..68a40c4 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -247,21 +247,8 @@ public:
   }
   hilbert_space(hilbert_space&&) noexcept = default;
   hilbert_space& operator=(hilbert_space const& hs) {
-    if(this == &hs) return *this;
-    algebra_bit_ranges_ = hs.algebra_bit_ranges_;
-    bit_range_end_ = hs.bit_range_end_;
-    elementary_spaces_.clear();
-    for(auto const& es : hs.elementary_spaces_) {
-      elementary_spaces_.emplace_hint(elementary_spaces_.end(),
-                                      es.first->clone(),
-                                      es.second);
-    }
-    dim_ = hs.dim_;
-    foreach_alg_ =
-        hs.foreach_alg_ ?
-            make_unique<detail::sparse_foreach_basis_state>(*hs.foreach_alg_) :
-            nullptr;
-    return *this;
+    // Unchanged if the copying fails
+    return *this = hilbert_space(hs);
   }
   hilbert_space& operator=(hilbert_space&&) noexcept = default;
 
@@ -290,18 +277,14 @@ public:
 
   // Append a new elementary space to the ordered product
   void add(elementary_space_t const& es) {
-    auto r = elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
+    // Work on a copy so that a failure does not affect this object
+    hilbert_space hs(*this);
+    auto r = hs.elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
     if(!r.second) throw elementary_space_exists(es);
-    try {
-      recompute_bit_ranges();
-    } catch(hilbert_space_too_big const&) {
-      // Restore the state preceding the call
-      elementary_spaces_.erase(r.first);
-      recompute_bit_ranges();
-      throw;
-    }
-    dim_ *= es.dim();
-    init_foreach_alg();
+    hs.recompute_bit_ranges();
+    hs.dim_ *= es.dim();
+    hs.init_foreach_alg();
+    *this = std::move(hs);
   }
 
   // Is a given elementary space found in this Hilbert space?
-- 
2.43.0


From dc93b737819ca027de636839fb1ca37928c51b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:17 +0000
Subject: [PATCH 31/33] fix: products that meet when a power becomes a number
 were left unsimplified

---
 include/libcommute/expression/expression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 8d96b3a..ac4f6af 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -742,7 +742,8 @@ private:
             auto v = scalar_traits<ScalarType>::make_const(f.const_term);
             // cppcheck-suppress knownConditionTrueFalse
             if(!scalar_traits<ScalarType>::is_zero(v))
-              reduce_powers_and_store(
+              // Generators that have become neighbors may be simplified
+              normalize_and_store(
                   concatenate(std::make_pair(m.begin(), it - power + 2),
                               std::make_pair(next_it + 1, end_it)),
                   coeff * v,
-- 
2.43.0


From 68558cfc3058f9555eccd2e5d761ac6bd350df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:28 +0000
Subject: [PATCH 32/33] fix: copies of non-constant es_constructor objects lost
 the state of single-ID constructors

The variadic constructor is a better match than the copy constructor for
a non-constant argument, and 'feeds' the object being copied to the
single-ID constructors: those with a default state fell back to it, and
copying a boson_es_constructor did not compile.
---
 include/libcommute/loperator/es_constructor.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/libcommute/loperator/es_constructor.hpp b/include/libcommute/loperator/es_constructor.hpp
index 7b38ece..cf2fa26 100644
--- a/include/libcommute/loperator/es_constructor.hpp
+++ b/include/libcommute/loperator/es_constructor.hpp
@@ -130,6 +130,17 @@ public:
   template <typename... Args>
   // cppcheck-suppress noExplicitConstructor
   inline es_constructor(Args&&... args) : base(std::forward<Args>(args)...) {}
+
+  // Value semantics
+  es_constructor(es_constructor const&) = default;
+  // Copying a non-constant object must not be taken for 'feeding' it to the
+  // single-ID constructors.
+  es_constructor(es_constructor& c)
+    : es_constructor(static_cast<es_constructor const&>(c)) {}
+  es_constructor(es_constructor&&) = default;
+  es_constructor& operator=(es_constructor const&) = default;
+  es_constructor& operator=(es_constructor&&) = default;
+  ~es_constructor() = default;
 };
 
 //
-- 
2.43.0


From 34e7979d1b301adccd9cc09f49a591657b9da7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:38 +0000
Subject: [PATCH 33/33] fix: iterators were moved outside the ranges they
 belong to

Printing an empty monomial (a constant term), making operators of
monomials and reducing powers advanced iterators past the end or before
the beginning of a sequence, which is undefined behavior and aborts
programs that are compiled with -D_GLIBCXX_DEBUG.
---
 include/libcommute/expression/expression.hpp           | 4 ++--
 include/libcommute/expression/monomial.hpp             | 4 ++--
 include/libcommute/loperator/monomial_action_boson.hpp | 5 ++---
 include/libcommute/loperator/monomial_action_spin.hpp  | 5 ++---
 4 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index ac4f6af..9d0519b 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -744,7 +744,7 @@ private:
             if(!scalar_traits<ScalarType>::is_zero(v))
               // Generators that have become neighbors may be simplified
               normalize_and_store(
-                  concatenate(std::make_pair(m.begin(), it - power + 2),
+                  concatenate(std::make_pair(m.begin(), it - (power - 2)),
                               std::make_pair(next_it + 1, end_it)),
                   coeff * v,
                   target);
@@ -753,7 +753,7 @@ private:
               // cppcheck-suppress knownConditionTrueFalse
               if(!scalar_traits<ScalarType>::is_zero(v))
                 normalize_and_store(
-                    concatenate(std::make_pair(m.begin(), it - power + 2),
+                    concatenate(std::make_pair(m.begin(), it - (power - 2)),
                                 *g.first,
                                 std::make_pair(next_it + 1, end_it)),
                     coeff * v,
diff --git a/include/libcommute/expression/monomial.hpp b/include/libcommute/expression/monomial.hpp
index 311f1ae..861d30f 100644
--- a/include/libcommute/expression/monomial.hpp
+++ b/include/libcommute/expression/monomial.hpp
@@ -185,9 +185,9 @@ public:
   // Print to stream
   friend std::ostream& operator<<(std::ostream& os, monomial const& m) {
     auto it = m.begin(), end_it = m.end();
-    auto next_it = it + 1;
     int power = 1;
-    for(; it != end_it; ++it, ++next_it) {
+    for(; it != end_it; ++it) {
+      auto next_it = it + 1;
       if(next_it == end_it || *next_it != *it) {
         os << (power > 1 ? "[" : "") << *it
            << (power > 1 ? "]^" + std::to_string(power) : "");
diff --git a/include/libcommute/loperator/monomial_action_boson.hpp b/include/libcommute/loperator/monomial_action_boson.hpp
index e824935..20295ae 100644
--- a/include/libcommute/loperator/monomial_action_boson.hpp
+++ b/include/libcommute/loperator/monomial_action_boson.hpp
@@ -77,12 +77,11 @@ public:
     sv_index_type sqr_roots_size = 0;
 
     auto it = m_range.first;
-    auto next_it = it;
-    ++next_it;
     auto end_it = m_range.second;
 
     sv_index_type power = 1;
-    for(; it != end_it; ++it, ++next_it) {
+    for(; it != end_it; ++it) {
+      auto next_it = it + 1;
       if(!is_boson(*it)) throw unknown_generator<IndexTypes...>(*it);
 
       if(next_it == end_it || *next_it != *it) {
diff --git a/include/libcommute/loperator/monomial_action_spin.hpp b/include/libcommute/loperator/monomial_action_spin.hpp
index 0b4ee41..84846e6 100644
--- a/include/libcommute/loperator/monomial_action_spin.hpp
+++ b/include/libcommute/loperator/monomial_action_spin.hpp
@@ -78,12 +78,11 @@ public:
     sv_index_type sqr_roots_size = 0;
 
     auto it = m_range.first;
-    auto next_it = it;
-    ++next_it;
     auto end_it = m_range.second;
 
     sv_index_type power = 1;
-    for(; it != end_it; ++it, ++next_it) {
+    for(; it != end_it; ++it) {
+      auto next_it = it + 1;
       if(!is_spin(*it)) throw unknown_generator<IndexTypes...>(*it);
 
       if(next_it == end_it || *next_it != *it) {
-- 
2.43.0

