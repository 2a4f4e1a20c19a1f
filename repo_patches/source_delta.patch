From cee1735fa641350e850ba692625c14b6adb6a8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 01/24] fix: keep the denominator of a RationalNum positive

The gcd of a negative numerator can be negative, so that e.g. -1//2 was
stored as 1//-2 and the cross-multiplied comparisons were reversed.
---
 include/bwsl/RationalNum.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 439d3e7..408752c 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -199,6 +199,12 @@ RationalNum<T>::Simplify()
   auto g = get_gcd(num_, den_);
   num_ = num_ / g;
   den_ = den_ / g;
+
+  // the sign is carried by the numerator
+  if (den_ < 0) {
+    num_ = -num_;
+    den_ = -den_;
+  }
 }
 
 template<class G>
-- 
2.43.0


From 5d548f37a4c68dec574bb2338275cc25ef70c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 02/24] fix: compare rationals and integers without truncating
 the rational

3//2 compared equal to 1, and -1//2 was not less than 0.
---
 include/bwsl/RationalNum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 408752c..075da16 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -218,14 +218,14 @@ template<class G>
 inline auto
 operator<(const RationalNum<G>& lhs, const G& rhs) -> bool
 {
-  return lhs.num_ / lhs.den_ < rhs;
+  return lhs.num_ < rhs * lhs.den_;
 }
 
 template<class G>
 inline auto
 operator<(const G& lhs, const RationalNum<G>& rhs) -> bool
 {
-  return lhs < rhs.num_ / rhs.den_;
+  return lhs * rhs.den_ < rhs.num_;
 }
 
 TEMPLATEOVERLOADRELATIONAL(RationalNum<G>, RationalNum<G>, G)
-- 
2.43.0


From fbafe8b3efe6e1228eebebce45d93fca81bcde05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 03/24] fix: store parsed rationals simplified and reject a
 zero denominator

Reading 1//-2 or 2//4 bypassed Simplify(), leaving a value that compares
wrongly; 1//0 was accepted.
---
 include/bwsl/RationalNum.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 075da16..0b110c0 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -171,7 +171,9 @@ inline auto
 operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
 {
   auto sep = char{};
-  in >> rhs.num_;
+  auto num = T{};
+  auto den = T{};
+  in >> num;
   for (auto i = 0UL; i < 2UL; i++) {
     in >> sep;
     if (sep != '/') {
@@ -179,7 +181,16 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
       return in;
     }
   }
-  in >> rhs.den_;
+  in >> den;
+
+  if (in.fail()) {
+    return in;
+  }
+  if (den == T{ 0 }) {
+    in.setstate(std::ios_base::failbit);
+    return in;
+  }
+  rhs = RationalNum<T>(num, den);
 
   return in;
 }
-- 
2.43.0


From c810634a2f37b941f59c363ff2bc773294985980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 04/24] fix: make ToString(RationalNum) compile

RationalNum has no fmt formatter, so instantiating ToString() was an error.
---
 include/bwsl/RationalNum.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 0b110c0..8f30080 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -349,7 +349,9 @@ template<class T>
 inline auto
 ToString(RationalNum<T> const& rhs) -> std::string
 {
-  return fmt::format("{}", rhs);
+  auto oss = std::ostringstream{};
+  oss << rhs;
+  return oss.str();
 }
 
 } // namespace bwsl
-- 
2.43.0


From 0f69fcd81891ae48f2c03d7bf81290ef4d96a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 05/24] fix: distances and vectors between any two sites of an
 open lattice

The difference of two sites of an open grid need not be on the grid: its
index was wrong or out of range.
---
 include/bwsl/Lattice.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 38b81f3..bd18814 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -214,6 +214,10 @@ inline auto
 Lattice::GetDistance(size_t a, size_t b) const -> double
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  // open lattices are not translation invariant
+  if (HasOpenBoundaries()) {
+    return l2norm(GetVector(a, b));
+  }
   auto s = GetMappedSite(a, b);
   return distance_[s];
 }
@@ -222,6 +226,11 @@ inline auto
 Lattice::GetVector(size_t a, size_t b) const -> realvec_t
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  // open lattices are not translation invariant
+  if (HasOpenBoundaries()) {
+    auto v = position_[b];
+    return subtract_into(v, position_[a]);
+  }
   auto s = GetMappedSite(a, b);
   return vectors_[s];
 }
-- 
2.43.0


From 2357001ea5984c5fcc6367e9fe172f6a69ec9b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 06/24] fix: SaveMomenta on an open lattice read past the
 (empty) momenta

---
 include/bwsl/Lattice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index bd18814..4ec952b 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -490,7 +490,7 @@ Lattice::SaveMomenta(std::string const& fname) const
   }
   fmt::print(out, "\n");
 
-  for (auto i = 0UL; i < GetNumSites(); i++) {
+  for (auto i = 0UL; i < momenta_.size(); i++) {
     fmt::print(out, "{}", i);
     for (auto const& k : momenta_[i]) {
       fmt::print(out, ",{}", k);
-- 
2.43.0


From 9eccb9bdcaf3bd1786061e9abb3dd41b5808cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 07/24] fix: allowed momenta of non-orthogonal lattices with
 different extents

The Cartesian components of the momentum were divided by the extents along
the primitive vectors; on e.g. a 3x4 triangular lattice the resulting plane
waves were not periodic.
---
 include/bwsl/Lattice.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 4ec952b..5372d12 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -382,9 +382,15 @@ Lattice::ComputeMomenta(Bravais const& bravais) const
     for (auto k = 0UL; k < ci.size(); k++) {
       ci[k] -= GetSize()[k] / 2UL;
     }
-    auto kappa = bravais.GetReciprocalSpace(ci);
-    for (auto k = 0UL; k < kappa.size(); k++) {
-      kappa[k] /= GetSize()[k];
+    // each reciprocal vector is divided by the size along its own direction
+    auto kappa = realvec_t(GetDim(), 0.0);
+    for (auto j = 0UL; j < GetDim(); j++) {
+      auto cj = coords_t(GetDim(), 0L);
+      cj[j] = ci[j];
+      auto const kj = bravais.GetReciprocalSpace(cj);
+      for (auto k = 0UL; k < GetDim(); k++) {
+        kappa[k] += kj[k] / static_cast<double>(GetSize()[j]);
+      }
     }
     p.push_back(kappa);
   }
-- 
2.43.0


From 74ef9897289ccaf7b61fa44378d9211c03dc7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 08/24] fix: GetInverseVector is the matrix-vector product with
 the inverse

It multiplied every entry of a row by the same component.
---
 include/bwsl/Bravais.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Bravais.hpp b/include/bwsl/Bravais.hpp
index 8379699..7a0350e 100644
--- a/include/bwsl/Bravais.hpp
+++ b/include/bwsl/Bravais.hpp
@@ -151,7 +151,7 @@ Bravais::GetInverseVector(realvec_t const& realspace) const
   auto p = Bravais::realvec_t(dim_, 0.0);
   for (auto i = 0UL; i < dim_; i++) {
     for (auto j = 0UL; j < dim_; j++) {
-      p[i] += realspace[i] * pivectors_[i * dim_ + j];
+      p[i] += realspace[j] * pivectors_[i * dim_ + j];
     }
   }
   return p;
-- 
2.43.0


From a7cff85a6d79b221512a2575362cb520b9107558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 09/24] fix: GetResults(idx) divides every bin by the same bin

The divisor was overwritten with 1 when the loop reached it, so the bins
after idx were not divided.
---
 include/bwsl/HistAccumulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 7b12736..8a17d06 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -187,8 +187,9 @@ inline auto
 HistAccumulator::GetResults(size_t idx) const -> std::vector<double>
 {
   auto r = GetResults();
+  auto const norm = r[idx];
   for (auto& v : r) {
-    v /= r[idx];
+    v /= norm;
   }
   return r;
 }
-- 
2.43.0


From ef86d0292e0edb33f309f44722e3ff9dd83ea3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 10/24] fix: define the comparison operators of LinSpace

The friend declarations were of non-template functions that nothing
defined: comparing or iterating over a LinSpace did not link.
---
 include/bwsl/LinSpace.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/bwsl/LinSpace.hpp b/include/bwsl/LinSpace.hpp
index 59b9d73..0a96f03 100644
--- a/include/bwsl/LinSpace.hpp
+++ b/include/bwsl/LinSpace.hpp
@@ -74,10 +74,16 @@ private:
   unsigned long step_{ 0 };
 
   /// Compare two LinSpaces and check for equality
-  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return a.step_ == b.step_;
+  };
 
   /// Compare two LinSpaces and check for inequality
-  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return !(a == b);
+  }
 }; // class LinSpace
 
 template<typename T>
@@ -149,20 +155,6 @@ LinSpace<T>::Collect(unsigned long n) -> std::vector<T>
   return retval;
 }
 
-template<typename T>
-auto
-operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return a.step_ == b.step_;
-};
-
-template<typename T>
-auto
-operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return !(a == b);
-}
-
 } // namespace bwsl
 
 // vim: set ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From 554fad4916583abd21ee3d267b4eb27d2092920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 11/24] fix: upper_bound terminates, stays in range and skips
 equal elements

It ended by calling itself with the same range, the first interpolation
could point one past the end, and an element equal to the first one stopped
the search even if more of them follow.
---
 include/bwsl/MathUtils.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index dcb4dcb..78f14f5 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <array>
 #include <cassert>
+#include <cmath>
 #include <functional>
 #include <numeric>
 #include <random>
@@ -365,7 +366,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
       return it;
     }
     if (!(itval < value)) { // value <= it (so only if they are equal)
-      return ++it;
+      break; // there can be more elements equal to value
     }
 
     // check if the value is outside the upper bound of the search interval
@@ -374,7 +375,8 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
 
     // compute the new position interpolating the position of the point
-    const auto np = std::round((value - itval) / (*to - itval) * count);
+    const auto np =
+      std::round((value - itval) / (*to - itval) * (count - 1));
     auto nt = it;
     std::advance(nt, np);
 
@@ -385,7 +387,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
     count = std::distance(it, to);
   }
-  return upper_bound(it, ++to, value);
+  return std::upper_bound(it, ++to, value);
 }
 
 /// Greater common denominator
-- 
2.43.0


From 75ecf86b29a75557a2568aec2c4361a9320bfe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 12/24] fix: what() of the enum conversion error returned a
 dangling pointer

---
 include/bwsl/EnumString.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/bwsl/EnumString.hpp b/include/bwsl/EnumString.hpp
index cdd1f0d..e717b2c 100644
--- a/include/bwsl/EnumString.hpp
+++ b/include/bwsl/EnumString.hpp
@@ -66,20 +66,15 @@
   {                                                                            \
   public:                                                                      \
     EnumStringConversionFailed_##name(std::string const& value)                \
-      : value_(value)                                                          \
+      : message_(std::string("Unknown correspondance of ") + value +           \
+                 std::string(" for enum ") + BOOST_PP_STRINGIZE(name))         \
     {                                                                          \
     }                                                                          \
                                                                                \
-    const char* what() const throw()                                           \
-    {                                                                          \
-      auto s = std::string("Unknown correspondance of ") + value_ +            \
-               std::string(" for enum ") + name_;                              \
-      return s.c_str();                                                        \
-    }                                                                          \
+    const char* what() const throw() { return message_.c_str(); }              \
                                                                                \
   private:                                                                     \
-    const std::string name_{ BOOST_PP_STRINGIZE(name) };                       \
-    std::string value_{ "" };                                                  \
+    std::string message_{ "" };                                                \
   };                                                                           \
                                                                                \
   inline std::string ToString(name v)                                          \
-- 
2.43.0


From 768b1c21e0b3995033d0f1229d014b29b2f43e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 13/24] fix: variance of the NaiveInteger accumulator

The sum of the squares was not multiplied by the number of values: the
variance of 1 and 3 came out negative.
---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index c3b9632..f63226c 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -129,7 +129,8 @@ NaiveInteger::Variance(bool corrected) const -> double
 
   auto ccount = corrected ? count_ - 1UL : count_;
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / (count_ * ccount);
+  auto n = static_cast<long>(count_);
+  return static_cast<double>(n * sum2_ - sum_ * sum_) / (count_ * ccount);
 }
 
 inline auto
@@ -139,7 +140,8 @@ NaiveInteger::ScaledVariance() const -> double
     return std::nan("");
   }
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / count_;
+  auto n = static_cast<long>(count_);
+  return static_cast<double>(n * sum2_ - sum_ * sum_) / count_;
 }
 
 inline auto
-- 
2.43.0


From f64937c60316e91cd2952c814ec973df1bb08c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 14/24] fix: jumps on grids with extents that do not fit an int

---
 include/bwsl/HyperCubicGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/HyperCubicGrid.hpp b/include/bwsl/HyperCubicGrid.hpp
index 14735c8..cd9d779 100644
--- a/include/bwsl/HyperCubicGrid.hpp
+++ b/include/bwsl/HyperCubicGrid.hpp
@@ -253,7 +253,7 @@ HyperCubicGrid::GetJump(size_t a, size_t b) const -> coords_t
       auto& cbi = cb[i];
       auto si = GetSize()[i];
       // half distance (integer division)
-      auto si_half = static_cast<int>(si / 2);
+      auto si_half = static_cast<long>(si / 2);
       if (cbi > si_half) {
         cbi -= si;
       }
-- 
2.43.0


From c56ac29e6233f4c93120bb36faf530cd972e7ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:57 +0000
Subject: [PATCH 15/24] fix: define the strict comparisons of Approx

operator< and operator> were declared but nothing defined them: using them
did not link.
---
 include/bwsl/Approx.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/bwsl/Approx.hpp b/include/bwsl/Approx.hpp
index b9e9dbb..97bb7b3 100644
--- a/include/bwsl/Approx.hpp
+++ b/include/bwsl/Approx.hpp
@@ -131,6 +131,30 @@ operator>=(Approx const& lhs, double rhs) -> bool
   return lhs.value_ > rhs || lhs == rhs;
 }
 
+inline auto
+operator<(double lhs, Approx const& rhs) -> bool
+{
+  return !(lhs >= rhs);
+}
+
+inline auto
+operator<(Approx lhs, double const& rhs) -> bool
+{
+  return !(lhs >= rhs);
+}
+
+inline auto
+operator>(double lhs, Approx const& rhs) -> bool
+{
+  return !(lhs <= rhs);
+}
+
+inline auto
+operator>(Approx lhs, double const& rhs) -> bool
+{
+  return !(lhs <= rhs);
+}
+
 inline Approx::Approx(double val)
   : value_(static_cast<double>(val))
 {
-- 
2.43.0


From 37b076f26f2aa3a22bfc4d43f68371c53527c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:57 +0000
Subject: [PATCH 16/24] fix: overflow checks of the NaiveInteger accumulator

With BWSL_ACCUMULATORS_CHECKS every call of Add() with a non-zero value
threw, because of the chained comparison.
---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index f63226c..73722c6 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -106,10 +106,13 @@ NaiveInteger::Add(long x) -> void
   if (count_ == std::numeric_limits<unsigned long>::max()) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() - sum_ <= x) {
+  constexpr auto maxval = std::numeric_limits<long>::max();
+  constexpr auto minval = std::numeric_limits<long>::min();
+  if (x > 0 ? sum_ > maxval - x : sum_ < minval - x) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() < sum2_ <= x * x) {
+  if (x == minval ||
+      (x != 0 && std::abs(x) > (maxval - sum2_) / std::abs(x))) {
     throw exception::AccumulatorOverflow();
   }
 #endif // BWSL_ACCUMULATORS_CHECKS
-- 
2.43.0


From 86803675d1aedeb3528e41a9f47f03c704decf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:38 +0000
Subject: [PATCH 17/24] fix: dumpmt truncated seeds that do not fit an int

---
 applications/dumpmt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/dumpmt.cpp b/applications/dumpmt.cpp
index 3a38199..4f59985 100644
--- a/applications/dumpmt.cpp
+++ b/applications/dumpmt.cpp
@@ -14,6 +14,7 @@
 //===---------------------------------------------------------------------===//
 
 // std
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <random>
@@ -25,7 +26,7 @@ main (int ac, char **av)
     return EXIT_FAILURE;
   }
 
-  auto seed = static_cast<unsigned long>(atoi(av[1]));
+  auto seed = std::strtoul(av[1], nullptr, 10);
 
   auto rng = std::mt19937_64{seed};
 
-- 
2.43.0


From 6d5402d744873122cec9add6050ba8546fc5268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:54 +0000
Subject: [PATCH 18/24] fix: closest periodic image on elongated lattices

The search looked at the first shell of images only, which does not hold
the closest one when the lattice is much longer along one direction than
along another that is not orthogonal to it.
---
 include/bwsl/Lattice.hpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 5372d12..b9a31b0 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -306,8 +306,14 @@ Lattice::ComputeVectors(Bravais const& bravais) const
   -> std::vector<Lattice::realvec_t>
 {
   auto p = std::vector<realvec_t>(GetNumSites(), realvec_t(GetDim(), 0.0));
-  const auto imgsize = gridsize_t(GetDim(), 3);
-  const auto nimg = accumulate_product(imgsize);
+
+  // how much a coordinate can grow with the distance
+  auto growth = realvec_t(GetDim(), 0.0);
+  for (auto m = 0UL; m < GetDim(); m++) {
+    auto cm = coords_t(GetDim(), 0L);
+    cm[m] = 1;
+    growth[m] = l2norm(bravais.GetReciprocalSpace(cm)) / (2 * M_PI);
+  }
 
   const auto c0 = GetCoordinates(0UL);
   for (auto site = 0UL; site < GetNumSites(); site++) {
@@ -317,13 +323,22 @@ Lattice::ComputeVectors(Bravais const& bravais) const
     auto [mindist, minvec] = bravais.GetDistanceVector(c0, cs);
 
     // search for the minimum distance across the first shell of
-    // periodic images if we are with closed boundary condition
-    if (HasClosedBoundaries()) {
+    // periodic images if we are with closed boundary condition, and then
+    // across further shells as long as these can hold a closer image
+    auto shells = gridsize_t(GetDim(), 1UL);
+    auto complete = !HasClosedBoundaries();
+    while (!complete) {
+      auto imgsize = shells;
+      for (auto& n : imgsize) {
+        n = 2 * n + 1;
+      }
+      const auto nimg = accumulate_product(imgsize);
       for (auto k = 0UL; k < nimg; k++) {
         auto img = index_to_array<coords_t, gridsize_t>(k, imgsize);
         auto csm = coords_t(cs);
         for (auto m = 0UL; m < GetDim(); m++) {
-          csm[m] += (img[m] - 1) * GetSize()[m];
+          csm[m] += (img[m] - static_cast<long>(shells[m])) *
+                    static_cast<long>(GetSize()[m]);
         }
         auto [dist, vec] = bravais.GetDistanceVector(c0, csm);
 
@@ -332,6 +347,15 @@ Lattice::ComputeVectors(Bravais const& bravais) const
           minvec = vec;
         }
       }
+
+      complete = true;
+      for (auto m = 0UL; m < GetDim(); m++) {
+        auto n = 1UL + static_cast<size_t>(mindist * growth[m] / GetSize()[m]);
+        if (n > shells[m]) {
+          shells[m] = n;
+          complete = false;
+        }
+      }
     }
     p[site] = minvec;
   }
-- 
2.43.0


From 7f7abc9f9a7f762ca28f23ca3555306451e2b15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:22 +0000
Subject: [PATCH 19/24] fix: upper_bound of an empty range stepped before its
 beginning

---
 include/bwsl/MathUtils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 78f14f5..1dfb85c 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -354,6 +354,11 @@ template<class ForwardIt, class T>
 inline auto
 upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
 {
+  // an empty range has no last element to start from
+  if (first == last) {
+    return last;
+  }
+
   auto count = std::distance(first, last);
   auto it = first;
   auto to = it;
-- 
2.43.0


From a8a995a87e4983ebf1c11fe03c630e061c2bc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 20/24] fix: variance of the NaiveInteger accumulator
 overflowed for large sums

---
 .../bwsl/accumulators/NaiveIntegerAccumulator.hpp    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index 73722c6..f8c42d0 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -132,8 +132,10 @@ NaiveInteger::Variance(bool corrected) const -> double
 
   auto ccount = corrected ? count_ - 1UL : count_;
 
-  auto n = static_cast<long>(count_);
-  return static_cast<double>(n * sum2_ - sum_ * sum_) / (count_ * ccount);
+  // the products can be wider than the sums
+  auto const n = static_cast<__int128>(count_);
+  auto const d = n * sum2_ - static_cast<__int128>(sum_) * sum_;
+  return static_cast<double>(d) / (static_cast<double>(count_) * ccount);
 }
 
 inline auto
@@ -143,8 +145,10 @@ NaiveInteger::ScaledVariance() const -> double
     return std::nan("");
   }
 
-  auto n = static_cast<long>(count_);
-  return static_cast<double>(n * sum2_ - sum_ * sum_) / count_;
+  // the products can be wider than the sums
+  auto const n = static_cast<__int128>(count_);
+  auto const d = n * sum2_ - static_cast<__int128>(sum_) * sum_;
+  return static_cast<double>(d) / count_;
 }
 
 inline auto
-- 
2.43.0


From edda8a6bd7cf55923f13a0ef79ea0559b7314097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:00 +0000
Subject: [PATCH 21/24] fix: upper_bound could interpolate beyond the end of
 the range

---
 include/bwsl/MathUtils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 1dfb85c..becfb2f 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -380,8 +380,9 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
 
     // compute the new position interpolating the position of the point
-    const auto np =
-      std::round((value - itval) / (*to - itval) * (count - 1));
+    // (rounding must not take it beyond the last element)
+    const auto np = std::min<double>(
+      std::round((value - itval) / (*to - itval) * (count - 1)), count - 1);
     auto nt = it;
     std::advance(nt, np);
 
-- 
2.43.0


From f7b83a2ce372eefef6c7174c058f05c6096a0fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 22/24] fix: rationals of the lowest value over a negative
 number trapped

---
 include/bwsl/RationalNum.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 8f30080..2e240ba 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -208,14 +208,13 @@ inline void
 RationalNum<T>::Simplify()
 {
   auto g = get_gcd(num_, den_);
-  num_ = num_ / g;
-  den_ = den_ / g;
 
   // the sign is carried by the numerator
-  if (den_ < 0) {
-    num_ = -num_;
-    den_ = -den_;
+  if ((g < 0) != (den_ < 0)) {
+    g = -g;
   }
+  num_ = num_ / g;
+  den_ = den_ / g;
 }
 
 template<class G>
-- 
2.43.0


From fb098b27bd55a668d91626e18ddefc311024bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:20 +0000
Subject: [PATCH 23/24] fix: parsing rationals whose lowest terms do not fit
 the type

---
 include/bwsl/RationalNum.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 2e240ba..c3b2487 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -24,6 +24,7 @@
 
 // std
 #include <iostream>
+#include <limits>
 #include <sstream>
 
 namespace bwsl {
@@ -190,6 +191,14 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
     in.setstate(std::ios_base::failbit);
     return in;
   }
+
+  // in lowest terms the value must fit the type too
+  constexpr auto lowest = std::numeric_limits<T>::min();
+  if ((den == lowest && num % 2 != 0) ||
+      (num == lowest && den < 0 && den % 2 != 0)) {
+    in.setstate(std::ios_base::failbit);
+    return in;
+  }
   rhs = RationalNum<T>(num, den);
 
   return in;
-- 
2.43.0


From 2b9db7cf1977f3ff7c19acedaf11c3c0b83288fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:07 +0000
Subject: [PATCH 24/24] fix: make compare_files inline so that several units
 can include it

---
 include/bwsl/FileUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index 9964112..3e2fe01 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -25,7 +25,7 @@ namespace bwsl {
 /// This code is based on this answer
 /// http://stackoverflow.com/a/37575457/4477378
 ///
-auto
+inline auto
 compare_files(const std::string& p1, const std::string& p2) -> bool
 {
   std::ifstream f1(p1, std::ifstream::binary | std::ifstream::ate);
-- 
2.43.0

