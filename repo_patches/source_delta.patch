From d23c63284854e26cd6d29551da78ac2b42609606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:21 +0000
Subject: [PATCH 01/26] fix: HistAccumulator::GetResults(idx) divides every bin
 by the chosen one

The divisor was read from the vector being normalised, so the bins after the
chosen one were divided by one.
---
 include/bwsl/HistAccumulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 7b12736..8a17d06 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -187,8 +187,9 @@ inline auto
 HistAccumulator::GetResults(size_t idx) const -> std::vector<double>
 {
   auto r = GetResults();
+  auto const norm = r[idx];
   for (auto& v : r) {
-    v /= r[idx];
+    v /= norm;
   }
   return r;
 }
-- 
2.43.0


From d87ef8f8aac81ed866876cc94430e5985f206fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:21 +0000
Subject: [PATCH 02/26] fix: keep the number of bins of a histogram in step
 with its storage

A Resize, an assignment or a restore that ran out of memory or data, and a
move, left the separate counter claiming bins that did not exist.
---
 include/bwsl/HistAccumulator.hpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 8a17d06..e6b26e3 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -95,13 +95,10 @@ public:
   }
 
   /// Get the number of bins
-  [[nodiscard]] auto GetNbins() const -> size_t { return nbins_; };
+  [[nodiscard]] auto GetNbins() const -> size_t { return acc_.size(); };
 
 protected:
 private:
-  /// Number of bins
-  size_t nbins_{ 0UL };
-
   /// Accumulators
   std::vector<bwsl::accumulators::NeumaierAccumulator> acc_{};
 
@@ -117,8 +114,7 @@ private:
 }; // class HistAccumulator
 
 inline HistAccumulator::HistAccumulator(size_t nbins)
-  : nbins_(nbins)
-  , acc_(nbins)
+  : acc_(nbins)
 {
 }
 
@@ -143,10 +139,8 @@ template<class T>
 inline auto
 HistAccumulator::ForceAdd(size_t idx, T val) -> void
 {
-  while (idx >= nbins_) {
+  while (idx >= acc_.size()) {
     acc_.emplace_back();
-    nbins_++;
-    assert(nbins_ == acc_.size());
   }
   acc_[idx].Add(val);
   count_ += 1UL;
@@ -155,7 +149,6 @@ HistAccumulator::ForceAdd(size_t idx, T val) -> void
 inline void
 HistAccumulator::Resize(size_t nbins)
 {
-  nbins_ = nbins;
   acc_.resize(nbins);
 }
 
@@ -174,9 +167,9 @@ HistAccumulator::GetResult(size_t idx) const -> double
 inline auto
 HistAccumulator::GetResults() const -> std::vector<double>
 {
-  auto r = std::vector<double>(nbins_, 0.0);
+  auto r = std::vector<double>(acc_.size(), 0.0);
 
-  for (auto i = 0UL; i < nbins_; i++) {
+  for (auto i = 0UL; i < acc_.size(); i++) {
     r[i] = GetResult(i);
   }
 
@@ -199,7 +192,9 @@ inline auto
 HistAccumulator::serialize(Archive& ar, const unsigned int /* version */)
   -> void
 {
-  ar& nbins_;
+  // the number of bins is part of the format of the archives
+  auto nbins = acc_.size();
+  ar& nbins;
   ar& acc_;
   ar& count_;
 }
-- 
2.43.0


From 34b34de36ce6823b5558ed7f54c6f39d76cc6766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:21 +0000
Subject: [PATCH 03/26] fix: variance of the integer accumulator

The square of the sum was subtracted from the sum of squares without dividing
it by the number of measurements.
---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index c3b9632..abe7f09 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -129,7 +129,7 @@ NaiveInteger::Variance(bool corrected) const -> double
 
   auto ccount = corrected ? count_ - 1UL : count_;
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / (count_ * ccount);
+  return ScaledVariance() / ccount;
 }
 
 inline auto
@@ -139,7 +139,14 @@ NaiveInteger::ScaledVariance() const -> double
     return std::nan("");
   }
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / count_;
+  // sum2_ - sum_^2 / count_ with an exact integer part: write the sum as
+  // quot * count_ + rem so that no product exceeds the sum of squares
+  auto const count = static_cast<long>(count_);
+  auto const quot = sum_ / count;
+  auto const rem = sum_ % count;
+
+  return static_cast<double>(sum2_ - sum_ * quot - quot * rem) -
+         static_cast<double>(rem) * static_cast<double>(rem) / count;
 }
 
 inline auto
-- 
2.43.0


From b990c0657399f2845ec5024f9662dd8fec07e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:21 +0000
Subject: [PATCH 04/26] fix: overflow checks of the integer accumulator

With BWSL_ACCUMULATORS_CHECKS every addition was refused: the sums, which are
long, were compared against the range of unsigned long, and the last condition
chained two comparisons.
---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index abe7f09..40b6596 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -23,6 +23,7 @@
 
 // std
 #include <cmath>
+#include <cstdlib>
 #include <exception>
 #include <limits>
 
@@ -106,10 +107,14 @@ NaiveInteger::Add(long x) -> void
   if (count_ == std::numeric_limits<unsigned long>::max()) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() - sum_ <= x) {
+  // protect the sum
+  constexpr auto lmin = std::numeric_limits<long>::min();
+  constexpr auto lmax = std::numeric_limits<long>::max();
+  if (x > 0L ? sum_ > lmax - x : sum_ < lmin - x) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() < sum2_ <= x * x) {
+  // protect the sum of the squares
+  if (x != 0L && (x == lmin || std::abs(x) > (lmax - sum2_) / std::abs(x))) {
     throw exception::AccumulatorOverflow();
   }
 #endif // BWSL_ACCUMULATORS_CHECKS
-- 
2.43.0


From dc24220f1cfec9ffca32abb43d0a4546d4ea5e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 05/26] fix: report output failures of an observable group and
 keep its data

PrintHeaders and PrintAndReset ignored every failure of the output file, and
PrintAndReset dropped the measurements of a row that never reached it. A group
without observables dereferenced the end of its map.
---
 include/bwsl/ObservableGroup.hpp | 38 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/bwsl/ObservableGroup.hpp b/include/bwsl/ObservableGroup.hpp
index 5bee924..4040517 100644
--- a/include/bwsl/ObservableGroup.hpp
+++ b/include/bwsl/ObservableGroup.hpp
@@ -118,31 +118,39 @@ inline void
 ObservableGroup<Index_t>::PrintHeaders() const
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::trunc);
+  out.exceptions(std::ios::failbit | std::ios::badbit);
 
-  auto it = accumulator_.begin();
-  fmt::print(out, "{}", it->first);
-  while (++it != accumulator_.end()) {
-    fmt::print(out, ",{}", it->first);
+  for (auto const& acc : accumulator_) {
+    fmt::print(out, "{},", acc.first);
   }
-  fmt::print(out, ",Count");
+  fmt::print(out, "Count");
   fmt::print(out, "\n");
+  out.flush();
 }
 
 template<typename Index_t>
 inline void
 ObservableGroup<Index_t>::PrintAndReset(size_t precision)
 {
-  auto out = std::ofstream(output_file_.c_str(), std::ios::app);
-  auto it = accumulator_.begin();
-  auto count = it->second.Count();
-  fmt::print(out, "{:.{}e}", it->second.Mean(), precision);
-  it->second.Reset();
-  while (++it != accumulator_.end()) {
-    fmt::print(out, ",{:.{}e}", it->second.Mean(), precision);
-    it->second.Reset();
+  auto count = accumulator_.empty() ? 0UL : accumulator_.begin()->second.Count();
+  auto row = std::string{};
+  for (auto const& acc : accumulator_) {
+    row += fmt::format("{:.{}e},", acc.second.Mean(), precision);
+  }
+  row += fmt::format("{}\n", count);
+
+  // Hand the row to the system as a whole: what fails to be written must not
+  // be retried when the stream is closed, because the measurements are kept.
+  auto out = std::ofstream();
+  out.exceptions(std::ios::failbit | std::ios::badbit);
+  out.rdbuf()->pubsetbuf(nullptr, 0);
+  out.open(output_file_.c_str(), std::ios::app);
+  out.write(row.data(), static_cast<std::streamsize>(row.size()));
+  out.flush();
+
+  for (auto& acc : accumulator_) {
+    acc.second.Reset();
   }
-  fmt::print(out, ",{}", count);
-  fmt::print(out, "\n");
 }
 
 template<typename Index_t>
-- 
2.43.0


From e12e0011017bc2cc73d61166d25fc721186ad96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 06/26] fix: report failures when saving the tables of a
 lattice

A table that could not be opened or written completely was left missing or
truncated without any notice.
---
 include/bwsl/Lattice.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 38b81f3..e069192 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -432,6 +432,7 @@ inline auto
 Lattice::SavePositions(std::string const& fname) const -> void
 {
   auto out = std::ofstream{ fname.c_str() };
+  out.exceptions(std::ios::failbit | std::ios::badbit);
 
   fmt::print(out, "i");
   for (auto i = 0UL; i < GetDim(); i++) {
@@ -447,12 +448,15 @@ Lattice::SavePositions(std::string const& fname) const -> void
     }
     fmt::print(out, "\n");
   }
+
+  out.flush();
 }
 
 inline auto
 Lattice::SaveDistances(std::string const& fname) const -> void
 {
   auto out = std::ofstream{ fname.c_str() };
+  out.exceptions(std::ios::failbit | std::ios::badbit);
 
   fmt::print(out, "i");
   for (auto i = 0UL; i < GetDim(); i++) {
@@ -468,12 +472,15 @@ Lattice::SaveDistances(std::string const& fname) const -> void
     }
     fmt::print(out, "\n");
   }
+
+  out.flush();
 }
 
 inline void
 Lattice::SaveMomenta(std::string const& fname) const
 {
   auto out = std::ofstream{ fname.c_str() };
+  out.exceptions(std::ios::failbit | std::ios::badbit);
 
   fmt::print(out, "i");
   for (auto i = 0UL; i < GetDim(); i++) {
@@ -488,12 +495,15 @@ Lattice::SaveMomenta(std::string const& fname) const
     }
     fmt::print(out, "\n");
   }
+
+  out.flush();
 }
 
 inline auto
 Lattice::SavePairs(std::string const& fname) const -> void
 {
   auto out = std::ofstream{ fname.c_str() };
+  out.exceptions(std::ios::failbit | std::ios::badbit);
 
   fmt::print(out, "i,a,b");
 
@@ -533,6 +543,8 @@ Lattice::SavePairs(std::string const& fname) const -> void
 
     fmt::print(out, "\n");
   }
+
+  out.flush();
 }
 
 inline auto
-- 
2.43.0


From 55e2fd56e885026c6178ca811048916726685f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 07/26] fix: SaveMomenta of a lattice with open boundaries read
 past the end

No momenta are defined with open boundaries; the table has no rows.
---
 include/bwsl/Lattice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index e069192..eae2189 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -488,7 +488,8 @@ Lattice::SaveMomenta(std::string const& fname) const
   }
   fmt::print(out, "\n");
 
-  for (auto i = 0UL; i < GetNumSites(); i++) {
+  // there are no momenta with open boundary conditions
+  for (auto i = 0UL; i < momenta_.size(); i++) {
     fmt::print(out, "{}", i);
     for (auto const& k : momenta_[i]) {
       fmt::print(out, ",{}", k);
-- 
2.43.0


From 59bf0ae681d603ad1d2383b2975e629bb77a06ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 08/26] fix: distances and vectors on lattices with open
 boundaries

The pair was mapped to a pair starting at the first site, which does not exist
when a coordinate decreases: the result was that of another pair or was read
out of bounds.
---
 include/bwsl/Lattice.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index eae2189..c689b24 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -214,6 +214,9 @@ inline auto
 Lattice::GetDistance(size_t a, size_t b) const -> double
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  if (HasOpenBoundaries()) {
+    return l2norm(GetVector(a, b));
+  }
   auto s = GetMappedSite(a, b);
   return distance_[s];
 }
@@ -222,6 +225,11 @@ inline auto
 Lattice::GetVector(size_t a, size_t b) const -> realvec_t
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  // without translation invariance (a, b) can not be mapped to (0, i)
+  if (HasOpenBoundaries()) {
+    auto v = position_[b];
+    return subtract_into(v, position_[a]);
+  }
   auto s = GetMappedSite(a, b);
   return vectors_[s];
 }
-- 
2.43.0


From c1875154c64e9e10b5cce5f439225032861f38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 09/26] fix: compare_files compares up to the end of both files

The end of the second file was never looked at, so that a file changing size
during the comparison could be reported equal. The function is inline now, it
is defined in a header.
---
 include/bwsl/FileUtils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index 9964112..fdf0c74 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -15,7 +15,9 @@
 #pragma once
 
 // std
+#include <algorithm>
 #include <fstream>
+#include <iterator>
 #include <string>
 
 namespace bwsl {
@@ -25,7 +27,7 @@ namespace bwsl {
 /// This code is based on this answer
 /// http://stackoverflow.com/a/37575457/4477378
 ///
-auto
+inline auto
 compare_files(const std::string& p1, const std::string& p2) -> bool
 {
   std::ifstream f1(p1, std::ifstream::binary | std::ifstream::ate);
@@ -44,7 +46,8 @@ compare_files(const std::string& p1, const std::string& p2) -> bool
   f2.seekg(0, std::ifstream::beg);
   return equal(std::istreambuf_iterator<char>(f1.rdbuf()),
                std::istreambuf_iterator<char>(),
-               std::istreambuf_iterator<char>(f2.rdbuf()));
+               std::istreambuf_iterator<char>(f2.rdbuf()),
+               std::istreambuf_iterator<char>());
 }
 
 } // namespace bwsl
-- 
2.43.0


From 18211a9d44290241ea07805f73f0b309d4ffc9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 10/26] fix: a failed extraction of a rational leaves the
 target unchanged

The numerator was overwritten before the rest had been read, and a zero
denominator was accepted.
---
 include/bwsl/RationalNum.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 439d3e7..8de4efc 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -171,7 +171,9 @@ inline auto
 operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
 {
   auto sep = char{};
-  in >> rhs.num_;
+  auto num = T{};
+  auto den = T{};
+  in >> num;
   for (auto i = 0UL; i < 2UL; i++) {
     in >> sep;
     if (sep != '/') {
@@ -179,7 +181,14 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
       return in;
     }
   }
-  in >> rhs.den_;
+  in >> den;
+  if (den == T{ 0 }) {
+    in.setstate(std::ios_base::failbit);
+  }
+  if (in) {
+    rhs.num_ = num;
+    rhs.den_ = den;
+  }
 
   return in;
 }
-- 
2.43.0


From e442c84147902be01e6d1a7caeaf24e870801bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 11/26] fix: dumpmt reports output failures and accepts every
 64 bit seed

The seed was parsed as an int, and the exit status did not depend on whether
the state had been written.
---
 applications/dumpmt.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/applications/dumpmt.cpp b/applications/dumpmt.cpp
index 3a38199..4c8941b 100644
--- a/applications/dumpmt.cpp
+++ b/applications/dumpmt.cpp
@@ -14,6 +14,7 @@
 //===---------------------------------------------------------------------===//
 
 // std
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <random>
@@ -25,13 +26,13 @@ main (int ac, char **av)
     return EXIT_FAILURE;
   }
 
-  auto seed = static_cast<unsigned long>(atoi(av[1]));
+  auto seed = std::strtoul(av[1], nullptr, 10);
 
   auto rng = std::mt19937_64{seed};
 
   std::cout << rng << std::endl;
 
-  return EXIT_SUCCESS;
+  return std::cout ? EXIT_SUCCESS : EXIT_FAILURE;
 }
 
 // vim: set ft=cpp ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From b7d05f11aa88e34ed98f31500b4e2b7f2b9aff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 12/26] fix: the text of a failed enum conversion outlives the
 call to what()

what() returned a pointer into a local string, and terminated the program if
that string could not be allocated.
---
 include/bwsl/EnumString.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/bwsl/EnumString.hpp b/include/bwsl/EnumString.hpp
index cdd1f0d..e717b2c 100644
--- a/include/bwsl/EnumString.hpp
+++ b/include/bwsl/EnumString.hpp
@@ -66,20 +66,15 @@
   {                                                                            \
   public:                                                                      \
     EnumStringConversionFailed_##name(std::string const& value)                \
-      : value_(value)                                                          \
+      : message_(std::string("Unknown correspondance of ") + value +           \
+                 std::string(" for enum ") + BOOST_PP_STRINGIZE(name))         \
     {                                                                          \
     }                                                                          \
                                                                                \
-    const char* what() const throw()                                           \
-    {                                                                          \
-      auto s = std::string("Unknown correspondance of ") + value_ +            \
-               std::string(" for enum ") + name_;                              \
-      return s.c_str();                                                        \
-    }                                                                          \
+    const char* what() const throw() { return message_.c_str(); }              \
                                                                                \
   private:                                                                     \
-    const std::string name_{ BOOST_PP_STRINGIZE(name) };                       \
-    std::string value_{ "" };                                                  \
+    std::string message_{ "" };                                                \
   };                                                                           \
                                                                                \
   inline std::string ToString(name v)                                          \
-- 
2.43.0


From fb3ae7d866d8badc5f71436b5416dcbf9937c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 13/26] fix: copy assignment of grids and lattices is all or
 nothing

Running out of memory half-way left an object mixing the sizes of one lattice
with the tables of another.
---
 include/bwsl/Bravais.hpp        | 8 +++++++-
 include/bwsl/HyperCubicGrid.hpp | 8 +++++++-
 include/bwsl/Lattice.hpp        | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/Bravais.hpp b/include/bwsl/Bravais.hpp
index 8379699..47e0e51 100644
--- a/include/bwsl/Bravais.hpp
+++ b/include/bwsl/Bravais.hpp
@@ -21,6 +21,7 @@
 // std
 #include <cassert>
 #include <cmath>
+#include <utility>
 #include <vector>
 
 namespace bwsl {
@@ -57,7 +58,12 @@ public:
   virtual ~Bravais() = default;
 
   /// Copy assignment operator
-  auto operator=(Bravais const& that) -> Bravais& = default;
+  auto operator=(Bravais const& that) -> Bravais&
+  {
+    // build the copy first: if it fails this object is left untouched
+    auto copy = that;
+    return *this = std::move(copy);
+  }
 
   /// Copy assignment operator
   auto operator=(Bravais&& that) -> Bravais& = default;
diff --git a/include/bwsl/HyperCubicGrid.hpp b/include/bwsl/HyperCubicGrid.hpp
index 14735c8..9e4592d 100644
--- a/include/bwsl/HyperCubicGrid.hpp
+++ b/include/bwsl/HyperCubicGrid.hpp
@@ -19,6 +19,7 @@
 #include <bwsl/Pairs.hpp>
 
 /// std
+#include <utility>
 #include <vector>
 
 namespace bwsl {
@@ -55,7 +56,12 @@ public:
   HyperCubicGrid(HyperCubicGrid&&) = default;
 
   /// Copy assignment operator
-  auto operator=(const HyperCubicGrid&) -> HyperCubicGrid& = default;
+  auto operator=(HyperCubicGrid const& that) -> HyperCubicGrid&
+  {
+    // build the copy first: if it fails this object is left untouched
+    auto copy = that;
+    return *this = std::move(copy);
+  }
 
   /// Move assignment operator
   auto operator=(HyperCubicGrid&&) -> HyperCubicGrid& = default;
diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index c689b24..df57b1d 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -33,6 +33,7 @@
 #include <iostream>
 #include <memory>
 #include <string>
+#include <utility>
 #include <vector>
 
 namespace bwsl {
@@ -67,7 +68,12 @@ public:
   Lattice(Lattice&& that) = default;
 
   /// Copy assignment operator
-  auto operator=(Lattice const& that) -> Lattice& = default;
+  auto operator=(Lattice const& that) -> Lattice&
+  {
+    // build the copy first: if it fails this object is left untouched
+    auto copy = that;
+    return *this = std::move(copy);
+  }
 
   /// Move assignment operator
   auto operator=(Lattice&& that) -> Lattice& = default;
-- 
2.43.0


From f2cdf621e302c887e2c800e259f1e8adb6463a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 14/26] fix: refuse a generator state followed by anything else

A text archive that ends inside the last number of the state pads it with null
characters: the truncated number was taken as the position in the sequence.
---
 include/bwsl/RNGUtils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/RNGUtils.hpp b/include/bwsl/RNGUtils.hpp
index 473038d..aafdded 100644
--- a/include/bwsl/RNGUtils.hpp
+++ b/include/bwsl/RNGUtils.hpp
@@ -21,6 +21,7 @@
 // std
 #include <random>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 
 namespace boost::serialization {
@@ -48,7 +49,8 @@ load(Ar& ar, std::mersenne_twister_engine<MT_TARGLIST>& mt, unsigned /*unused*/)
   ar& text;
   std::istringstream iss(text);
 
-  if (!(iss >> mt)) {
+  // the whole text must be the state
+  if (!(iss >> mt) || !(iss.eof() || (iss >> std::ws).eof())) {
     throw std::invalid_argument("mersenne_twister_engine state");
   }
 }
-- 
2.43.0


From 93cac479464a673294de2f463846455180df7382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 15/26] fix: Bravais::GetInverseVector multiplied by the wrong
 component

---
 include/bwsl/Bravais.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Bravais.hpp b/include/bwsl/Bravais.hpp
index 47e0e51..896433f 100644
--- a/include/bwsl/Bravais.hpp
+++ b/include/bwsl/Bravais.hpp
@@ -157,7 +157,7 @@ Bravais::GetInverseVector(realvec_t const& realspace) const
   auto p = Bravais::realvec_t(dim_, 0.0);
   for (auto i = 0UL; i < dim_; i++) {
     for (auto j = 0UL; j < dim_; j++) {
-      p[i] += realspace[i] * pivectors_[i * dim_ + j];
+      p[i] += realspace[j] * pivectors_[i * dim_ + j];
     }
   }
   return p;
-- 
2.43.0


From 17c04622e95bae370c70456aca1788904bedaa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 16/26] fix: momenta of lattices whose reciprocal vectors are
 not orthogonal

The Cartesian components were divided by the sizes instead of the components
along the reciprocal vectors, which gives momenta that are not allowed when the
sizes differ.
---
 include/bwsl/Lattice.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index df57b1d..d03c710 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -384,12 +384,17 @@ Lattice::ComputeMomenta(Bravais const& bravais) const
   // sites of the direct lattice
   for (auto i = 0UL; i < GetNumSites(); i++) {
     auto ci = GetCoordinates(i);
+    auto kappa = realvec_t(GetDim(), 0.0);
     for (auto k = 0UL; k < ci.size(); k++) {
       ci[k] -= GetSize()[k] / 2UL;
-    }
-    auto kappa = bravais.GetReciprocalSpace(ci);
-    for (auto k = 0UL; k < kappa.size(); k++) {
-      kappa[k] /= GetSize()[k];
+
+      // the allowed momenta are fractions of each reciprocal vector
+      auto ck = coords_t(GetDim(), 0L);
+      ck[k] = ci[k];
+      auto const vec = bravais.GetReciprocalSpace(ck);
+      for (auto q = 0UL; q < kappa.size(); q++) {
+        kappa[q] += vec[q] / GetSize()[k];
+      }
     }
     p.push_back(kappa);
   }
-- 
2.43.0


From 6d50d439832c9c5e06b508994db304d117485779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:22 +0000
Subject: [PATCH 17/26] fix: search the minimum image beyond the first shell
 where it may lie there

On elongated lattices with non-orthogonal vectors the closest periodic image is
not among the first neighbouring cells.
---
 include/bwsl/Lattice.hpp | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index d03c710..d763c9e 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -32,6 +32,7 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <numeric>
 #include <string>
 #include <utility>
 #include <vector>
@@ -311,7 +312,34 @@ Lattice::ComputeVectors(Bravais const& bravais) const
   -> std::vector<Lattice::realvec_t>
 {
   auto p = std::vector<realvec_t>(GetNumSites(), realvec_t(GetDim(), 0.0));
-  const auto imgsize = gridsize_t(GetDim(), 3);
+
+  // number of shells of images that can contain the closest one: each vector
+  // shorter than all its translations by one period has components bounded by
+  // half the period times the sum below (one half for orthogonal vectors)
+  auto shells = coords_t(GetDim(), 1L);
+  for (auto m = 0UL; m < GetDim() && HasClosedBoundaries(); m++) {
+    auto unit = [&](size_t k) {
+      auto u = coords_t(GetDim(), 0L);
+      u[k] = 1L;
+      return u;
+    };
+    auto const bm = bravais.GetReciprocalSpace(unit(m));
+    auto bound = 0.0;
+    for (auto k = 0UL; k < GetDim(); k++) {
+      auto const bk = bravais.GetReciprocalSpace(unit(k));
+      auto const overlap =
+        std::inner_product(bm.begin(), bm.end(), bk.begin(), 0.0);
+      auto const a = bravais.GetRealSpace(unit(k));
+      bound += std::abs(overlap) * sum_squared<realvec_t, double>(a) *
+               static_cast<double>(GetSize()[k]);
+    }
+    bound /= 8.0 * M_PI * M_PI * static_cast<double>(GetSize()[m]);
+    shells[m] += static_cast<long>(bound);
+  }
+  auto imgsize = gridsize_t(GetDim(), 0UL);
+  std::transform(shells.begin(), shells.end(), imgsize.begin(), [](long s) {
+    return static_cast<size_t>(2L * s + 1L);
+  });
   const auto nimg = accumulate_product(imgsize);
 
   const auto c0 = GetCoordinates(0UL);
@@ -321,14 +349,14 @@ Lattice::ComputeVectors(Bravais const& bravais) const
     // minimum distance found
     auto [mindist, minvec] = bravais.GetDistanceVector(c0, cs);
 
-    // search for the minimum distance across the first shell of
+    // search for the minimum distance across the shells of
     // periodic images if we are with closed boundary condition
     if (HasClosedBoundaries()) {
       for (auto k = 0UL; k < nimg; k++) {
         auto img = index_to_array<coords_t, gridsize_t>(k, imgsize);
         auto csm = coords_t(cs);
         for (auto m = 0UL; m < GetDim(); m++) {
-          csm[m] += (img[m] - 1) * GetSize()[m];
+          csm[m] += (img[m] - shells[m]) * GetSize()[m];
         }
         auto [dist, vec] = bravais.GetDistanceVector(c0, csm);
 
-- 
2.43.0


From a4fdebd78d1a051d5ebc78625e7f09808fce3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:26 +0000
Subject: [PATCH 18/26] fix: compare_files: a file that cannot be rewound is
 not equal

When going back to the beginning failed for both files, the two comparisons
started from the ends and different files were reported equal.
---
 include/bwsl/FileUtils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index fdf0c74..8461b4c 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -44,6 +44,9 @@ compare_files(const std::string& p1, const std::string& p2) -> bool
   // seek back to beginning and use equal to compare contents
   f1.seekg(0, std::ifstream::beg);
   f2.seekg(0, std::ifstream::beg);
+  if (f1.fail() || f2.fail()) {
+    return false; // file problem
+  }
   return equal(std::istreambuf_iterator<char>(f1.rdbuf()),
                std::istreambuf_iterator<char>(),
                std::istreambuf_iterator<char>(f2.rdbuf()),
-- 
2.43.0


From 0337abee7c3810d1ae1ece0b2742d2ec39e186b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:15 +0000
Subject: [PATCH 19/26] fix: GetJump: keep the half size of long grids

It was truncated to an int, jumps on grids longer than 2^32 were wrong.
---
 include/bwsl/HyperCubicGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/HyperCubicGrid.hpp b/include/bwsl/HyperCubicGrid.hpp
index 9e4592d..a7877fc 100644
--- a/include/bwsl/HyperCubicGrid.hpp
+++ b/include/bwsl/HyperCubicGrid.hpp
@@ -259,7 +259,7 @@ HyperCubicGrid::GetJump(size_t a, size_t b) const -> coords_t
       auto& cbi = cb[i];
       auto si = GetSize()[i];
       // half distance (integer division)
-      auto si_half = static_cast<int>(si / 2);
+      auto si_half = static_cast<long>(si / 2);
       if (cbi > si_half) {
         cbi -= si;
       }
-- 
2.43.0


From 4995dd8ef83df32469c6b2044c73db414134f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 20/26] fix: archive generators independently of the global
 locale

The text of a generator's state was written and read with the program's
global locale. With digit grouping it could not be restored under another
locale, nor, if groups are separated by spaces, under the same one.
---
 include/bwsl/RNGUtils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bwsl/RNGUtils.hpp b/include/bwsl/RNGUtils.hpp
index aafdded..86a7146 100644
--- a/include/bwsl/RNGUtils.hpp
+++ b/include/bwsl/RNGUtils.hpp
@@ -19,6 +19,7 @@
 #include <boost/serialization/version.hpp>
 
 // std
+#include <locale>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -48,6 +49,7 @@ load(Ar& ar, std::mersenne_twister_engine<MT_TARGLIST>& mt, unsigned /*unused*/)
   std::string text;
   ar& text;
   std::istringstream iss(text);
+  iss.imbue(std::locale::classic());
 
   // the whole text must be the state
   if (!(iss >> mt) || !(iss.eof() || (iss >> std::ws).eof())) {
@@ -62,6 +64,7 @@ save(Ar& ar,
      unsigned /*unused*/) -> void
 {
   std::ostringstream oss;
+  oss.imbue(std::locale::classic());
   if (!(oss << mt)) {
     throw std::invalid_argument("mersenne_twister_engine state");
   }
-- 
2.43.0


From 2840b42b99b106fff2e77d1715fedb35c11e6dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 21/26] fix: with checks enabled, a full histogram refuses
 instead of wrapping

The counter of each bin was protected, but not that of all measurements.
---
 include/bwsl/HistAccumulator.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index e6b26e3..9f733d1 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -16,6 +16,7 @@
 
 // bwsl
 #include <bwsl/Accumulators.hpp>
+#include <bwsl/accumulators/AccumulatorsExceptions.hpp>
 
 // boost
 #include <boost/archive/text_iarchive.hpp>
@@ -24,6 +25,7 @@
 #include <boost/serialization/version.hpp>
 
 // std
+#include <limits>
 #include <vector>
 
 namespace bwsl {
@@ -131,6 +133,13 @@ template<class T>
 inline auto
 HistAccumulator::Add(size_t idx, T val) -> void
 {
+#ifdef BWSL_ACCUMULATORS_CHECKS
+  // protect against too many measurements
+  if (count_ == std::numeric_limits<unsigned long>::max()) {
+    throw exception::AccumulatorOverflow();
+  }
+#endif // BWSL_ACCUMULATORS_CHECKS
+
   acc_[idx].Add(val);
   count_ += 1UL;
 }
@@ -139,6 +148,13 @@ template<class T>
 inline auto
 HistAccumulator::ForceAdd(size_t idx, T val) -> void
 {
+#ifdef BWSL_ACCUMULATORS_CHECKS
+  // protect against too many measurements
+  if (count_ == std::numeric_limits<unsigned long>::max()) {
+    throw exception::AccumulatorOverflow();
+  }
+#endif // BWSL_ACCUMULATORS_CHECKS
+
   while (idx >= acc_.size()) {
     acc_.emplace_back();
   }
-- 
2.43.0


From c2f5761c214bf7de9a0a3cec4a8930fabb51466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 22/26] fix: choose_between stays in range when the total
 weight is subnormal

---
 include/bwsl/MathUtils.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index dcb4dcb..4a5a551 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -205,8 +205,12 @@ choose_between(const T& probs, G& rng) -> SizeType
                                                                comul.back());
   auto rnd = udist(rng);
 
+  // the product of a random number and a total too small to be represented
+  // precisely may be rounded to the total itself
   typename T::iterator choice =
-    std::upper_bound(comul.begin(), comul.end(), rnd);
+    rnd < comul.back()
+      ? std::upper_bound(comul.begin(), comul.end(), rnd)
+      : std::lower_bound(comul.begin(), comul.end(), comul.back());
 
   return static_cast<SizeType>(std::distance(comul.begin(), choice));
 }
@@ -222,8 +226,12 @@ choose_between_psums(const T& comul, G& rng) -> SizeType
                                                                comul.back());
   auto rnd = udist(rng);
 
+  // the product of a random number and a total too small to be represented
+  // precisely may be rounded to the total itself
   typename T::const_iterator choice =
-    std::upper_bound(comul.cbegin(), comul.cend(), rnd);
+    rnd < comul.back()
+      ? std::upper_bound(comul.cbegin(), comul.cend(), rnd)
+      : std::lower_bound(comul.cbegin(), comul.cend(), comul.back());
 
   return static_cast<SizeType>(std::distance(comul.cbegin(), choice));
 }
-- 
2.43.0


From 7520373aa49c4ee8ca55b8117365825523006550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 23/26] fix: order rationals exactly against integers and with
 negative denominators

---
 include/bwsl/RationalNum.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 8de4efc..958588a 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -214,21 +214,27 @@ template<class G>
 inline auto
 operator<(const RationalNum<G>& lhs, const RationalNum<G>& rhs) -> bool
 {
-  return lhs.num_ * rhs.den_ < rhs.num_ * lhs.den_;
+  auto const left = lhs.num_ * rhs.den_;
+  auto const right = rhs.num_ * lhs.den_;
+  // multiplying by a negative denominator turns the comparison around
+  return (lhs.den_ < G{ 0 }) != (rhs.den_ < G{ 0 }) ? right < left
+                                                    : left < right;
 }
 
 template<class G>
 inline auto
 operator<(const RationalNum<G>& lhs, const G& rhs) -> bool
 {
-  return lhs.num_ / lhs.den_ < rhs;
+  auto const right = rhs * lhs.den_;
+  return lhs.den_ < G{ 0 } ? right < lhs.num_ : lhs.num_ < right;
 }
 
 template<class G>
 inline auto
 operator<(const G& lhs, const RationalNum<G>& rhs) -> bool
 {
-  return lhs < rhs.num_ / rhs.den_;
+  auto const left = lhs * rhs.den_;
+  return rhs.den_ < G{ 0 } ? rhs.num_ < left : left < rhs.num_;
 }
 
 TEMPLATEOVERLOADRELATIONAL(RationalNum<G>, RationalNum<G>, G)
-- 
2.43.0


From d652022980dc1a845e096493ad9224d5119b42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:01 +0000
Subject: [PATCH 24/26] fix: LinSpace iterators can be compared

---
 include/bwsl/LinSpace.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/bwsl/LinSpace.hpp b/include/bwsl/LinSpace.hpp
index 59b9d73..0a96f03 100644
--- a/include/bwsl/LinSpace.hpp
+++ b/include/bwsl/LinSpace.hpp
@@ -74,10 +74,16 @@ private:
   unsigned long step_{ 0 };
 
   /// Compare two LinSpaces and check for equality
-  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return a.step_ == b.step_;
+  };
 
   /// Compare two LinSpaces and check for inequality
-  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return !(a == b);
+  }
 }; // class LinSpace
 
 template<typename T>
@@ -149,20 +155,6 @@ LinSpace<T>::Collect(unsigned long n) -> std::vector<T>
   return retval;
 }
 
-template<typename T>
-auto
-operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return a.step_ == b.step_;
-};
-
-template<typename T>
-auto
-operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return !(a == b);
-}
-
 } // namespace bwsl
 
 // vim: set ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From d8587140bfdfdd8e5d91b2e48a3c78566c387c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 25/26] fix: the mixed interpolation/binary search compiles and
 finds the upper bound

---
 include/bwsl/MathUtils.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 4a5a551..5cd0126 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -361,10 +361,15 @@ template<class ForwardIt, class T>
 inline auto
 upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
 {
-  auto count = std::distance(first, last);
+  if (first == last) {
+    return last;
+  }
+
+  // the last element of the window is included
   auto it = first;
   auto to = it;
-  std::advance(to, count - 1);
+  std::advance(to, std::distance(first, last) - 1);
+  auto count = std::distance(it, to);
 
   while (count > 10000) {
     auto itval = *it;
@@ -373,7 +378,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
       return it;
     }
     if (!(itval < value)) { // value <= it (so only if they are equal)
-      return ++it;
+      break;
     }
 
     // check if the value is outside the upper bound of the search interval
@@ -393,7 +398,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
     count = std::distance(it, to);
   }
-  return upper_bound(it, ++to, value);
+  return std::upper_bound(it, ++to, value);
 }
 
 /// Greater common denominator
-- 
2.43.0


From 87635758ad57d147f4a76539451291094690d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:43 +0000
Subject: [PATCH 26/26] fix: RationalNum: ToString compiles and gives what
 FromString reads

---
 include/bwsl/RationalNum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 958588a..fc748b9 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -347,7 +347,7 @@ template<class T>
 inline auto
 ToString(RationalNum<T> const& rhs) -> std::string
 {
-  return fmt::format("{}", rhs);
+  return fmt::format("{}//{}", rhs.GetNum(), rhs.GetDen());
 }
 
 } // namespace bwsl
-- 
2.43.0

