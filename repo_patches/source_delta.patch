From d8268b3febf5d8dbb76cd1a4ba49c14dc787810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 01/31] fix: remove the face at infinity by its full
 coordinates, also when the heuristic runs to the end

After columns of equations were eliminated, a genuine facet of a cone given
by rays only was mistaken for the row 0 ... 0 -1 and dropped.  The heuristic
that seeds the adjacency decomposition kept that row when it processed all
points, so it was printed as an inequality (and crashed the rotation for a
single point).
---
 ...algorithm_fourier_motzkin_elimination.beti |  1 +
 src/algorithm_fourier_motzkin_elimination.cpp | 27 ++++++++++++++-----
 src/algorithm_fourier_motzkin_elimination.h   |  4 +++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/algorithm_fourier_motzkin_elimination.beti b/src/algorithm_fourier_motzkin_elimination.beti
index c97a68e..892067e 100644
--- a/src/algorithm_fourier_motzkin_elimination.beti
+++ b/src/algorithm_fourier_motzkin_elimination.beti
@@ -17,6 +17,7 @@ namespace panda
    namespace algorithm
    {
       EXTERN template Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
+      EXTERN template Matrix<Integer> fourierMotzkinEliminationCone(Matrix<Integer>);
       EXTERN template Matrix<Integer> fourierMotzkinEliminationHeuristic(Matrix<Integer>);
    }
 }
diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index c4746d1..dd41296 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -35,9 +35,12 @@ namespace
    /// The actual FME, named phase Two in Christof.
    template <typename Bitset, typename Integer>
    void phaseTwo(Matrix<Integer>&, const Vertices<Integer>&);
-   /// Abortable phase Two.
+   /// Abortable phase Two. The last argument tells if the last column (still) is the homogenizing one.
    template <typename Bitset, typename Integer>
-   void phaseTwoHeuristic(Matrix<Integer>&, const Vertices<Integer>&);
+   void phaseTwoHeuristic(Matrix<Integer>&, const Vertices<Integer>&, const bool);
+   /// Removes the face at infinity (row 0 ... 0 -1), which isn't a facet of the polyhedron.
+   template <typename Integer>
+   void detectBadRow(Matrix<Integer>&);
    /// Identifies indices of positive, zero and negative entries.
    template <typename Integer>
    std::tuple<Indices, Indices, Indices> getIndicesNZP(const Row<Integer>&);
@@ -72,6 +75,14 @@ namespace
 
 template <typename Integer>
 Matrix<Integer> panda::algorithm::fourierMotzkinElimination(Matrix<Integer> input)
+{
+   auto matrix = fourierMotzkinEliminationCone(std::move(input));
+   detectBadRow(matrix);
+   return matrix;
+}
+
+template <typename Integer>
+Matrix<Integer> panda::algorithm::fourierMotzkinEliminationCone(Matrix<Integer> input)
 {
    assert( !input.empty() );
    auto matrix = input;
@@ -125,8 +136,10 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationHeuristic(Matrix<Inte
       input.erase(input.begin() + static_cast<typename Matrix<Integer>::difference_type>(*it));
    }
    input.insert(input.begin(), used.cbegin(), used.cend());
-   phaseTwoHeuristic<BitsetVariableSize>(matrix, input);
+   const auto last_column_is_eliminated = (!zero_columns.empty() && zero_columns.front() == input.back().size() + zero_columns.size() - 1);
+   phaseTwoHeuristic<BitsetVariableSize>(matrix, input, !last_column_is_eliminated);
    reinsertZeroColumns(matrix, zero_columns);
+   detectBadRow(matrix);
    return matrix;
 }
 
@@ -348,11 +361,10 @@ namespace
          }, std::chrono::seconds(2));
          projection(matrix, R, vertex, i);
       }
-      detectBadRow(matrix);
    }
 
    template <typename Bitset, typename Integer>
-   void phaseTwoHeuristic(Matrix<Integer>& matrix, const Vertices<Integer>& vertices)
+   void phaseTwoHeuristic(Matrix<Integer>& matrix, const Vertices<Integer>& vertices, const bool last_column_is_homogenizing)
    {
       const auto d = matrix.size();
       auto R = initializeR<Bitset>(matrix, vertices);
@@ -360,7 +372,10 @@ namespace
       for ( std::size_t i = d; i < vertices.size(); ++i )
       {
          auto facets = extractFacets(matrix, vertices, i);
-         detectBadRow(facets);
+         if ( last_column_is_homogenizing )
+         {
+            detectBadRow(facets);
+         }
          if ( !facets.empty() )
          {
             matrix = facets;
diff --git a/src/algorithm_fourier_motzkin_elimination.h b/src/algorithm_fourier_motzkin_elimination.h
index 56f7f6f..59b016a 100644
--- a/src/algorithm_fourier_motzkin_elimination.h
+++ b/src/algorithm_fourier_motzkin_elimination.h
@@ -22,6 +22,10 @@ namespace panda
       /// extremal vertices/rays is returned.
       template <typename Integer>
       Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
+      /// Same as above, but the face at infinity (row 0 ... 0 -1) is kept, i.e. all
+      /// facets of the cone spanned by the (homogenized) rows are returned.
+      template <typename Integer>
+      Matrix<Integer> fourierMotzkinEliminationCone(Matrix<Integer>);
       /// Heuristic using Fourier-Motzkin elimination to identify some facets.
       /// Output is guaranteed to contain only facets, but it is highly likely
       /// that it is not the complete set of facets.
-- 
2.43.0


From 88a48b10e982bbc41028262416e22adc84aa63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 02/31] fix: adjacency decomposition crosses empty ridges and
 ridges at infinity

For a facet that is a single point the (empty) ridge was dropped, so the
other facet of a segment was never found; ridges at infinity of unbounded
polyhedra were treated likewise, and the face at infinity reached through
others was printed as an inequality (0 ... 0 -1).
---
 src/algorithm_rotation.cpp |  2 +-
 src/list.cpp               | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index 53b69b0..3e048a5 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -87,7 +87,7 @@ namespace
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
       assert( !vertices_on_facet.empty() );
-      return algorithm::fourierMotzkinElimination(vertices_on_facet);
+      return algorithm::fourierMotzkinEliminationCone(vertices_on_facet); // a ridge may be empty or lie at infinity.
    }
 
    template <typename Integer>
diff --git a/src/list.cpp b/src/list.cpp
index 9b36891..0af1f06 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -8,6 +8,7 @@
 #include "list.h"
 #undef COMPILE_TEMPLATE_LIST
 
+#include <algorithm>
 #include <cstddef>
 #include <iostream>
 #include <sstream>
@@ -16,6 +17,17 @@
 
 using namespace panda;
 
+namespace
+{
+   /// The face at infinity (0 ... 0 -1) of an unbounded polyhedron isn't a facet of it.
+   /// However, it has to be processed, as facets may be adjacent only through it.
+   template <typename Integer>
+   bool isFaceAtInfinity(const Row<Integer>& row)
+   {
+      return !row.empty() && row.back() < 0 && std::all_of(row.cbegin(), row.cend() - 1, [](const Integer& a) { return a == 0; });
+   }
+}
+
 #define PRINT_DONE_COUNTER /// if enabled, the beginning of processing a row will be announced.
 
 #ifdef PRINT_DONE_COUNTER
@@ -68,7 +80,10 @@ void panda::List<Integer, TagType>::put(const Row<Integer>& row) const
    {
       if ( std::is_same<TagType, tag::facet>::value )
       {
-         algorithm::prettyPrintln(std::cout, row, names, "<=");
+         if ( !isFaceAtInfinity(row) )
+         {
+            algorithm::prettyPrintln(std::cout, row, names, "<=");
+         }
       }
       else
       {
-- 
2.43.0


From 8a58d8a0463f1b9805a36493b5a541d3c7b836b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 03/31] fix: look for the end of the work list under its lock

List::get() inserted the end marker into the set of rows before taking the
lock, racing with other threads that insert or look up rows.
---
 src/list.cpp | 7 ++-----
 src/list.h   | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/list.cpp b/src/list.cpp
index 0af1f06..fc5fbe8 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -98,14 +98,12 @@ void panda::List<Integer, TagType>::put(const Row<Integer>& row) const
 template <typename Integer, typename TagType>
 Row<Integer> panda::List<Integer, TagType>::get() const
 {
+   std::unique_lock<std::mutex> lock(mutex);
    if ( empty() ) // abort
    {
-      const auto it = rows.insert(Row<Integer>{}).first;
-      std::unique_lock<std::mutex> lock(mutex);
-      iterators.push_back(it);
+      iterators.push_back(rows.insert(Row<Integer>{}).first);
       condition.notify_all();
    }
-   std::unique_lock<std::mutex> lock(mutex);
    condition.wait(lock, [&](){ return !iterators.empty(); });
    ++workers;
    const auto row = *iterators.front();
@@ -147,7 +145,6 @@ panda::List<Integer, TagType>::List(const Names& names_)
 template <typename Integer, typename TagType>
 bool panda::List<Integer, TagType>::empty() const
 {
-   const std::lock_guard<std::mutex> lock(mutex);
    return workers == 0 && iterators.empty();
 }
 
diff --git a/src/list.h b/src/list.h
index 874771f..6e324db 100644
--- a/src/list.h
+++ b/src/list.h
@@ -46,7 +46,7 @@ namespace panda
          mutable std::vector<Iterator> iterators;
          mutable std::size_t counter;
       private:
-         /// checks if all jobs are done.
+         /// checks if all jobs are done (the caller has to hold the lock).
          bool empty() const;
    };
 }
-- 
2.43.0


From a1a3ff584087aefd82880b269a89edd67dad25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 04/31] fix: end the work list also when the initial rows are
 the last to be put

A worker that was already waiting in List::get() when put(Matrix) took the
number of workers to zero was never woken.
---
 src/list.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/list.cpp b/src/list.cpp
index fc5fbe8..f89367b 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -56,6 +56,10 @@ void panda::List<Integer, TagType>::put(const Matrix<Integer>& matrix) const
    }
    std::lock_guard<std::mutex> lock(mutex);
    --workers;
+   if ( empty() ) // nothing left to wait for
+   {
+      condition.notify_all();
+   }
    #ifdef PRINT_DONE_COUNTER
    #if HAS_FEATURE_THREAD_LOCAL == 0
    auto index = indices[std::this_thread::get_id()];
@@ -99,12 +103,12 @@ template <typename Integer, typename TagType>
 Row<Integer> panda::List<Integer, TagType>::get() const
 {
    std::unique_lock<std::mutex> lock(mutex);
+   condition.wait(lock, [&](){ return !iterators.empty() || empty(); });
    if ( empty() ) // abort
    {
       iterators.push_back(rows.insert(Row<Integer>{}).first);
       condition.notify_all();
    }
-   condition.wait(lock, [&](){ return !iterators.empty(); });
    ++workers;
    const auto row = *iterators.front();
    if ( !row.empty() )
-- 
2.43.0


From 1c5e817e3b31203dbaab6bacbfa569a0ece96ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 05/31] fix: sign of quotients and range of remainders of
 BigInteger

---
 src/big_integer.cpp             | 18 +-----------------
 src/big_integer_arithmetics.cpp | 14 ++++++++++----
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/big_integer.cpp b/src/big_integer.cpp
index 1e920dc..5fb067d 100644
--- a/src/big_integer.cpp
+++ b/src/big_integer.cpp
@@ -90,20 +90,10 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
 {
    if ( isMagnitudeSmallerThan(second) )
    {
-      BigInteger remainder = *this;
+      BigInteger remainder = abs(*this);
       *this = BigInteger(0);
       return remainder;
    }
-   if ( *this == second )
-   {
-      *this = BigInteger(1);
-      return BigInteger(0);
-   }
-   const auto is_negative = isNegative();
-   if ( is_negative )
-   {
-      flipSign();
-   }
    BigInteger result(0);
    BigInteger remainder(0);
    for ( std::size_t it = std::numeric_limits<DataType>::digits * data.size(); it > 0; --it )
@@ -119,12 +109,6 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
          result.data.front() |= 1;
       }
    }
-   if ( is_negative )
-   {
-      result.flipSign();
-      remainder.flipSign();
-      remainder += second;
-   }
    *this = result;
    return remainder;
 }
diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 211ff32..fddbb4e 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -89,9 +89,9 @@ BigInteger& panda::BigInteger::operator/=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
-      const auto original_sign = sign;
-      auto r = divideMagnitudesWithRemainder(second);
-      if ( second.sign != original_sign )
+      const auto negative = (sign != second.sign);
+      divideMagnitudesWithRemainder(second);
+      if ( negative )
       {
          flipSign();
       }
@@ -172,7 +172,12 @@ BigInteger& panda::BigInteger::operator%=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
+      const auto negative = isNegative();
       *this = divideMagnitudesWithRemainder(second);
+      if ( negative && !isZero() )
+      {
+         *this = second - *this;
+      }
       return *this;
    }
 }
@@ -273,7 +278,8 @@ namespace
       const int a = first;
       const int b = second;
       assert( b > 0 );
-      first = BigInteger(((a < 0) ? b : 0) + (a % b));
+      const int remainder = a % b;
+      first = BigInteger(((remainder < 0) ? b : 0) + remainder);
       return first;
    }
 }
-- 
2.43.0


From bd3aea546ead4e5bc7d547a8b28badd2528c89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 06/31] fix: BigInteger a *= a

---
 src/big_integer_arithmetics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index fddbb4e..61020f4 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -48,9 +48,10 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
+      const auto factor = second; // second may be *this
       auto copy = *this;
       data = {0};
-      for ( const auto& entry : second.data )
+      for ( const auto& entry : factor.data )
       {
          DataType mask = 1;
          for ( int j = 0; j < std::numeric_limits<DataType>::digits; ++j, copy <<= 1, mask <<= 1 )
@@ -61,7 +62,7 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
             }
          }
       }
-      if ( second.sign == Sign::Negative )
+      if ( factor.sign == Sign::Negative )
       {
          flipSign();
       }
-- 
2.43.0


From ebd3495a6ae1636156e1531eddfcd254a8dec3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 07/31] fix: BigInteger comparisons with and conversion to the
 smallest int

---
 src/big_integer_comparisons.cpp  | 21 ++++++++++++++++++---
 src/big_integer_constructors.cpp |  2 +-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/big_integer_comparisons.cpp b/src/big_integer_comparisons.cpp
index d9b1988..0ef67c3 100644
--- a/src/big_integer_comparisons.cpp
+++ b/src/big_integer_comparisons.cpp
@@ -11,6 +11,12 @@
 
 using namespace panda;
 
+namespace
+{
+   /// Absolute value of an integer (also of the smallest one, which std::abs cannot represent).
+   unsigned int magnitude(const int) noexcept;
+}
+
 bool panda::BigInteger::operator==(const int value) const noexcept
 {
    if ( data.size() > 1 )
@@ -21,7 +27,7 @@ bool panda::BigInteger::operator==(const int value) const noexcept
    {
       return false;
    }
-   return data[0] == static_cast<decltype(data[0])>(std::abs(value));
+   return data[0] == magnitude(value);
 }
 
 bool panda::BigInteger::operator!=(const int value) const noexcept
@@ -41,7 +47,7 @@ bool panda::BigInteger::operator<(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] > static_cast<DataType>(std::abs(value)));
+      return (data[0] > magnitude(value));
    }
    return (data[0] < static_cast<DataType>(value));
 }
@@ -58,7 +64,7 @@ bool panda::BigInteger::operator>(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] < static_cast<DataType>(std::abs(value)));
+      return (data[0] < magnitude(value));
    }
    return (data[0] > static_cast<DataType>(value));
 }
@@ -118,3 +124,12 @@ bool panda::BigInteger::operator>=(const BigInteger& second) const noexcept
    return !(*this < second);
 }
 
+namespace
+{
+   unsigned int magnitude(const int value) noexcept
+   {
+      const auto bits = static_cast<unsigned int>(value);
+      return (value < 0) ? 0u - bits : bits;
+   }
+}
+
diff --git a/src/big_integer_constructors.cpp b/src/big_integer_constructors.cpp
index 046e606..5521af1 100644
--- a/src/big_integer_constructors.cpp
+++ b/src/big_integer_constructors.cpp
@@ -145,7 +145,7 @@ panda::BigInteger::operator int() const
    }
    else
    {
-      return -static_cast<int>(data[0]);
+      return -1 - static_cast<int>(data[0] - 1); // the magnitude itself needn't fit.
    }
 }
 
-- 
2.43.0


From 8df34e8f5f2695587b18de5df56aeaaf683c8080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 08/31] fix: gcd with the smallest value of a built-in integer
 type

---
 src/algorithm_integer_operations.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/algorithm_integer_operations.cpp b/src/algorithm_integer_operations.cpp
index bc99540..6056c1f 100644
--- a/src/algorithm_integer_operations.cpp
+++ b/src/algorithm_integer_operations.cpp
@@ -11,11 +11,17 @@
 #include <cassert>
 #include <cstdint>
 #include <cstdlib>
+#include <type_traits>
 
 using namespace panda;
 
 namespace
 {
+   /// Absolute value, for built-in types as unsigned integer (which can represent that of the smallest value, too).
+   template <typename Integer, typename std::enable_if<std::is_integral<Integer>::value, int>::type = 0>
+   typename std::make_unsigned<Integer>::type magnitude(Integer) noexcept;
+   template <typename Integer, typename std::enable_if<!std::is_integral<Integer>::value, int>::type = 0>
+   Integer magnitude(Integer);
    /// optimized gcd for unsigned integer values.
    template <typename Integer>
    Integer unsigned_gcd(Integer, Integer) noexcept;
@@ -24,8 +30,7 @@ namespace
 template <typename Integer>
 Integer panda::algorithm::gcd(Integer a, Integer b) noexcept
 {
-   using std::abs;
-   return unsigned_gcd(static_cast<Integer>(abs(a)), static_cast<Integer>(abs(b)));
+   return static_cast<Integer>(unsigned_gcd(magnitude(a), magnitude(b)));
 }
 
 template <typename Integer>
@@ -43,6 +48,20 @@ short panda::algorithm::abs(const short n)
 
 namespace
 {
+   template <typename Integer, typename std::enable_if<std::is_integral<Integer>::value, int>::type>
+   typename std::make_unsigned<Integer>::type magnitude(Integer n) noexcept
+   {
+      using Unsigned = typename std::make_unsigned<Integer>::type;
+      const auto bits = static_cast<Unsigned>(n);
+      return (n < 0) ? static_cast<Unsigned>(Unsigned(0) - bits) : bits;
+   }
+
+   template <typename Integer, typename std::enable_if<!std::is_integral<Integer>::value, int>::type>
+   Integer magnitude(Integer n)
+   {
+      return abs(n);
+   }
+
    template <typename Integer>
    Integer unsigned_gcd(Integer a, Integer b) noexcept
    {
-- 
2.43.0


From d2894918e20cb36567f0be06876788c2ef6a9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 09/31] fix: lcm(0, 0)

---
 src/algorithm_integer_operations.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm_integer_operations.cpp b/src/algorithm_integer_operations.cpp
index 6056c1f..bfdd99e 100644
--- a/src/algorithm_integer_operations.cpp
+++ b/src/algorithm_integer_operations.cpp
@@ -37,6 +37,10 @@ template <typename Integer>
 Integer panda::algorithm::lcm(Integer a, Integer b) noexcept
 {
    const auto gcd_value = gcd(a, b);
+   if ( gcd_value == 0 ) // both are 0
+   {
+      return gcd_value;
+   }
    using std::abs;
    return static_cast<Integer>(abs(a) * static_cast<Integer>(abs(b) / gcd_value));
 }
-- 
2.43.0


From 8ea68e42a55a2b8c5e8f8b614766a296f80cf454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 10/31] fix: normalisation of maps with the equations of the
 affine hull

---
 src/algorithm_map_operations.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 1da5567..38407d4 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -119,10 +119,12 @@ namespace
    }
 
    /// Use equation to get eliminated index back to zero.
+   /// The map is scaled by the (positive) coefficient of the eliminated index to remain integral.
    template <typename Integer>
    void subtractEquation(Map& map, const Index& index, const Equation<Integer>& equation)
    {
-      assert( equation[index] != 0 );
+      assert( equation[index] > 0 );
+      const auto scale = static_cast<Factor>(equation[index]);
       for ( auto& image : map )
       {
          Image new_image;
@@ -134,16 +136,16 @@ namespace
                {
                   if ( equation[j] != 0 )
                   {
-                     new_image.push_back(std::make_pair(j, -term.second * equation[j]));
+                     new_image.push_back(std::make_pair(j, -term.second * static_cast<Factor>(equation[j])));
                   }
                }
             }
             else
             {
-               new_image.push_back(term);
+               new_image.push_back(std::make_pair(term.first, scale * term.second));
             }
-            image = new_image;
          }
+         image = new_image;
       }
    }
 
@@ -167,20 +169,21 @@ namespace
       for ( auto& image : map )
       {
          std::sort(image.begin(), image.end());
-         for ( std::size_t i = 0; i + 1 < image.size(); ++i )
+         Image merged;
+         for ( const auto& term : image )
          {
-            if ( image[i].first == image[i + 1].first ) // same Index
+            if ( !merged.empty() && merged.back().first == term.first ) // same Index
             {
-               image[i].second += image[i + 1].second; // merge factors
-               image.erase(image.begin() + static_cast<Image::difference_type>(i) + 1);     // erase unused term
-               if ( image[i].second == 0 )
-               {
-                  image.erase(image.begin() + static_cast<Image::difference_type>(i)); // erase unused item
-                  --i; // decrement i because the current i needs to be revisited
-               }
-               --i; // decrement i because we erased the next item
+               merged.back().second += term.second; // merge factors
+            }
+            else
+            {
+               merged.push_back(term);
             }
          }
+         // terms that cancel out are not needed.
+         merged.erase(std::remove_if(merged.begin(), merged.end(), [](const Term& term) { return term.second == 0; }), merged.end());
+         image = merged;
       }
    }
 
-- 
2.43.0


From b3efa03d421e07f501f7e071c158207c8689fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 11/31] fix: classes of reduced inequalities modulo the
 equations

---
 src/input.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/input.cpp b/src/input.cpp
index bfa4f5b..f510bdc 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -105,7 +105,17 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
-      const auto tmp_maps = algorithm::normalize(maps, equations);
+      // Classes are determined modulo the equations, hence maps and inequalities are normalized with a reduced basis of these.
+      auto basis = equations;
+      for ( int i = 0; i < 2 && !basis.empty(); ++i )
+      {
+         basis = algorithm::extractEquations(basis);
+      }
+      for ( auto& inequality : inequalities )
+      {
+         inequality = algorithm::normalize(inequality, basis);
+      }
+      const auto tmp_maps = algorithm::normalize(maps, basis);
       expandInequalities(inequalities, tmp_maps);
       return inequalities;
    }
-- 
2.43.0


From 407d7406672dc9b07e855925383a955501fd2066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:21 +0000
Subject: [PATCH 12/31] fix: equations outlive the asynchronous insertion of
 known vertices

---
 src/method_adjacency_decomposition_implementation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index f5ff76e..fe79805 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -167,9 +167,10 @@ namespace
    }
 
    template <typename Integer>
-   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>&)
+   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>& equations)
    {
-      return initializationOnMaster(manager, matrix, maps, known_output, {}, "Vertices / Rays");
+      // The equations are used asynchronously, a temporary would not live long enough.
+      return initializationOnMaster(manager, matrix, maps, known_output, equations, "Vertices / Rays");
    }
 
    template <typename Integer, typename TagType>
-- 
2.43.0


From d94c9bbb96936f8b67bba645b3729eb68a6273eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 13/31] fix: options of the form -s=<arg> swallowed the file
 name

---
 src/input_detection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index dad421b..e5eac4c 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -126,8 +126,9 @@ namespace
 {
    bool requiresParameter(char* argument) noexcept
    {
-      return (std::strcmp(argument, "-c") != 0 && // --check
-              std::strcmp(argument, "-f") != 0);  // --filter
+      return (std::strcmp(argument, "-c") != 0 &&       // --check
+              std::strcmp(argument, "-f") != 0 &&       // --filter
+              std::strchr(argument, '=') == nullptr);   // argument is of the form "-s=<arg>"
    }
 
    std::set<Keyword> keywords(const PositionGuardedFile& pg)
-- 
2.43.0


From f8f1834abf86dff5b3575c84d43114e03c705cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:31 +0000
Subject: [PATCH 14/31] fix: unknown sorting arguments were read beyond their
 end and accepted

---
 src/input_detection.cpp | 60 +++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index e5eac4c..88c05a8 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -166,56 +166,50 @@ namespace
       return words;
    }
 
-   bool ascending(char* argument) noexcept
+   bool ascending(const char* argument)
    {
-      return (std::strncmp(argument, "desc", 4) != 0 &&
-              std::strncmp(argument, "down", 4) != 0 &&
-              std::strncmp(argument, "dec", 3) != 0);
-   }
-
-   InputOrder inputOrderLexicographic(char* argument) noexcept
-   {
-      if ( std::strcmp(argument, "lex") == 0 || std::strcmp(argument, "lexicographic") == 0 )
+      if ( std::strncmp(argument, "asc", 3) == 0 || std::strcmp(argument, "up") == 0 )
       {
-         return InputOrder::LexicographicAscending;
+         return true;
       }
-      const auto offset = (std::strncmp(argument, "lex_", 4) == 0) ? 4 : 14;
-      if ( ascending(argument + offset) )
+      if ( std::strncmp(argument, "desc", 4) == 0 || std::strncmp(argument, "down", 4) == 0 || std::strncmp(argument, "dec", 3) == 0 )
       {
-         return InputOrder::LexicographicAscending;
-      }
-      else
-      {
-         return InputOrder::LexicographicDescending;
+         return false;
       }
+      throw std::invalid_argument("Expected an argument to option \"--sorting\".\n");
    }
 
-   InputOrder inputOrderNonZeroEntries(char* argument) noexcept
+   /// Returns the part of the argument behind one of the prefixes, or nullptr.
+   const char* suffix(const char* argument, const char* short_prefix, const char* long_prefix) noexcept
    {
-      if ( std::strcmp(argument, "nz") == 0 || std::strcmp(argument, "nonzero") == 0 )
-      {
-         return InputOrder::NonZeroEntriesAscending;
-      }
-      const int offset = (std::strncmp(argument, "nz_", 3) == 0) ? 3 : 8;
-      if ( ascending(argument + offset) )
+      for ( const auto prefix : {long_prefix, short_prefix} )
       {
-         return InputOrder::NonZeroEntriesAscending;
-      }
-      else
-      {
-         return InputOrder::NonZeroEntriesDescending;
+         const auto length = std::strlen(prefix);
+         if ( std::strncmp(argument, prefix, length) == 0 )
+         {
+            return argument + length;
+         }
       }
+      return nullptr;
    }
 
    InputOrder inputOrder(char* argument)
    {
-      if ( std::strncmp(argument, "lex", 3) == 0 )
+      if ( std::strcmp(argument, "lex") == 0 || std::strcmp(argument, "lexicographic") == 0 )
       {
-         return inputOrderLexicographic(argument);
+         return InputOrder::LexicographicAscending;
+      }
+      if ( const auto direction = suffix(argument, "lex_", "lexicographic_") )
+      {
+         return ascending(direction) ? InputOrder::LexicographicAscending : InputOrder::LexicographicDescending;
+      }
+      if ( std::strcmp(argument, "nz") == 0 || std::strcmp(argument, "nonzero") == 0 )
+      {
+         return InputOrder::NonZeroEntriesAscending;
       }
-      if ( std::strncmp(argument, "n", 1) == 0 )
+      if ( const auto direction = suffix(argument, "nz_", "nonzero_") )
       {
-         return inputOrderNonZeroEntries(argument);
+         return ascending(direction) ? InputOrder::NonZeroEntriesAscending : InputOrder::NonZeroEntriesDescending;
       }
       if ( std::strcmp(argument, "rev") == 0 || std::strcmp(argument, "reverse") == 0 )
       {
-- 
2.43.0


From 0cb8935b46b7bd2e950eddab9c2f7708aba134ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:32 +0000
Subject: [PATCH 15/31] fix: invalid options terminated the program abnormally

---
 src/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 7a911d8..0696599 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -4,6 +4,7 @@
 // License: CC BY-NC 4.0 http://creativecommons.org/licenses/by-nc/4.0/legalcode //
 //-------------------------------------------------------------------------------//
 
+#include <exception>
 #include <iostream>
 
 #include "application_name.h"
@@ -22,6 +23,7 @@ namespace
 }
 
 int main(int argc, char** argv)
+try
 {
    const auto mode = detectOperationMode(argc, argv);
    switch ( mode )
@@ -56,6 +58,11 @@ int main(int argc, char** argv)
       }
    }
 }
+catch ( const std::exception& e )
+{
+   std::cerr << "Exception caught: " << e.what() << '\n';
+   return 1;
+}
 
 namespace
 {
-- 
2.43.0


From 2db443a453945d7bdd05aab720c29001ffde9cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 16/31] fix: help on the options for known data under the names
 these options have

---
 src/help.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/help.cpp b/src/help.cpp
index 4e4bed1..99bac45 100644
--- a/src/help.cpp
+++ b/src/help.cpp
@@ -197,7 +197,8 @@ namespace
       {
          printHelpCommandIntegerType();
       }
-      else if ( command == "k" || command == "-k" || command == "known_facets" || command == "--known_facets" || command == "known_vertices" || command == "--known_vertices" || command == "known_data" || command == "--known_data" )
+      else if ( command == "k" || command == "-k" || command == "known_facets" || command == "--known_facets" || command == "known_vertices" || command == "--known_vertices" || command == "known_data" || command == "--known_data" ||
+                command == "known-facets" || command == "--known-facets" || command == "known-vertices" || command == "--known-vertices" || command == "known-data" || command == "--known-data" )
       {
          printHelpCommandKnownData();
       }
@@ -213,7 +214,7 @@ namespace
       {
          printHelpCommandThreads();
       }
-      else if ( command == "v" || command == "-v" || command == "version" || command == "-version" || command == "--version" )
+      else if ( command == "v" || command == "-v" || command == "--v" || command == "version" || command == "-version" || command == "--version" )
       {
          printHelpCommandVersion();
       }
-- 
2.43.0


From e9356c238c840ba36f3e04bfcbe94d3bc1b67141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 17/31] fix: a moved delayed action was executed twice

---
 src/delayed_action.h   |  4 ++--
 src/delayed_action.tpp | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/delayed_action.h b/src/delayed_action.h
index d73c43a..9e4f882 100644
--- a/src/delayed_action.h
+++ b/src/delayed_action.h
@@ -42,8 +42,8 @@ namespace panda
          ~DelayedAction();
          /// Deleted copy constructor.
          DelayedAction(const DelayedAction&) = delete;
-         /// Default move constructor.
-         DelayedAction(DelayedAction&&) = default;
+         /// Move constructor. The action is left to the new object.
+         DelayedAction(DelayedAction&&);
          /// If the delayed action is dismissed, the action will not be performed
          /// no matter how the scope is exited.
          void dismiss() noexcept;
diff --git a/src/delayed_action.tpp b/src/delayed_action.tpp
index e98d551..e3d3d70 100644
--- a/src/delayed_action.tpp
+++ b/src/delayed_action.tpp
@@ -38,6 +38,17 @@ panda::DelayedAction<Runnable>::DelayedAction(Runnable&& runnable_, std::chrono:
 {
 }
 
+template <typename Runnable>
+panda::DelayedAction<Runnable>::DelayedAction(DelayedAction&& other)
+:
+   dismissed(other.dismissed),
+   runnable(std::forward<Runnable>(other.runnable)),
+   start(other.start),
+   minimum_waiting_time(other.minimum_waiting_time)
+{
+   other.dismissed = true;
+}
+
 template <typename Runnable>
 panda::DelayedAction<Runnable>::~DelayedAction()
 {
-- 
2.43.0


From d9447f558e9d9c100e4a3c65c10bfce817238464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 18/31] fix: malformed vertex lines were truncated, altered or
 never left behind

---
 src/input_vertex.cpp | 83 ++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 34 deletions(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 0fe3c01..6411cbf 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -6,11 +6,14 @@
 
 #include "input_vertex.h"
 
-#include <cassert>
+#include <cstdint>
+#include <cstdlib>
+#include <limits>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 
-#include "algorithm_row_operations.h"
+#include "algorithm_integer_operations.h"
 #include "input_common.h"
 #include "input_keywords.h"
 #include "istream_peek_line.h"
@@ -48,10 +51,6 @@ ConicalHull<int> panda::input::implementation::verticesConical(std::istream& str
          ray.back() = 0;
          cone.push_back(ray);
       }
-      else
-      {
-         stream.clear();
-      }
    }
    if ( stream && isKeywordEnd(firstWord(peekLine(stream))) )
    {
@@ -110,52 +109,68 @@ ConvexHull<int> panda::input::implementation::vertices(std::istream& stream)
 namespace
 {
    using namespace input;
+
+   /// Reads an integer. Throws if there is none (or if it does not fit the type).
+   int integer(std::istream& stream, const std::string& id)
+   {
+      int value;
+      const bool is_integer = static_cast<bool>(stream >> value);
+      if ( !is_integer || !(isEndOfFile(stream) || isWhitespace(stream) || stream.peek() == '/') )
+      {
+         errorWithLineInformation<std::invalid_argument>("Non-integral token in vertex / ray", id);
+      }
+      return value;
+   }
+
+   /// Throws if the value does not fit the type.
+   int checkedInteger(const std::int64_t value, const std::string& id)
+   {
+      if ( value < std::numeric_limits<int>::min() || value > std::numeric_limits<int>::max() )
+      {
+         errorWithLineInformation<std::invalid_argument>("Coordinates of vertex / ray are too large", id);
+      }
+      return static_cast<int>(value);
+   }
+
    Row<int> vertex(std::istream& stream)
    {
-      skipWhitespace(stream);
-      const auto id = isIdentifier(stream) ? identifier(stream) : "";
-      skipWhitespace(stream);
+      std::string text;
+      std::getline(stream, text);
+      std::istringstream line(text);
+      skipWhitespace(line);
+      const auto id = isIdentifier(line) ? identifier(line) : "";
       Row<int> numerator;
       Row<int> denominator;
-      for ( int tmp; stream >> tmp; )
+      for ( skipWhitespace(line); line && !isEndOfFile(line); skipWhitespace(line) )
       {
-         numerator.push_back(tmp);
-         skipWhitespace(stream);
-         if ( stream.peek() == '/' )
+         numerator.push_back(integer(line, id));
+         denominator.push_back(1);
+         skipWhitespace(line);
+         if ( !isEndOfFile(line) && line.peek() == '/' )
          {
-            stream.get(); // consume division operator
-            stream >> tmp;
-            if ( tmp == 0 )
+            line.get(); // consume division operator
+            denominator.back() = integer(line, id);
+            if ( denominator.back() == 0 )
             {
                errorWithLineInformation<std::invalid_argument>("Division by zero", id);
             }
-            denominator.push_back(tmp);
-         }
-         else
-         {
-            denominator.push_back(1);
-         }
-         skipWhitespace(stream);
-         if ( stream.peek() == '\n' )
-         {
-            break;
          }
       }
-      assert( numerator.size() == denominator.size() );
       if ( numerator.empty() )
       {
          return numerator;
       }
-      const auto lcm_value = algorithm::lcm(denominator);
-      if ( lcm_value > 0 )
+      int lcm_value = 1;
+      for ( const auto& value : denominator )
       {
-         for ( std::size_t i = 0; i < numerator.size(); ++i )
-         {
-            numerator[i] *= lcm_value / denominator[i];
-         }
+         const std::int64_t gcd_value = algorithm::gcd(lcm_value, value);
+         lcm_value = checkedInteger(lcm_value / gcd_value * std::abs(static_cast<std::int64_t>(value)), id);
+      }
+      for ( std::size_t i = 0; i < numerator.size(); ++i )
+      {
+         numerator[i] = checkedInteger(numerator[i] * (static_cast<std::int64_t>(lcm_value) / denominator[i]), id);
       }
       numerator.push_back(lcm_value);
       return numerator;
    }
 }
-
-- 
2.43.0


From b770389bb9102234d400a96db5f342e803d3ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 19/31] fix: variables on the right hand side, dangling signs
 and malformed numbers in constraints

---
 src/input_common.cpp                     |  5 +++--
 src/input_constraint_named_variables.cpp | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 7262f7d..fa949d0 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -7,6 +7,7 @@
 #include "input_common.h"
 
 #include <algorithm>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 
@@ -245,9 +246,9 @@ int panda::input::toInt(const std::string& string)
    }
    std::istringstream stream(string);
    int result;
-   if ( !(stream >> result) )
+   if ( !(stream >> result) || !isEndOfFile(stream) || result < -std::numeric_limits<int>::max() )
    {
-      throw std::invalid_argument("toInt: Argument is not an integer.");
+      throw std::invalid_argument("toInt: Argument is not an integer (of absolute value at most " + std::to_string(std::numeric_limits<int>::max()) + ").");
    }
    return result;
 }
diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 7992977..84a1503 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -103,7 +103,11 @@ namespace
          if ( token == "+" || token == "-" )
          {
             bool is_plus = token == "+";
-            stream >> token;
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || isEndOfFile(stream) || !(stream >> token) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
+            }
             std::tie(index, coefficient) = term(token, names, id);
             if ( coefficient < 0 )
             {
@@ -118,6 +122,10 @@ namespace
          {
             std::tie(index, coefficient) = term(token, names, id);
          }
+         if ( relation != RelationOperator::Undecided && index + 1 < ieq.size() )
+         {
+            errorWithLineInformation<std::invalid_argument>("No variables are allowed on the right hand side", id);
+         }
          if ( ieq[index] != 0 && index + 1 < ieq.size() )
          {
             errorWithLineInformation<std::invalid_argument>("Multiple terms for variable \"" + names[index] + "\"", id);
@@ -125,10 +133,7 @@ namespace
          ieq[index] = coefficient;
          if ( has_rhs )
          {
-            const std::string message = ( index + 1 < ieq.size() )
-                                        ? "No variables are allowed on the right hand side"
-                                        : "Only one integer is allowed on the right hand side";
-            errorWithLineInformation<std::invalid_argument>(message, id);
+            errorWithLineInformation<std::invalid_argument>("Only one integer is allowed on the right hand side", id);
          }
          if ( index + 1 == ieq.size() )
          {
-- 
2.43.0


From dba9b094f332b174216fc6153c994263fcfc4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 20/31] fix: decide per line whether a constraint refers to
 names, and find names with a common prefix

---
 src/input_common.cpp                       |  2 +-
 src/input_constraint.cpp                   | 10 +++++++++-
 src/input_constraint_unnamed_variables.cpp |  3 ++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index fa949d0..5c6fe41 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -214,7 +214,7 @@ bool panda::input::containsNames(const Names& names, std::istream& stream)
          const auto character = static_cast<char>(stream.get());
          word.append(1, character);
          position = std::find_if(names.cbegin(), names.cend(), [&] (const Name& name) { return word.size() <= name.size() && name.substr(0, word.size()) == word; });
-         if ( position != names.cend() && *position == word ) // match!
+         if ( std::find(position, names.cend(), word) != names.cend() ) // match!
          {
             return true;
          }
diff --git a/src/input_constraint.cpp b/src/input_constraint.cpp
index 89d4190..e01e0ba 100644
--- a/src/input_constraint.cpp
+++ b/src/input_constraint.cpp
@@ -8,6 +8,7 @@
 #include "input_constraint.h"
 #undef COMPILE_TEMPLATE_INPUT_CONSTRAINT
 
+#include <sstream>
 #include <stdexcept>
 #include <string>
 
@@ -95,7 +96,14 @@ namespace
    template <ConstraintType type>
    Row<int> potentiallyNamedConstraint(std::istream& stream, const Names& names)
    {
-      if ( names.empty() || !input::containsNames(names, stream) )
+      // Only the current line matters (without its identifier): names may occur later on in the file, e.g. in maps.
+      std::istringstream line(peekLine(stream));
+      input::skipWhitespace(line);
+      if ( input::isIdentifier(line) )
+      {
+         input::identifier(line);
+      }
+      if ( names.empty() || !input::containsNames(names, line) )
       {
          return input::implementation::constraint<type>(stream);
       }
diff --git a/src/input_constraint_unnamed_variables.cpp b/src/input_constraint_unnamed_variables.cpp
index 92beebc..f0156be 100644
--- a/src/input_constraint_unnamed_variables.cpp
+++ b/src/input_constraint_unnamed_variables.cpp
@@ -6,6 +6,7 @@
 
 #include "input_constraint_unnamed_variables.h"
 
+#include <limits>
 #include <stdexcept>
 
 #include "input_common.h"
@@ -65,7 +66,7 @@ namespace
          else
          {
             int coefficient;
-            if ( !(stream >> coefficient) )
+            if ( !(stream >> coefficient) || coefficient < -std::numeric_limits<int>::max() )
             {
                errorWithLineInformation<std::invalid_argument>("Non-integral token in inequality", id);
             }
-- 
2.43.0


From 5fbb668ed71c78b3a83ab46f16b160e22f160484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 21/31] fix: maps without names, with a wrong number of images
 or with dangling signs were accepted or never left behind

---
 src/input_map.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index df841bf..b8f412e 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -30,6 +30,10 @@ Maps panda::input::implementation::maps(std::istream& stream, const Names& names
    {
       throw std::invalid_argument("Cannot read maps: file is at an invalid position.");
    }
+   if ( names.empty() )
+   {
+      throw std::invalid_argument("Maps require names, which must be declared before the maps.");
+   }
    while ( stream && !isKeyword(trimWhitespace(peekLine(stream))) )
    {
       if ( trimWhitespace(peekLine(stream)).empty() )
@@ -104,10 +108,16 @@ namespace
       std::size_t position = 0;
       while ( position != std::string::npos && position < token.size() )
       {
+         const auto start = position;
          const auto factor = extractFactor(token, position);
+         const auto end = position;
          const auto variable = extractName(token, position);
          if ( variable.empty() )
          {
+            if ( token.find_first_of("0123456789", start) >= end )
+            {
+               throw std::invalid_argument("In \"" + token + "\" of a map, there is a sign without a term.");
+            }
             // not referring to a name => index == number of names
             result.push_back(std::make_pair(names.size(), factor));
          }
@@ -132,13 +142,21 @@ namespace
       skipWhitespace(stream);
       std::size_t index{0};
       // tokenize (read std::strings from stream before the next line break)
-      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) && index < result.size() )
+      for ( ; stream && !isEndOfLine(stream) && !isEndOfFile(stream); skipWhitespace(stream) )
       {
          std::string token;
          stream >> token;
+         if ( index == result.size() )
+         {
+            throw std::invalid_argument("Too many images (expected one per name).");
+         }
          result[index] = image(token, names);
          ++index;
       }
+      if ( index < result.size() )
+      {
+         throw std::invalid_argument("Too few images (expected one per name).");
+      }
       return result;
    }
 }
-- 
2.43.0


From 444635a6df42732cbf7dcd41ad668ebe89156ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 22/31] fix: dimension fields were not recognised

---
 src/input_dimension.cpp | 22 ++++++++++++++++++----
 src/input_keywords.cpp  | 14 ++++++--------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/input_dimension.cpp b/src/input_dimension.cpp
index ac0773c..3a15707 100644
--- a/src/input_dimension.cpp
+++ b/src/input_dimension.cpp
@@ -6,19 +6,33 @@
 
 #include "input_dimension.h"
 
+#include <limits>
+#include <sstream>
 #include <stdexcept>
+#include <string>
+
+#include "input_common.h"
 
 using namespace panda;
 
 std::size_t panda::input::implementation::dimension(std::istream& stream)
 {
-   while ( stream && stream.peek() != '=' )
+   std::string text;
+   std::getline(stream, text);
+   std::istringstream line(text);
+   while ( line && line.peek() != '=' )
    {
-      stream.get();
+      line.get();
    }
-   stream.get(); // consume '='
+   line.get(); // consume '='
+   skipWhitespace(line);
    std::size_t dim;
-   if ( !(stream >> dim) )
+   if ( line.peek() == '-' || !(line >> dim) || dim == std::numeric_limits<std::size_t>::max() )
+   {
+      throw std::invalid_argument("Argument to field \"dimension\" is invalid.");
+   }
+   skipWhitespace(line);
+   if ( !isEndOfFile(line) )
    {
       throw std::invalid_argument("Argument to field \"dimension\" is invalid.");
    }
diff --git a/src/input_keywords.cpp b/src/input_keywords.cpp
index f686e25..7d1985e 100644
--- a/src/input_keywords.cpp
+++ b/src/input_keywords.cpp
@@ -107,14 +107,12 @@ bool panda::input::implementation::isKeywordReducedConvexHull(const std::string&
 
 bool panda::input::implementation::isKeywordDimension(const std::string& string) noexcept
 {
-   return (string == "DIM" ||
-           string == "DIM=" ||
-           string == "DIMENSION" ||
-           string == "DIMENSION=" ||
-           string == "Dim" ||
-           string == "Dim=" ||
-           string == "Dimension" ||
-           string == "Dimension=");
+   // The value is part of the line (e.g. "DIM=3" or "DIM = 3").
+   const auto field = trimWhitespace(string.substr(0, string.find('=')));
+   return (field == "DIM" ||
+           field == "DIMENSION" ||
+           field == "Dim" ||
+           field == "Dimension");
 }
 
 bool panda::input::implementation::isKeywordEquations(const std::string& string) noexcept
-- 
2.43.0


From 658a66f93679de3498b88d668751c2e5d49df576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 23/31] fix: rows of inconsistent length were read beyond their
 end

---
 src/input.cpp             | 47 +++++++++++++++++++++++++++++++++++++++
 src/input_consistency.cpp |  4 ++++
 2 files changed, 51 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index f510bdc..8d5624d 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -10,6 +10,7 @@
 #include <cassert>
 #include <cstring>
 #include <fstream>
+#include <functional>
 #include <limits>
 #include <stdexcept>
 #include <string>
@@ -43,6 +44,11 @@ namespace
    std::string getFilenameKnownVertices(int, char**);
    Inequalities<int> knownFacets(int, char**, const Names&);
    Vertices<int> knownVertices(int, char**);
+
+   /// Throws if any two rows differ in size, or if any row differs in size from any map.
+   void checkSizes(const Matrix<int>&, const Maps&);
+   /// Throws if any row of one matrix differs in size from any row of the other one.
+   void checkSizes(const Matrix<int>&, const Matrix<int>&);
 }
 
 namespace
@@ -50,6 +56,7 @@ namespace
    Vertices<int> readVerticesConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto conv = input::implementation::verticesConvex(file);
+      checkSizes(conv, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(conv, maps);
@@ -59,6 +66,7 @@ namespace
    Vertices<int> readVerticesReducedConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto conv = input::implementation::verticesConvex(file);
+      checkSizes(conv, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input vertices cannot be verified for reduced input.\n";
@@ -69,6 +77,7 @@ namespace
    Vertices<int> readVerticesConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto cone = input::implementation::verticesConical(file);
+      checkSizes(cone, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(cone, maps);
@@ -78,6 +87,7 @@ namespace
    Vertices<int> readVerticesReducedConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto cone = input::implementation::verticesConical(file);
+      checkSizes(cone, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input rays cannot be verified for reduced input.\n";
@@ -88,6 +98,7 @@ namespace
    Inequalities<int> readInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps)
    {
       const auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      checkSizes(inequalities, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
@@ -97,6 +108,7 @@ namespace
    Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
    {
       auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      checkSizes(inequalities, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input inequalities cannot be checked for reduced input.\n";
@@ -105,6 +117,8 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
+      checkSizes(equations, maps);
+      checkSizes(equations, inequalities);
       // Classes are determined modulo the equations, hence maps and inequalities are normalized with a reduced basis of these.
       auto basis = equations;
       for ( int i = 0; i < 2 && !basis.empty(); ++i )
@@ -182,6 +196,7 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    vertices.insert(vertices.end(), cone.cbegin(), cone.cend());
    vertices.insert(vertices.end(), conv.cbegin(), conv.cend());
    auto known_facets = knownFacets(argc, argv, names);
+   checkSizes(known_facets, vertices);
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfInequalities(vertices, known_facets);
@@ -239,6 +254,8 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       }
    }
    implementation::checkConsistency(inequalities, names, dimension);
+   checkSizes(inequalities, maps);
+   checkSizes(inequalities, equations);
    inequalities.reserve(inequalities.size() + 2 * equations.size());
    for ( const auto& equation : equations )
    {
@@ -249,6 +266,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
    auto known_vertices = knownVertices(argc, argv);
+   checkSizes(known_vertices, inequalities);
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfVertices(inequalities, known_vertices);
@@ -388,6 +406,35 @@ namespace
 
 namespace
 {
+   void checkSizes(const Matrix<int>& matrix, const Maps& maps)
+   {
+      checkSizes(matrix, matrix);
+      for ( const auto& map : maps )
+      {
+         for ( const auto& row : matrix )
+         {
+            if ( row.size() != map.size() )
+            {
+               throw std::invalid_argument("Invalid input data: Inconsistent dimensions (a map does not match the length of rows).");
+            }
+         }
+      }
+   }
+
+   void checkSizes(const Matrix<int>& first, const Matrix<int>& second)
+   {
+      for ( const auto& matrix : {std::cref(first), std::cref(second)} )
+      {
+         for ( const auto& row : matrix.get() )
+         {
+            if ( !first.empty() && row.size() != first.front().size() )
+            {
+               throw std::invalid_argument("Invalid input data: Inconsistent dimensions (rows differ in length).");
+            }
+         }
+      }
+   }
+
    void sort(int argc, char** argv, Matrix<int>& matrix)
    {
       const auto order = getInputOrder(argc, argv);
diff --git a/src/input_consistency.cpp b/src/input_consistency.cpp
index 699891a..f6c6b50 100644
--- a/src/input_consistency.cpp
+++ b/src/input_consistency.cpp
@@ -43,6 +43,10 @@ void panda::input::implementation::checkConsistency(const Inequalities<int>& ine
       throw std::invalid_argument("Invalid input data: No inequalities.");
    }
    const auto dim = inequalities.front().size();
+   if ( dim < 2 )
+   {
+      throw std::invalid_argument("Invalid input data: An inequality has no coefficients.");
+   }
    rangeDimensionCheck(inequalities, dim, "Invalid input data: Inconsistent dimensions (an inequality is invalid).");
    if ( !names.empty() && names.size() + 1 != dim )
    {
-- 
2.43.0


From 88c763efc602b5b6242c18c193f42e67c7340422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 24/31] fix: tokens after a form feed at the end of a line were
 read from the next line

---
 src/input_common.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 5c6fe41..d20cb5b 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -160,7 +160,7 @@ bool panda::input::isWhitespace(std::istream& stream)
       return false;
    }
    const auto c = stream.peek();
-   return c == ' ' || c == '\t' || c == '\r';
+   return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f';
 }
 
 void panda::input::skipEndOfLine(std::istream& stream)
@@ -190,8 +190,8 @@ void panda::input::skipWhitespace(std::istream& stream)
 
 std::string panda::input::trimWhitespace(std::string string)
 {
-   string.erase(0, string.find_first_not_of(" \t\r")); // erases leading whitespace
-   string.erase(string.find_last_not_of(" \t\r") + 1); // erases trailing whitespace
+   string.erase(0, string.find_first_not_of(" \t\r\v\f")); // erases leading whitespace
+   string.erase(string.find_last_not_of(" \t\r\v\f") + 1); // erases trailing whitespace
    return string;
 }
 
-- 
2.43.0


From 69efef13d6fcde265ef5e7500218afe44e202279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 25/31] fix: 'x <= + -' was accepted as a constraint

---
 src/input_constraint_named_variables.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 84a1503..491c322 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -51,6 +51,10 @@ namespace
       const auto factor = toInt(token.substr(0, end_of_factor));
       if ( end_of_factor == std::string::npos ) // this is the RHS (because there is no name).
       {
+         if ( token.find_first_of("0123456789") == std::string::npos )
+         {
+            errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
+         }
          // c.f. algorithm_inequality_operations.tpp: the rhs is stored negated.
          return std::make_pair(names.size(), -factor);
       }
-- 
2.43.0


From 2a31867219583215921c46fb5c28e72e57313bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:36 +0000
Subject: [PATCH 26/31] fix: results that do not fit the type they are printed
 with were truncated

---
 src/cast.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cast.cpp b/src/cast.cpp
index e8df187..bd9febe 100644
--- a/src/cast.cpp
+++ b/src/cast.cpp
@@ -9,6 +9,7 @@
 #undef COMPILE_TEMPLATE_CAST
 
 #include <cstddef>
+#include <stdexcept>
 
 using namespace panda;
 
@@ -32,6 +33,10 @@ Row<Integer> panda::cast(const Row<OriginalType>& input)
    for ( const auto& element : input )
    {
       output.push_back(Integer(element));
+      if ( OriginalType(output.back()) != element )
+      {
+         throw std::overflow_error("An integer does not fit the type it is converted to.");
+      }
    }
    return output;
 }
-- 
2.43.0


From 9b73d6420217f9d4645510a76a5292351f8e7c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:35 +0000
Subject: [PATCH 27/31] fix: maps that follow the rows in the file were not
 checked

---
 src/input.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index 8d5624d..73a7c2c 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -49,6 +49,9 @@ namespace
    void checkSizes(const Matrix<int>&, const Maps&);
    /// Throws if any row of one matrix differs in size from any row of the other one.
    void checkSizes(const Matrix<int>&, const Matrix<int>&);
+   /// Checks rows that were read before the maps (if the check is enabled).
+   void checkMaps(int, char**, const Vertices<int>&, const Maps&, tag::vertex);
+   void checkMaps(int, char**, const Inequalities<int>&, const Maps&, tag::facet);
 }
 
 namespace
@@ -166,6 +169,8 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
       else if ( implementation::isKeywordMaps(token) )
       {
          maps = implementation::maps(file, names);
+         checkMaps(argc, argv, conv, maps, tag::vertex{});
+         checkMaps(argc, argv, cone, maps, tag::vertex{});
       }
       else if ( implementation::isKeywordConvexHull(token) )
       {
@@ -235,6 +240,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       else if ( implementation::isKeywordMaps(token) )
       {
          maps = implementation::maps(file, names);
+         checkMaps(argc, argv, inequalities, maps, tag::facet{});
       }
       else if ( implementation::isKeywordEquations(token) )
       {
@@ -421,6 +427,24 @@ namespace
       }
    }
 
+   void checkMaps(int argc, char** argv, const Vertices<int>& vertices, const Maps& maps, tag::vertex)
+   {
+      checkSizes(vertices, maps);
+      if ( input::checkValidity(argc, argv) )
+      {
+         input::implementation::checkValidityOfVertexClasses(vertices, maps);
+      }
+   }
+
+   void checkMaps(int argc, char** argv, const Inequalities<int>& inequalities, const Maps& maps, tag::facet)
+   {
+      checkSizes(inequalities, maps);
+      if ( input::checkValidity(argc, argv) )
+      {
+         input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
+      }
+   }
+
    void checkSizes(const Matrix<int>& first, const Matrix<int>& second)
    {
       for ( const auto& matrix : {std::cref(first), std::cref(second)} )
-- 
2.43.0


From ab97267eb6713408329de29ba091b7f46e405d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 28/31] fix: check of maps rejected rows not in lowest terms
 and repeated rows

---
 src/input_validity.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 74b25e8..4b5fdaf 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -24,6 +24,8 @@ namespace
    bool inequalityIsValid(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfInequality(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfVertex(const Matrix<int>&, const Vertex<int>&, const std::size_t);
+   /// Returns the rows in lowest terms (as mapped rows are) and each of them once.
+   Matrix<int> distinctRows(Matrix<int>);
    void checkValidityInequalities(const Matrix<int>&, const Map&);
    void checkValidityVertices(const Matrix<int>&, const Map&);
 }
@@ -213,8 +215,20 @@ namespace
       }
    }
 
-   void checkValidityInequalities(const Matrix<int>& matrix, const Map& map)
+   Matrix<int> distinctRows(Matrix<int> matrix)
    {
+      for ( auto& row : matrix )
+      {
+         row = algorithm::normalize(row, Equations<int>{});
+      }
+      std::sort(matrix.begin(), matrix.end());
+      matrix.erase(std::unique(matrix.begin(), matrix.end()), matrix.end());
+      return matrix;
+   }
+
+   void checkValidityInequalities(const Matrix<int>& input_matrix, const Map& map)
+   {
+      const auto matrix = distinctRows(input_matrix);
       std::vector<std::size_t> indices(matrix.size());
       for ( std::size_t i = 0; i < matrix.size(); ++i )
       {
@@ -241,8 +255,9 @@ namespace
       }
    }
 
-   void checkValidityVertices(const Matrix<int>& matrix, const Map& map)
+   void checkValidityVertices(const Matrix<int>& input_matrix, const Map& map)
    {
+      const auto matrix = distinctRows(input_matrix);
       std::vector<std::size_t> indices(matrix.size());
       for ( std::size_t i = 0; i < matrix.size(); ++i )
       {
-- 
2.43.0


From f63b73c78fb259f6a361cb57fe5b7dd1146a5052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:22 +0000
Subject: [PATCH 29/31] fix: check of known facets accepted the face at
 infinity

---
 src/input_validity.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 4b5fdaf..af8e329 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -176,6 +176,13 @@ namespace
          stream << "The inequality " << inequality << " is a valid inequality, but does not define a facet, as it is a strict inequality.";
          throw std::invalid_argument(stream.str());
       }
+      const auto is_vertex = [](const Vertex<int>& row) { return row.back() != 0; };
+      if ( std::none_of(active.cbegin(), active.cend(), is_vertex) && std::any_of(matrix.cbegin(), matrix.cend(), is_vertex) )
+      {
+         std::stringstream stream;
+         stream << "The inequality " << inequality << " does not define a facet, as only rays satisfy it with equality.";
+         throw std::invalid_argument(stream.str());
+      }
       if ( algorithm::dimension(active) + 1 != dimension )
       {
          std::stringstream stream;
-- 
2.43.0


From 50429ca954f8ced497ff9f1425a5cd0b52340475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 30/31] fix: elimination crashed if all rows are zero

---
 src/algorithm_fourier_motzkin_elimination.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index dd41296..da6ddb7 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -96,6 +96,10 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationCone(Matrix<Integer>
    matrix = transpose(matrix);
    std::sort(equation_indices.rbegin(), equation_indices.rend());
    const auto equations = extractEquations(matrix, equation_indices);
+   if ( matrix.empty() ) // all rows of the input are zero, there is nothing to be bounded.
+   {
+      return matrix;
+   }
    const auto zero_columns = eliminateZeroColumns(matrix, input);
    assert( std::is_sorted(used_indices.cbegin(), used_indices.cend()) );
    Vertices<Integer> used;
@@ -126,6 +130,10 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationHeuristic(Matrix<Inte
    matrix = transpose(matrix);
    std::sort(equation_indices.rbegin(), equation_indices.rend());
    const auto equations = extractEquations(matrix, equation_indices);
+   if ( matrix.empty() ) // all rows of the input are zero, there is nothing to be bounded.
+   {
+      return matrix;
+   }
    const auto zero_columns = eliminateZeroColumns(matrix, input);
    assert( std::is_sorted(used_indices.cbegin(), used_indices.cend()) );
    Vertices<Integer> used;
-- 
2.43.0


From d7e83ffb9b728271f1ebd485219e00e1d9996787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:16 +0000
Subject: [PATCH 31/31] fix: rotation crashed if no vertex lies on the input
 row, e.g. an invalid known facet

---
 src/algorithm_rotation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index 3e048a5..1320b50 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -86,7 +86,10 @@ namespace
    Inequalities<Integer> getRidges(const Vertices<Integer>& vertices, const Facet<Integer>& facet)
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
-      assert( !vertices_on_facet.empty() );
+      if ( vertices_on_facet.empty() ) // not a face, e.g. an invalid known facet: there is no ridge to rotate around.
+      {
+         return {};
+      }
       return algorithm::fourierMotzkinEliminationCone(vertices_on_facet); // a ridge may be empty or lie at infinity.
    }
 
-- 
2.43.0

