// Rank, kernel, elimination, transpose and products of small matrices.
#include "vp.h"
#include <tuple>
#include "matrix.h"
#include "big_integer.h"
#include "safe_integer.h"
#include "algorithm_integer_operations.h"
#include "algorithm_row_operations.h"
#include "algorithm_matrix_operations.h"

using namespace panda;

namespace
{
   typedef std::vector<std::vector<int64_t>> M;
   template <typename T> T make(int64_t v) { return T(v); }
   template <> short make<short>(int64_t v) { return (short)v; }
   template <> int make<int>(int64_t v) { return (int)v; }
   // entries of larger matrices; every third row depends on the two before it
   int64_t large(int i, int j, long shift)
   {
      if ( i % 4 == 3 ) return large(i - 1, j, shift) - large(i - 2, j, shift);
      const long k = (i * i * 3 + j * 5 + i * j * 7 + shift * (i + 2 * j)) % 11;
      return k < 5 ? 0 : k < 7 ? 1 : k < 9 ? -1 : k == 9 ? 2 : -2;
   }
   // a fixed pattern in which the entries named by the parameters s0, s1, ... are symbolic
   M input(int rows, int cols)
   {
      static const int pattern[] = {1, 0, 2, -1, 0, 0, 3, 1, -2, 0, 1, 1, 4, -3, 0, 2, 1, -1, 0, 5, 0, 1, 0, -4, 2};
      const long m = vp_param("m", 2), shift = vp_param("shift", 0);
      M a(rows, std::vector<int64_t>(cols));
      for ( int i = 0; i < rows; ++i ) for ( int j = 0; j < cols; ++j ) a[i][j] = vp_param("big", 0) ? large(i, j, shift) : pattern[(shift + 7 * i + j) % 25];
      const long dup = vp_param("dup", -1);   // row `dup` repeats row 0 twice over
      if ( dup >= 0 ) for ( int j = 0; j < cols; ++j ) a[dup][j] = 2 * a[0][j];
      const long zero = vp_param("zero", -1); // row `zero` is zero
      if ( zero >= 0 ) for ( int j = 0; j < cols; ++j ) a[zero][j] = 0;
      for ( int k = 0; k < 12; ++k )
      {
         const long at = vp_param(("s" + vp::num(k)).c_str(), -1);
         if ( at >= 0 ) a[at / cols][at % cols] = vp::in("x", k, -m, m);
      }
      return a;
   }
   template <typename T> Matrix<T> matrix(const M& a)
   {
      Matrix<T> r;
      for ( const auto& x : a ) { Row<T> y; for ( auto e : x ) y.push_back(make<T>(e)); r.push_back(y); }
      return r;
   }
   int64_t det(const M& a, const std::vector<int>& rs, const std::vector<int>& cs)
   {
      const int n = (int)rs.size();
      if ( n == 0 ) return 1;
      if ( n == 1 ) return a[rs[0]][cs[0]];
      int64_t d = 0;
      const std::vector<int> r2(rs.begin() + 1, rs.end());
      for ( int j = 0; j < n; ++j )
      {
         std::vector<int> c2;
         for ( int k = 0; k < n; ++k ) if ( k != j ) c2.push_back(cs[k]);
         d += (j % 2 ? -1 : 1) * a[rs[0]][cs[j]] * det(a, r2, c2);
      }
      return d;
   }
   std::vector<std::vector<int>> subsets(int n, int k)
   {
      std::vector<std::vector<int>> r;
      for ( int s = 0; s < (1 << n); ++s ) if ( __builtin_popcount(s) == k ) { std::vector<int> x; for ( int i = 0; i < n; ++i ) if ( s >> i & 1 ) x.push_back(i); r.push_back(x); }
      return r;
   }
   // the rank, by elimination with exact rationals scaled to integers
   int rank(M a)
   {
      int r = 0;
      const int rows = (int)a.size(), cols = a.empty() ? 0 : (int)a[0].size();
      for ( int c = 0; c < cols && r < rows; ++c )
      {
         int p = r;
         while ( p < rows && a[p][c] == 0 ) ++p;
         if ( p == rows ) continue;
         std::swap(a[p], a[r]);
         for ( int i = r + 1; i < rows; ++i )
         {
            const int64_t x = a[i][c], y = a[r][c];
            int64_t g = 0;
            for ( int j = 0; j < cols; ++j )
            {
               a[i][j] = a[i][j] * y - a[r][j] * x;
               int64_t u = a[i][j] < 0 ? -a[i][j] : a[i][j];
               while ( u ) { const int64_t t = g % u; g = u; u = t; }
            }
            for ( int j = 0; j < cols && g > 1; ++j ) a[i][j] /= g;
         }
         ++r;
      }
      return r;
   }
   // some minor of size k is not zero
   int minors(const M& a, int k)
   {
      if ( k == 0 ) return 1;
      if ( vp_param("big", 0) )   // for every value of the entries on its own
      {
         M b(a);
         for ( auto& x : b ) for ( auto& y : x ) y = vp_concrete(y);
         return rank(b) >= k;
      }
      const int rows = (int)a.size(), cols = a.empty() ? 0 : (int)a[0].size();
      if ( k > rows || k > cols ) return 0;
      int any = 0;
      for ( const auto& r : subsets(rows, k) ) for ( const auto& c : subsets(cols, k) ) any = vp_or(any, det(a, r, c) != 0);
      return any;
   }
   int rankIs(const M& a, int k) { return vp_and(minors(a, k), minors(a, k + 1) == 0); }
   template <typename T> int64_t value(const T& x) { return (int64_t)(int)x; }
   template <> int64_t value<int64_t>(const int64_t& x) { return x; }
   template <typename T> M back(const Matrix<T>& a) { M r; for ( const auto& x : a ) { std::vector<int64_t> y; for ( const auto& e : x ) y.push_back(value<T>(e)); r.push_back(y); } return r; }

   template <typename T>
   void run()
   {
      vp_opaque_numbers = 1;
      const int rows = (int)vp_param("rows", 3), cols = (int)vp_param("cols", 3);
      const M a = input(rows, cols);
      const Matrix<T> A = matrix<T>(a);
      vp_reach("op");
      switch ( vp_param("op", 0) )
      {
         case 0:
         {
            const size_t d = algorithm::dimension(A);
            vp_note("dimension", (long)d);
            vp_assert(rankIs(a, (int)d), "dimension is the rank");
            break;
         }
         case 1:
         {
            const Equations<T> eq = algorithm::extractEquations(A);
            const M e = back<T>(eq);
            vp_note("equations", (long)e.size());
            vp_assert(rankIs(a, cols - (int)e.size()), "as many equations as the codimension");
            int holds = 1, lowest = 1;
            for ( const auto& q : e )
            {
               vp_assert((int)q.size() == cols, "length of an equation");
               for ( const auto& p : a ) { int64_t s = 0; for ( int j = 0; j < cols; ++j ) s += p[j] * q[j]; holds = vp_and(holds, s == 0); }
            }
            for ( const auto& q : e )
               for ( int d : {2, 3, 5, 7, 11, 13} )
               {
                  int all = 1;
                  for ( const auto& x : q ) all = vp_and(all, x % d == 0);
                  lowest = vp_and(lowest, all == 0);
               }
            vp_assert(lowest, "the equations are in lowest terms");
            vp_assert(holds, "the equations hold for every row");
            vp_assert(minors(e, (int)e.size()), "the equations are independent");
            break;
         }
         case 2:
         {
            Matrix<T> E = A;
            algorithm::appendNegativeIdentityMatrix(E);
            M before = back<T>(E);
            vp_assert((int)E.size() == rows + cols, "identity appended");
            int ok = 1;
            for ( int i = 0; i < cols; ++i ) for ( int j = 0; j < cols; ++j ) ok = vp_and(ok, before[rows + i][j] == (i == j ? -1 : 0));
            vp_assert(ok, "negative identity");
            Indices L, U;
            std::tie(L, U) = algorithm::gaussianElimination(E);
            const M after = back<T>(E);
            // the columns span the same space: each new column is (top, bottom) with top = -A * bottom, and the bottom part is invertible
            int kernel = 1;
            for ( int j = 0; j < cols; ++j )
               for ( int i = 0; i < rows; ++i )
               {
                  int64_t s = after[i][j];
                  for ( int k = 0; k < cols; ++k ) s += a[i][k] * after[rows + k][j];
                  kernel = vp_and(kernel, s == 0);
               }
            vp_assert(kernel, "column operations only");
            const M bottom(after.begin() + rows, after.end());
            vp_assert(minors(bottom, cols), "no column is lost");
            vp_assert((int)(L.size() + U.size()) == cols, "a pivot for each column");
            vp_assert(rankIs(a, (int)U.size()), "pivot rows: the rank");
            M sub;
            for ( auto r : U ) { vp_assert(r < (size_t)rows, "pivot row"); sub.push_back(a[r]); }
            if ( !sub.empty() ) vp_assert(minors(sub, (int)sub.size()), "the pivot rows are independent");
            int zero = 1;
            for ( auto c : L ) { vp_assert(c < (size_t)cols, "pivot column"); for ( int i = 0; i < rows; ++i ) zero = vp_and(zero, after[i][c] == 0); }
            vp_assert(zero, "the remaining columns are zero on the input rows");
            break;
         }
         case 3:
         {
            const Matrix<T> B = algorithm::transpose(A);
            vp_assert((int)B.size() == cols, "transposed rows");
            int ok = 1;
            for ( int j = 0; j < cols; ++j ) { vp_assert((int)B[j].size() == rows, "transposed columns"); for ( int i = 0; i < rows; ++i ) ok = vp_and(ok, B[j][i] == A[i][j]); }
            vp_assert(ok, "transposed entries");
            vp_assert(algorithm::transpose(B) == A, "transposing twice");
            Row<T> v;
            std::vector<int64_t> w;
            for ( int j = 0; j < cols; ++j ) { w.push_back(vp_param("big", 0) && j != cols - 1 && j != 1 ? (int64_t)(j * 5 % 7 - 3) : vp::in("v", j, -3, 3)); v.push_back(make<T>(w.back())); }
            const Row<T> p = A * v;
            vp_assert((int)p.size() == rows, "length of the product");
            for ( int i = 0; i < rows; ++i ) { int64_t s = 0; for ( int j = 0; j < cols; ++j ) s += a[i][j] * w[j]; vp_assert(p[i] == make<T>(s), "matrix-vector product"); }
            break;
         }
      }
   }
}
VP_HARNESS(p21_ops)
{
   switch ( vp_param("type", 0) )
   {
      case 0: run<int>(); break;
      case 1: run<short>(); break;
      case 2: run<int64_t>(); break;
      case 3: run<SafeInteger>(); break;
      case 4: run<BigInteger>(); break;
   }
}
