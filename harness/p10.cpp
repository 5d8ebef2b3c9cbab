// Row arithmetic and normal forms.
#include "vp.h"
#include "big_integer.h"
#include "safe_integer.h"
#include "matrix.h"
#include "algorithm_integer_operations.h"
#include "algorithm_inequality_operations.h"
#include "algorithm_row_operations.h"
#include "algorithm_matrix_operations.h"
#include <limits>

using namespace panda;
typedef __int128 i128;

namespace
{
   template <typename T> T make(int64_t v) { return T(v); }
   template <> short make<short>(int64_t v) { return (short)v; }
   template <> int make<int>(int64_t v) { return (int)v; }
   struct R { std::vector<int64_t> v; };
   R input(const char* n, int size, long m)
   {
      R r;
      // only the entries first, ..., first + free - 1 are symbolic (default: all)
      const long first = vp_param("first", 0), free = vp_param("free", size);
      for ( int i = 0; i < size; ++i ) r.v.push_back(i >= first && i < first + free ? vp::in(n, i, -m, m) : 6 * ((i * 5 + n[0]) % 3 - 1));
      return r;
   }
   template <typename T> Row<T> row(const R& r) { Row<T> x; for ( auto e : r.v ) x.push_back(make<T>(e)); return x; }
   template <typename T> int same(const Row<T>& x, const std::vector<int64_t>& y)
   {
      if ( x.size() != y.size() ) return 0;
      int ok = 1;
      for ( size_t i = 0; i < y.size(); ++i ) ok = vp_and(ok, x[i] == make<T>(y[i]));
      return ok;
   }
   int64_t refGcd(int64_t a, int64_t b)
   {
      if ( a < 0 ) a = -a;
      if ( b < 0 ) b = -b;
      while ( b != 0 ) { const int64_t r = a % b; a = b; b = r; }
      return a;
   }
   template <typename F> std::vector<int64_t> zip(const R& a, const R& b, F f) { std::vector<int64_t> r; for ( size_t i = 0; i < a.v.size(); ++i ) r.push_back(f(a.v[i], b.v[i])); return r; }

   template <typename T>
   void ops()
   {
      vp_opaque_numbers = 1;
      const int n = (int)vp_param("n", 2);
      const long m = vp_param("m", 3), op = vp_param("op", 0);
      const R a = input("a", n, m);
      const Row<T> A = row<T>(a);
      auto in2 = [&]() { return input("b", n, m); };
      vp_reach("op");
      switch ( op )
      {
         case 0: { const R b = in2(); const Row<T> B = row<T>(b); auto s = zip(a, b, [](int64_t x, int64_t y) { return x + y; }); vp_assert(same<T>(A + B, s), "sum"); Row<T> x = A; x += B; vp_assert(same<T>(x, s), "sum in place"); break; }
         case 1: { const R b = in2(); const Row<T> B = row<T>(b); auto s = zip(a, b, [](int64_t x, int64_t y) { return x - y; }); vp_assert(same<T>(A - B, s), "difference"); Row<T> x = A; x -= B; vp_assert(same<T>(x, s), "difference in place"); break; }
         case 2:
         {
            const int64_t k = vp_sym("k", -m, m);
            auto s = zip(a, a, [k](int64_t x, int64_t) { return x * k; });
            vp_assert(same<T>(A * make<T>(k), s), "row * factor"); vp_assert(same<T>(make<T>(k) * A, s), "factor * row");
            Row<T> x = A; x *= make<T>(k); vp_assert(same<T>(x, s), "product in place");
            break;
         }
         case 3:
         {
            const int64_t k = vp_sym("k", -m, m);
            bool thrown = false;
            Row<T> q;
            try { q = A / make<T>(k); } catch ( const std::exception& ) { thrown = true; }
            vp_assert(thrown == (k == 0), "dividing by zero throws");
            if ( k != 0 ) vp_assert(same<T>(q, zip(a, a, [k](int64_t x, int64_t) { return x / k; })), "entries divided, truncated");
            break;
         }
         case 4:
         {
            const R b = in2();
            int64_t s = 0;
            for ( int i = 0; i < n; ++i ) s += a.v[i] * b.v[i];
            const Row<T> B = row<T>(b);
            const T p = A * B;
            vp_assert(p == make<T>(s), "scalar product");
            vp_assert(algorithm::distance(A, B) == make<T>(-s), "distance of a vertex");
            if ( n > 0 ) vp_assert(algorithm::rhs(A) == make<T>(-a.v.back()), "right hand side");
            break;
         }
         case 5:  // normal form
         {
            int64_t g = 0;
            for ( auto e : a.v ) g = refGcd(g, e);
            const Row<T> N = algorithm::normalize(A, Equations<T>());
            vp_assert(same<T>(N, zip(a, a, [g](int64_t x, int64_t) { return g == 0 ? x : x / g; })), "divided by the gcd, direction kept");
            vp_assert(algorithm::normalize(N, Equations<T>()) == N, "idempotent");
            const int64_t k = vp_sym("k", 1, 5);
            vp_assert(algorithm::normalize(Row<T>(A * make<T>(k)), Equations<T>()) == N, "positive multiples have the same normal form");
            break;
         }
         case 6: // nearest and furthest vertex
         {
            const int c = (int)vp_param("count", 3);
            Vertices<T> vs;
            std::vector<int64_t> d;
            for ( int i = 0; i < c; ++i )
            {
               const R v = input(("v" + vp::num(i) + "_").c_str(), n, m);
               int64_t s = 0;
               for ( int j = 0; j < n; ++j ) s -= a.v[j] * v.v[j];
               vs.push_back(row<T>(v));
               d.push_back(s);
            }
            for ( int far = 0; far < 2; ++far )
            {
               const Vertex<T> x = far ? algorithm::furthestVertex(vs, A) : algorithm::nearestVertex(vs, A);
               const T dx = algorithm::distance(A, x);
               int isIn = 0, extreme = 1;
               for ( int i = 0; i < c; ++i )
               {
                  isIn = vp_or(isIn, x == vs[i]);
                  extreme = vp_and(extreme, far ? dx >= make<T>(d[i]) : dx <= make<T>(d[i]));
               }
               vp_assert(isIn, "one of the vertices"); vp_assert(extreme, far ? "no vertex is further" : "no vertex is nearer");
            }
            break;
         }
      }
   }
   // normal form modulo the equations of an affine hull
   template <typename T>
   void modulo()
   {
      vp_opaque_numbers = 1;
      const int n = (int)vp_param("n", 3), rows = (int)vp_param("rows", 1);
      const long m = vp_param("m", 2);
      Matrix<T> points;
      for ( int i = 0; i < rows; ++i )
      {
         R p;
         for ( int j = 0; j < n; ++j ) p.v.push_back(vp_param(("p" + vp::num(i) + "_" + vp::num(j)).c_str(), j + i + 1));
         if ( vp_param(("q" + vp::num(i)).c_str(), -1) >= 0 ) p.v[vp_param(("q" + vp::num(i)).c_str(), 0)] = vp_sym(("p" + vp::num(i)).c_str(), -m, m);
         points.push_back(row<T>(p));
      }
      const Equations<T> eqs = algorithm::extractEquations(points);
      vp_reach("op");
      R r = input("r", n, m);
      const Row<T> A = row<T>(r);
      Row<T> B = A * make<T>(vp_param("p", 2));
      const long k = vp_sym("k", -2, 2);
      if ( !eqs.empty() ) B += make<T>(k) * eqs[vp_param("which", 0) % eqs.size()];
      const Row<T> NA = algorithm::normalize(A, eqs), NB = algorithm::normalize(B, eqs);
      vp_assert(NA == NB, "rows that differ by multiples of the equations have the same normal form");
      vp_assert(algorithm::normalize(NA, eqs) == NA, "idempotent");
      // the normal form agrees with the row, up to a positive factor, on everything the equations hold for
      for ( const auto& pt : points )
      {
         const T x = NA * pt, y = A * pt;
         vp_assert(((x > 0) == (y > 0)) && ((x < 0) == (y < 0)), "same sign on the points");
      }
   }
}
VP_HARNESS(p10_ops)
{
   switch ( vp_param("type", 0) )
   {
      case 0: ops<int>(); break;
      case 1: ops<short>(); break;
      case 2: ops<int64_t>(); break;
      case 3: ops<SafeInteger>(); break;
      case 4: ops<BigInteger>(); break;
   }
}
VP_HARNESS(p10_modulo)
{
   switch ( vp_param("type", 0) )
   {
      case 0: modulo<int>(); break;
      case 1: modulo<short>(); break;
      case 2: modulo<int64_t>(); break;
      case 3: modulo<SafeInteger>(); break;
      case 4: modulo<BigInteger>(); break;
   }
}
