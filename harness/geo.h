// Reference geometry for the harnesses, by the definitions: facets through
// determinants of all d-subsets.  Branch-free over symbolic values.
#pragma once
#include "vp.h"
#include <algorithm>

namespace geo
{
   using Vec = std::vector<long>;
   using Mat = std::vector<Vec>;

   template <typename R>
   Vec vec(const R& r) { Vec v; for ( const auto& x : r ) v.push_back((long)x); return v; }
   template <typename M>
   Mat mat(const M& m) { Mat r; for ( const auto& x : m ) r.push_back(vec(x)); return r; }
   inline long dot(const Vec& a, const Vec& b) { long s = 0; for ( size_t i = 0; i < a.size(); ++i ) s += a[i] * b[i]; return s; }
   inline int isZero(const Vec& a) { int z = 1; for ( auto x : a ) z = vp_and(z, x == 0); return z; }
   inline int equal(const Vec& a, const Vec& b) { if ( a.size() != b.size() ) return 0; int e = 1; for ( size_t i = 0; i < a.size(); ++i ) e = vp_and(e, a[i] == b[i]); return e; }
   inline long det(const Mat& m, const std::vector<int>& rows, const std::vector<int>& cols)
   {
      if ( rows.empty() ) return 1;
      long r = 0, sign = 1;
      std::vector<int> rr(rows.begin() + 1, rows.end());
      for ( size_t j = 0; j < cols.size(); ++j )
      {
         std::vector<int> cc(cols);
         cc.erase(cc.begin() + (long)j);
         r += sign * m[rows[0]][cols[j]] * det(m, rr, cc);
         sign = -sign;
      }
      return r;
   }
   // the vector orthogonal to the n-1 rows (components are the signed minors)
   inline Vec cross(const Mat& m, const std::vector<int>& rows, int n)
   {
      Vec h(n);
      for ( int c = 0; c < n; ++c )
      {
         std::vector<int> cols;
         for ( int j = 0; j < n; ++j ) if ( j != c ) cols.push_back(j);
         h[c] = (c % 2 ? -1 : 1) * det(m, rows, cols);
      }
      return h;
   }
   inline bool nextSubset(std::vector<int>& s, int n)
   {
      int k = (int)s.size(), i = k - 1;
      if ( k == 0 ) return false;
      while ( i >= 0 && s[i] == n - k + i ) --i;
      if ( i < 0 ) return false;
      ++s[i];
      for ( int j = i + 1; j < k; ++j ) s[j] = s[j - 1] + 1;
      return true;
   }
   inline std::vector<int> firstSubset(int k) { std::vector<int> s; for ( int i = 0; i < k; ++i ) s.push_back(i); return s; }
   // rank of m is at least k
   inline int rankAtLeast(const Mat& m, int k)
   {
      if ( k == 0 ) return 1;
      if ( (int)m.size() < k || (int)m[0].size() < k ) return 0;
      int any = 0;
      auto rs = firstSubset(k);
      do { auto cs = firstSubset(k); do { any = vp_or(any, det(m, rs, cs) != 0); } while ( nextSubset(cs, (int)m[0].size()) ); } while ( nextSubset(rs, (int)m.size()) );
      return any;
   }
   // no prime up to `bound` divides every entry, and the row is not zero
   inline int primitive(const Vec& r, long bound)
   {
      static const long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113};
      int ok = !isZero(r);
      for ( long p : primes )
      {
         if ( p > bound ) break;
         int all = 1;
         for ( auto x : r ) all = vp_and(all, x % p == 0);
         ok = vp_and(ok, !all);
      }
      return ok;
   }
   // E, F is exactly the description of the cone spanned by V (homogenised):
   // E*x = 0 its linear hull, F*x <= 0 one row per facet; the faces that contain no
   // vertex (last coordinate 0 for all tight rows) are not facets of the polyhedron.
   // (cone: the face at infinity is a facet like any other)
   inline void exactDescription(const Mat& V, const Mat& E, const Mat& F, long bound, bool cone = false)
   {
      const int n = (int)V[0].size(), N = (int)V.size(), r = n - (int)E.size();
      for ( size_t i = 0; i < E.size(); ++i )
      {
         vp_assert((int)E[i].size() == n, "a reported equation has the dimension of the input");
         int valid = 1;
         for ( int j = 0; j < N; ++j ) valid = vp_and(valid, dot(E[i], V[j]) == 0);
         vp_assert(valid, "a reported equation holds for all points and rays");
         vp_assert(primitive(E[i], bound), "a reported equation is in lowest terms and not zero");
      }
      vp_assert(r >= 1, "no more equations than the codimension");
      if ( r < 1 ) return;
      if ( !E.empty() ) vp_assert(rankAtLeast(E, (int)E.size()), "the reported equations are independent");
      vp_assert(rankAtLeast(V, r), "there are as many equations as the codimension");
      std::vector<std::vector<int>> tight(F.size(), std::vector<int>(V.size()));
      for ( size_t i = 0; i < F.size(); ++i )
      {
         vp_assert((int)F[i].size() == n, "a reported row has the dimension of the input");
         int valid = 1, all = 1;
         for ( int j = 0; j < N; ++j ) { const long s = dot(F[i], V[j]); valid = vp_and(valid, s <= 0); tight[i][j] = s == 0; all = vp_and(all, s == 0); }
         vp_assert(valid, "a reported inequality holds for all points and rays");
         vp_assert(primitive(F[i], bound), "a reported inequality is in lowest terms and not zero");
         vp_assert(!all, "a reported inequality is not an equation");
         for ( size_t k = 0; k < i; ++k )
         {
            int same = 1;
            for ( int j = 0; j < N; ++j ) same = vp_and(same, tight[i][j] == tight[k][j]);
            vp_assert(!same, "a facet is reported once only");
         }
      }
      std::vector<int> facet(F.size(), r == 1);
      std::vector<int> hasVertex(F.size(), cone);
      for ( size_t i = 0; i < F.size(); ++i ) for ( int j = 0; j < N; ++j ) hasVertex[i] = vp_or(hasVertex[i], vp_and(tight[i][j], V[j][n - 1] != 0));
      Mat all(V);
      all.insert(all.end(), E.begin(), E.end());
      auto s = firstSubset(r - 1);
      do
      {
         auto rows = s;
         for ( size_t i = 0; i < E.size(); ++i ) rows.push_back(N + (int)i);
         const Vec h = cross(all, rows, n);
         const int independent = !isZero(h);
         int neg = 1, pos = 1, far = 1;   // far face: no vertex on the hyperplane
         for ( int j = 0; j < N; ++j )
         {
            const long d = dot(h, V[j]);
            neg = vp_and(neg, d <= 0); pos = vp_and(pos, d >= 0);
            far = vp_and(far, vp_or(d != 0, V[j][n - 1] == 0));
         }
         if ( cone ) far = 0;
         int found = 0;
         for ( size_t i = 0; i < F.size(); ++i )
         {
            int t = independent;
            for ( int j : s ) t = vp_and(t, tight[i][j]);
            facet[i] = vp_or(facet[i], t);
            found = vp_or(found, t);
         }
         vp_assert(vp_or(vp_or(!independent, far), vp_or(found, !vp_or(neg, pos))), "no facet is missing");
      } while ( nextSubset(s, N) );
      for ( size_t i = 0; i < F.size(); ++i ) vp_assert(vp_and(facet[i], hasVertex[i]), "a reported inequality is facet defining");
   }
   inline void exactFacets(const Mat& V, const Mat& F, long bound) { exactDescription(V, {}, F, bound); }
   // the same rows, each once
   inline void sameRows(const Mat& A, const Mat& B, const char* missing, const char* twice, const char* extra)
   {
      for ( size_t i = 0; i < A.size(); ++i ) for ( size_t k = 0; k < i; ++k ) vp_assert(!equal(A[i], A[k]), twice);
      for ( auto& a : A ) { int f = 0; for ( auto& b : B ) f = vp_or(f, equal(a, b)); vp_assert(f, extra); }
      for ( auto& b : B ) { int f = 0; for ( auto& a : A ) f = vp_or(f, equal(a, b)); vp_assert(f, missing); }
   }
}
