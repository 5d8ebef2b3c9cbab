// --check accepts exactly valid input; the filters keep exactly the valid rows.
#include "shapes.h"
#include "cli.h"
#include "input.h"
#include "input_validity.h"

using geo::Mat;
using geo::Vec;

namespace
{
   // the same point, direction or half space: positive multiples of each other
   int same(const Vec& a, const Vec& b)
   {
      int r = 1;
      for ( size_t i = 0; i < a.size(); ++i )
      {
         r = vp_and(r, vp_and((a[i] > 0) == (b[i] > 0), (a[i] < 0) == (b[i] < 0)));
         for ( size_t j = i + 1; j < a.size(); ++j ) r = vp_and(r, a[i] * b[j] == a[j] * b[i]);
      }
      return r;
   }
   int contains(const Mat& m, const Vec& v) { int r = 0; for ( auto& x : m ) r = vp_or(r, same(x, v)); return r; }
   Vec image(const Mat& A, const Vec& v, bool facet)
   {
      Vec r(v.size(), 0);
      for ( size_t i = 0; i < v.size(); ++i ) for ( size_t j = 0; j < v.size(); ++j ) r[i] += facet ? v[j] * A[j][i] : A[i][j] * v[j];
      return r;
   }
   // the map permutes the set of rows
   int bijection(const Mat& A, const Mat& rows, bool facet)
   {
      int ok = 1;
      Mat images;
      for ( auto& r : rows ) images.push_back(image(A, r, facet));
      for ( size_t i = 0; i < rows.size(); ++i )
      {
         ok = vp_and(ok, contains(rows, images[i]));
         for ( size_t j = 0; j < i; ++j ) ok = vp_and(ok, vp_or(!same(images[i], images[j]), same(rows[i], rows[j])));
      }
      return ok;
   }
   const char* const NAMES[] = {"x", "y", "z"};
   std::string term(long c, const char* name) { const long neg = c < 0; return std::string(1, (char)vp_ite(neg, '-', '+')) + (char)('0' + vp_ite(neg, -c, c)) + name; }
   std::string mapText(const Mat& A)
   {
      std::string s;
      const size_t n = A.size() - 1;
      for ( size_t i = 0; i < n; ++i )
      {
         std::string t;
         for ( size_t j = 0; j < n; ++j ) t += term(A[i][j], NAMES[j]);
         s += t + term(A[i][n], "") + (i + 1 < n ? " " : "\n");
      }
      return s;
   }
   Mat symbolicMap(size_t n, const char* name = "a")
   {
      // the coefficients of the pattern, those of the bit mask symbolic
      const long pattern = vp_param("pattern", 0), mask = vp_param("mask", 0), range = vp_param("range", 1);
      Mat A(n + 1, Vec(n + 1, 0));
      for ( size_t i = 0; i <= n; ++i ) A[i][i] = 1;
      if ( pattern == 1 ) { A[0][0] = A[1][1] = 0; A[0][1] = A[1][0] = 1; }
      if ( pattern == 2 ) { A[0][0] = -1; A[0][n] = 2; }
      if ( pattern == 3 ) { A[0] = Vec(n + 1, 0); A[1] = A[0]; A[0][1] = -1; A[0][n] = 2; A[1][0] = 1; }
      if ( pattern == 4 ) for ( size_t i = 0; i < n; ++i ) { A[i][i] = 0; A[i][(i + 1) % n] = 1; }
      for ( size_t k = 0; k < n * (n + 1); ++k ) if ( mask >> k & 1 ) A[k / (n + 1)][k % (n + 1)] = vp::in(name, (int)k, -range, range);
      return A;
   }
   std::string names(size_t n) { std::string s = "Names:\n"; for ( size_t i = 0; i < n; ++i ) s += std::string(NAMES[i]) + " "; return s + "\n"; }
   template <typename F>
   bool accepts(F f)
   {
      vp::Capture quiet(std::cerr);
      try { f(); } catch ( const std::exception& ) { return false; }
      return true;
   }
   std::string scaled(const Mat& m, bool points)
   {
      // rows as multiples (rays, inequalities) resp. fractions not in lowest terms (points)
      const long k = vp_param("scale", 1);
      std::string s;
      for ( size_t i = 0; i < m.size(); ++i )
      {
         for ( size_t j = 0; j + (points ? 1 : 0) < m[i].size(); ++j )
         {
            const long f = i % 2 ? 1 : k;
            s += cli::num(m[i][j] * f) + (points && f != 1 ? "/" + vp::num(f) : "") + " ";
         }
         s += "\n";
      }
      return s;
   }
   void rejected(int argc, const char* file)
   {
      (void)argc;
      const auto r = cli::run({"-c", file});
      vp_assert(r.rc > 0 && r.out.empty() && !r.err.empty(), "invalid input ends in an error before results are printed");
   }
}

VP_HARNESS(p18_maps)
{
   const bool facet = vp_param("facet", 0) != 0;
   Mat M = facet ? shapes::symbolicH() : shapes::symbolic();
   for ( const auto& v : M ) vp_assume(!geo::isZero(v));
   const size_t n = M[0].size() - 1;
   const Mat A = symbolicMap(n);
   const bool second = vp_param("second", 0) != 0;
   const Mat B = second ? symbolicMap(n, "b") : A;
   Mat V, R;
   if ( !facet ) for ( auto& x : M ) (x.back() ? V : R).push_back(x);
   if ( vp_param("repeat", 0) ) (facet ? M : V).push_back(facet ? M[0] : V[0]);
   const std::string maps = "Maps:\n" + mapText(A) + (second ? mapText(B) : "") + "\n";
   std::string rows = facet ? "Inequalities:\n" + scaled(M, false) : (V.empty() ? "" : "Vertices:\n" + scaled(V, true)) + (R.empty() ? "" : "\nRays:\n" + [&]() { Mat S; for ( auto x : R ) { x.pop_back(); S.push_back(x); } return scaled(S, false); }());
   const bool late = vp_param("late", 0) != 0;
   vp::file("in", names(n) + (late ? rows + "\n" + maps : maps + rows));
   int valid = 1;
   for ( const auto* m : {&A, &B} )
   {
      if ( facet ) valid = vp_and(valid, bijection(*m, M, true));
      else valid = vp_and(valid, vp_and(V.empty() ? 1 : bijection(*m, V, false), R.empty() ? 1 : bijection(*m, R, false)));
      if ( !second ) break;
   }
   const char* style = vp_param("style", 0) ? "--check" : "-c";
   vp::Args with({"panda", style, "in"}), without({"panda", "in"});
   auto read = [&](vp::Args& a) { return accepts([&]() { if ( facet ) panda::input::inequalities<int>(a.argc(), a.argv()); else panda::input::vertices<int>(a.argc(), a.argv()); }); };
   const bool got = read(with);
   vp_reach("checked");
   vp_assert(got == (valid != 0), "maps are accepted exactly when they permute the rows");
   vp_assert(read(without), "without the option the maps are not checked");
   if ( !got && vp_param("run", 0) ) rejected(1, "in");
}

VP_HARNESS(p18_facets)
{
   Mat M = shapes::symbolic();
   for ( const auto& v : M ) vp_assume(!geo::isZero(v));
   const int n = (int)M[0].size(), rank = (int)vp_param("rank", n);
   vp_assume(geo::rankAtLeast(M, rank));
   if ( rank < n ) vp_assume(!geo::rankAtLeast(M, rank + 1));
   const long m = vp_param("range", 1), count = vp_param("count", 1);
   int all = 1;
   std::string text = "Inequalities:\n";
   for ( int c = 0; c < count; ++c )
   {
      Vec f;
      for ( int i = 0; i < n; ++i ) { const bool s = vp_param("mask", 255) >> (c * n + i) & 1; f.push_back(s ? vp::in("f", c, i, -m, m) : (i == c ? -1 : 0)); }
      for ( auto x : f ) text += cli::num(x) + " ";
      text += "\n";
      int valid = 1, loose = 0, vertex = 0, points = 0, face = 0;
      for ( auto& r : M )
      {
         const long d = geo::dot(f, r);
         valid = vp_and(valid, d <= 0);
         loose = vp_or(loose, d != 0);
         if ( r.back() ) { points = 1; vertex = vp_or(vertex, d == 0); }
      }
      auto s = geo::firstSubset(rank - 1);
      do {
         Mat sub; int tight = 1;
         for ( auto i : s ) { sub.push_back(M[(size_t)i]); tight = vp_and(tight, geo::dot(f, M[(size_t)i]) == 0); }
         face = vp_or(face, vp_and(tight, geo::rankAtLeast(sub, rank - 1)));
      } while ( geo::nextSubset(s, (int)M.size()) );
      all = vp_and(all, vp_and(vp_and(valid, loose), vp_and(face, vp_or(vertex, !points))));
   }
   vp::file("in", cli::polyhedron(M));
   vp::file("known", text);
   vp::Args with({"panda", "-c", "-k", "known", "in"}), without({"panda", "--known-facets=known", "in"});
   std::tuple<panda::Vertices<int>, panda::Names, panda::Maps, panda::Inequalities<int>> data;
   const bool got = accepts([&]() { data = panda::input::vertices<int>(with.argc(), with.argv()); });
   vp_reach("checked");
   vp_assert(got == (all != 0), "known facets are accepted exactly when they are facets");
   vp_assert(accepts([&]() { data = panda::input::vertices<int>(without.argc(), without.argv()); }), "without the option the known facets are not checked");
   vp_assert(std::get<3>(data).size() == (size_t)count, "the known facets are read");
   if ( !got && vp_param("run", 0) )
   {
      const auto r = cli::run({"in", "--known-facets=known", "--check"});
      vp_assert(r.rc > 0 && r.out.empty() && !r.err.empty(), "invalid known facets end in an error before results are printed");
   }
}

VP_HARNESS(p18_vertices)
{
   Mat M = shapes::symbolicH();
   const int n = (int)M[0].size() - 1;
   Mat D(M);
   for ( auto& r : D ) { r.pop_back(); vp_assume(!geo::isZero(r)); }
   vp_assume(geo::rankAtLeast(D, n));
   const long m = vp_param("range", 2), den = vp_param("den", 1), ray = vp_param("ray", 0);
   Vec v;
   for ( int i = 0; i < n; ++i ) v.push_back(vp::in("v", i, -m, m));
   v.push_back(ray ? 0 : den);
   // by the definition: in the polyhedron (cone) and on n (n - 1) independent inequalities
   int valid = ray ? !geo::isZero(v) : 1, extremal = 0;
   for ( auto& r : M ) valid = vp_and(valid, geo::dot(r, v) <= 0);
   auto s = geo::firstSubset(ray ? n - 1 : n);
   do {
      Mat sub; int tight = 1;
      for ( auto i : s ) { sub.push_back(D[(size_t)i]); tight = vp_and(tight, geo::dot(M[(size_t)i], v) == 0); }
      extremal = vp_or(extremal, vp_and(tight, geo::rankAtLeast(sub, ray ? n - 1 : n)));
   } while ( geo::nextSubset(s, (int)M.size()) );
   valid = vp_and(valid, extremal);
   std::string text = ray ? "Rays:\n" : "Vertices:\n";
   for ( int i = 0; i < n; ++i ) text += cli::num(v[(size_t)i]) + (den > 1 && !ray ? "/" + vp::num(den) : "") + " ";
   vp::file("in", "Inequalities:\n" + cli::rows(M));
   vp::file("known", text + "\n");
   vp::Args with({"panda", "-k", "known", "-c", "in"}), without({"panda", "--known-vertices=known", "in"});
   auto read = [&](vp::Args& a) { return accepts([&]() { panda::input::inequalities<int>(a.argc(), a.argv()); }); };
   const bool got = read(with);
   vp_reach("checked");
   vp_assert(got == (valid != 0), "known vertices and rays are accepted exactly when they are extremal");
   vp_assert(read(without), "without the option the known vertices are not checked");
   if ( !got && vp_param("run", 0) )
   {
      const auto r = cli::run({"in", "--known-vertices=known", "--check"});
      vp_assert(r.rc > 0 && r.out.empty() && !r.err.empty(), "invalid known vertices end in an error before results are printed");
   }
}

// the filters: exactly the rows that are valid and tight on a set of rank one less, in their order
VP_HARNESS(p18_filter)
{
   const bool dual = vp_param("dual", 0) != 0;
   Mat M = dual ? shapes::symbolicH() : shapes::symbolic();
   for ( size_t i = 0; i < 8 && i < M.size(); ++i ) if ( vp_param("again", 0) >> i & 1 ) M.push_back(M[i]);   // rows given twice
   const int n = (int)M[0].size();
   vp_assume(geo::rankAtLeast(M, n));
   const long m = vp_param("range", 1), count = vp_param("count", 2);
   Mat rows, want;
   for ( int c = 0; c < count; ++c )
   {
      Vec f;
      for ( int i = 0; i < n; ++i ) f.push_back(vp_param("mask", 255) >> (c * n + i) & 1 ? vp::in("f", c, i, -m, m) : (i == c % n ? -1 : 0));
      rows.push_back(f);
   }
   auto given = shapes::as<int>(rows);
   if ( dual ) panda::input::implementation::filterInvalidVertices(shapes::as<int>(M), given);
   else panda::input::implementation::filterInvalidInequalities(shapes::as<int>(M), given);
   vp_reach("checked");
   for ( auto& f : rows )
   {
      int valid = 1, loose = 0, face = 0;
      for ( auto& r : M ) { const long d = geo::dot(f, r); valid = vp_and(valid, d <= 0); loose = vp_or(loose, d != 0); }
      auto s = geo::firstSubset(n - 1);
      do {
         Mat sub; int tight = 1;
         for ( auto i : s ) { sub.push_back(M[(size_t)i]); tight = vp_and(tight, geo::dot(f, M[(size_t)i]) == 0); }
         face = vp_or(face, vp_and(tight, geo::rankAtLeast(sub, n - 1)));
      } while ( geo::nextSubset(s, (int)M.size()) );
      if ( vp_and(valid, vp_and(loose, face)) ) want.push_back(f);
   }
   const Mat got = geo::mat(given);
   vp_assert(got.size() == want.size(), "the filter keeps the number of valid rows");
   int ok = 1;
   for ( size_t i = 0; i < got.size(); ++i ) ok = vp_and(ok, geo::equal(got[i], want[i]));
   vp_assert(ok, "the filter keeps exactly the valid rows");
}
