// Sorting orders: same rows, in the order asked for, and the same results.
#include "shapes.h"
#include "cli.h"
#include "input.h"

using geo::Mat;
using geo::Vec;

namespace
{
   const char* const ORDERS[][3] = {
      {"lex_asc", "lexicographic_ascending", "lex_up"}, {"lex_desc", "lexicographic_descending", "lex_down"},
      {"nz_asc", "nonzero_ascending", "nz_up"}, {"nz_desc", "nonzero_descending", "nz_down"}, {"rev", "reverse", "rev"}, {"", "", ""}};

   int lexLessEqual(const Vec& a, const Vec& b)
   {
      int r = 1;   // equal so far
      for ( size_t i = a.size(); i-- > 0; ) r = (int)vp_ite(a[i] == b[i], r, a[i] < b[i]);
      return r;
   }
   long nonzero(const Vec& a) { long n = 0; for ( auto x : a ) n += vp_ite(x != 0, 1, 0); return n; }
   int ordered(const Vec& a, const Vec& b, int order)
   {
      switch ( order )
      {
         case 0: return lexLessEqual(a, b);
         case 1: return lexLessEqual(b, a);
         case 2: return nonzero(a) <= nonzero(b);
         case 3: return nonzero(a) >= nonzero(b);
      }
      return 1;
   }
   // got has the rows of the original, in the order
   void check(const Mat& got, const Mat& original, int order)
   {
      vp_assert(got.size() == original.size(), "sorting keeps the number of rows");
      if ( order >= 4 )
      {
         int ok = 1;
         for ( size_t i = 0; i < got.size(); ++i ) ok = vp_and(ok, geo::equal(got[i], original[order == 4 ? got.size() - 1 - i : i]));
         vp_assert(ok, order == 4 ? "the rows are reversed" : "the rows are as in the file");
         return;
      }
      int ok = 1;
      for ( const auto& r : original )
      {
         long a = 0, b = 0;
         for ( const auto& x : original ) a += vp_ite(geo::equal(x, r), 1, 0);
         for ( const auto& x : got ) b += vp_ite(geo::equal(x, r), 1, 0);
         ok = vp_and(ok, a == b);
      }
      vp_assert(ok, "sorting keeps the rows");
      ok = 1;
      for ( size_t i = 1; i < got.size(); ++i ) ok = vp_and(ok, ordered(got[i - 1], got[i], order));
      vp_assert(ok, "the rows are in the order asked for");
   }
   std::vector<std::string> arguments(int order)
   {
      if ( order == 5 ) return {};
      const std::string name = ORDERS[order][vp_param("spelling", 0)];
      switch ( vp_param("style", 0) )
      {
         case 0: return {"-s", name};
         case 1: return {"--sorting=" + name};
         default: return {"-s=" + name};
      }
   }
   // with many rows only some entries are arbitrary
   long chosen(const char* name, int i, int j, long m)
   {
      const long every = vp_param("every", 1);
      if ( (i * 5 + j) % every == 0 ) return vp::in(name, i, j, -m, m);
      if ( vp_param("same", 0) ) return (i % vp_param("same", 0) + j * 2) % (2 * m + 1) - m;   // only so many different rows
      return (i * 11 + j * 7 + i * i * j * 3) % (2 * m + 3) - m - 1;
   }
   Mat rows(const char* name, int count, int width, long m)
   {
      Mat r;
      for ( int i = 0; i < count; ++i ) { Vec v; for ( int j = 0; j < width; ++j ) v.push_back(chosen(name, i, j, m)); r.push_back(v); }
      return r;
   }
   std::string text(const Mat& m) { return cli::rows(m); }
}

VP_HARNESS(p15_vertices)
{
   const int order = (int)vp_param("order", 0), n = (int)vp_param("n", 2);
   const long m = vp_param("m", 1);
   const Mat V = rows("v", (int)vp_param("points", 2), n, m), R = rows("r", (int)vp_param("rays", 1), n, m);
   vp::file("in", (V.empty() ? "" : "Vertices:\n" + text(V)) + (R.empty() ? "" : "\nRays:\n" + text(R)));
   auto a = arguments(order);
   a.insert(a.begin(), "panda");
   a.push_back("in");
   vp::Args args(a);
   const auto d = panda::input::vertices<int>(args.argc(), args.argv());
   vp_reach("read");
   const Mat got = geo::mat(std::get<0>(d));
   vp_assert(got.size() == V.size() + R.size(), "sorting keeps the number of rows");
   Mat v, r, ov(V), orr(R);
   for ( auto& x : ov ) x.push_back(1);
   for ( auto& x : orr ) x.push_back(0);
   for ( const auto& x : got )
   {
      vp_assert(x.back() != 0 || v.empty(), "rays come before points");
      (x.back() ? v : r).push_back(x);
   }
   check(v, ov, order);
   check(r, orr, order);
}

VP_HARNESS(p15_inequalities)
{
   const int order = (int)vp_param("order", 0), n = (int)vp_param("n", 2);
   const long m = vp_param("m", 1);
   const Mat I = rows("i", (int)vp_param("rows", 3), n + 1, m), E = rows("e", (int)vp_param("equations", 0), n + 1, m);
   vp::file("in", (E.empty() ? "" : "Equations:\n" + text(E)) + "\nInequalities:\n" + text(I));
   auto a = arguments(order);
   a.insert(a.begin(), "panda");
   a.push_back("in");
   vp::Args args(a);
   const auto d = panda::input::inequalities<int>(args.argc(), args.argv());
   vp_reach("read");
   Mat got = geo::mat(std::get<0>(d));
   // the rows of the file, and possibly the one that says 0 <= 1
   Mat all(I);
   for ( auto& e : E ) { all.push_back(e); Vec x(e); for ( auto& y : x ) y = -y; all.push_back(x); }
   if ( got.size() == all.size() + 1 )
   {
      int trivial = got.back().back() == -1;
      for ( int i = 0; i < n; ++i ) trivial = vp_and(trivial, got.back()[(size_t)i] == 0);
      vp_assert(trivial, "at most a trivial row is added to the inequalities");
      got.pop_back();
   }
   check(got, all, order);
}

VP_HARNESS(p15_results)
{
   const int order = (int)vp_param("order", 0);
   const bool facets = vp_param("facets", 1) != 0;
   const Mat M = facets ? shapes::symbolic() : shapes::symbolicH();
   if ( facets )
   {
      for ( auto& v : M ) vp_assume(!geo::isZero(v));
   }
   else
   {
      Mat D(M);
      for ( auto& r : D ) { r.pop_back(); vp_assume(!geo::isZero(r)); }
      vp_assume(geo::rankAtLeast(D, (int)D[0].size()));
   }
   vp::file("in", facets ? cli::polyhedron(M) : "Inequalities:\n" + cli::rows(M));
   const std::vector<std::string> base = {"-m", vp_param("ad", 0) ? "ad" : "dd", "-t", "1", "in"};
   const auto plain = cli::run(base);
   auto a = arguments(order);
   a.insert(a.end(), base.begin(), base.end());
   const auto sorted = cli::run(a);
   vp_assert(plain.rc == 0 && sorted.rc == 0, "a valid input is processed");
   const auto sp = cli::sections(plain.out), ss = cli::sections(sorted.out);
   vp_reach("compared");
   vp_assert(cli::hasSection(sp, "Equations:") == cli::hasSection(ss, "Equations:"), "equations are printed for every order alike");
   if ( facets )
   {
      if ( cli::hasSection(sp, "Equations:") )
      {
         // any basis of the same equations
         const Mat x = cli::matrix(*cli::find(sp, "Equations:")), y = cli::matrix(*cli::find(ss, "Equations:"));
         vp_assert(x.size() == y.size(), "there are as many equations for every order");
         for ( auto& e : y ) for ( auto& p : M ) vp_assert(geo::dot(e, p) == 0, "an equation holds for all points");
         return;
      }
      geo::sameRows(cli::inequalities(sp), cli::inequalities(ss), "an inequality is missing when sorted", "an inequality is printed twice when sorted", "another inequality is printed when sorted");
   }
   else geo::sameRows(cli::vertices(sp), cli::vertices(ss), "a vertex is missing when sorted", "a vertex is printed twice when sorted", "another vertex is printed when sorted");
}
