// Round trips: the printed result of one enumeration is the input of the next one, in the other direction.
#include "shapes.h"
#include "cli.h"

using geo::Mat;
using geo::Vec;

namespace
{
   const char* method(long m) { return m ? "ad" : "dd"; }
   std::string names(size_t n)
   {
      if ( !vp_param("names", 0) ) return "";
      std::string s = "Names:\n";
      for ( size_t i = 0; i < n; ++i ) s += "x_" + vp::num((long)i + 9) + " ";
      return s + "\n";
   }
   int proportional(const Vec& a, const Vec& b)
   {
      int p = vp_and(a.size() == b.size(), geo::dot(a, b) > 0);
      for ( size_t i = 0; i < a.size(); ++i ) for ( size_t j = 0; j < i; ++j ) p = vp_and(p, a[i] * b[j] == a[j] * b[i]);
      return p;
   }
   // the rows of m on which v vanishes, the others replaced by zero
   Mat tight(const Mat& m, const Vec& v)
   {
      Mat r(m);
      for ( auto& x : r ) { const int t = geo::dot(x, v) == 0; for ( auto& e : x ) e = vp_ite(t, e, 0); }
      return r;
   }
   Vec farRow(size_t n) { Vec v(n); v.back() = -1; return v; }
   // the sections of an output as they are, with the method's title for vertices and rays taken apart
   std::string again(const std::string& out)
   {
      const auto s = cli::sections(out);
      if ( auto v = cli::find(s, "Vertices / Rays:") )
      {
         std::string p = "Vertices:\n", r = "\nRays:\n";
         size_t nr = 0, np = 0;
         for ( auto& x : v->rows )
         {
            std::string& t = x.back() == "0" ? r : p;
            (x.back() == "0" ? nr : np) += 1;
            for ( size_t i = 0; i + 1 < x.size(); ++i ) t += x[i] + (x.back() == "0" || x.back() == "1" ? "" : "/" + x.back()) + " ";
            t += "\n";
         }
         return (np ? p : "") + (nr ? r : "");
      }
      return out;
   }
}

// points and rays -> inequalities (and equations) -> points and rays
VP_HARNESS(p26_points)
{
   const Mat V = shapes::symbolic();
   const size_t n = V[0].size();
   for ( const auto& v : V ) vp_assume(!geo::isZero(v));
   vp::file("in", names(n - 1) + cli::polyhedron(V));
   const auto a = cli::run({"-t", "1", "-m", method(vp_param("first", 0)), "in"});
   vp_assert(a.rc == 0, "a valid input is processed");
   vp_assert(cli::hasSection(cli::sections(a.out), "Inequalities:"), "inequalities are printed");
   for ( auto& x : cli::sections(a.out) ) if ( x.title == "Inequalities:" && x.rows.empty() ) vp_skip();   // a single point: the format has no description by equations alone
   vp::file("next", names(n - 1) + a.out);
   const auto b = cli::run({"next", "-t", "1", "-m", method(vp_param("second", 0))});
   vp_assert(b.rc == 0, "the printed result is valid input");
   const Mat W = cli::vertices(cli::sections(b.out));
   vp::file("last", names(n - 1) + again(b.out));
   const auto c = cli::run({"-m", method(vp_param("second", 0)), "last", "-t", "1"});
   vp_assert(c.rc == 0, "the result printed from that is valid input");
   vp_note("rows", (long)W.size());
   vp_reach("hull");
   // the other way back: the same inequalities and equations as the first time
   const auto sa = cli::sections(a.out), sc = cli::sections(c.out);
   vp_assert(sa.size() == sc.size(), "the same sections as the first time");
   for ( auto& s : sa )
   {
      auto t = cli::find(sc, s.title.c_str());
      vp_assert(t != nullptr, "the same sections as the first time");
      if ( !t ) return;
      auto x = s.rows, y = t->rows;
      std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
      if ( W.size() && cli::find(sa, "Equations:") == nullptr ) vp_assert(x == y, "the same inequalities as the first time");
   }
   // W lists the extremal rows of V
   Mat F;
   for ( auto& s : sa )
   {
      Mat m;
      if ( !vp_param("names", 0) ) m = cli::matrix(s);
      else continue;
      F.insert(F.end(), m.begin(), m.end());
   }
   for ( size_t i = 0; i < W.size(); ++i )
   {
      vp_assert(W[i].size() == n, "a row has the dimension of the input");
      for ( size_t k = 0; k < i; ++k ) vp_assert(!proportional(W[i], W[k]), "a vertex or ray is listed once");
      int in = 0;
      for ( auto& v : V ) in = vp_or(in, proportional(v, W[i]));
      vp_assert(in, "a listed vertex or ray is one of the points and rays");
   }
   F.push_back(farRow(n));
   for ( auto& v : V )
   {
      int in = 0;
      for ( auto& w : W ) in = vp_or(in, proportional(v, w));
      if ( vp_param("names", 0) ) continue;
      vp_assert(in == geo::rankAtLeast(tight(F, v), (int)n - 1), "a point or ray is listed if and only if it is a vertex or extremal");
   }
}

// inequalities -> vertices and rays -> inequalities, full-dimensional and with vertices
VP_HARNESS(p26_inequalities)
{
   const Mat R = shapes::symbolicH();
   const size_t n = R[0].size();
   Mat D(R);
   for ( auto& r : D ) { r.pop_back(); vp_assume(!geo::isZero(r)); }
   vp_assume(geo::rankAtLeast(D, (int)n - 1));
   vp::file("in", names(n - 1) + "Inequalities:\n" + cli::rows(R));
   const auto a = cli::run({"-t", "1", "-m", method(vp_param("first", 0)), "in"});
   vp_assert(a.rc == 0, "a valid input is processed");
   const Mat W = cli::vertices(cli::sections(a.out));
   if ( W.empty() ) vp_skip();
   vp_assume(geo::rankAtLeast(W, (int)n));
   int vertex = 0;
   for ( auto& w : W ) vertex = vp_or(vertex, w.back() > 0);
   vp_assume(vertex);
   vp::file("next", again(a.out));
   const auto b = cli::run({"next", "-t", "1", "-m", method(vp_param("second", 0))});
   vp_assert(b.rc == 0, "the printed result is valid input");
   const Mat F = cli::inequalities(cli::sections(b.out));
   vp_note("rows", (long)F.size());
   vp_reach("hull");
   for ( size_t i = 0; i < F.size(); ++i )
   {
      vp_assert(F[i].size() == n, "a row has the dimension of the input");
      for ( size_t k = 0; k < i; ++k ) vp_assert(!geo::equal(F[i], F[k]), "an inequality is listed once");
      int in = 0;
      for ( auto& r : R ) in = vp_or(in, proportional(r, F[i]));
      vp_assert(in, "a listed inequality is one of those given");
   }
   for ( auto& r : R )
   {
      int in = 0;
      for ( auto& f : F ) in = vp_or(in, proportional(r, f));
      int touches = 0;
      for ( auto& w : W ) touches = vp_or(touches, vp_and(geo::dot(w, r) == 0, w.back() > 0));
      vp_assert(in == vp_and(touches, geo::rankAtLeast(tight(W, r), (int)n - 1)), "an inequality is listed if and only if it defines a facet");
   }
}
