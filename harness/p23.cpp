// Known rows: any subset of the results, other multiples, repetitions and orders.
#include "shapes.h"
#include "cli.h"

using geo::Mat;
using geo::Vec;

namespace
{
   std::string join(const std::vector<std::string>& t, size_t from = 0, size_t to = std::string::npos)
   {
      std::string s;
      for ( size_t i = from; i < t.size() && i < to; ++i ) s += t[i] + " ";
      return s + "\n";
   }
   std::string ints(const Vec& v) { std::string s; for ( auto x : v ) s += vp::num(vp_concrete(x)) + " "; return s + "\n"; }
   std::string text(const cli::Section& s) { std::string r; for ( auto& x : s.rows ) r += join(x); return r; }
}

VP_HARNESS(p23_cli)
{
   const bool facets = vp_param("facets", 1) != 0;
   const long family = vp_param("family", -1), threads = vp_param("threads", 1), named = vp_param("named", 0);
   auto M = facets ? shapes::symbolic() : shapes::symbolicH();
   for ( const auto& v : M ) vp_assume(!geo::isZero(v));
   if ( !facets )
   {
      Mat D(M);
      for ( auto& r : D ) { r.pop_back(); vp_assume(!geo::isZero(r)); }
      vp_assume(geo::rankAtLeast(D, (int)D[0].size()));
   }
   std::string head;
   const size_t dim = M[0].size() - 1;
   if ( named || family >= 0 ) head = dim == 1 ? "Names:\nx\n" : dim == 2 ? "Names:\nx y\n" : "Names:\nx y z\n";
   if ( family == 0 ) head += "Maps:\ny x\n";
   if ( family == 1 ) head += "Maps:\ny x z\n";
   if ( family == 2 ) head += "Maps:\n-x+2 y\ny x\n";
   vp::file("in", head + (facets ? cli::polyhedron(M) : "Inequalities:\n" + cli::rows(M)));
   const auto plain = cli::run({"-m", "ad", "-t", "1", "in"});
   // all members of the orbits, not only the representatives
   vp::file("all", facets ? cli::polyhedron(M) : "Inequalities:\n" + cli::rows(M));
   const auto all = cli::run({"-m", facets || vp_param("adall", 0) ? "ad" : "dd", "-t", "1", "all"});
   vp_assert(plain.rc == 0 && all.rc == 0, "a valid input is processed");
   const auto sp = cli::sections(plain.out), sa = cli::sections(all.out);
   // the known rows
   std::string known;
   const long first = vp_param("first", 0), subset = vp_param("subset", -1);
   if ( facets )
   {
      Mat F = cli::inequalities(sa);
      if ( vp_param("reverse", 0) ) std::reverse(F.begin(), F.end());
      const auto e = cli::find(sa, "Equations:");
      const Mat E = e ? cli::matrix(*e) : Mat();
      known = "Inequalities:\n";
      for ( size_t i = 0; i < F.size(); ++i )
      {
         const long use = subset >= 0 ? (subset >> i) & 1 : (long)i >= first && (long)i < first + vp_param("window", 4) ? vp_concrete(vp::in("use", (int)i, 0, vp_param("times", 1))) : 0;
         for ( long u = 0; u < use; ++u )
         {
            const long k = vp_param("multiple", 0) ? vp_concrete(vp::in("k", (int)(i * 4 + (size_t)u), 1, vp_param("multiple", 0))) : 1;
            Vec r(F[i]);
            for ( auto& x : r ) x *= k;
            if ( !E.empty() && vp_param("shift", 0) ) { const long q = vp_concrete(vp::in("q", (int)i, -vp_param("shift", 0), vp_param("shift", 0))); for ( size_t j = 0; j < r.size(); ++j ) r[j] += q * E[i % E.size()][j]; }
            known += ints(r);
         }
      }
      if ( named )   // the printed lines as they are
      {
         known = "Inequalities:\n";
         const cli::Section* s = nullptr;
         for ( auto& x : sp ) if ( x.title != "Equations:" ) s = &x;
         vp_assert(s != nullptr, "there is a list of results");
         if ( s ) for ( size_t i = 0; i < s->rows.size(); ++i ) if ( vp_concrete(vp::in("use", (int)i, 0, 1)) ) known += join(s->rows[i]);
      }
   }
   else
   {
      std::vector<std::pair<bool, std::vector<std::string>>> R;   // rays first or last
      if ( auto v = cli::find(sa, "Vertices:") ) for ( auto& r : v->rows ) R.push_back({false, r});
      if ( auto v = cli::find(sa, "Rays:") ) for ( auto& r : v->rows ) R.push_back({true, r});
      std::string conv, cone;
      for ( size_t i = 0; i < R.size(); ++i )
      {
         const long use = subset >= 0 ? (subset >> i) & 1 : (long)i >= first && (long)i < first + vp_param("window", 4) ? vp_concrete(vp::in("use", (int)i, 0, vp_param("times", 1))) : 0;
         for ( long u = 0; u < use; ++u )
         {
            const long k = vp_param("multiple", 0) ? vp_concrete(vp::in("k", (int)(i * 4 + (size_t)u), 1, vp_param("multiple", 0))) : 1;
            std::string line;
            for ( auto& t : R[i].second )
            {
               const size_t at = t.find('/');
               const long p = vp_concrete(cli::toLong(t, 0, at)), q = at == std::string::npos ? 1 : vp_concrete(cli::toLong(t, at + 1));
               if ( R[i].first ) line += vp::num(p * k) + " ";
               else line += vp::num(p * k) + "/" + vp::num(q * k) + " ";
            }
            (R[i].first ? cone : conv) += line + "\n";
         }
      }
      if ( vp_param("reverse", 0) ) known = "Rays:\n" + cone + "\nVertices:\n" + conv;
      else known = (conv.empty() ? "" : "Vertices:\n" + conv) + (cone.empty() ? "" : "\nRays:\n" + cone);
      if ( known.empty() ) vp_stop();
   }
   vp::file("known", known);
   const auto spelling = vp_param("spelling", 0);
   std::vector<std::string> args{"-m", "ad", "-t", vp::num(threads)};
   if ( spelling == 0 ) { args.push_back("-k"); args.push_back("known"); }
   else args.push_back((spelling == 1 ? "-k=" : spelling == 2 ? "--known-data=" : facets ? "--known-facets=" : "--known-vertices=") + std::string("known"));
   args.push_back("in");
   const auto a = cli::run(args);
   vp_assert(a.rc == 0, "input with true prior knowledge is processed");
   vp_reach("both");
   const auto sk = cli::sections(a.out);
   vp_assert(sk.size() == sp.size(), "prior knowledge does not change the sections printed");
   if ( sk.size() != sp.size() ) return;
   for ( size_t i = 0; i < sk.size(); ++i )
   {
      vp_assert(sk[i].title == sp[i].title, "prior knowledge does not change the sections printed");
      std::vector<std::string> x, y;
      for ( auto& r : sk[i].rows ) x.push_back(join(r));
      for ( auto& r : sp[i].rows ) y.push_back(join(r));
      std::sort(x.begin(), x.end());
      std::sort(y.begin(), y.end());
      for ( size_t j = 0; j + 1 < x.size(); ++j ) vp_assert(!(x[j] == x[j + 1]), "nothing is printed twice");
      vp_assert(x == y, "prior knowledge does not change the set of results");
   }
}
