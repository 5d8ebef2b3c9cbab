// Symmetry: orbits by the group generated by the maps, computed independently.
#include "shapes.h"
#include "cli.h"
#include "matrix.h"
#include "maps.h"
#include "tags.h"
#include "algorithm_classes.h"
#include "algorithm_map_operations.h"
#include "algorithm_rotation.h"
#include "algorithm_fourier_motzkin_elimination.h"
#include <set>

using namespace panda;
using geo::Mat;
using geo::Vec;

namespace
{
   // an affine map of the homogenised coordinates: rows of an (n+1)x(n+1) matrix, last row 0...0 1
   typedef std::vector<Vec> Lin;
   struct Family { std::vector<std::string> names; std::vector<std::string> text; std::vector<Lin> maps; };
   Family family(long id)
   {
      const std::vector<std::string> xy{"x", "y"}, xyz{"x", "y", "z"};
      const Lin swap2{{0, 1, 0}, {1, 0, 0}, {0, 0, 1}}, flip2{{-1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
      const Lin swap3{{0, 1, 0, 0}, {1, 0, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}, cycle3{{0, 1, 0, 0}, {0, 0, 1, 0}, {1, 0, 0, 0}, {0, 0, 0, 1}};
      switch ( id )
      {
         case 0: return {xy, {"y x"}, {swap2}};
         case 1: return {xy, {"-x y", "y x"}, {flip2, swap2}};
         case 2: return {xy, {"-x -y"}, {{{-1, 0, 0}, {0, -1, 0}, {0, 0, 1}}}};
         case 3: return {xyz, {"y x z", "y z x"}, {swap3, cycle3}};
         case 4: return {xy, {"-x+1 y"}, {{{-1, 0, 1}, {0, 1, 0}, {0, 0, 1}}}};
         case 5: return {xyz, {"-x+2 4x+y-4 z"}, {{{-1, 0, 0, 2}, {4, 1, 0, -4}, {0, 0, 1, 0}, {0, 0, 0, 1}}}};   // keeps 2x+y+z=2
         case 6: return {xy, {"-y x-y"}, {{{0, -1, 0}, {1, -1, 0}, {0, 0, 1}}}};                                // order 3
         case 7: return {xyz, {"-x y z", "y x z", "y z x"}, {{{-1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}, swap3, cycle3}};
         case 8: return {xy, {"-x+y y"}, {{{-1, 1, 0}, {0, 1, 0}, {0, 0, 1}}}};
         case 9: return {xyz, {"y x z"}, {swap3}};
         case 10: return {{"x"}, {"-x+1"}, {{{-1, 1}, {0, 1}}}};
         case 11: return {xy, {"y -x+2"}, {{{0, 1, 0}, {-1, 0, 2}, {0, 0, 1}}}};                                // a quarter turn about (1, 1)
         case 12: return {xyz, {"-x -y z", "y x z"}, {{{-1, 0, 0, 0}, {0, -1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}, swap3}};
      }
      vp_fail("unknown family");
      return {};
   }
   Lin compose(const Lin& a, const Lin& b)
   {
      const size_t n = a.size();
      Lin r(n, Vec(n));
      for ( size_t i = 0; i < n; ++i ) for ( size_t j = 0; j < n; ++j ) for ( size_t k = 0; k < n; ++k ) r[i][j] += a[i][k] * b[k][j];
      return r;
   }
   std::vector<Lin> group(const Family& f)
   {
      const size_t n = f.maps[0].size();
      Lin one(n, Vec(n));
      for ( size_t i = 0; i < n; ++i ) one[i][i] = 1;
      std::vector<Lin> g{one};
      for ( size_t i = 0; i < g.size(); ++i )
         for ( auto& m : f.maps ) { const Lin h = compose(m, g[i]); if ( std::find(g.begin(), g.end(), h) == g.end() ) g.push_back(h); }
      return g;
   }
   Vec image(const Lin& a, const Vec& v) { Vec r(v.size()); for ( size_t i = 0; i < v.size(); ++i ) r[i] = geo::dot(a[i], v); return r; }
   Vec pullback(const Lin& a, const Vec& v) { Vec r(v.size()); for ( size_t i = 0; i < v.size(); ++i ) for ( size_t j = 0; j < v.size(); ++j ) r[j] += v[i] * a[i][j]; return r; }
   std::string header(const Family& f)
   {
      std::string s = "Names:\n";
      for ( auto& n : f.names ) s += n + " ";
      s += "\nMaps:\n";
      for ( auto& t : f.text ) s += t + "\n";
      return s;
   }
   Maps mapsOf(const Family& f)
   {
      Maps r;
      for ( auto& a : f.maps )
      {
         Map m;
         for ( auto& row : a ) { Image i; for ( size_t k = 0; k < row.size(); ++k ) if ( row[k] ) i.push_back(std::make_pair(k, (int)row[k])); m.push_back(i); }
         r.push_back(m);
      }
      return r;
   }
   // generators: base points b<i>_<j> with symbolic parts (parameter s<k> = i * n + j), rays by l<i> = 0
   Mat base(const Family& f)
   {
      const int n = (int)f.names.size(), count = (int)vp_param("base", 1);
      const long m = vp_param("m", 1);
      Mat b(count, Vec(n + 1));
      for ( int i = 0; i < count; ++i )
      {
         for ( int j = 0; j < n; ++j ) b[i][j] = vp_param(("b" + vp::num(i) + "_" + vp::num(j)).c_str(), (i * 3 + j + 1) % 4);
         b[i][n] = vp_param(("l" + vp::num(i)).c_str(), 1);
      }
      for ( int k = 0; k < 6; ++k )
      {
         const long at = vp_param(("s" + vp::num(k)).c_str(), -1);
         if ( at >= 0 ) b[at / n][at % n] += vp::in("x", k, -m, m);
      }
      if ( vp_param("plane", 0) == 2 ) for ( auto& v : b ) v[2] = 2 * v[3] - 2 * v[0] - v[1];    // 2x + y + z = 2
      if ( vp_param("plane", 0) == 1 ) for ( auto& v : b ) v[2] = 3 * v[3] - v[0] - v[1];        // x + y + z = 3
      return b;
   }
   // "2x -y +z <= 3" -> homogeneous row
   Vec named(const std::vector<std::string>& tok, const std::vector<std::string>& names)
   {
      Vec r(names.size() + 1);
      size_t i = 0;
      for ( ; i < tok.size() && tok[i] != "<=" && tok[i] != "="; ++i )
      {
         const std::string& t = tok[i];
         size_t k = t.size();
         size_t which = names.size();
         for ( size_t j = 0; j < names.size(); ++j ) if ( t.size() >= names[j].size() && t.compare(t.size() - names[j].size(), names[j].size(), names[j]) == 0 ) { which = j; k = t.size() - names[j].size(); }
         vp_assert(which < names.size(), "a printed term names a variable");
         if ( which >= names.size() ) return r;
         const std::string c = t.substr(0, k);
         r[which] += c.empty() || c == "+" ? 1 : c == "-" ? -1 : cli::toLong(c);
      }
      vp_assert(i + 2 == tok.size(), "a printed constraint has one right hand side");
      if ( i + 2 == tok.size() ) r[names.size()] = -cli::toLong(tok[i + 1]);
      return r;
   }
   Mat rowsOf(const cli::Section* s, const Family& f, bool facets)
   {
      Mat m;
      if ( s ) for ( auto& r : s->rows ) m.push_back(facets ? named(r, f.names) : [&]() { Vec v; for ( auto& t : r ) v.push_back(cli::toLong(t)); return v; }());
      return m;
   }
}

// an equation that every map of the family keeps
static Vec equation() { return vp_param("eq", 0) == 1 ? Vec{1, 1, 1, -3} : Vec{2, 1, 1, -2}; }

VP_HARNESS(p06_cli)
{
   const bool facets = vp_param("facets", 1) != 0;
   const Family f = family(vp_param("family", 0));
   const auto G = group(f);
   const Mat B = base(f);
   const int nb = (int)B.size(), ng = (int)G.size();
   Mat V;   // row g * nb + b
   for ( auto& g : G ) for ( auto& b : B ) V.push_back(facets ? image(g, b) : pullback(g, b));
   // permutation of the rows by left multiplication with h:  h(g b) = (hg) b;  inequalities: (b g) h = b (gh)
   std::vector<std::vector<int>> perm;
   for ( auto& h : G )
   {
      std::vector<int> p;
      for ( auto& g : G ) { const auto x = facets ? compose(h, g) : compose(g, h); const int k = (int)(std::find(G.begin(), G.end(), x) - G.begin()); for ( int b = 0; b < nb; ++b ) p.push_back(k * nb + b); }
      perm.push_back(p);
   }
   if ( !facets )
   {
      Mat D(V);
      if ( vp_param("eq", 0) ) D.push_back(equation());
      for ( auto& r : D ) { r.pop_back(); vp_assume(!geo::isZero(r)); }
      vp_assume(geo::rankAtLeast(D, (int)D[0].size()));
   }
   else for ( auto& v : V ) vp_assume(!geo::isZero(v));
   const int digits = (int)vp_param("digits", 1);
   const std::string equations = vp_param("eq", 0) ? "Equations:\n" + cli::rows({equation()}, 1) : std::string();
   auto text = [&](const Mat& m) {
      if ( !facets ) return equations + "Inequalities:\n" + cli::rows(m, digits);
      return cli::polyhedron(m, digits);
   };
   std::string input = header(f) + text(V);
   if ( vp_param("reduced", 0) )
   {
      input = header(f);
      Mat v, r;
      for ( auto& x : B ) (x.back() ? v : r).push_back(x);
      if ( !facets ) input += equations + "Reduced Inequalities:\n" + cli::rows(B, digits);
      else
      {
         if ( !v.empty() ) input += "Reduced Vertices:\n" + cli::lines(v, false, digits);
         if ( !r.empty() ) input += "\nReduced Rays:\n" + cli::lines(r, false, digits);
      }
   }
   vp::file("plain", text(V));
   vp::file("in", input);
   const auto d = cli::run({"-m", "ad", "plain"});
   vp_assert(d.rc == 0, "a valid input is processed");
   const bool dd = vp_param("dd", 0) != 0;
   const auto a = dd ? cli::run({"-m", "dd", "in"}) : cli::run({"-m", "ad", "-t", "1", "in"});
   vp_assert(a.rc == 0, "a valid input with maps is processed");
   vp_reach("both");
   const auto sd = cli::sections(d.out), sa = cli::sections(a.out);
   const Mat F = facets ? cli::inequalities(sd) : cli::vertices(sd);
   Mat R = facets ? rowsOf(cli::find(sa, "Reduced Inequalities:"), f, true) : rowsOf(cli::find(sa, "Reduced Vertices / Rays:"), f, false);
   if ( !facets && dd )
   {
      R.clear();
      if ( auto v = cli::find(sa, "Reduced Vertices:") ) R = cli::fractions(*v);
      if ( auto r = cli::find(sa, "Reduced Rays:") ) for ( auto x : cli::matrix(*r) ) { x.push_back(0); R.push_back(x); }
   }
   vp_note("all", (long)F.size()); vp_note("printed", (long)R.size());
   std::vector<std::vector<int>> tf, tr;
   for ( auto& x : F ) { std::vector<int> t; for ( auto& v : V ) t.push_back(geo::dot(x, v) == 0); tf.push_back(t); }
   for ( auto& x : R ) { std::vector<int> t; for ( auto& v : V ) t.push_back(geo::dot(x, v) == 0); tr.push_back(t); }
   for ( size_t r = 0; r < R.size(); ++r )
   {
      int in = 0;
      for ( auto& x : F ) in = vp_or(in, geo::equal(x, R[r]));
      // below full dimension a facet has several descriptions; the tight rows and validity identify it
      if ( vp_param("plane", 0) )
      {
         in = 0;
         int valid = 1;
         for ( auto& v : V ) valid = vp_and(valid, geo::dot(R[r], v) <= 0);
         for ( auto& t : tf ) { int same = valid; for ( size_t j = 0; j < V.size(); ++j ) same = vp_and(same, t[j] == tr[r][j]); in = vp_or(in, same); }
      }
      vp_assert(in, "each printed row is one of the facets (vertices)");
   }
   for ( size_t i = 0; i < F.size(); ++i )
   {
      long members = 0;
      for ( size_t r = 0; r < R.size(); ++r )
      {
         int orbit = 0;
         for ( int h = 0; h < ng; ++h )
         {
            int same = 1;
            for ( size_t j = 0; j < V.size(); ++j ) same = vp_and(same, tf[i][(size_t)perm[h][j]] == tr[r][j]);
            orbit = vp_or(orbit, same);
         }
         members += orbit;
      }
      vp_assert(members >= 1, "no orbit is missing");
      vp_assert(members <= 1, "one representative per orbit");
   }
}

template <typename Tag>
static void classOf(Tag tag, bool facet)
{
   const Family f = family(vp_param("family", 0));
   const auto G = group(f);
   const int n = (int)f.names.size() + 1;
   const long m = vp_param("m", 2);
   Vec v;
   for ( int i = 0; i < n; ++i ) v.push_back(i + 1 == n && vp_param("last", -1) >= 0 ? vp_param("last", -1) : vp::in("v", i, -m, m));
   vp_assume(geo::primitive(v, m));
   const Row<int> row(v.begin(), v.end());
   const auto cls = algorithm::getClass(row, mapsOf(f), tag);
   const Mat C = geo::mat(cls);
   vp_reach("both");
   vp_note("size", (long)C.size());
   Mat O;
   for ( auto& g : G ) O.push_back(facet ? pullback(g, v) : image(g, v));
   int all = 1;
   for ( auto& o : O ) { int in = 0; for ( auto& c : C ) in = vp_or(in, geo::equal(o, c)); all = vp_and(all, in); }
   vp_assert(all, "the class contains the whole orbit");
   all = 1;
   for ( auto& c : C ) { int in = 0; for ( auto& o : O ) in = vp_or(in, geo::equal(o, c)); all = vp_and(all, in); }
   vp_assert(all, "the class contains nothing but the orbit");
   const auto rep = algorithm::classRepresentative(row, mapsOf(f), tag);
   int in = 0;
   for ( auto& o : O ) in = vp_or(in, geo::equal(o, geo::vec(rep)));
   vp_assert(in, "the representative is a member");
   for ( auto& g : f.maps )   // the images under the generators have the same representative, hence the whole class has
   {
      const Vec o = facet ? pullback(g, v) : image(g, v);
      vp_assert(algorithm::classRepresentative(Row<int>(o.begin(), o.end()), mapsOf(f), tag) == rep, "all members have the same representative");
   }
   // one representative per class in a list of rows
   Matrix<int> list;
   for ( size_t i = 0; i < O.size() && i < 3; ++i ) list.push_back(Row<int>(O[i].begin(), O[i].end()));
   Row<int> second(row.size(), 0);
   second.back() = 1;
   list.push_back(second);
   const auto reps = algorithm::classes(list, mapsOf(f), tag);
   const auto rep2 = algorithm::classRepresentative(second, mapsOf(f), tag);
   vp_assert(reps.size() == (rep == rep2 ? 1u : 2u), "as many classes as orbits");
   for ( auto& r : reps ) vp_assert(r == rep || r == rep2, "classes are listed by their representatives");
}
VP_HARNESS(p06_class)
{
   if ( vp_param("facets", 1) ) classOf(tag::facet{}, true); else classOf(tag::vertex{}, false);
}
// large orbits: all permutations (and sign changes) of the coordinates, generated by few or by many maps
VP_HARNESS(p06_orbit)
{
   const size_t n = (size_t)vp_param("n", 5);
   Maps maps;
   auto permutation = [&](const std::vector<size_t>& p, size_t negative) {
      Map m;
      for ( size_t i = 0; i < n; ++i ) m.push_back(Image{Term{p[i], i == negative ? -1 : 1}});
      m.push_back(Image{Term{n, 1}});
      maps.push_back(m);
   };
   std::vector<size_t> one;
   for ( size_t i = 0; i < n; ++i ) one.push_back(i);
   if ( vp_param("many", 0) )
   {
      for ( size_t i = 0; i < n; ++i ) for ( size_t j = 0; j < i; ++j ) { auto p = one; std::swap(p[i], p[j]); permutation(p, n); }
   }
   else
   {
      auto p = one;
      std::swap(p[0], p[1]);
      permutation(p, n);
      p = one;
      std::rotate(p.begin(), p.begin() + 1, p.end());
      permutation(p, n);
   }
   const bool sign = vp_param("sign", 0) != 0;
   if ( sign ) permutation(one, 0);
   // distinct coordinates, but for one that is arbitrary
   Vec v;
   for ( size_t i = 0; i < n; ++i ) v.push_back(1 + (long)((i * 3) % n));
   const size_t at = (size_t)vp_param("at", 0);
   v[at] = vp_concrete(vp_sym("x", -1, (long)n));
   Vec sorted(v);
   std::sort(sorted.begin(), sorted.end());
   std::set<Row<int>> orbit;
   do
   {
      for ( size_t mask = 0; mask < (sign ? 1u << n : 1u); ++mask )
      {
         Row<int> r;
         for ( size_t i = 0; i < n; ++i ) r.push_back((int)(mask >> i & 1 ? -sorted[i] : sorted[i]));
         r.push_back((int)vp_param("last", -1));
         orbit.insert(r);
      }
   }
   while ( std::next_permutation(sorted.begin(), sorted.end()) );
   Row<int> row(v.begin(), v.end());
   row.push_back((int)vp_param("last", -1));
   vp_reach("both");
   vp_note("size", (long)orbit.size());
   const bool facet = vp_param("facets", 1) != 0;
   const auto cls = facet ? algorithm::getClass(row, maps, tag::facet{}) : algorithm::getClass(row, maps, tag::vertex{});
   vp_assert(cls == orbit, "the class is the orbit");
   const auto rep = facet ? algorithm::classRepresentative(row, maps, tag::facet{}) : algorithm::classRepresentative(row, maps, tag::vertex{});
   vp_assert(orbit.count(rep) == 1, "the representative is a member");
   const Row<int> other = vp_param("end", 0) ? *orbit.rbegin() : *orbit.begin();
   vp_assert((facet ? algorithm::classRepresentative(other, maps, tag::facet{}) : algorithm::classRepresentative(other, maps, tag::vertex{})) == rep, "all members have the same representative");
   // a list with many members of the class has one class
   Matrix<int> list;
   size_t k = 0;
   for ( auto& r : orbit ) if ( k++ % (size_t)vp_param("every", 1) == 0 ) list.push_back(r);
   const auto reps = facet ? algorithm::classes(list, maps, tag::facet{}) : algorithm::classes(list, maps, tag::vertex{});
   vp_assert(reps.size() == 1 && reps[0] == rep, "one representative of the class");
}
