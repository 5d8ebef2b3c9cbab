#include "shapes.h"
#include "cli.h"

// Vertex enumeration on the command line, either method.  The vertices and rays
// of { x : Rx <= 0 } are the facet normals of the cone spanned by the rows of R
// and (0, ..., 0, -1).
static void farRow(geo::Mat& R)
{
   geo::Vec far(R[0].size(), 0);
   far.back() = -1;
   R.push_back(far);
}
VP_HARNESS(p03_cli)
{
   auto R = shapes::symbolicH();
   const int n = (int)R[0].size();
   for ( const auto& r : R ) vp_assume(!geo::isZero(r));
   // a row 0*x + b <= 0 is left to P19
   for ( const auto& r : R ) { auto t = r; t.pop_back(); vp_assume(!geo::isZero(t)); }
   geo::Mat C(R), D(R);
   farRow(C);
   // pointed: the rows (without their last column) have full rank
   for ( auto& r : D ) r.pop_back();
   vp_assume(geo::rankAtLeast(D, n - 1));
   vp::file("in", "Inequalities:\n" + cli::rows(R, (int)vp_param("digits", 1)));
   const auto r = cli::run({"-t", "1", "-m", vp_param("ad", 0) ? "ad" : "dd", "in"});
   vp_assert(r.rc == 0, "a valid input is processed");
   const auto s = cli::sections(r.out);
   for ( auto& x : s ) vp_assert(x.title == "Vertices:" || x.title == "Rays:" || x.title == "Vertices / Rays:", "the output is made of vertices and rays");
   const auto F = cli::vertices(s);
   int vertices = 0;
   for ( auto& f : F ) vertices = vp_or(vertices, f.back() > 0);
   vp_note("rows", (long)F.size());
   vp_reach("hull");
   if ( F.empty() ) vp_reach("empty");
   geo::exactDescription(C, {}, F, vp_param("primes", 13), true);
}
// equations written as such
VP_HARNESS(p03_eq)
{
   auto R = shapes::symbolicH();
   const int n = (int)R[0].size();
   const size_t k = (size_t)vp_param("equations", 1);   // the first k rows are equations
   for ( const auto& r : R ) { auto t = r; t.pop_back(); vp_assume(!geo::isZero(t)); }
   geo::Mat E(R.begin(), R.begin() + (long)k), I(R.begin() + (long)k, R.end()), C(R), D(R);
   for ( auto e : E ) { for ( auto& x : e ) x = -x; C.push_back(e); }
   farRow(C);
   for ( auto& r : D ) r.pop_back();
   vp_assume(geo::rankAtLeast(D, n - 1));
   vp::file("in", "Equations:\n" + cli::rows(E) + "\nInequalities:\n" + cli::rows(I));
   const auto r = cli::run({"-t", "1", "-m", vp_param("ad", 0) ? "ad" : "dd", "in"});
   vp_assert(r.rc == 0, "a valid input is processed");
   const auto F = cli::vertices(cli::sections(r.out));
   vp_note("rows", (long)F.size());
   vp_reach("hull");
   geo::exactDescription(C, {}, F, vp_param("primes", 13), true);
}
