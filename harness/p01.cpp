#include "shapes.h"
#include "matrix.h"
#include "algorithm_fourier_motzkin_elimination.h"

using namespace panda;

// library level: double description of symbolic point sets
VP_HARNESS(p01_hull)
{
   const auto V = shapes::symbolic();
   for ( const auto& v : V ) vp_assume(!geo::isZero(v));
   vp_assume(geo::rankAtLeast(V, (int)V[0].size()));
   // inner points before the others: more points than a word of an incidence set has bits
   auto W = shapes::points(vp_param("inner", 0));
   W.insert(W.end(), V.begin(), V.end());
   const auto F = geo::mat(algorithm::fourierMotzkinElimination(Vertices<int>(shapes::as<int>(W))));
   vp_note("facets", (long)F.size());
   vp_reach("hull");
   geo::exactFacets(V, F, vp_param("primes", 13));
}

// command line level
#include "cli.h"
VP_HARNESS(p01_cli)
{
   auto V = shapes::symbolic();
   for ( const auto& v : V ) vp_assume(!geo::isZero(v));
   vp_assume(geo::rankAtLeast(V, (int)V[0].size()));
   vp::file("in", cli::polyhedron(V));
   const auto r = cli::run({"-m", "dd", "in"});
   vp_assert(r.rc == 0, "a valid input is processed");
   const auto s = cli::sections(r.out);
   vp_assert(s.size() == 1 && s[0].title == "Inequalities:", "the output is one list of inequalities");
   const auto F = cli::matrix(s[0]);
   vp_note("facets", (long)F.size());
   vp_reach("hull");
   geo::exactFacets(V, F, vp_param("primes", 13));
}
