#include "shapes.h"
#include "cli.h"

// command line, either method: equations and inequalities of possibly degenerate input
VP_HARNESS(p02_cli)
{
   auto V = shapes::symbolic();
   int anyVertex = 0;
   for ( const auto& v : V ) { vp_assume(!geo::isZero(v)); anyVertex = vp_or(anyVertex, v.back() != 0); }
   vp::file("in", cli::polyhedron(V));
   const auto r = cli::run({"-t", "1", "-m", vp_param("ad", 0) ? "ad" : "dd", "in"});
   vp_assert(r.rc == 0, "a valid input is processed");
   const auto s = cli::sections(r.out);
   for ( auto& x : s ) vp_assert(x.title == "Inequalities:" || x.title == "Equations:", "the output is made of equations and inequalities");
   const auto e = cli::find(s, "Equations:");
   const auto f = cli::find(s, "Inequalities:");
   vp_assert(f != nullptr, "there is a list of inequalities");
   const auto F = cli::matrix(*f);
   const auto E = e ? cli::matrix(*e) : geo::Mat{};
   vp_note("facets", (long)F.size());
   vp_note("equations", (long)E.size());
   vp_reach(E.empty() ? "full" : "lower");
   vp_reach("hull");
   geo::exactDescription(V, E, F, vp_param("primes", 7));
}
