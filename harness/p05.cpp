#include "shapes.h"
#include "cli.h"

// Adjacency decomposition against double description, with symbolic input and,
// where the executor explores schedules, every interleaving of the workers.
static geo::Mat rowsOf(const std::vector<cli::Section>& s, bool facets) { return facets ? cli::inequalities(s) : cli::vertices(s); }
VP_HARNESS(p05_cli)
{
   const bool facets = vp_param("facets", 1) != 0;
   auto M = facets ? shapes::symbolic() : shapes::symbolicH();
   for ( const auto& v : M ) vp_assume(!geo::isZero(v));
   if ( !facets )
   {
      geo::Mat D(M);
      for ( auto& r : D ) { r.pop_back(); vp_assume(!geo::isZero(r)); }
      vp_assume(geo::rankAtLeast(D, (int)D[0].size()));
   }
   // optionally scaled, so that intermediate results leave the range of machine integers; maps; integer type
   const long scale = vp_param("scale", 1), type = vp_param("type", -1), family = vp_param("family", -1);
   if ( scale != 1 ) for ( auto& r : M ) { if ( facets ) { if ( r.back() != 0 ) for ( size_t j = 0; j + 1 < r.size(); ++j ) r[j] *= scale; } else r.back() *= scale; }
   const std::string head = family < 0 ? "" : family == 0 ? "Names:\nx y\nMaps:\ny x\n" : "Names:\nx y z\nMaps:\ny z x\ny x z\n";
   std::vector<std::string> dd{"-m", "dd", "in"}, ad{"-m", "ad", "-t", vp::num(vp_param("threads", 1)), "in"};
   if ( type >= 0 ) for ( auto a : {&dd, &ad} ) { static const char* const types[] = {"16", "32", "64", "safe", "inf"}; a->push_back("-i"); a->push_back(types[type]); }
   vp::file("in", head + (facets ? cli::polyhedron(M, scale > 9999999 ? 10 : scale > 1 ? 8 : 1) : "Inequalities:\n" + cli::rows(M, scale > 9999999 ? 10 : scale > 1 ? 8 : 1)));
   const auto d = cli::run(dd);
   const auto a = cli::run(ad);
   vp_assert(d.rc == 0 && a.rc == 0, "a valid input is processed by both methods");
   vp_reach("both"); vp_reach("hull");
   const auto sd = cli::sections(d.out), sa = cli::sections(a.out);
   if ( family >= 0 && facets ) // with names
   {
      auto text = [](const std::vector<cli::Section>& ss) { std::vector<std::string> r; for ( auto& x : ss ) for ( auto& row : x.rows ) { std::string t = x.title; for ( auto& k : row ) t += " " + k; r.push_back(t); } std::sort(r.begin(), r.end()); return r; };
      vp_assert(text(sa) == text(sd), "both methods print the same classes");
      return;
   }
   const auto D = rowsOf(sd, facets), A = rowsOf(sa, facets);
   vp_note("rows", (long)A.size());
   geo::sameRows(A, D, "adjacency decomposition finds everything double description finds", "adjacency decomposition prints nothing twice", "adjacency decomposition prints nothing that double description does not");
   const auto ed = cli::find(sd, "Equations:"), ea = cli::find(sa, "Equations:");
   vp_assert((ed != nullptr) == (ea != nullptr), "both methods agree on whether there are equations");
   if ( ed && ea ) geo::sameRows(cli::matrix(*ea), cli::matrix(*ed), "both methods print the same equations", "no equation is printed twice", "both methods print the same equations");
}
