#include "shapes.h"
#include "matrix.h"
#include "tags.h"
#include "algorithm_fourier_motzkin_elimination.h"
#include "algorithm_rotation.h"

using namespace panda;

// tight[i][j]: row i of F is tight at row j of V;  adjacency of rows by the rank of what they share
static std::vector<std::vector<int>> incidence(const geo::Mat& V, const geo::Mat& F)
{
   std::vector<std::vector<int>> t;
   for ( auto& f : F ) { std::vector<int> r; for ( auto& v : V ) r.push_back(geo::dot(f, v) == 0); t.push_back(r); }
   return t;
}
static int minorNonZero(const geo::Mat& V, const std::vector<int>& s)
{
   const int n = (int)V[0].size(), k = (int)s.size();
   if ( k == 0 ) return 1;
   int any = 0;
   auto c = geo::firstSubset(k);
   do any = vp_or(any, geo::det(V, s, c) != 0); while ( geo::nextSubset(c, n) );
   return any;
}

// Rotation of every facet of a polytope (or of every vertex of a simple
// description: the roles of points and inequalities are interchangeable).
template <typename TagType>
static void rotationOf(const geo::Mat& V, TagType tag)
{
   const int n = (int)V[0].size(), N = (int)V.size();
   const auto M = shapes::as<int>(V);
   const auto facets = algorithm::fourierMotzkinElimination(Vertices<int>(M));
   const auto F = geo::mat(facets);
   vp_note("facets", (long)F.size());
   vp_reach("hull");
   const auto t = incidence(V, F);
   std::vector<int> rank;   // of the (n-2)-subsets of points
   std::vector<std::vector<int>> subsets;
   auto s = geo::firstSubset(n - 2);
   do { subsets.push_back(s); rank.push_back(minorNonZero(V, s)); } while ( geo::nextSubset(s, N) );
   for ( size_t i = 0; i < F.size(); ++i )
   {
      const auto R = geo::mat(algorithm::rotation(M, facets[i], Maps{}, tag));
      std::vector<int> seen(R.size(), 0);
      for ( size_t k = 0; k < F.size(); ++k ) if ( k != i )
      {
         int adjacent = 0;
         for ( size_t q = 0; q < subsets.size(); ++q )
         {
            int all = rank[q];
            for ( int j : subsets[q] ) all = vp_and(all, vp_and(t[i][(size_t)j], t[k][(size_t)j]));
            adjacent = vp_or(adjacent, all);
         }
         int found = 0;
         for ( size_t r = 0; r < R.size(); ++r )
         {
            const int same = geo::equal(R[r], F[k]);
            found = vp_or(found, same);
            seen[r] = vp_or(seen[r], vp_and(same, adjacent));
         }
         vp_assert(vp_or(!adjacent, found), "rotation finds every adjacent facet");
      }
      for ( size_t r = 0; r < R.size(); ++r )
      {
         vp_assert(seen[r], "rotation returns adjacent facets in lowest terms and nothing else");
         for ( size_t q = 0; q < r; ++q ) vp_assert(!geo::equal(R[q], R[r]), "rotation returns no facet twice");
      }
   }
}
VP_HARNESS(p04_facets)
{
   const auto V = shapes::symbolic();
   vp_assume(geo::rankAtLeast(V, (int)V[0].size()));
   rotationOf(V, tag::facet{});
}
VP_HARNESS(p04_vertices)
{
   const auto V = shapes::symbolicH();
   for ( auto& v : V ) vp_assume(!geo::isZero(v));
   vp_assume(geo::rankAtLeast(V, (int)V[0].size()));
   // a polytope: no row combination vanishes, i.e. the origin of the dual is interior - take the shapes as they are
   rotationOf(V, tag::vertex{});
}
