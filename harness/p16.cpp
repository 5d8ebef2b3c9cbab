// The work list under every interleaving: worker threads take rows and put back
// the "neighbours" of each row, a further thread puts rows known beforehand.
#include "vp.h"
#include <thread>
#include <list>
#include <functional>
#include "matrix.h"
#include "names.h"
#include "tags.h"
#include "job_manager.h"

using namespace panda;

namespace
{
   // rows are {1} .. {rows}; a value outside does not occur
   const int MAXROWS = 40, MAXDEG = 40, MAXWORKERS = 24;
   long neighbour[MAXROWS + 1][MAXDEG];  // symbolic; 0: none
   std::vector<long> given[MAXWORKERS];  // per worker: the rows handed out
   int ended[MAXWORKERS];
   // observed in the order of the schedule; only where no race detection runs
   int busy, handed, handedAtEnd;
}

template <typename TagType>
static void worklist()
{
   const int rows = (int)vp_param("rows", 3), workers = (int)vp_param("workers", 2), known = (int)vp_param("known", 0), deg = (int)vp_param("deg", 1);
   const bool track = vp_param("track", 0) != 0, concrete = vp_param("concrete", 0) != 0;
   busy = handed = 0; handedAtEnd = -1;
   for ( int i = 0; i < MAXWORKERS; ++i ) { given[i].clear(); ended[i] = 0; }
   // graph: 0 every graph; otherwise one fixed family, the successor of one row remaining free
   const int graph = (int)vp_param("graph", 0), freeRow = (int)vp_param("free", 0);
   for ( int i = 1; i <= rows; ++i ) for ( int j = 0; j < deg; ++j )
   {
      if ( graph && !(i == freeRow && j == 0) )
      {
         neighbour[i][j] = graph == 1 ? (j == 0 && i < rows ? i + 1 : 0)           // one after the other
                         : graph == 2 ? (i == 1 && j + 2 <= rows ? j + 2 : 0)      // all from the first
                         : graph == 3 ? (i * (7 + 4 * j) + j) % rows + 1           // scattered
                         : 0;                                                      // none
         continue;
      }
      neighbour[i][j] = vp::in("next", i, j, 0, rows);
      if ( concrete ) neighbour[i][j] = vp_concrete(neighbour[i][j]);
   }
   // which rows have to be handed out: everything reachable from row 1
   int reach[MAXROWS + 1] = {0, 1};
   for ( int k = 0; k < (graph ? 1 : rows); ++k ) for ( int i = 1; i <= rows; ++i ) for ( int j = 0; j < deg; ++j ) for ( int n = 1; n <= rows; ++n )
      reach[n] = vp_or(reach[n], vp_and(reach[i], neighbour[i][j] == n));
   if ( graph ) // the fixed successors: plain reachability; the free row's successor adds what it reaches
   {
      long stack[2 * MAXROWS * MAXDEG]; int top = 0;
      int seen[MAXROWS + 1] = {0, 1};
      stack[top++] = 1;
      for ( int i = 0; i <= MAXROWS; ++i ) reach[i] = i == 1;
      while ( top )
      {
         const long r = stack[--top];
         for ( int j = 0; j < deg; ++j )
         {
            const long n = r == freeRow && j == 0 ? (neighbour[r][j] = vp_concrete(neighbour[r][j])) : neighbour[r][j];
            if ( n && !seen[n] ) { seen[n] = 1; reach[n] = 1; stack[top++] = n; }
         }
      }
   }
   long knownRow[2] = {0, 0};
   for ( int i = 0; i < known; ++i )
   {
      knownRow[i] = vp::in("known", i, 1, rows);
      if ( concrete ) knownRow[i] = vp_concrete(knownRow[i]);
      int ok = 0;
      for ( int n = 1; n <= rows; ++n ) ok = vp_or(ok, vp_and(reach[n], knownRow[i] == n));
      vp_assume(ok);
   }
   vp::Capture out(std::cout);
   {
      JobManager<int, TagType> manager(Names{}, 1, workers);
      auto body = [&](int me)
      {
         for ( ;; )
         {
            const Row<int> job = manager.get();
            if ( job.empty() )
            {
               ++ended[me];
               if ( track )
               {
                  vp_assert(busy == 0, "the end is signalled only when no worker is processing a row");
                  if ( handedAtEnd < 0 ) handedAtEnd = handed;
               }
               break;
            }
            vp_assert(job.size() == 1, "only rows that were put are handed out");
            given[me].push_back(job[0]);
            if ( track ) { ++busy; ++handed; vp_thread_yield(); --busy; }
            Matrix<int> result;
            for ( int j = 0; j < deg; ++j )
            {
               long n = 0;
               if ( graph ) n = neighbour[job[0]][j];
               else for ( int i = 1; i <= rows; ++i ) n = vp_ite(job[0] == i, neighbour[i][j], n);
               if ( n ) result.push_back(Row<int>{(int)n});
            }
            manager.put(result);
         }
      };
      std::list<std::thread> threads;
      const bool early = vp_param("early", 0) != 0;   // workers start before the first rows are there
      if ( early ) for ( int i = 0; i < workers; ++i ) threads.emplace_back(body, i);
      manager.put(Matrix<int>{Row<int>{1}});
      if ( known ) threads.emplace_back([&]() { for ( int i = 0; i < known; ++i ) manager.put(Row<int>{(int)knownRow[i]}); });
      if ( !early ) for ( int i = 0; i < workers; ++i ) threads.emplace_back(body, i);
      for ( auto& t : threads ) t.join();
   }
   vp_reach("ended");
   int once = 1, all = 1;
   long total = 0, expected = 0;
   for ( int i = 0; i < workers; ++i ) { vp_assert(ended[i] == 1, "every worker gets the end signal"); total += (long)given[i].size(); }
   for ( int r = 1; r <= rows; ++r )
   {
      long n = 0;
      for ( int i = 0; i < workers; ++i ) for ( long x : given[i] ) n += x == r;
      once = vp_and(once, n <= 1);
      all = vp_and(all, n == reach[r]);
      expected += reach[r];
   }
   vp_assert(once, "no row is handed out twice");
   vp_assert(all, "each distinct row that is put is handed out, and no other");
   if ( track ) vp_assert(handedAtEnd == handed, "no row is handed out after the end signal");
   const std::string text = out.str();
   long lines = 0;
   for ( char c : text ) lines += c == '\n';
   vp_assert(lines == expected, "each distinct row is printed exactly once");
}
VP_HARNESS(p16_facet) { worklist<tag::facet>(); }
VP_HARNESS(p16_vertex) { worklist<tag::vertex>(); }
