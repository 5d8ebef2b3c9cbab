// Vertex and ray lines.
#include "lines.h"
#include "input_common.h"
#include "input_keywords.h"
#include "input_vertex.h"

using namespace panda;

namespace
{
   const char* const T[] = {
      "~# ~# ~#", "~## _#", "(a 1) ~# ~#_", "~#/2 ~#", "~#/3 ~#/2", "~1/# ~2/3", "~#/## 1", "_1/#_~2/#",      // 0: documented
      "1 ?? 3", "1??2 1", "?? 1", "1 ??", "?1/2? 3", "(?? 1 2", "1/2 ?/3", "1/?? 1", "1 2/?", "1/2?/3", "???? 1", "1 ????",     // 8:
      "214748364# 1/2", "214748364# ~214748364#", "1/214748364# 1/#", "2147#83648 0", "1/46341 1/4634#", "~1/46349 ~214748364#/46337", "# ~#9999999999", "1/-# 1", "1 / # 1",      // 20:
      "42949672## 1", "~42949672## 1/2", "1/42949672## 1", "1844674407370955161# 0", "922337203685477580# 1 ~#", "184467440737095516## ~2", "1 18446744073709551617/#", "000000000000000000000# 000/1", "1/0000000000000000# #", "~340282366920938463463374607431768211456 #",   // 29: wide
      "1/2 1 ~1/3 2 1/5 0 #/7 3/4 1/#", "1/3 2/3 1/2 ~5/6 1/4 3/4 1/2 1/2 ~#/5", "~1 2 3 4 5 6 7 8 9 #/# 11 12", "1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 ~# 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 ~#/2 33",   // 39: long
      "1/2 1/3 1/5 1/7 1/11 1/13 1/17 1/19 #", "1/2 1/3 1/5 1/7 1/11 1/13 1/17 1/19 1/23 #", "0/2 0/# 0/5 #/11 0/7 0/3 0/# #", "(?)", "(a)_", "(a 1)?", "(?", "?", "(a)??",   // 46: no entry
   };
   struct Out { bool thrown; Matrix<int> rows; std::string rest; };
   template <typename F> Out run(const std::string& file, F f)
   {
      Out o;
      o.thrown = false;
      std::istringstream stream(file);
      try { o.rows = f(stream); } catch ( const std::invalid_argument& ) { o.thrown = true; }
      std::getline(stream, o.rest);
      return o;
   }
   void compare(const lines::Point& p, const Row<int>& row, bool ray)
   {
      vp_assert(row.size() == p.v.size() + 1, "a line becomes a row of its length");
      int ok = 1;
      if ( ray )
      {
         vp_assert(row.back() == 0, "a ray is a direction");
         // proportional with a positive factor
         for ( size_t i = 0; i < p.v.size(); ++i )
         {
            const long num = vp_ite(p.v[i].d < 0, -p.v[i].n, p.v[i].n);
            ok = vp_and(ok, vp_and((row[i] > 0) == (num > 0), (row[i] < 0) == (num < 0)));
            for ( size_t j = 0; j < i; ++j )
               ok = vp_and(ok, (__int128)row[i] * p.v[j].n * p.v[i].d == (__int128)row[j] * p.v[i].n * p.v[j].d);
         }
         vp_assert(ok, "the row of a ray is the direction written");
      }
      else
      {
         vp_assert(row.back() > 0, "the row of a point has a positive scale");
         for ( size_t i = 0; i < p.v.size(); ++i ) ok = vp_and(ok, (__int128)row[i] * p.v[i].d == (__int128)p.v[i].n * row.back());
         vp_assert(ok, "the row of a point is the point written");
      }
   }
   // is there a row of ints for the point at all
   int representable(const lines::Point& p)
   {
      for ( auto& f : p.v ) vp_concrete(f.d);
      __int128 common = 1;
      for ( auto& f : p.v )
      {
         __int128 a = common, b = f.d < 0 ? -f.d : f.d;
         while ( b != 0 ) { const __int128 r = a % b; a = b; b = r; }
         common = common / a * (f.d < 0 ? -f.d : f.d);
      }
      int ok = common <= lines::LIMIT;
      for ( auto& f : p.v ) { const __int128 x = common / f.d * f.n; ok = vp_and(ok, vp_and(x <= lines::LIMIT, x >= -lines::LIMIT - 1)); }
      return ok;
   }
}

VP_HARNESS(p13_line)
{
   const size_t pad = (size_t)vp_param("pad", 0);
   const std::string s = std::string(pad, ' ') + lines::fill(T[vp_param("t", 0)]) + std::string(pad, ' ');
   const bool ray = vp_param("ray", 0) != 0, first = vp_param("first", 0) != 0;
   if ( input::implementation::isKeyword(input::trimWhitespace(s)) ) vp_skip();   // see P25
   const lines::Point p = lines::point(s);
   const std::string next = "-7 8";
   // further lines, each with a fraction
   const int more = (int)vp_param("more", 0);
   std::string lines;
   for ( int i = 0; i < more; ++i ) lines += "(" + std::to_string(i) + ") " + std::to_string(i - 3) + "/" + std::to_string(i % 5 + 2) + " 1 -" + std::to_string(i) + "\n";
   const std::string file = std::string(ray ? "Rays:\n" : "Vertices:\n") + (first ? "\n" + s + "\n" + lines + next : next + "\n" + lines + s) + "\n\nEND\nInequalities\n1 2 3\n";
   const Out o = run(file, [&](std::istream& in) { return ray ? input::implementation::verticesConical(in) : input::implementation::verticesConvex(in); });
   if ( o.thrown )
   {
      vp_reach("rejected");
      // rows that do not fit are refused, and a line that does not represent its point exactly may not be accepted
      vp_assert(p.level < 2 || !representable(p), "a line of the documented form is accepted");
      return;
   }
   vp_assert(p.level > 0, "a malformed line is rejected");
   vp_reach("accepted");
   const size_t k = p.v.empty() ? 0 : 1;
   vp_assert(o.rows.size() == k + 1 + more, "every line is one row");
   if ( k ) compare(p, o.rows[first ? 0 : 1 + more], ray);
   const Row<int>& other = o.rows[first ? k + more : 0];
   for ( int i = 0; i < more; ++i )
   {
      const Row<int>& r = o.rows[(first ? k : 1) + i];
      const int d = i % 5 + 2;
      vp_assert(r.size() == 4, "a further line becomes a row of its length");
      if ( ray ) vp_assert(r[3] == 0 && r[1] > 0 && r[0] * d == r[1] * (i - 3) && r[2] == -i * r[1], "a further line is not affected");
      else vp_assert(r[3] > 0 && r[0] * d == r[3] * (i - 3) && r[1] == r[3] && r[2] == -i * r[3], "a further line is not affected");
   }
   vp_assert(other.size() == 3 && other[0] == -7 && other[1] == 8 && other[2] == (ray ? 0 : 1), "the other line is not affected");
   vp_assert(o.rest == "Inequalities", "the section ends at its end");
}
