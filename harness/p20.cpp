// Maps: reading and applying them.
#include "lines.h"
#include "algorithm_inequality_operations.h"
#include "algorithm_map_operations.h"
#include "algorithm_row_operations.h"
#include "big_integer.h"
#include "input_common.h"
#include "input_keywords.h"
#include "input_map.h"
#include "safe_integer.h"

using namespace panda;

namespace
{
   const char* const T[] = {
      "~#x ~#y", "_~#y+#x-2_x~#", "~##_x+y~#", "x~#-y+# ~#", "-x-y+1 1-x",                // 0: documented, names x y
      "x ??", "?? y", "x ?2?", "x+? y", "x?y y", "x? ?y", "2?x y", "x y?", "x y ??", "?", "x-? y+?", "-? 1?",    // 5:
      "214748364#x y", "x-214748364# y", "x+3999999999# y",                           // 17:
      "~#x1 ~x10", "x1+x10 ~#x10-x1", "x1? x10", "x?? x10",                        // 20: names x10 x1
      "~#a+#b-c ~b #c~2", "b c ?", "a b c? a", "a?b c",                             // 24: names a b c
      "429496729#x y", "x-429496729# y", "~1844674407370955161#y x", "x y+1844674407370955161#", "00000000000000000000#x 000000000000y",     // 28: wide, names x y
      "~#x+~#x y", "x+#y-#x+#y y-y", "x+#-# y+~#x+#", "x y+x??y",                      // 33: repeated terms
      "v1 v2 v3 v4 v5 v6 v7 v8 v9 v10 v11 v12-#v1#", "v12 ~v11 #v10 v9 v8-v#1 v7 v6 v5 v4 v3 v2 v1", "v1 v2 v3 v4 v5 v6 v7 v8 v9 v10 v11 v?? ", "v1 v2 v3 v4 v5 v6 v7 v8 v9 v10 v11",  // 37: names v1 .. v12
   };
   lines::Strings names(int t)
   {
      if ( t >= 37 ) { lines::Strings r; for ( int i = 1; i <= 12; ++i ) r.push_back("v" + std::to_string(i)); return r; }
      return t >= 28 ? lines::Strings{"x", "y"} : t < 20 ? lines::Strings{"x", "y"} : t < 24 ? lines::Strings{"x10", "x1"} : lines::Strings{"a", "b", "c"};
   }

   // coefficients of an image over the names and the constant
   std::vector<long> coefficients(const Image& image, size_t n)
   {
      std::vector<long> r(n + 1, 0);
      for ( const auto& t : image ) { vp_assert(t.first <= n, "a term refers to a coordinate or the constant"); r[t.first] += t.second; }
      return r;
   }
   int sameMap(const Map& m, const std::vector<std::vector<long>>& images, size_t n)
   {
      vp_assert(m.size() == n + 1, "a map has an image for every coordinate and the constant");
      int ok = 1;
      for ( size_t i = 0; i < n; ++i )
      {
         const auto c = coefficients(m[i], n);
         for ( size_t j = 0; j <= n; ++j ) ok = vp_and(ok, c[j] == images[i][j]);
      }
      const auto c = coefficients(m[n], n);
      for ( size_t j = 0; j <= n; ++j ) ok = vp_and(ok, c[j] == (j == n));
      return ok;
   }
}

VP_HARNESS(p20_line)
{
   const int t = (int)vp_param("t", 0);
   const lines::Strings ns = names(t);
   const size_t pad = (size_t)vp_param("pad", 0);
   const std::string s = std::string(pad, ' ') + lines::fill(T[t]) + std::string(pad, ' ');
   if ( input::implementation::isKeyword(input::trimWhitespace(s)) ) vp_skip();   // see P25
   const lines::MapReading r = lines::map(s, ns);
   const bool first = vp_param("first", 0) != 0;
   std::string next;
   for ( size_t i = ns.size(); i-- > 0; ) next += ns[i] + " ";
   // further maps: the first coordinate is shifted
   const int more = (int)vp_param("more", 0);
   std::string between;
   for ( int i = 0; i < more; ++i ) { between += ns[0] + "-" + std::to_string(i + 1); for ( size_t j = 1; j < ns.size(); ++j ) between += " " + ns[j]; between += "\n"; }
   const std::string file = std::string("Maps:\n") + (first ? "\n" + s + "\n" + between + next : next + "\n" + between + s) + "\n\nEND\nVertices\n1 2 3\n";
   std::istringstream in(file);
   Maps maps;
   bool thrown = false;
   try { maps = input::implementation::maps(in, Names(ns.begin(), ns.end())); }
   catch ( const std::invalid_argument& ) { thrown = true; }
   if ( thrown ) { vp_reach("rejected"); vp_assert(r.level < 2, "a map of the documented form is accepted"); return; }
   vp_assert(r.level > 0, "a line that is no map is rejected");
   vp_reach("accepted");
   const size_t k = r.images.empty() ? 0 : 1;
   vp_assert(maps.size() == k + 1 + more, "every line is one map");
   for ( int i = 0; i < more; ++i )
   {
      std::vector<std::vector<long>> shift(ns.size(), std::vector<long>(ns.size() + 1, 0));
      for ( size_t j = 0; j < ns.size(); ++j ) shift[j][j] = 1;
      shift[0][ns.size()] = -(i + 1);
      vp_assert(sameMap(maps[(first ? k : 1) + i], shift, ns.size()), "a further map is not affected");
   }
   if ( k ) vp_assert(sameMap(maps[first ? 0 : 1 + more], r.images, ns.size()), "the map read sends every coordinate to the written expression");
   std::vector<std::vector<long>> reversed(ns.size(), std::vector<long>(ns.size() + 1, 0));
   for ( size_t i = 0; i < ns.size(); ++i ) reversed[i][ns.size() - 1 - i] = 1;
   vp_assert(sameMap(maps[first ? k + more : 0], reversed, ns.size()), "the other map is not affected");
   std::string rest;
   std::getline(in, rest);
   vp_assert(rest == "Vertices", "the section ends at its end");
}

namespace
{
   template <typename T> T make(long v) { return T(int(v)); }
   // symbolic if in the mask, a value given by the pattern otherwise
   long chosen(const char* name, int i, long lo, long hi, long mask, long value)
   {
      if ( (mask >> i) & 1 ) return vp::in(name, i, lo, hi);
      return lo + (value * 7 + vp_param("pattern", 0) * 3) % (hi - lo + 1);
   }
   typedef std::vector<long> Vec;
   // is the row the smallest integral positive multiple of v
   template <typename T>
   void direction(const Row<T>& row, const Vec& v, const char* what)
   {
      vp_assert(row.size() == v.size(), "the image has the same length");
      int zero = 1;
      for ( auto x : v ) zero = vp_and(zero, x == 0);
      if ( zero ) { int z = 1; for ( auto& x : row ) z = vp_and(z, x == T(0)); vp_assert(z, "the image of everything that vanishes is zero"); return; }
      long g = 0;
      for ( auto x : v )
      {
         long a = x < 0 ? -x : x, b = g;
         while ( b != 0 ) { const long r = a % b; a = b; b = r; }
         g = a;
      }
      int ok = 1;
      for ( size_t i = 0; i < v.size(); ++i ) ok = vp_and(ok, row[i] * make<T>(g) == make<T>(v[i]));
      vp_assert(ok, what);
   }
   template <typename T>
   void applying()
   {
      const int n = (int)vp_param("n", 2);
      const long m = vp_param("m", 1), k = vp_param("k", 2);
      // terms: every coordinate has all terms (order: reversed for odd images), or some are repeated
      Map map;
      std::vector<Vec> A;
      for ( int i = 0; i < n; ++i )
      {
         Vec a;
         Image image;
         for ( int j = 0; j <= n; ++j ) a.push_back(0);
         for ( int q = 0; q <= n; ++q )
         {
            const int j = i % 2 ? n - q : q;
            if ( vp_param("diagonal", 0) && j != n && j != (i + 1) % n ) continue;
            const long c = chosen("a", i * (n + 1) + j, -m, m, vp_param("sa", 0), 3 * i + 5 * j);
            a[j] += c;
            image.emplace_back((Index)j, (Factor)c);
         }
         if ( vp_param("repeat", 0) ) { const long c = chosen("b", i, -m, m, vp_param("sb", 0), i); image.emplace_back((Index)i, (Factor)c); a[i] += c; }
         A.push_back(a);
         map.push_back(image);
      }
      map.push_back(Image{Term((Index)n, 1)});
      Vec last(n + 1, 0);
      last[n] = 1;
      A.push_back(last);
      Vec v, f;
      Row<T> V, F;
      for ( int i = 0; i <= n; ++i ) { const long lo = i == n ? 0 : -k, x = chosen("v", i, lo, k, vp_param("sv", 15), 2 * i); v.push_back(x); V.push_back(make<T>(x)); }
      for ( int i = 0; i <= n; ++i ) { const long x = chosen("f", i, -k, k, vp_param("sf", 15), 4 * i); f.push_back(x); F.push_back(make<T>(x)); }
      Vec image(n + 1, 0), pull(n + 1, 0);
      for ( int i = 0; i <= n; ++i ) for ( int j = 0; j <= n; ++j ) { image[i] += A[i][j] * v[j]; pull[j] += A[i][j] * f[i]; }
      vp_reach("applied");
      const int what = (int)vp_param("what", 0);
      if ( what == 0 ) direction(algorithm::apply(map, V, tag::vertex{}), image, "the image of a point or direction is the one of the affine map, in lowest terms");
      if ( what == 1 ) direction(algorithm::apply(map, F, tag::facet{}), pull, "the image of an inequality is the inequality of the mapped points, in lowest terms");
      if ( what == 2 )
      {
         const T a = algorithm::distance(algorithm::apply(map, F, tag::facet{}), V), b = algorithm::distance(F, algorithm::apply(map, V, tag::vertex{}));
         vp_assert(vp_and((a > T(0)) == (b > T(0)), (a < T(0)) == (b < T(0))), "a point satisfies the image of an inequality iff its image satisfies the inequality");
      }
   }
}
VP_HARNESS(p20_apply) { switch ( vp_param("type", 32) ) { case 32: applying<int>(); break; case 64: applying<int64_t>(); break; case 16: applying<int16_t>(); break; case 1: applying<SafeInteger>(); break; case 2: applying<BigInteger>(); break; } }
