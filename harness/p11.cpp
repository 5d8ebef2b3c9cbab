// Constraint lines: named and unnamed, documented forms and arbitrary characters in any place.
#include "lines.h"
#include <map>
#include "input_constraint.h"
#include "input_common.h"
#include "input_keywords.h"

using namespace panda;

namespace
{
   const char* const NAMED[] = {
      "~#x ~#y <= ~#",            // 0: all signs and digits
      "-x +#y >= ~##",
      "(c 1) x - #y_<= #",
      "_+ x_-_#y >= -#_",
      "#x#y <= 1",
      "y ~#x <= 0",               // 5
      "??x <= 3", "x ?? 3", "x <= ???", "?x? <= 1", "x y?<= 1",
      "x ?y <= 1", "x <= 1??", "(?? x <= 1", "x?= 2", "x ~? y <= 1",      // 11..
      "x <= 214748364#", "x <= -214748364#", "214748364#x <= 1", "-214748364#x y >= 1", "x <= 3#9999999999",   // 16..
      "x <= ? 1", "x +y <= 1 ?", "y <= y ?", "# ~# ~#", "(x) # ~# ~#",    // 21..
      "~#x1 ~x10 <= #", "x1 <= #", "~x10 >= #", "x? <= 1", "~#a ~#ab <= #", "#ab <= 1", "?b <= 1",       // 26..: other names
      "~#x -#y #z <= ~#", "?\?<?", "x<?1 ?",       // 33..
      // 36: names mentioned more than once, constants on both sides
      "x y ?x <= 1", "x ~#y ~#x <= 3", "?? y ?? <= 1", "~#x ~#x ~#x <= #", "y ~#x y ~#x <= ~#", "x ?? ?? <= 1", "x y <= y ?x", "~#x ~# <= ~# ~#x",
      // 44: wide numbers
      "42949672##x <= 1", "x <= ~42949672##", "~42949672##x ~y >= 1", "1844674407370955161#x <= 0", "x <= 1844674407370955161#", "~214748364#x <= ~214748364#", "10000000##x <= 1", "00000000000000000000#x <= 000000000000000#",
   };
   const char* const NAMED3[] = { "~#x #y #z ~#x <= 1", "2x -#y +3z ?? <= 1", "z ~#y z <= #", "?x ?y ?z <= 1", "y ?? z <= 1" };
   // names v1 ... vN
   const char* const MANY[] = { "~#v1 #v## <= 1", "#v## ~#v#1 <= 1", "v1 ~#v?? <= 1", "~#v#0 v#1 v#2 v#3 >= #", "~v1 ~v2 ~v3 ~v4 ~v5 ~v6 ~v7 ~v8 <= #", "?v12 ??v3 <= 1" };
   const char* const UNNAMED[] = {
      "~# ~# ~#", "~## # -#", "(c 1) ~# # <= ~#", "_#_~# >= ~#_", "# # <= #", "(?) 1 #",
      "1 ?? 3", "1 2 ??", "?? 2 3", "1 2 <= ??", "1 ?= 2", "1 2 ?? 3", "(?? 1", "1 2147#83648 1",
      "1 -214748364# 1", "1 2 >= -214748364#", "-214748364# >= 0", "1?2 3", "???", "1 <= 3 ??",
      "1 2 3 4 5 6 7 8 9 ~# 11 12 ~#", "~# 2 3 4 5 6 7 8 9 10 11 12 <= ~#", "1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 ~#7 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 ~#3 34 >= ~#", "0 0 0 0 0 0 0 0 0 0 0 ?# ?",   // 20: long
   };
   const char* const EQUATIONS[] = { "~#x ~#y = ~#", "x - #y == ~#_", "x ?? 1", "x ?#y = 1", "x = ???", "x ?= 2 ?", "x =?1" };
   const char* const WIDE[] = { "42949672## 1", "1 ~42949672## <= ~1", "1844674407370955161# 1 <= ~#", "# <= 1844674407370955161#", "922337203685477580# 1 2", "10000000## 1", "~0000000000000000000# 1" };
   const char* const UNNAMED_EQUATIONS[] = { "~# # = ~#", "# ~# ~#", "1 ?? 3", "1 2 = ??", "(?) # == ~#" };

   void line(const char* text, const lines::Strings& names, bool equation, bool plain)
   {
      const size_t pad = (size_t)vp_param("pad", 0);   // blanks around the line
      const std::string s = std::string(pad, ' ') + lines::fill(text) + std::string(pad, ' ');
      if ( input::implementation::isKeyword(input::trimWhitespace(s)) ) vp_skip();   // see P25
      Names n(names.begin(), names.end());
      const std::string second = names.empty() || plain ? (equation ? "1 2 3 = 4" : "1 2 3 <= 4") : names[0] + (equation ? " = 4" : " <= 4");
      // further lines between the two
      const int more = (int)vp_param("more", 0);
      lines::Strings others;
      std::string between;
      for ( int j = 0; j < more; ++j )
      {
         const std::string v = std::to_string(j + 2), rel = equation ? " = " : j % 3 == 1 ? " >= " : " <= ";
         others.push_back(names.empty() || plain ? "(" + v + ") " + v + " -1 " + v + rel + "-" + v : "(" + v + ")\t" + v + names[j % names.size()] + rel + "-" + v);
         between += others.back() + "\n";
      }
      const std::string file = std::string(equation ? "Equations:\n" : "Inequalities:\n") + s + "\n" + between + second + "\n\nEND\nVertices\nx y\n";
      // a constraint refers to names iff it has characters that no row of numbers has
      lines::Reading r{0, {}};
      size_t i = 0;
      if ( lines::identifier(s, i) )
      {
         bool other = false;
         for ( ; i < s.size(); ++i ) if ( !lines::space(s[i]) && !lines::digit(s[i]) && !lines::sign(s[i]) && !lines::relationChar(s[i]) ) other = true;
         r = other && !names.empty() ? lines::named(s, names, equation) : lines::unnamed(s, equation);
      }
      std::istringstream stream(file);
      Matrix<int> rows;
      bool thrown = false;
      try
      {
         if ( equation ) rows = input::implementation::constraints<ConstraintType::Equation>(stream, n);
         else rows = input::implementation::constraints<ConstraintType::Inequality>(stream, n);
      }
      catch ( const std::invalid_argument& ) { thrown = true; }
      if ( thrown ) { vp_reach("rejected"); vp_assert(r.level < 2, "a constraint of the documented form is accepted"); return; }
      vp_assert(r.level > 0, "a line that is no constraint is rejected");
      vp_reach("accepted");
      size_t k = 0;
      if ( !r.row.empty() )
      {
         vp_assert(rows.size() >= 1 && rows[0].size() == r.row.size(), "a constraint becomes a row of its length");
         int ok = 1;
         for ( size_t j = 0; j < r.row.size(); ++j ) ok = vp_and(ok, rows[0][j] == r.row[j]);
         vp_assert(ok, "the row parsed has the solutions of the written constraint");
         ++k;
      }
      vp_assert(rows.size() == k + 1 + more, "every line is one row");
      for ( int j = 0; j < more; ++j, ++k )
      {
         const lines::Reading o = names.empty() || plain ? lines::unnamed(others[j], equation) : lines::named(others[j], names, equation);
         vp_assert(rows[k].size() == o.row.size(), "a further line becomes a row of its length");
         int same = 1;
         for ( size_t x = 0; x < o.row.size(); ++x ) same = vp_and(same, rows[k][x] == o.row[x]);
         vp_assert(same, "a further line is not affected");
      }
      const lines::Reading r2 = names.empty() || plain ? lines::unnamed(second, equation) : lines::named(second, names, equation);
      vp_assert(rows[k].size() == r2.row.size(), "the next line becomes a row of its length");
      int ok = 1;
      for ( size_t j = 0; j < r2.row.size(); ++j ) ok = vp_and(ok, rows[k][j] == r2.row[j]);
      vp_assert(ok, "the next line is not affected");
      std::string rest;
      std::getline(stream, rest);
      vp_assert(rest == "Vertices", "the section ends at its end");
   }
}

VP_HARNESS(p11_named)
{
   const int t = (int)vp_param("t", 0);
   line(NAMED[t], t < 26 || t > 33 ? lines::Strings{"x", "y"} : t < 30 ? lines::Strings{"x10", "x1"} : t < 33 ? lines::Strings{"a", "ab"} : lines::Strings{"x", "y", "z"}, false, false);
}
VP_HARNESS(p11_three) { line(NAMED3[vp_param("t", 0)], {"x", "y", "z"}, false, false); }
VP_HARNESS(p11_many)
{
   lines::Strings names;
   for ( int i = 1; i <= (int)vp_param("count", 20); ++i ) names.push_back("v" + std::to_string(i));
   line(MANY[vp_param("t", 0)], names, false, false);
}
VP_HARNESS(p11_unnamed) { line(UNNAMED[vp_param("t", 0)], vp_param("names", 0) ? lines::Strings{"x", "y"} : lines::Strings{}, false, true); }
VP_HARNESS(p11_wide) { line(WIDE[vp_param("t", 0)], {}, false, true); }
VP_HARNESS(p11_equation) { line(EQUATIONS[vp_param("t", 0)], {"x", "y"}, true, false); }
VP_HARNESS(p11_unnamed_equation) { line(UNNAMED_EQUATIONS[vp_param("t", 0)], {}, true, true); }
