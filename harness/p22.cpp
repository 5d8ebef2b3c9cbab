// Integer types: the same output within range, an error instead of a wrong one on overflow.
#include "shapes.h"
#include "cli.h"

using geo::Mat;
using geo::Vec;

namespace
{
   const char* const TYPES[] = {"16", "32", "64", "safe", "inf"};
   std::vector<std::string> arguments(long type)
   {
      std::vector<std::string> a{"-m", vp_param("ad", 0) ? "ad" : "dd", "-t", "1"};
      if ( type >= 0 ) { if ( vp_param("style", 0) ) a.push_back(std::string("--integer-type=") + TYPES[type]); else { a.push_back("-i"); a.push_back(TYPES[type]); } }
      a.push_back("in");
      return a;
   }
   std::string head(long family)
   {
      switch ( family )
      {
         case 0: return "Names:\nx y\nMaps:\ny x\n";
         case 1: return "Names:\nx y z\nMaps:\ny x z\n";
         case 2: return "Names:\nx y\nMaps:\n-x+2 y\ny x\n";
         case 3: return "Names:\nx y\n";
      }
      return "";
   }
   // a number whose last digit is symbolic: 10 b + x
   struct Num { long base, digit; };
   std::string text(long b, long d) { return (b < 0 ? "-" : "") + (b ? vp::num(b < 0 ? -b : b) : std::string()) + (char)('0' + d); }
}

// within the range of every type: the output of the type is that of the default type
VP_HARNESS(p22_same)
{
   const bool facets = vp_param("facets", 1) != 0;
   auto M = facets ? shapes::symbolic() : shapes::symbolicH();
   for ( const auto& v : M ) vp_assume(!geo::isZero(v));
   if ( !facets )
   {
      Mat D(M);
      for ( auto& r : D ) { r.pop_back(); vp_assume(!geo::isZero(r)); }
      vp_assume(geo::rankAtLeast(D, (int)D[0].size()));
   }
   // coordinates beyond the next smaller type; the results remain small
   const long scale = vp_param("scale", 1), offset = vp_param("offset", 0);
   if ( scale != 1 )
   {
      for ( size_t i = 0; i < M.size(); ++i )
      {
         auto& r = M[i];
         if ( facets ) for ( size_t j = 0; j + 1 < r.size(); ++j ) r[j] = r[j] * scale + offset * (long)((i * (j + 1)) % 3);
         else r.back() = r.back() * scale + offset * (long)(i % 3);
      }
   }
   vp::file("in", head(vp_param("family", -1)) + (facets ? cli::polyhedron(M, scale > 1 ? 8 : 1) : "Inequalities:\n" + cli::rows(M, scale > 1 ? 8 : 1)));
   const auto a = cli::run(arguments(scale > 1 ? 4 : -1));
   const auto b = cli::run(arguments(vp_param("type", 4)));
   vp_reach("compared");
   vp_assert(a.rc == 0, "a valid input is processed");
   vp_assert(b.rc == 0, "a valid input is processed with every integer type");
   vp_assert(a.out == b.out, "the output does not depend on the integer type");
}

// large coordinates: an error or the right output
VP_HARNESS(p22_overflow)
{
   const long base = vp_param("base", 214748364), type = vp_param("type", 3), shape = vp_param("shape", 0), sign = vp_param("sign", 0);
   std::vector<std::string> n;
   std::string s;
   for ( int i = 0; i < vp_param("count", 2); ++i ) n.push_back(text(sign >> i & 1 ? -base : base, vp::in("x", i, vp_param("lo", 0), vp_param("hi", 7))));
   while ( n.size() < 6 ) n.push_back(n[0]);
   switch ( shape )
   {
      case 0: s = "Vertices:\n0 0\n" + n[0] + " 1\n1 " + n[1] + "\n"; break;
      case 1: s = "Vertices:\n0 0 0\n" + n[0] + " 1 0\n1 " + n[1] + " 0\n0 1 " + n[0] + "\n"; break;
      case 2: s = "Vertices:\n0\n" + n[0] + "\n" + n[1] + "\n"; break;
      case 3: s = "Inequalities:\n" + n[0] + " 1 -1\n1 " + n[1] + " -1\n-1 0 0\n0 -1 0\n"; break;
      case 4: s = "Vertices:\n0 0 0\n" + n[0] + " 1 3\n1 " + n[1] + " 7\n5 1 " + n[0] + "\n11 " + n[0] + " 4\n"; break;
      case 5: s = "Rays:\n1 " + n[0] + "\n" + n[1] + " 1\n"; break;
      case 6: s = "Inequalities:\n-1 -" + n[0] + " 0 1\n-" + n[1] + " 0 -1 2\n0 -1 0 0\n-3 0 -" + n[0] + " 1\n"; break;
      case 7: s = "Vertices:\n0 0 0 0\n" + n[0] + " 1 3 2\n1 " + n[1] + " 7 5\n5 1 " + n[0] + " 3\n11 2 4 " + n[1] + "\n"; break;
   }
   vp::file("in", s);
   vp_reach("started");
   vp_terminate_ok(1);   // a run may be aborted
   const auto a = cli::run(arguments(type));
   const auto b = cli::run(arguments(4));
   vp_terminate_ok(0);
   vp_note("rc", a.rc);
   if ( a.rc == 0 )
   {
      vp_reach("same");
      vp_assert(b.rc == 0, "no result where there is none that can be printed");
      vp_assert(a.out == b.out, "a result of the checked type is right");
   }
   else vp_assert(!a.err.empty(), "there is an error message");
}

// numbers at the limits of the type: read exactly or rejected
VP_HARNESS(p22_conversion)
{
   const long base = vp_param("base", 3276), type = vp_param("type", 0);
   const long digit = vp::in("x", 0, 0, 9);
   // (the smallest value of a fixed width type has no negative: an overflow)
   if ( vp_param("sign", 0) ) vp_assume(digit != 8);
   const std::string x = text(vp_param("sign", 0) ? -base : base, digit);
   vp::file("in", std::string(vp_param("facets", 1) ? "Vertices:\n" : "Inequalities:\n-1 0\n0 -1\n1 ") + x + (vp_param("wide", 0) ? " 0\n0 1\n" : "\n"));
   vp_terminate_ok(1);
   const auto a = cli::run(arguments(type));
   const auto b = cli::run(arguments(4));
   vp_terminate_ok(0);
   vp_reach("compared");
   if ( a.rc == 0 ) vp_assert(b.rc == 0 && a.out == b.out, "a number at the limit of the type is read exactly");
   else vp_assert(!a.err.empty(), "there is an error message");
}
