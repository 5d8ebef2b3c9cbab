// Section keywords: every spelling, any order of sections, blank lines and white space.
#include "geo.h"
#include "cli.h"
#include "input.h"
#include "input_detection.h"
#include "input_keywords.h"

using geo::Mat;
using geo::Vec;
using namespace panda;

namespace
{
   // the spellings of the sections; each but those of END may be followed by a colon
   using Table = std::vector<const char*>;
   const Table POINTS{"CONVEX_HULL", "CONVEX_HULL_SECTION", "CONV_SECTION", "Vertices"};
   const Table RAYS{"CONE_SECTION", "CONICAL_HULL", "CONICAL_HULL_SECTION", "Rays"};
   const Table REDUCED_POINTS{"REDUCED_CONVEX_HULL", "REDUCED_CONVEX_HULL_SECTION", "REDUCED_CONV_SECTION", "Reduced Vertices"};
   const Table REDUCED_RAYS{"REDUCED_CONE_SECTION", "REDUCED_CONICAL_HULL", "REDUCED_CONICAL_HULL_SECTION", "Reduced Rays"};
   const Table EQUATIONS{"EQUATIONS", "EQUATION_SECTION", "EQUATIONS_SECTION", "Equations"};
   const Table INEQUALITIES{"INEQUALITIES", "INEQUALITY_SECTION", "INEQUALITIES_SECTION", "Inequalities"};
   const Table REDUCED_INEQUALITIES{"REDUCED_INEQUALITIES", "REDUCED_INEQUALITY_SECTION", "REDUCED_INEQUALITIES_SECTION", "Reduced Inequalities"};
   const Table MAPS{"MAPS", "MAP_SECTION", "MAPS_SECTION", "Maps"};
   const Table NAMES{"INDEX", "INDICES", "INDEX_SECTION", "INDICES_SECTION", "NAMES", "NAME_SECTION", "NAMES_SECTION", "Indices", "Names"};
   const Table DIMENSION{"DIM", "DIMENSION", "Dim", "Dimension"};

   int is(const std::string& line, const std::string& word)
   {
      if ( line.size() != word.size() ) return 0;
      int r = 1;
      for ( size_t i = 0; i < word.size(); ++i ) r = vp_and(r, line[i] == word[i]);
      return r;
   }
   int any(const std::string& line, const Table& t)
   {
      int r = 0;
      for ( auto w : t ) r = vp_or(r, vp_or(is(line, w), is(line, std::string(w) + ":")));
      return r;
   }
   const char WHITE[] = {' ', '\t', '\v', '\f'};
   const char END_WHITE[] = {' ', '\t', '\r', '\f'};
   char pick(const char* name, const char* from)
   {
      const long k = vp_sym(name, 0, 3);
      return (char)vp_ite(k == 0, from[0], vp_ite(k == 1, from[1], vp_ite(k == 2, from[2], from[3])));
   }

   int contains(const Mat& m, const Vec& v) { int r = 0; for ( auto& x : m ) r = vp_or(r, geo::equal(x, v)); return r; }
   long labs_(long v) { return vp_ite(v < 0, -v, v); }
   struct Text
   {
      std::string s;
      int count = 0;
      // blank lines before the first section
      Text()
      {
         const long most = vp_param("lead", 0);
         if ( most == 0 ) return;
         const long blanks = vp_concrete(vp_sym("before", 0, most));
         for ( long i = 0; i < blanks; ++i ) s += i == 3 || i + 1 == blanks ? std::string(1, pick(i == 3 ? "before3" : "beforelast", WHITE)) + "\n" : "\n";
      }
      // focus: the section whose spelling and surroundings are symbolic
      void title(const Table& t, const std::string& field = "")
      {
         const int id = count++;
         const size_t words = t.size();
         if ( id != vp_param("focus", -1) ) { s += std::string(t[(id + vp_param("spelling", 3)) % words]) + (field.empty() ? (id % 2 ? ":" : "") : field) + "\n"; return; }
         const long k = vp_concrete(vp_sym("word", 0, (long)words - 1));
         const long blanks = vp_concrete(vp_sym("blanks", 0, 2));
         for ( long i = 0; i < blanks; ++i ) s += i ? std::string(1, pick("blank", WHITE)) + "\n" : "\n";
         if ( vp_concrete(vp_sym("indent", 0, 1)) ) s += pick("lead", WHITE) + std::string((size_t)vp_param("wide", 0), ' ');
         s += t[(size_t)k];
         if ( !field.empty() ) { if ( vp_param("space", 0) ) s += " = " + field.substr(1); else s += field; }
         else if ( vp_concrete(vp_sym("colon", 0, 1)) ) s += ":";
         if ( vp_concrete(vp_sym("tail", 0, 1)) ) s += pick("trail", END_WHITE) + std::string((size_t)vp_param("wide", 0), ' ');
         s += "\n";
      }
      void row(const std::string& r) { s += r + "\n"; if ( vp_param("gaps", 0) ) s += vp_param("gaps", 0) == 1 ? std::string("\n") : vp_param("gaps", 0) == 2 ? std::string(" \t\r\n\n") : std::string((size_t)vp_param("gaps", 0), '\n'); }
   };
   // the k-th permutation of the sections 0..n-1
   std::vector<int> permutation(int n, long k)
   {
      std::vector<int> p, r;
      for ( int i = 0; i < n; ++i ) p.push_back(i);
      for ( int i = n; i > 0; --i ) { r.push_back(p[(size_t)(k % i)]); p.erase(p.begin() + k % i); k /= i; }
      return r;
   }
   long factorial(int n) { return n < 2 ? 1 : n * factorial(n - 1); }
   bool before(const std::vector<int>& p, int a, int b)
   {
      for ( auto x : p ) { if ( x == a ) return true; if ( x == b ) return false; }
      return true;
   }
   std::vector<int> order(int n)
   {
      const long k = vp_param("perm", -1);
      return permutation(n, k >= 0 ? k : vp_concrete(vp_sym("permutation", 0, factorial(n) - 1)));
   }
   long small(const char* name) { return vp_param("fixed", 0) ? vp_param(name, name[0] - 'a') : vp_sym(name, -2, 2); }
   bool swaps(const Maps& maps)
   {
      using Image = Maps::value_type::value_type;
      return maps.size() == 1 && maps[0].size() == 3 && maps[0][0] == Image{{1, 1}} && maps[0][1] == Image{{0, 1}} && maps[0][2] == Image{{2, 1}};
   }
   void checkNamesAndMaps(const Names& names, const Maps& maps, int used)
   {
      if ( used & 2 ) vp_assert(names.size() == 2 && names[0] == "x" && names[1] == "y2", "the names are read");
      else vp_assert(names.empty(), "there are no names");
      if ( used & 4 ) vp_assert(swaps(maps), "the maps are read");
      else vp_assert(maps.empty(), "there are no maps");
   }
   // rows of got == rows of want, as sets
   void checkSame(const Mat& got, const Mat& want, const char* what)
   {
      int ok = 1;
      for ( auto& r : want ) ok = vp_and(ok, contains(got, r));
      for ( auto& r : got ) ok = vp_and(ok, contains(want, r));
      vp_assert(ok, what);
   }
}

VP_HARNESS(p25_keyword)
{
   using namespace input::implementation;
   const int n = (int)vp_param("len", 5);
   std::string line;
   for ( int i = 0; i < n; ++i ) line += (char)vp::in("c", i, 0, 255);
   const int what = (int)vp_param("what", 0);
   vp_reach("keyword");
   int got = 0, want = 0;
   switch ( what )
   {
      case 0: got = isKeywordConvexHull(line); want = any(line, POINTS); break;
      case 1: got = isKeywordConicalHull(line); want = any(line, RAYS); break;
      case 2: got = isKeywordReducedConvexHull(line); want = any(line, REDUCED_POINTS); break;
      case 3: got = isKeywordReducedConicalHull(line); want = any(line, REDUCED_RAYS); break;
      case 4: got = isKeywordEquations(line); want = any(line, EQUATIONS); break;
      case 5: got = isKeywordInequalities(line); want = any(line, INEQUALITIES); break;
      case 6: got = isKeywordReducedInequalities(line); want = any(line, REDUCED_INEQUALITIES); break;
      case 7: got = isKeywordMaps(line); want = any(line, MAPS); break;
      case 8: got = isKeywordNames(line); want = any(line, NAMES); break;
      case 9: got = isKeywordEnd(line); want = vp_or(is(line, "END"), is(line, "End")); break;
   }
   vp_assert(got == want, "a line is a section keyword exactly when it is one of its spellings");
   if ( want ) vp_assert(isKeyword(line), "a section keyword ends the section before it");
}

// a line of a file that is no keyword is none with other data behind it either
VP_HARNESS(p25_dimension)
{
   using namespace input::implementation;
   const int at = (int)vp_param("at", 0);
   std::string line;
   if ( at & 1 ) line += (char)vp::in("c", 0, 0, 255);
   const std::string word = DIMENSION[(size_t)vp_param("word", 0)];
   line += word;
   for ( int i = 0; i < (at >> 1); ++i ) line += (char)vp::in("t", i, 0, 255);
   vp_reach("keyword");
   // the field ends before the first '='
   int want = 1, open = 1;
   auto white = [](char c) { return vp_or(vp_or(c == ' ', c == '\t'), vp_or(c == '\r', vp_or(c == '\v', c == '\f'))); };
   if ( at & 1 ) want = white(line[0]);
   for ( int i = 0; i < (at >> 1); ++i )
   {
      const char c = line[line.size() - (size_t)(at >> 1) + (size_t)i];
      open = vp_and(open, c != '=');
      want = vp_and(want, vp_or(!open, white(c)));
   }
   // "DIM" followed by "ENSION" is out of reach of the two bytes; "Dim" likewise
   vp_assert(isKeywordDimension(line) == (want != 0), "a line is a dimension field exactly when it is one of its spellings");
}

VP_HARNESS(p25_points)
{
   const int used = (int)vp_param("used", 31);   // 1 dimension, 2 names, 4 maps, 8 points, 16 rays
   const bool reduced = vp_param("reduced", 0) != 0;
   std::vector<int> sections;
   for ( int i = 0; i < 5; ++i ) if ( used >> i & 1 ) sections.push_back(i);
   std::vector<int> p;
   for ( auto i : order((int)sections.size()) ) p.push_back(sections[(size_t)i]);
   if ( (used & 4) && !before(p, 1, 2) ) vp_skip();
   if ( reduced && (!before(p, 2, 3) || !before(p, 2, 4)) ) vp_skip();
   const long a = small("a"), b = small("b"), c = small("c"), d = small("d");
   Text t;
   if ( vp_param("preamble", 0) ) t.s += "some text\n\n";
   for ( auto i : p )
   {
      if ( i == 0 ) t.title(DIMENSION, "=2");
      if ( i == 1 ) { t.title(NAMES); t.row("x y2"); }
      if ( i == 2 ) { t.title(MAPS); t.row("y2 x"); }
      if ( i == 3 ) { t.title(reduced ? REDUCED_POINTS : POINTS); t.row(cli::num(a) + " " + cli::num(b)); t.row("0 1"); }
      if ( i == 4 ) { t.title(reduced ? REDUCED_RAYS : RAYS); t.row(cli::num(c) + " " + cli::num(d)); }
      if ( vp_param("end", 0) == 1 ) t.s += "END\n";
   }
   if ( vp_param("end", 0) == 2 ) t.s += "End\n\n";
   vp::file("in", t.s);
   vp::Args args({"panda", "in"});
   vp_assert(detectOperationMode(args.argc(), args.argv()) == OperationMode::FacetEnumeration, "points and rays select facet enumeration");
   const auto data = input::vertices<int>(args.argc(), args.argv());
   vp_reach("read");
   Mat want;
   if ( used & 16 ) { want.push_back({c, d, 0}); if ( reduced ) want.push_back({d, c, 0}); }
   if ( used & 8 ) { want.push_back({a, b, 1}); want.push_back({0, 1, 1}); if ( reduced ) { want.push_back({b, a, 1}); want.push_back({1, 0, 1}); } }
   if ( reduced && (used & 16) ) { vp_assume(vp_or(c != 0, d != 0)); vp_assume(vp_and(labs_(c) + labs_(d) < 3, vp_or(labs_(c) == 1, labs_(d) == 1))); }
   const Mat got = geo::mat(std::get<0>(data));
   if ( !reduced ) vp_assert(got.size() == want.size(), "each row is read once");
   checkSame(got, want, "the points and rays are read");
   checkNamesAndMaps(std::get<1>(data), std::get<2>(data), used);
   vp_assert(std::get<3>(data).empty(), "there are no known facets");
}

VP_HARNESS(p25_inequalities)
{
   const int used = (int)vp_param("used", 31);   // 1 dimension, 2 names, 4 maps, 8 equations, 16 inequalities
   const bool reduced = vp_param("reduced", 0) != 0, named = vp_param("named", 0) != 0;
   std::vector<int> sections;
   for ( int i = 0; i < 5; ++i ) if ( used >> i & 1 ) sections.push_back(i);
   std::vector<int> p;
   for ( auto i : order((int)sections.size()) ) p.push_back(sections[(size_t)i]);
   if ( (used & 4) && !before(p, 1, 2) ) vp_skip();
   if ( named && (!before(p, 1, 3) || !before(p, 1, 4)) ) vp_skip();
   if ( reduced && (!before(p, 2, 4) || !before(p, 3, 4)) ) vp_skip();
   const long a = small("a"), b = small("b"), c = small("c");
   auto line = [&](long x, long y, long z, const char* rel) {
      auto term = [](long v, const char* n) { const long neg = v < 0; return std::string(1, (char)vp_ite(neg, '-', '+')) + (char)('0' + vp_ite(neg, -v, v)) + n; };
      if ( named ) return term(x, "x") + " " + term(y, "y2") + rel + term(z, "");
      return cli::num(x) + " " + cli::num(y) + " " + cli::num(-z);
   };
   Text t;
   for ( auto i : p )
   {
      if ( i == 0 ) t.title(DIMENSION, "=2");
      if ( i == 1 ) { t.title(NAMES); t.row("x y2"); }
      if ( i == 2 ) { t.title(MAPS); t.row("y2 x"); }
      if ( i == 3 ) { t.title(EQUATIONS); t.row(line(1, 1, 1, " = ")); }
      if ( i == 4 ) { t.title(reduced ? REDUCED_INEQUALITIES : INEQUALITIES); t.row(line(a, b, c, " <= ")); if ( !reduced ) t.row(line(1, 0, 2, " <= ")); }
      if ( vp_param("end", 0) == 1 ) t.s += "END\n";
   }
   if ( vp_param("end", 0) == 2 ) t.s += "End\n\n";
   vp::file("in", t.s);
   vp::Args args({"panda", "in"});
   vp_assert(detectOperationMode(args.argc(), args.argv()) == OperationMode::VertexEnumeration, "inequalities select vertex enumeration");
   vp::Capture quiet(std::cerr);
   const auto data = input::inequalities<int>(args.argc(), args.argv());
   vp_reach("read");
   const Mat got = geo::mat(std::get<0>(data));
   Mat want{{0, 0, -1}};
   if ( used & 8 ) { want.push_back({1, 1, -1}); want.push_back({-1, -1, 1}); }
   if ( reduced )
   {
      // modulo the equations the expanded rows are determined up to multiples of these: P06
      vp_assert((int)got.size() >= (int)want.size() + 1, "the reduced inequalities are expanded");
      int ok = 1;
      for ( auto& r : want ) ok = vp_and(ok, contains(got, r));
      vp_assert(ok, "the equations are read");
   }
   else
   {
      want.push_back({a, b, -c}); want.push_back({1, 0, -2});
      vp_assert(got.size() == want.size(), "each row is read once");
      checkSame(got, want, "the equations and inequalities are read");
   }
   checkNamesAndMaps(std::get<1>(data), std::get<2>(data), used);
   vp_assert(std::get<3>(data).empty(), "there are no known vertices");
}

// two sections: points / rays / inequalities in any spelling, in any order
VP_HARNESS(p25_direction)
{
   const Table* const tables[] = {&POINTS, &RAYS, &REDUCED_POINTS, &REDUCED_RAYS, &INEQUALITIES, &REDUCED_INEQUALITIES};
   const int n = (int)vp_param("sections", 2);
   std::string s = vp_param("preamble", 0) ? "Names\nx\nMaps\n-x\n" : "";
   int points = 0, inequalities = 0;
   for ( int i = 0; i < n; ++i )
   {
      const long which = vp_concrete(vp::in("section", i, 0, 5));
      (which < 4 ? points : inequalities) = 1;
      const Table& t = *tables[which];
      const long k = vp_concrete(vp::in("word", i, 0, (long)t.size() - 1));
      if ( vp_param("indent", 0) ) s += pick(i ? "lead1" : "lead0", WHITE);
      s += t[(size_t)k];
      if ( (i + k) % 2 ) s += ":";
      if ( vp_param("indent", 0) ) s += pick(i ? "trail1" : "trail0", END_WHITE);
      for ( long r = 0; r < vp_param("rows", 1); ++r ) s += which < 4 ? "\n1" : "\n1 0";
      s += "\n\n";
   }
   vp::file("in", s);
   vp::Args args({"panda", "in"});
   const auto mode = detectOperationMode(args.argc(), args.argv());
   vp_reach("detected");
   vp_assert(mode == (points && inequalities ? OperationMode::Invalid : points ? OperationMode::FacetEnumeration : OperationMode::VertexEnumeration),
             "the direction is the one of the sections of the file, and mixed files are invalid");
   if ( points && inequalities && vp_param("run", 0) )
   {
      const auto r = cli::run({"in"});
      vp_assert(r.rc > 0 && r.out.empty() && !r.err.empty(), "a file mixing points and inequalities is rejected");
   }
}
