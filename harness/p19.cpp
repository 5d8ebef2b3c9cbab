// Files of any content: results or an error, no crash, no hang, no memory error.
#include "cli.h"

namespace
{
   // '?' stands for any byte
   struct File { const char* options; const char* text; const char* known; };
   const File FILES[] = {
      /* 0*/ {"dd", "Vertices:\n0 0\n? 0\n0 1\n", ""},
      {"dd", "Vertices:\n0 0\n1?0\n0 1\n", ""},
      {"ad", "Vertices:\n0 0\n1 0\n0 1?", ""},
      {"dd", "Vertices:\n0 0\n1??0\n0 1\n", ""},
      {"ad", "Vertices:\n0 0\n1/? 0\n0 1\n", ""},
      {"dd", "Vertices:\n0 0\n1 0\n0 1\n??", ""},
      {"ad", "??Vertices:\n0 0\n1 0\n0 1\n", ""},
      {"dd", "?\nVertices:\n0 0\n1 0\n0 1\nRays:\n1 ?\n", ""},
      {"dd", "Vertices?\n0 0\n1 0\n0 1\n", ""},
      {"ad", "Vert?ces?\n0 0\n1 0\n0 1\n", ""},
      /*10*/ {"dd", "Vertices:\n0 0\n1 0\n0 1\n?ays:\n1 0\n", ""},
      {"ad", "Vertices:\n0 0\n1 0\n0 1\n?\n?\nRays:\n1 1\n", ""},
      {"dd", "DIM=?\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"dd", "DIM?2\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"dd", "DIM = ??\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"dd", "Names:\nx ?\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"dd", "Names:\nx?y\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"dd", "Names?\nx y\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"ad", "Names:\n??\nVertices:\n0\n1\n", ""},
      {"dd", "Inequalities:\n-1 0 0\n0 -1 0\n1 1 ?\n", ""},
      /*20*/ {"dd", "Inequalities:\n-1 0 0\n0 ?1 0\n1 1 -1\n", ""},
      {"ad", "Inequalities:\n-1 0 0\n0 -1 0\n1?1 -1\n", ""},
      {"dd", "Inequalities:\n-1 0?0\n0 -1 0\n1 1 -1\n", ""},
      {"dd", "Names:\nx y\nInequalities:\nx >= 0\ny >= 0\nx + y <?1\n", ""},
      {"dd", "Names:\nx y\nInequalities:\nx >= 0\ny >= 0\nx ? y <= 1\n", ""},
      {"ad", "Names:\nx y\nInequalities:\nx >= 0\n?y >= 0\nx + y <= 1\n", ""},
      {"dd", "Names:\nx y\nInequalities:\nx >= 0\ny >= 0\nx + y <= ?\n", ""},
      {"dd", "Names:\nx y\nInequalities:\nx >= 0\ny >= 0\nx + ? <= 1\n", ""},
      {"dd", "Names:\nx y\nInequalities:\n(?) x >= 0\n(2?y >= 0\nx + y <= 1\n", ""},
      {"dd", "Names:\nx y\nInequalities:\nx >= 0\ny >= 0??x + y <= 1\n", ""},
      /*30*/ {"dd", "Names:\nx y\nEquations:\nx = ?\nInequalities:\ny >= 0\ny <= 2\n", ""},
      {"ad", "Names:\nx y\nEquations:\nx ? y\nInequalities:\ny >= 0\ny <= 2\n", ""},
      {"dd", "Equations:\n1 ? 0\nInequalities:\n0 -1 0\n0 1 -2\n", ""},
      {"dd", "Equations?\n1 0 0\nInequalities:\n0 -1 0\n0 1 -2\n?", ""},
      {"cd", "Names:\nx y\nMaps:\ny ?\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"ca", "Names:\nx y\nMaps:\n?x y\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"cd", "Names:\nx y\nMaps:\ny x?\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"ca", "Names:\nx y\nMaps?\ny x\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"cd", "Names:\nx y\nMaps:\n1?x y\nInequalities:\n-1 0 0\n0 -1 0\n1 1 -1\n", ""},
      {"ca", "Names:\nx y\nMaps:\nx+? y\nInequalities:\n-1 0 0\n0 -1 0\n1 1 -1\n", ""},
      /*40*/ {"cd", "Names:\nx y\nVertices:\n0 0\n1 0\n0 1\nMaps:\ny ?x\n", ""},
      {"ca", "Maps:\n?\nNames:\nx y\nVertices:\n0 0\n1 0\n0 1\n", ""},
      {"ad", "Names:\nx y\nMaps:\ny x\nReduced Vertices:\n1 ?\n", ""},
      {"dd", "Names:\nx y\nMaps:\ny x\nReduced Vertices?\n1 0\n1 1\n", ""},
      {"dd", "Names:\nx y\nMaps:\ny x\nReduced?Vertices:\n1 0\n1 1\n", ""},
      {"ad", "Names:\nx y\nMaps:\ny x\nReduced Inequalities:\n-1 0 0\n1 1 ?\n", ""},
      {"dd", "Reduced Vertices:\n1 0\n?", ""},
      {"dd", "Reduced Inequalities:\n1 0 ?\n", ""},
      {"k", "Vertices:\n0 0\n1 0\n0 1\n", "Inequalities:\n-1 0 ?\n"},
      {"k", "Vertices:\n0 0\n1 0\n0 1\n", "Inequalities?\n-1 0 0\n"},
      /*50*/ {"k", "Vertices:\n0 0\n1 0\n0 1\n", "Inequalities:\n-1 0?0\n??"},
      {"k", "Inequalities:\n-1 0 0\n0 -1 0\n1 1 -1\n", "Vertices:\n0 ?\n"},
      {"k", "Inequalities:\n-1 0 0\n0 -1 0\n1 1 -1\n", "Vertices:\n0 0\n?ays:\n1 0\n"},
      {"k", "Vertices:\n0 0\n1 0\n0 1\n", "???"},
      {"kc", "Vertices:\n0 0\n1 0\n0 1\n", "Inequalities:\n?1 0 0\n"},
      {"kc", "Inequalities:\n-1 0 0\n0 -1 0\n1 1 -1\n", "Vertices:\n0 ?\n"},
      {"dd", "???", ""},
      {"dd", "????", ""},
      {"dd", "Rays:\n1 ?\n0 1\n", ""},
      {"ad", "Rays:\n?\n", ""},
      /*60*/ {"dd", "Vertices:\n?\n3\n", ""},
      {"ad", "Vertices:\n3\n?", ""},
      {"dd", "Inequalities:\n? 1\n", ""},
      {"dd", "Inequalities:\n-1 ?\n? 1\n", ""},
      {"dd", "Vertices:\n0 0\nInequalities:\n1 ?\n", ""},
      {"dd", "END\n?Vertices:\n0\n1\nEND?\n2\n", ""},
      {"dd", "Vertices:\n0\n1\nE?D\n2\n", ""},
      {"dd", "Vertices:\n?", ""},
      {"dd", "Names:\n?", ""},
      {"dd", "Inequalities:\n?", ""},
      /*70*/ {"ad", "Names:\nx\nMaps:\n?", ""},
      {"dd", "DIM=?", ""},
      {"dd", "Names:\nx y\nInequalities:\nx ?= 0\ny <= 1 ?\n-x - y <= 1\n", ""},
      {"dd", "Names:\nx y\nInequalities:\n2?x <= 1\ny <= 1\n-x - y <= 1\n", ""},
      {"dd", "Names:\nx y\nInequalities:\n-?x <= 1\ny <=? 1\nx + y <= 1\n", ""},
      {"dd", "Vertices:\n- ?\n0 0\n", ""},
      {"dd", "Vertices:\n1/2? 1\n0 0\n", ""},
      {"ad", "Vertices:\n0 0 0\n1 0 0\n0 1 0\n0 0 ?\n", ""},
      {"ad", "Vertices:\n0 0\n0 0\n? 0\n", ""},
      {"dd", "Inequalities:\n-1 0 0\n0 -1 0\n?1 1 -1\nInequalities:\n1 0?-1\n-1 0 0\n0 -1 0\n0 1 -1\n", ""},
   };

   std::vector<std::string> arguments(const std::string& o)
   {
      std::vector<std::string> a{"-t", "1", "-m", o.find('d') != std::string::npos ? "dd" : "ad"};
      if ( o.find('c') != std::string::npos ) a.push_back("--check");
      if ( o.find('k') != std::string::npos ) a.push_back("--known-data=known");
      a.push_back("in");
      return a;
   }
   std::string fill(const char* text, const char* name)
   {
      std::string s(text);
      int k = 0;
      for ( auto& c : s ) if ( c == '?' ) c = (char)vp::in(name, k++, 0, 255);
      return s;
   }
   void run(const std::vector<std::string>& a)
   {
      const auto r = cli::run(a);
      vp_reach("ended");
      vp_assert(r.rc == 0 || r.rc == 1, "the program ends with results or with an error");
      if ( r.rc == 1 ) vp_assert(!r.err.empty(), "there is an error message");
   }
}

VP_HARNESS(p19_bytes)
{
   const File& f = FILES[vp_param("t", 0)];
   vp::file("in", fill(f.text, "c"));
   if ( *f.known ) vp::file("known", fill(f.known, "k"));
   run(arguments(f.options));
}

// any prefix of a file, with an arbitrary last byte
VP_HARNESS(p19_prefix)
{
   static const char* const TEXTS[] = {
      "DIM = 2\nNames:\nx y\nMaps:\ny x\nVertices:\n0 0\n1/2 0\n0 2/4\n-1 -1\nRays:\n1 1\nEND\n",
      "DIM=2\nINDEX\nx y\nEquations:\nx - y = 0\nInequalities:\n(1) x >= 0\n2y <= 3\n",
      "Names:\nx y\nMaps:\ny x\nReduced Vertices:\n0 0\n1 0\nReduced Rays:\n2 1\n",
      "INEQUALITIES_SECTION\n-1 0 0\n0 -1 0\n1 1 -1\nEND\n",
      "Names:\nx y\nMaps:\ny x\nEquations:\n1 1 -2\nReduced Inequalities:\n-1 0 0\n"};
   const std::string text = TEXTS[vp_param("t", 0)];
   const long n = vp_concrete(vp_sym("length", vp_param("from", 0), vp_param("to", (long)text.size())));
   std::string s = text.substr(0, (size_t)n);
   if ( vp_param("extra", 0) ) s += (char)vp_sym("byte", 0, 255);
   vp::file("in", s);
   run(arguments(vp_param("ad", 0) ? "ac" : "dc"));
}

// what has to be rejected
VP_HARNESS(p19_rejected)
{
   const int t = (int)vp_param("t", 0);
   std::string s;
   int valid = 0;
   switch ( t )
   {
      case 0: { const long d = vp_sym("dim", 0, 99); s = "DIM=" + std::string(1, (char)('0' + d / 10)) + (char)('0' + d % 10) + "\nVertices:\n0 0\n1 0\n0 1\n"; valid = d == 2; break; }
      case 1: { const long d = vp_sym("dim", 0, 99); s = "DIM=" + std::string(1, (char)('0' + d / 10)) + (char)('0' + d % 10) + "\nInequalities:\n-1 0\n1 -1\n"; valid = d == 1; break; }
      case 2: case 3: case 4: case 5: case 6:
      {
         // rows of the given numbers of entries
         int same = 1; long first = 0;
         s = t == 2 ? "Vertices:\n" : t == 3 ? "Rays:\n" : t == 4 ? "Inequalities:\n" : t == 5 ? "Vertices:\n" : "Equations:\n";
         for ( int i = 0; i < 3; ++i )
         {
            const long n = vp_concrete(vp::in("n", i, t == 4 || t == 6 ? 2 : 1, 3));
            if ( i == 0 ) first = n;
            same = same && n == first;
            for ( long j = 0; j < n; ++j ) s += i == j ? "-1 " : "2 ";
            s += "\n";
            if ( i == 1 && t == 5 ) s += "Rays:\n";
            if ( i == 1 && t == 6 ) s += "Inequalities:\n";
         }
         valid = same;
         break;
      }
      case 7: case 8:
      {
         const long n = vp_concrete(vp_sym("names", 1, 3));
         s = "Names:\n";
         for ( long i = 0; i < n; ++i ) s += std::string(1, (char)('x' + i)) + " ";
         s += t == 7 ? "\nVertices:\n0 0\n1 0\n0 1\n" : "\nInequalities:\n-1 0 0\n0 -1 0\n1 1 -1\n";
         valid = n == 2;
         break;
      }
      case 9:
      {
         const long c = vp_sym("name", 'a', 'z');
         s = "Names:\nx y\nInequalities:\nx >= 0\ny >= 0\nx + " + std::string(1, (char)c) + " <= 1\n";
         // (repeated variables are not accepted)
         valid = c == 'y';
         break;
      }
      case 10:
      {
         const long c = vp_sym("name", 'a', 'z');
         s = "Names:\nx y\nMaps:\ny " + std::string(1, (char)c) + "\nVertices:\n0 0\n1 0\n0 1\n";
         valid = c == 'x';
         break;
      }
      case 11:
      {
         const long n = vp_concrete(vp_sym("images", 0, 4));
         s = "Names:\nx y\nMaps:\n";
         static const char* const IMAGES[] = {"y ", "x ", "x ", "y "};
         for ( long i = 0; i < n; ++i ) s += IMAGES[i];
         s += "\nVertices:\n0 0\n1 0\n0 1\n";
         valid = n == 2 || n == 0;
         break;
      }
      case 12: { static const char* const SECTIONS[] = {"Vertices:\n", "Rays:\n", "Inequalities:\n", "Equations:\n", "Names:\nx\n", "DIM=1\n", "END\n", "Maps:\n", "Reduced Vertices:\n", "Equations:\n1 0\n", "Reduced Inequalities:\n", ""}; s = SECTIONS[vp_concrete(vp_sym("section", 0, 11))]; s += SECTIONS[vp_concrete(vp_sym("second", 0, 11))]; break; }
      case 14: case 15: case 16:
      {
         // dimensions far beyond the rows; only the dimension itself, possibly with leading zeros, fits
         static const char* const BIG[] = {"DIM=42949672", "DIM=1844674407370955161", "DIM=00000000000000000000"};
         const long a = vp_sym("tens", 0, 9), b = vp_sym("ones", 0, 9);
         s = std::string(BIG[t - 14]) + (char)('0' + a) + (char)('0' + b) + "\nVertices:\n0 0\n1 0\n0 1\n";
         valid = t == 16 && a == 0 && b == 2;
         break;
      }
      case 17: case 18: case 19:
      {
         // many rows; one of them, anywhere, has another number of entries
         const int rows = 40;
         const long at = vp_concrete(vp_sym("at", 0, rows)), n = vp_concrete(vp_sym("n", 1, 3));
         s = t == 17 ? "Vertices:\n" : t == 18 ? "Vertices:\n0 0\n0 2\n2 0\nRays:\n" : "Inequalities:\n";
         for ( int i = 0; i < rows; ++i )
         {
            const std::string entry = t == 19 ? (i % 2 ? "1 " : "-1 ") : std::to_string(t == 18 ? i % 3 : i % 2) + " ";
            const std::string other = t == 19 ? (i % 2 ? "-1" : "0") : std::to_string(t == 18 ? (i + 1) % 3 : i / 2 % 2);
            s += i != at || n == 2 ? entry + other : n == 1 ? entry : entry + other + " 1";
            s += "\n";
         }
         valid = at == rows || n == 2;
         break;
      }
      case 20:
      {
         // many names: the number of names is compared, the last one too
         const int n = 12;
         const long k = vp_concrete(vp_sym("names", 10, 14));
         s = "Names:\n";
         for ( long i = 0; i < k; ++i ) s += "v" + std::to_string(i) + (i % 5 == 4 ? "\n" : " ");
         s += "\nVertices:\n";
         for ( int r = 0; r < 2; ++r ) { for ( int i = 0; i < n; ++i ) s += r == 0 ? "0 " : i == 3 ? "1 " : "0 "; s += "\n"; }
         valid = k == n;
         break;
      }
      case 21:
      {
         // a name among many: only those given may be used
         const long k = vp_sym("tens", 0, 9), j = vp_sym("ones", 0, 9);
         s = "Names:\n";
         for ( int i = 1; i <= 12; ++i ) s += "v" + std::to_string(i) + " ";
         s += "\nInequalities:\n";
         for ( int i = 2; i <= 12; ++i ) s += "v1 + v" + std::to_string(i) + " <= 1\n";
         s += std::string("v") + (char)('0' + k) + (char)('0' + j) + " <= 1\n";
         valid = k == 1 && j <= 2;
         break;
      }
      case 22:
      {
         // lines of any length
         const long n = vp_concrete(vp_sym("blanks", 0, 3)), c = vp_sym("c", 0, 9);
         static const size_t LENGTH[] = {250, 512, 1023, 2100};
         s = "Vertices:\n" + std::string(LENGTH[n], ' ') + "0 0\n1" + std::string(LENGTH[n], ' ') + (char)('0' + c) + "\n0 1" + std::string(LENGTH[n], ' ') + "\n" + std::string(LENGTH[n], ' ') + "\nRays:\n" + std::string(LENGTH[n], '\t') + "1 1";
         valid = 1;
         break;
      }
      case 23: case 24: case 25:
      {
         // arbitrary characters around the dimension: nothing but white space is meaningful
         const long a = vp_sym("a", 0, 255), b = vp_sym("b", 0, 255);
         vp_assume(a != '\n'); vp_assume(b != '\n');
         auto white = [](long c) { return vp_or(vp_or(c == ' ', c == '\t'), vp_or(c == '\r', vp_or(c == '\v', c == '\f'))); };
         const char* const tail = t == 24 ? "\nInequalities:\n1 -1 1\n-1 -1 0\n0 1 -2\n" : "\nVertices:\n0 0\n1 0\n0 1\n";
         if ( t == 25 )
         {
            s = std::string("DIM =") + (char)a + (char)b + "2" + tail;
            vp_assume(a != '+'); vp_assume(b != '+');
            valid = vp_and(vp_or(white(a), a == '0'), vp_or(vp_and(white(b), a != '0'), b == '0'));
         }
         else
         {
            s = std::string("Dimension = 2") + (char)a + (char)b + tail;
            valid = vp_and(white(a), white(b));
         }
         break;
      }
      case 13: { static const char* const SECTIONS[] = {"Reduced Vertices:\n1 2\n", "Reduced Rays:\n1 2\n", "Reduced Inequalities:\n1 2 3\n"}; s = "Names:\nx y\n" + std::string(SECTIONS[vp_concrete(vp_sym("section", 0, 2))]); break; }
   }
   vp::file("in", s);
   const auto r = cli::run({"-t", "1", "-m", vp_param("ad", 0) ? "ad" : "dd", t == 10 ? "--check" : "--sorting=lex_asc", "in"});
   vp_reach("ended");
   vp_assert((r.rc == 0) == (valid != 0), "inconsistent input is rejected, consistent input is not");
   if ( r.rc != 0 ) vp_assert(r.rc == 1 && !r.err.empty() && r.out.empty(), "a rejection has an error message and no results");
}
