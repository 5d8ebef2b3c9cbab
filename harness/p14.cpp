// Command line options: every documented spelling, position, order; arbitrary short arguments.
#include "cli.h"
#include "concurrency.h"
#include "input_detection.h"
#include "input_method.h"
#include "input_validity.h"
#include "integer_type.h"
#include "integer_type_detection.h"

using namespace panda;

namespace
{
   typedef std::vector<std::string> Strings;
   enum Kind { File, MethodOption, IntegerOption, ThreadsOption, SortingOption, KnownOption, CheckOption, FilterOption, Kinds };
   const int THROWS = -1000;
   long pick(const char* n, long count) { return vp_concrete(vp_sym(n, 0, count - 1)); }
   const char* shortName(int kind) { static const char* s[] = {"", "-m", "-i", "-t", "-s", "-k", "-c", "-f"}; return s[kind]; }
   const char* longName(int kind) { static const char* s[] = {"", "--method", "--integer-type", "--threads", "--sorting", "--known-data", "--check", "--filter"}; return s[kind]; }
   bool hasArgument(int kind) { return kind >= MethodOption && kind <= KnownOption; }

   // what the documentation says about the values
   bool is(const std::string& s, std::initializer_list<const char*> words) { for ( auto w : words ) if ( s == w ) return true; return false; }
   int methodOf(const std::string& s)
   {
      if ( is(s, {"ad", "adjacency-decomposition", "adjacency_decomposition"}) ) return (int)Method::AdjacencyDecomposition;
      if ( is(s, {"dd", "double-description", "double_description"}) ) return (int)Method::DoubleDescription;
      return THROWS;
   }
   int integerOf(const std::string& s)
   {
      if ( s == "16" ) return (int)IntegerType::Fixed16;
      if ( s == "32" ) return (int)IntegerType::Fixed32;
      if ( s == "64" ) return (int)IntegerType::Fixed64;
      if ( s == "safe" ) return (int)IntegerType::Safe;
      if ( s == "inf" ) return (int)IntegerType::Variable;
      return THROWS;
   }
   // documented names must be recognised; for undocumented ones (abbreviations such as "lex") either answer will do
   const int ANY = -2000;
   int sortingOf(const std::string& s)
   {
      if ( is(s, {"lex_asc", "lexicographic_ascending", "lex_up"}) ) return (int)InputOrder::LexicographicAscending;
      if ( is(s, {"lex_desc", "lexicographic_descending", "lex_down"}) ) return (int)InputOrder::LexicographicDescending;
      if ( is(s, {"nz_asc", "nonzero_ascending", "nz_up"}) ) return (int)InputOrder::NonZeroEntriesAscending;
      if ( is(s, {"nz_desc", "nonzero_descending", "nz_down"}) ) return (int)InputOrder::NonZeroEntriesDescending;
      if ( is(s, {"rev", "reverse"}) ) return (int)InputOrder::Reverse;
      if ( s.compare(0, 3, "lex") == 0 || s.compare(0, 3, "non") == 0 || s.compare(0, 2, "nz") == 0 ) return ANY;
      return THROWS;
   }
   bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
   int threadsOf(const std::string& s)
   {
      size_t i = 0;
      while ( i < s.size() && space(s[i]) ) ++i;
      bool neg = false;
      if ( i < s.size() && (s[i] == '-' || s[i] == '+') ) neg = s[i++] == '-';
      const size_t start = i;
      long v = 0;
      for ( ; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i ) { v = v * 10 + (s[i] - '0'); if ( v > 99999999999L ) v = 99999999999L; }
      if ( i == start || neg || v == 0 || v > 2147483647L ) return THROWS;
      while ( i < s.size() && space(s[i]) ) ++i;
      return i == s.size() ? (int)v : THROWS;
   }
   template <typename F>
   int outcome(F f) { try { return (int)f(); } catch ( const std::exception& ) { return THROWS; } }
   void same(int got, int expected, const char* what) { if ( expected != ANY ) vp_assert(got == expected, what); }

   struct Expected { int method = (int)Method::AdjacencyDecomposition, integer = (int)IntegerType::Default, threads = 1, sorting = (int)InputOrder::NoSorting, mode = (int)OperationMode::FacetEnumeration, check = 0, filter = 0; std::string file; bool fileThrows = false, threadsDefault = true; };
   void verify(const Strings& a, const Expected& e)
   {
      Strings full(a);
      full.insert(full.begin(), "panda");
      vp::Args args(full);
      same(outcome([&]() { return input::method(args.argc(), args.argv()); }), e.method, "the method is the one named");
      same(outcome([&]() { return integerType(args.argc(), args.argv()); }), e.integer, "the integer type is the one named");
      const int t = outcome([&]() { return concurrency::numberOfThreads(args.argc(), args.argv()); });
      if ( e.threadsDefault ) vp_assert(t >= 1, "there is at least one thread by default");
      else same(t, e.threads, "the number of threads is the one named");
      same(outcome([&]() { return getInputOrder(args.argc(), args.argv()); }), e.sorting, "the sorting order is the one named");
      vp_assert(input::checkValidity(args.argc(), args.argv()) == (e.check != 0), "checking is done if asked for");
      vp_assert(input::filterInvalidInput(args.argc(), args.argv()) == (e.filter != 0), "filtering is done if asked for");
      std::string name;
      bool thrown = false;
      try { name = getFilename(args.argc(), args.argv()); } catch ( const std::exception& ) { thrown = true; }
      vp_assert(thrown == e.fileThrows, "one file name is accepted, several are not");
      if ( !thrown && !e.fileThrows ) vp_assert(name == e.file, "the file name is the argument that is not an option");
      same(outcome([&]() { return detectOperationMode(args.argc(), args.argv()); }), e.fileThrows && e.mode == (int)OperationMode::FacetEnumeration ? THROWS : e.mode, "the request for help or the version or a computation is recognised");
      vp_reach("options");
   }
   // all arguments, each kind of the mask once
   Strings arrange(std::vector<Strings> groups, const char* base = "at")
   {
      Strings r;
      int n = 0;
      while ( !groups.empty() )
      {
         const size_t k = (size_t)pick((std::string(base) + vp::num(n++)).c_str(), (long)groups.size());
         r.insert(r.end(), groups[k].begin(), groups[k].end());
         groups.erase(groups.begin() + (long)k);
      }
      return r;
   }
   Strings spelled(int kind, const std::string& value, long spelling)
   {
      if ( kind == File ) return {value};
      if ( !hasArgument(kind) ) return {spelling % 2 ? longName(kind) : shortName(kind)};
      std::string l = longName(kind);
      if ( spelling == 0 ) return {shortName(kind), value};
      if ( spelling == 1 ) return {std::string(shortName(kind)) + "=" + value};
      if ( kind == KnownOption && spelling == 3 ) l = "--known-facets";
      return {l + "=" + value};
   }
   std::string value(int kind, long which)
   {
      static const char* methods[] = {"ad", "dd", "adjacency-decomposition", "double-description"};
      static const char* integers[] = {"16", "32", "64", "safe", "inf"};
      static const char* threads[] = {"1", "7", "128"};
      static const char* sortings[] = {"lex_asc", "lexicographic_ascending", "lex_desc", "lexicographic_descending", "nz_asc", "nonzero_ascending", "nz_desc", "nonzero_descending", "rev", "reverse", "lex_up", "lex_down", "nz_up", "nz_down"};
      switch ( kind )
      {
         case File: return "in";
         case MethodOption: return methods[which];
         case IntegerOption: return integers[which];
         case ThreadsOption: return threads[which];
         case SortingOption: return sortings[which];
         case KnownOption: return "known";
      }
      return "";
   }
   long values(int kind) { static const long n[] = {1, 4, 5, 3, 14, 1, 1, 1}; return n[kind]; }
   void expect(Expected& e, int kind, const std::string& v)
   {
      switch ( kind )
      {
         case File: e.file = v; break;
         case MethodOption: e.method = methodOf(v); break;
         case IntegerOption: e.integer = integerOf(v); break;
         case ThreadsOption: e.threads = threadsOf(v); e.threadsDefault = false; break;
         case SortingOption: e.sorting = sortingOf(v); break;
         case CheckOption: e.check = 1; break;
         case FilterOption: e.filter = 1; break;
      }
   }
   std::string symbolicWord(const char* base, int length)
   {
      std::string s;
      for ( int i = 0; i < length; ++i ) s += (char)vp::in(base, i, 1, 255);
      return s;
   }
}

// any selection (mask) of the options, in every order, spelling and value
VP_HARNESS(p14_positions)
{
   const long mask = vp_param("mask", 3);
   std::vector<Strings> groups;
   Expected e;
   for ( int k = 0; k < Kinds; ++k )
   {
      if ( !((mask >> k) & 1) ) continue;
      const std::string name = k == File ? "file" : longName(k) + 2;
      const std::string v = value(k, values(k) > 1 ? pick(name.c_str(), values(k)) : 0);
      groups.push_back(spelled(k, v, k == File ? 0 : pick((name + "_spelling").c_str(), k == KnownOption ? 4 : hasArgument(k) ? 3 : 2)));
      expect(e, k, v);
   }
   const Strings a = arrange(groups);
   if ( a.empty() ) e.mode = (int)OperationMode::Help;
   verify(a, e);
}

// an option with an argument of arbitrary characters
VP_HARNESS(p14_value)
{
   const int kind = (int)vp_param("kind", MethodOption);
   static const char* prefixes[] = {"", "lex_", "nz_", "s", "lexicographic_", "nonzero_"};
   // arbitrary characters behind a prefix or a whole valid word
   const std::string v = (vp_param("word", -1) >= 0 ? value(kind, vp_param("word", 0)) : std::string(prefixes[vp_param("prefix", 0)])) + symbolicWord("c", (int)vp_param("length", 2));
   Expected e;
   e.file = "in";
   expect(e, kind, v);
   const long spelling = pick("spelling", 3);
   const long first = pick("first", 2);
   const auto g = spelled(kind, v, spelling);
   Strings a(g);
   if ( first ) a.insert(a.begin(), "in"); else a.push_back("in");
   // words that ask for help or the version are something else
   if ( spelling == 0 && is(v, {"?", "-h", "-v", "--h", "--v", "-help", "--help", "-version", "--version"}) ) vp_skip();
   if ( spelling == 0 && v.size() > 1 && v[0] == '-' && v[1] != '-' && (v[1] == 'h' || v[1] == 'i' || v[1] == 't' || v[1] == 's' || v[1] == 'k' || v[1] == 'm' || v[1] == 'c' || v[1] == 'f') ) vp_skip();
   if ( spelling == 0 && v.size() > 2 && v[0] == '-' && v[1] == '-' ) vp_skip();
   verify(a, e);
}

// one argument of arbitrary characters
VP_HARNESS(p14_word)
{
   static const char* prefixes[] = {"", "-", "--", "--help", "--h", "--v", "-h", "-v", "--help-command", "-versio", "-hel", "--versio", "--hel", "--metho", "--thread", "--integer-typ", "--sortin", "--chec"};
   const std::string w = prefixes[vp_param("prefix", 0)] + symbolicWord("c", (int)vp_param("length", 2));
   Strings full{"panda", w};
   const long more = vp_param("more", 0);
   if ( more ) full.push_back("in");
   vp::Args args(full);
   int mode = ANY;
   const bool help = is(w, {"?", "--h", "-help", "--help"}) || (w == "-h" && !more), version = is(w, {"-v", "--v", "-version", "--version"});
   const bool command = (w == "-h" && more) || w.compare(0, 3, "-h=") == 0 || w.compare(0, 7, "--help=") == 0 || w.compare(0, 15, "--help-command=") == 0;
   if ( help ) mode = (int)OperationMode::Help;
   else if ( version ) mode = (int)OperationMode::Version;
   else if ( command ) mode = (int)OperationMode::HelpCommand;
   else if ( more && w[0] != '-' ) mode = THROWS;   // two file names
   else mode = (int)OperationMode::FacetEnumeration;
   same(outcome([&]() { return detectOperationMode(args.argc(), args.argv()); }), mode, "help and version are given when asked for and only then");
   if ( help || version || command ) { vp_reach("options"); return; }
   std::string name;
   bool thrown = false;
   try { name = getFilename(args.argc(), args.argv()); } catch ( const std::exception& ) { thrown = true; }
   vp_assert(thrown == (more && w[0] != '-'), "one file name is accepted, several are not");
   if ( !thrown && !more ) vp_assert(name == (w[0] == '-' ? std::string() : w), "an argument that is not an option is the file name");
   // nothing but the documented spellings selects anything: such words are the options themselves (without value) or misspelled
   const int m = outcome([&]() { return input::method(args.argc(), args.argv()); });
   vp_assert(m == (int)Method::AdjacencyDecomposition || m == THROWS, "an unknown argument selects nothing");
   vp_assert((m == THROWS) == (w.compare(0, 2, "-m") == 0 || w.compare(0, 3, "--m") == 0), "a misspelled option for the method is rejected");
   const int i = outcome([&]() { return integerType(args.argc(), args.argv()); });
   vp_assert(i == (int)IntegerType::Default || i == THROWS || w.compare(0, 3, "-i=") == 0, "an unknown argument selects nothing");
   if ( w.compare(0, 3, "-i=") == 0 ) vp_assert(i == integerOf(w.substr(3)), "the integer type is the one named");
   else vp_assert((i == THROWS) == (w.compare(0, 2, "-i") == 0 || w.compare(0, 3, "--i") == 0), "a misspelled option for the integer type is rejected");
   const int s = outcome([&]() { return getInputOrder(args.argc(), args.argv()); });
   vp_assert(s == (int)InputOrder::NoSorting || s == THROWS, "an unknown argument selects nothing");
   vp_assert((s == THROWS) == (w.compare(0, 2, "-s") == 0 || w.compare(0, 3, "--s") == 0), "a misspelled option for sorting is rejected");
   const int t = outcome([&]() { return concurrency::numberOfThreads(args.argc(), args.argv()); });
   const bool teq = w.compare(0, 3, "-t=") == 0;
   if ( teq ) vp_assert(t == threadsOf(w.substr(3)), "the number of threads is the one named");
   else vp_assert((t == THROWS) == (w.compare(0, 2, "-t") == 0 || w.compare(0, 3, "--t") == 0), "a misspelled option for the threads is rejected");
   vp_assert(input::checkValidity(args.argc(), args.argv()) == is(w, {"-c", "--check"}), "checking is done if asked for");
   vp_reach("options");
}

// the argument of the last option is missing, or a file name too many: an error, on the command line
VP_HARNESS(p14_errors)
{
   vp::file("in", "Vertices:\n0 0\n1 0\n0 1\n");
   vp::file("h", "Inequalities:\n-1 0\n1 -1\n");
   vp::file("known", "Inequalities:\n-1 0 0\n");
   const long what = vp_param("what", 0);
   Strings a;
   const std::string file = pick("file", 2) ? "h" : "in";
   if ( what == 0 )   // missing argument
   {
      static const char* options[] = {"-m", "-i", "-t", "-s", "-k", "-m=", "-i=", "-t=", "-s=", "--method=", "--integer-type=", "--threads=", "--sorting=", "--method", "--integer-type", "--threads", "--sorting", "--known-data", "--known", "-mdd", "-t2", "-srev", "-isafe", "-kknown"};
      a = {file, options[pick("option", 24)]};
   }
   if ( what == 1 )   // unknown value
   {
      static const char* values[] = {"-m=xx", "--method=", "-i=8", "-i=128", "--integer-type=big", "-t=0", "-t=-1", "-t=x", "--threads=2x", "-s=up", "--sorting=lex_", "-s=no", "-s=n", "-s=lexi", "--sorting=nonzer", "-s=reverses", "-k=missing", "--known-data=missing"};
      a = arrange({{file}, {values[pick("value", 18)]}});
   }
   if ( what == 2 )   // several files
   {
      std::vector<Strings> g{{file}, {"known"}, {"-m", "dd"}, {"-s", "rev"}};
      a = arrange(g);
   }
   if ( what == 3 )   // no such file, or none at all
   {
      a = arrange({{"-m", "dd"}, {"-s=rev"}});
      if ( pick("named", 2) ) a.push_back("missing");
   }
   const bool dd = what == 0 || what == 1;
   bool adOnly = false;
   for ( auto& x : a ) if ( x[0] == '-' && (x.compare(0, 2, "-t") == 0 || x.compare(0, 3, "--t") == 0) ) adOnly = true;   // the number of threads matters to adjacency decomposition only
   if ( dd && !adOnly && pick("dd", 2) && a.back().compare(0, 2, "-m") != 0 && a.back().compare(0, 3, "--m") != 0 && a[0].compare(0, 2, "-m") != 0 && a[0].compare(0, 3, "--m") != 0 ) a.insert(a.begin(), "--method=dd");
   const auto r = cli::run(a);
   vp_reach("options");
   vp_assert(r.rc == 1, "an incomplete or contradictory command line is rejected");
   vp_assert(r.out.empty(), "an incomplete or contradictory command line gives no results");
   vp_assert(!r.err.empty(), "the error is reported");
}

// help and version in any position
VP_HARNESS(p14_help)
{
   vp::file("in", "Vertices:\n0 0\n1 0\n0 1\n");
   const long what = vp_param("what", 0);
   static const char* help[] = {"?", "-h", "--h", "-help", "--help"};
   static const char* version[] = {"-v", "--v", "-version", "--version"};
   static const char* topics[] = {"threads", "method", "sorting", "integer-type", "check", "known-data", "known-facets", "known-vertices", "help", "version", "-t", "-m", "-s", "-i", "-c", "-k", "-h", "-v",
                                  "--threads", "--method", "--sorting", "--integer-type", "--check", "--known-data", "--help", "--version", "known_facets", "?"};
   Strings a;
   if ( what == 0 ) { const long w = pick("word", 5); a = w == 1 ? Strings{"in", "-h"} : arrange({{"in"}, {help[w]}}); }
   if ( what == 1 ) a = arrange({{"in"}, {version[pick("word", 4)]}, {"-m=dd"}});
   if ( what == 2 )
   {
      const std::string topic = topics[pick("topic", 28)];
      const long s = pick("spelling", 4);
      a = s == 0 ? Strings{"-h", topic} : s == 1 ? Strings{"-h=" + topic} : s == 2 ? Strings{"--help=" + topic} : Strings{"--help-command=" + topic};
      if ( pick("file", 2) ) a.insert(a.begin(), "in");
   }
   if ( what == 3 ) a = {"--help=" + symbolicWord("c", (int)vp_param("length", 2))};
   if ( what == 4 ) a = {};
   const auto r = cli::run(a);
   vp_reach("options");
   if ( what == 3 )
   {
      const std::string t = a[0].substr(7);
      bool known = is(t, {"c", "h", "i", "k", "m", "s", "t", "v"});
      for ( auto x : topics ) known = known || t == x;
      vp_assert((r.rc == 0) == known, "help is given on options only");
      vp_assert(known == !r.out.empty(), "help is given on options only");
      return;
   }
   vp_assert(r.rc == 0, "help and version are given when asked for");
   vp_assert(r.out.find("Inequalities:") == std::string::npos || what == 2, "nothing is computed when help or the version is asked for");
   const std::string text = r.out + r.err;
   if ( what == 0 || what == 4 ) for ( auto o : {"-i <n>", "--integer-type=", "-k ", "--known-data=", "--known-facets=", "--known-vertices=", "-m ", "--method=", "-s ", "--sorting=", "-c", "--check", "-t ", "--threads=", "--help", "--version"} ) vp_assert(text.find(o) != std::string::npos, "the help lists the options");
   if ( what == 1 ) vp_assert(text.find("PANDA") != std::string::npos && text.find("revision") != std::string::npos, "the version is printed");
   if ( what == 2 ) vp_assert(!r.out.empty(), "the help on an option is printed");
}

// the method named is the one that runs; known data of the other kind is rejected
VP_HARNESS(p14_runs)
{
   const long facets = pick("facets", 2);
   vp::file("in", facets ? "Vertices:\n0 0\n1 0\n0 1\n" : "Inequalities:\n-1 0 0\n0 -1 0\n1 1 -1\n");
   vp::file("known", facets ? "Inequalities:\n-1 0 0\n" : "Vertices:\n0 0\n");
   const long m = pick("method", 6);
   static const char* methods[] = {"", "ad", "adjacency-decomposition", "", "dd", "double-description"};
   const bool dd = m > 3;
   std::vector<Strings> g{{"in"}, {"-t", "1"}};
   if ( methods[m][0] ) g.push_back(spelled(MethodOption, methods[m], pick("spelling", 3)));
   const long k = pick("known", 4);
   if ( k ) g.push_back({std::string(k == 1 ? "--known-data=" : k == 2 ? "--known-facets=" : "--known-vertices=") + "known"});
   const auto r = cli::run(arrange(g));
   vp_reach("options");
   const bool wrong = (k == 2 && !facets) || (k == 3 && facets);
   if ( wrong ) { vp_assert(r.rc == 1 && r.out.empty(), "known data of the wrong kind is rejected"); return; }
   vp_assert(r.rc == 0, "documented options are accepted");
   vp_assert((r.err.find("double description") != std::string::npos) == dd, "the method is the one named");
   vp_assert((r.err.find("adjacency decomposition") != std::string::npos) == !dd, "the method is the one named");
   const auto s = cli::sections(r.out);
   const auto M = facets ? cli::inequalities(s) : cli::vertices(s);
   vp_assert(M.size() == 3, "the result is printed");
}
