// What is printed reads back as the same inequality, equation, point or direction.
#include "lines.h"
#include "cli.h"
#include "algorithm_inequality_operations.h"
#include "algorithm_row_operations.h"
#include "big_integer.h"
#include "input_common.h"
#include "input_constraint.h"
#include "input_vertex.h"
#include "safe_integer.h"

using namespace panda;

namespace
{
   template <typename T> T make(long v) { return T(v); }
   template <> short make<short>(long v) { return (short)v; }
   template <> int make<int>(long v) { return (int)v; }
   template <> BigInteger make<BigInteger>(long v) { return BigInteger((int)v); }
   template <typename T> Row<T> row(int n, long m, long big)
   {
      Row<T> r;
      const long at = vp_param("big_at", -1);
      for ( int i = 0; i < n; ++i )
      {
         // in long rows only some entries are arbitrary
         if ( !((vp_param("free", -1) >> i) & 1) ) { static const int P[] = {-1, 1, 1, 0, -7, 2, -1, -1, 1, 10, 0, 0, 3, -12, 1}; r.push_back(make<T>(P[(i + vp_param("pattern", 0)) % 15])); continue; }
         const long lo = i == at ? big - m : -m, hi = i == at ? big + m : m;
         r.push_back(make<T>(vp::in("r", i, lo, hi)));
      }
      return r;
   }
   const char* const NAMES[][3] = {{"x", "y", "z"}, {"x10", "x1", "x"}, {"a", "ab", "abc"}};
   Names names(int n) { Names r; if ( vp_param("names", 0) == 3 ) { for ( int i = 1; i <= n; ++i ) r.push_back("v" + std::to_string(i)); return r; } for ( int i = 0; i < n; ++i ) r.push_back(NAMES[vp_param("names", 0)][i]); return r; }
   template <typename T>
   void same(const Row<T>& r, const Row<int>& got, const char* what)
   {
      vp_assert(got.size() == r.size(), "the line read back has the same length");
      int ok = 1;
      for ( size_t i = 0; i < r.size(); ++i ) ok = vp_and(ok, r[i] == make<T>(got[i]));
      vp_assert(ok, what);
   }
   template <typename T>
   void constraint()
   {
      const int n = (int)vp_param("n", 2);
      const bool equation = vp_param("equation", 0) != 0, named = vp_param("named", 1) != 0;
      const Row<T> r = row<T>(n + 1, vp_param("m", 9), vp_param("big", 0));
      int some = 0;
      for ( int i = 0; i < n; ++i ) some = vp_or(some, r[i] != T(0));
      vp_assume(some);
      std::ostringstream s;
      if ( vp_param("ln", 0) ) algorithm::prettyPrintln(s, r, named ? names(n) : Names(), equation ? "=" : "<=");
      else { algorithm::prettyPrint(s, r, named ? names(n) : Names(), equation ? "=" : "<="); s << "\n"; }
      std::string text = s.str();
      vp_assert(text.find('\n') == text.size() - 1, "an inequality is one line");
      if ( vp_param("crlf", 0) ) text.insert(text.size() - 1, "\r");
      vp_reach("printed");
      if ( equation )
      {
         std::istringstream in("Equations:\n" + text);
         auto rows = input::implementation::constraints<ConstraintType::Equation>(in, names(n));
         vp_assert(rows.size() == 1, "the line is read back as one equation");
         same(r, rows[0], "the equation read back is the one printed");
      }
      else
      {
         std::istringstream in("Inequalities:\n" + text);
         auto rows = input::implementation::constraints<ConstraintType::Inequality>(in, names(n));
         vp_assert(rows.size() == 1, "the line is read back as one inequality");
         same(r, rows[0], "the inequality read back is the one printed");
      }
   }
   template <typename T>
   void vertex()
   {
      const int n = (int)vp_param("n", 2);
      const long d = vp_param("d", 6);
      Row<T> r = row<T>(n, vp_param("m", 9), vp_param("big", 0));
      const long c = vp_sym("d", -d, d);
      vp_assume(c != 0);
      r.push_back(make<T>(c));
      std::ostringstream s;
      algorithm::printFractional(s, r);
      vp_reach("printed");
      std::istringstream in("Vertices:\n" + s.str() + "\n");
      const auto rows = input::implementation::verticesConvex(in);
      vp_assert(rows.size() == 1, "the line is read back as one vertex");
      vp_assert((int)rows[0].size() == n + 1, "the line read back has the same length");
      int ok = rows[0].back() > 0;
      for ( int i = 0; i < n; ++i ) ok = vp_and(ok, make<T>(rows[0][i]) * r.back() == r[i] * make<T>(rows[0].back()));
      vp_assert(ok, "the vertex read back is the one printed");
      // fractions are in lowest terms
      const auto printed = cli::sections(s.str());
      for ( const auto& t : printed[0].rows[0] )
      {
         const size_t k = t.find('/');
         if ( k == std::string::npos ) continue;
         long a = vp_concrete(cli::toLong(t, 0, k)), b = vp_concrete(cli::toLong(t, k + 1));
         vp_assert(b > 1, "a denominator is greater than 1");
         while ( b ) { const long z = a % b; a = b; b = z; }
         vp_assert(a == 1 || a == -1, "fractions are in lowest terms");
      }
   }
   template <typename T>
   void plain()
   {
      const int n = (int)vp_param("n", 2);
      const Row<T> r = row<T>(n, vp_param("m", 9), vp_param("big", 0));
      std::ostringstream s;
      s << r;
      vp_reach("printed");
      std::istringstream in("Vertices:\n" + s.str() + "\n");
      const auto rows = input::implementation::verticesConvex(in);
      vp_assert(rows.size() == 1, "the line is read back as one row");
      Row<int> got = rows[0];
      vp_assert(got.back() == 1, "plain rows are integral");
      got.pop_back();
      same(r, got, "the row read back is the one printed");
   }
   // rows that do not fit are refused, never altered
   template <typename T>
   void wide()
   {
      const long big = vp_param("big", 2147483647), m = vp_param("m", 2);
      vp_opaque_numbers = 1;
      Row<T> r(3, T(1));
      const long v = vp_sym("v", big - m, big + m);
      r[vp_param("at", 0)] = T(int64_t(v));
      bool thrown = false;
      std::ostringstream s;
      try
      {
         switch ( vp_param("how", 0) )
         {
            case 0: s << r; break;
            case 1: algorithm::prettyPrint(s, r, {"x", "y"}, "<="); break;
            case 2: algorithm::prettyPrintln(s, r, {"x", "y"}, "<="); break;
            case 3: algorithm::printFractional(s, r); break;
         }
      }
      catch ( const std::exception& ) { thrown = true; }
      vp_assert(thrown == (v > 2147483647L || v < -2147483648L), "a row is refused exactly if it does not fit");
   }
}

#define ALL(name) VP_HARNESS(p12_##name) { switch ( vp_param("type", 32) ) { case 16: name<int16_t>(); break; case 32: name<int>(); break; case 64: name<int64_t>(); break; case 1: name<SafeInteger>(); break; case 2: name<BigInteger>(); break; } }
ALL(constraint)
ALL(vertex)
ALL(plain)
VP_HARNESS(p12_wide) { if ( vp_param("type", 64) == 64 ) wide<int64_t>(); else wide<SafeInteger>(); }
