// The overflow-checked type against 128-bit arithmetic.
#include "vp.h"
#include "safe_integer.h"
#include "algorithm_integer_operations.h"
#include <cstring>
#include <type_traits>

using namespace panda;
typedef __int128 i128;

namespace
{
   int fits(i128 v) { return vp_and(v >= INT64_MIN, v <= INT64_MAX); }
   int is(const SafeInteger& c, i128 v)
   {
      static_assert(sizeof(SafeInteger) == sizeof(int64_t), "representation");
      int64_t x;
      std::memcpy(&x, &c, sizeof x);
      return (i128)x == v;
   }
   // base + offset: the offset is symbolic in [-m, m], or the whole value in its full range when there is no m
   int64_t operand(const std::string& n)
   {
      vp_opaque_numbers = 1; // messages of exceptions
      const long m = vp_param((n + "m").c_str(), -1);
      if ( m < 0 ) return vp_sym(n.c_str(), INT64_MIN, INT64_MAX);
      const long lo = vp_param((n + "lo").c_str(), 0);
      // clipped to the range of the type
      const long from = lo < INT64_MIN + m ? INT64_MIN : lo - m, to = lo > INT64_MAX - m ? INT64_MAX : lo + m;
      const long v = vp_sym(n.c_str(), from, to);
      return vp_param((n + "each").c_str(), 0) ? vp_concrete(v) : v;
   }
   template <typename F>
   void check(F f, int representable, i128 exact, const char* what)
   {
      bool thrown = false;
      SafeInteger r(int64_t(0));
      try { r = f(); } catch ( const std::exception& ) { thrown = true; }
      vp_assert(vp_and(thrown, representable) == 0, what);
      vp_assert(vp_or(thrown, vp_and(representable, is(r, exact))), what);
   }
}

VP_HARNESS(p07_ops)
{
   const int64_t a = operand("a"), b = operand("b");
   const SafeInteger A(a), B(b);
   const long op = vp_param("op", 0);
   vp_reach("op");
   switch ( op )
   {
      case 0: check([&]() { return A + B; }, fits((i128)a + b), (i128)a + b, "sum"); check([&]() { SafeInteger x = A; x += B; return x; }, fits((i128)a + b), (i128)a + b, "sum in place"); break;
      case 1: check([&]() { return A - B; }, fits((i128)a - b), (i128)a - b, "difference"); check([&]() { SafeInteger x = A; x -= B; return x; }, fits((i128)a - b), (i128)a - b, "difference in place"); break;
      case 2: check([&]() { return A * B; }, fits((i128)a * b), (i128)a * b, "product"); break;
      case 3:
      {
         bool thrown = false;
         SafeInteger r(int64_t(0));
         try { r = A / B; } catch ( const std::exception& ) { thrown = true; }
         const bool undefined = vp_or(b == 0, vp_and(a == INT64_MIN, b == -1));
         vp_assert(thrown == undefined, "quotient throws exactly when there is none in range");
         if ( thrown || undefined ) break;
         int64_t q;
         std::memcpy(&q, &r, sizeof q);
         const i128 rest = (i128)a - (i128)q * b;     // truncated: the rest is smaller than the divisor and has the sign of the dividend
         vp_assert(rest < 0 ? (a < 0 && -rest < (b < 0 ? -(i128)b : b)) : (rest == 0 || (a > 0 && rest < (b < 0 ? -(i128)b : b))), "truncated quotient");
         break;
      }
      case 4:
      {
         bool thrown = false;
         SafeInteger r(int64_t(0));
         try { r = A % B; } catch ( const std::exception& ) { thrown = true; }
         if ( b <= 0 ) { if ( b == 0 ) vp_assert(thrown, "modulo zero throws"); break; }
         vp_assert(!thrown, "remainder for a positive modulus");
         int64_t m;
         std::memcpy(&m, &r, sizeof m);
         vp_assert(vp_and(m >= 0, m < b), "remainder in [0, modulus)");
         vp_assert(((i128)a - m) % b == 0, "remainder is congruent");
         break;
      }
      case 5:
         vp_assert((A == B) == (a == b), "=="); vp_assert((A != B) == (a != b), "!=");
         vp_assert((A < B) == (a < b), "<"); vp_assert((A > B) == (a > b), ">");
         vp_assert((A <= B) == (a <= b), "<="); vp_assert((A >= B) == (a >= b), ">=");
         break;
      case 6:
         check([&]() { return -A; }, fits(-(i128)a), -(i128)a, "negation");
         check([&]() { return panda::abs(A); }, fits(a < 0 ? -(i128)a : a), a < 0 ? -(i128)a : a, "absolute value");
         break;
      case 7:
      {
         const int v = (int)vp_sym("v", INT32_MIN, INT32_MAX);
         vp_assert((A == v) == (a == v), "== int"); vp_assert((A != v) == (a != v), "!= int");
         vp_assert((A < v) == (a < v), "< int"); vp_assert((A > v) == (a > v), "> int");
         vp_assert((A <= v) == (a <= v), "<= int"); vp_assert((A >= v) == (a >= v), ">= int");
         bool thrown = false;
         int r = 0;
         try { r = (int)A; } catch ( const std::exception& ) { thrown = true; }
         vp_assert(thrown == (a < INT32_MIN || a > INT32_MAX), "conversion to int throws exactly when the value does not fit");
         vp_assert(vp_or(thrown, r == a), "conversion to int is exact");
         break;
      }
      case 8: // the same object as both operands
         check([&]() { SafeInteger x = A; x += x; return x; }, fits((i128)a + a), (i128)a + a, "a += a");
         check([&]() { SafeInteger x = A; x -= x; return x; }, 1, 0, "a -= a");
         check([&]() { SafeInteger x = A; x /= x; return x; }, a != 0, 1, "a /= a");
         break;
      case 9: check([&]() { SafeInteger x = A; x *= x; return x; }, fits((i128)a * a), (i128)a * a, "a *= a"); break;
      case 10:
      {
         const uint64_t u = (uint64_t)a;
         check([&]() { return SafeInteger(u); }, u <= (uint64_t)INT64_MAX, u, "from uint64_t");
         vp_assert(is(SafeInteger((int16_t)a), (int16_t)a), "from int16_t");
         vp_assert(is(SafeInteger((int32_t)a), (int32_t)a), "from int32_t");
         vp_assert(is(SafeInteger((uint16_t)a), (uint16_t)a), "from uint16_t");
         vp_assert(is(SafeInteger((uint32_t)a), (uint32_t)a), "from uint32_t");
         vp_assert(is(SafeInteger((int64_t)a), a), "from int64_t");
         break;
      }
   }
}
