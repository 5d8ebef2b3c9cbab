// The arbitrary-precision type against 128-bit arithmetic.
#include "vp.h"
#include "big_integer.h"
#include "algorithm_integer_operations.h"

using namespace panda;
typedef __int128 i128;
typedef unsigned __int128 u128;

namespace
{
   // the representation: sign (0: positive), magnitude in 64-bit digits without leading zeros
   struct Mirror { int sign; std::vector<uint64_t> data; };
   Mirror& mirror(BigInteger& x) { return *reinterpret_cast<Mirror*>(&x); }
   bool representationKnown()
   {
      if ( sizeof(Mirror) != sizeof(BigInteger) ) return false;
      BigInteger a(int64_t(5)), b(int64_t(-7));
      return mirror(a).sign == 0 && mirror(a).data == std::vector<uint64_t>{5} && mirror(b).sign == 1 && mirror(b).data == std::vector<uint64_t>{7};
   }
   BigInteger make(i128 v)
   {
      BigInteger x;
      const bool neg = v < 0;
      const u128 m = neg ? -(u128)v : (u128)v;
      mirror(x).sign = neg;
      mirror(x).data.assign(1, (uint64_t)m);
      if ( (uint64_t)(m >> 64) ) mirror(x).data.push_back((uint64_t)(m >> 64));
      return x;
   }
   // equality with a mathematical integer, and the normal form
   int is(const BigInteger& c, i128 v)
   {
      const Mirror& x = mirror(const_cast<BigInteger&>(c));
      if ( x.data.empty() || x.data.size() > 2 ) return 0;
      const u128 m = x.data[0] | (x.data.size() > 1 ? (u128)x.data[1] << 64 : 0);
      const u128 w = v < 0 ? -(u128)v : (u128)v;
      return vp_and(m == w, vp_and(x.sign == (v < 0 ? 1 : 0), vp_or(x.data.size() == 1, x.data.back() != 0)));
   }
   // operands: +-((hi << 64) + lo + symbolic), hi within an interval too (concrete per path)
   i128 operand(const char* name, int which)
   {
      const std::string p = which ? "b" : "a";
      auto par = [&](const char* n, long d) { return vp_param((p + n).c_str(), d); };
      vp_opaque_numbers = 1; // messages of exceptions
      const bool neg = par("sign", 0) ? par("sign", 0) < 0 : vp_concrete(vp_sym((p + "neg").c_str(), 0, 1)) != 0;
      const long hi = par("hi", 0) + (par("him", 0) ? vp_concrete(vp_sym((p + "hi").c_str(), 0, par("him", 0))) : 0);
      const uint64_t lo = (uint64_t)par("lo", 0) + (uint64_t)vp_sym(name, -par("m", 0), par("m", 0));
      const u128 v = ((u128)(uint64_t)hi << 64) | lo;
      return neg ? -(i128)v : (i128)v;
   }
}

// machine-size and two-digit operands, every operation
VP_HARNESS(p08_ops)
{
   if ( !representationKnown() ) { vp_reach("unknown representation"); vp_stop(); }
   const i128 a = operand("a", 0), b = operand("b", 1);
   const BigInteger A = make(a), B = make(b);
   const long op = vp_param("op", 0);
   vp_reach("op");
   switch ( op )
   {
      case 0: vp_assert(is(A + B, a + b), "sum"); { BigInteger x = A; x += B; vp_assert(is(x, a + b), "sum in place"); } break;
      case 1: vp_assert(is(A - B, a - b), "difference"); { BigInteger x = A; x -= B; vp_assert(is(x, a - b), "difference in place"); } break;
      case 2: vp_assert(is(A * B, a * b), "product"); { BigInteger x = A; x *= B; vp_assert(is(x, a * b), "product in place"); } break;
      case 3:
         if ( b == 0 )
         {
            bool thrown = false;
            try { const BigInteger c = A / B; (void)c; } catch ( const std::exception& ) { thrown = true; }
            vp_assert(thrown, "dividing by zero throws");
            break;
         }
         vp_assert(is(A / B, a / b), "quotient");
         break;
      case 4:
      {
         bool thrown = false;
         BigInteger r;
         try { r = A % B; } catch ( const std::exception& ) { thrown = true; }
         if ( b > 0 ) { vp_assert(!thrown, "remainder for a positive modulus"); vp_assert(is(r, a % b < 0 ? a % b + b : a % b), "remainder in [0, modulus)"); }
         else if ( b == 0 ) vp_assert(thrown, "remainder modulo zero throws");
         break;
      }
      case 5:
      {
         vp_assert((A == B) == (a == b), "=="); vp_assert((A != B) == (a != b), "!=");
         vp_assert((A < B) == (a < b), "<"); vp_assert((A > B) == (a > b), ">");
         vp_assert((A <= B) == (a <= b), "<="); vp_assert((A >= B) == (a >= b), ">=");
         break;
      }
      case 6:
      {
         vp_assert(is(-A, -a), "negation");
         vp_assert(is(panda::abs(A), a < 0 ? -a : a), "absolute value");
         break;
      }
      case 7:   // the same object twice
      {
         BigInteger x = A; x += x; vp_assert(is(x, a + a), "a += a");
         BigInteger y = A; y -= y; vp_assert(is(y, 0), "a -= a");
         break;
      }
      case 9:
      {
         BigInteger u = A; bool t = false; try { u /= u; } catch ( const std::exception& ) { t = true; }
         vp_assert(t == (a == 0), "a /= a throws for zero only");
         if ( a != 0 ) vp_assert(is(u, 1), "a /= a");
         break;
      }
      case 8: { BigInteger x = A; x *= x; vp_assert(is(x, a * a), "a *= a"); break; }
   }
}
// carries and borrows over three digits: (x0 + x1 B + x2 B^2) +- (y0 + y1 B), x1 and y1 near their bounds
VP_HARNESS(p08_digits)
{
   if ( !representationKnown() ) { vp_reach("unknown representation"); vp_stop(); }
   vp_opaque_numbers = 1;
   vp_reach("op");
   const uint64_t x0 = (uint64_t)vp_sym("x0", INT64_MIN, INT64_MAX), y0 = (uint64_t)vp_sym("y0", INT64_MIN, INT64_MAX);
   const uint64_t x1 = (uint64_t)vp_sym("x1", -2, 2), y1 = (uint64_t)vp_sym("y1", -2, 2), x2 = vp_param("x2", 0);
   BigInteger A, B;
   auto set = [](BigInteger& x, std::vector<uint64_t> d) { while ( d.size() > 1 && d.back() == 0 ) d.pop_back(); mirror(x).data = d; };
   set(A, {x0, x1, x2}); set(B, {y0, y1});
   const bool neg = vp_concrete(vp_sym("neg", 0, 1)) != 0;
   if ( neg ) { mirror(A).sign = vp_or(vp_or(x0 != 0, x1 != 0), x2 != 0) ? 1 : 0; mirror(B).sign = vp_or(y0 != 0, y1 != 0) ? 1 : 0; }
   auto digit = [](const BigInteger& x, size_t i) { const Mirror& m = mirror(const_cast<BigInteger&>(x)); return i < m.data.size() ? m.data[i] : 0; };
   const u128 s0 = (u128)x0 + y0, s1 = (u128)x1 + y1 + (uint64_t)(s0 >> 64), s2 = (u128)x2 + (uint64_t)(s1 >> 64);
   const BigInteger S = vp_param("minus", 0) ? A - (-B) : A + B;
   vp_assert(vp_and(vp_and(digit(S, 0) == (uint64_t)s0, digit(S, 1) == (uint64_t)s1), vp_and(digit(S, 2) == (uint64_t)s2, digit(S, 3) == (uint64_t)(s2 >> 64))), "three-digit sum");
   const BigInteger D = S - B;
   vp_assert(D == A, "(a + b) - b == a");
   vp_assert(vp_and(S - A == B, (A - S) + B == BigInteger()), "differences");
   vp_assert((S > A) == (B > BigInteger()), "order of sums");
}
// conversion from and comparison with machine integers
VP_HARNESS(p08_int)
{
   if ( !representationKnown() ) { vp_reach("unknown representation"); vp_stop(); }
   const i128 a = operand("a", 0);
   const BigInteger A = make(a);
   const int v = (int)vp_sym("v", INT32_MIN, INT32_MAX);
   vp_reach("op");
   vp_assert((A == v) == (a == v), "== int"); vp_assert((A != v) == (a != v), "!= int");
   vp_assert((A < v) == (a < v), "< int"); vp_assert((A > v) == (a > v), "> int");
   vp_assert((A <= v) == (a <= v), "<= int"); vp_assert((A >= v) == (a >= v), ">= int");
   bool thrown = false;
   int r = 0;
   try { r = (int)A; } catch ( const std::exception& ) { thrown = true; }
   vp_assert(thrown == (a < INT32_MIN || a > INT32_MAX), "conversion to int throws exactly when the value does not fit");
   vp_assert(vp_or(thrown, r == a), "conversion to int is exact");
}
VP_HARNESS(p08_make)
{
   if ( !representationKnown() ) { vp_reach("unknown representation"); vp_stop(); }
   vp_reach("op");
   const int16_t s = (int16_t)vp_sym("s", INT16_MIN, INT16_MAX);
   const int32_t i = (int32_t)vp_sym("i", INT32_MIN, INT32_MAX);
   const int64_t l = (int64_t)vp_sym("l", INT64_MIN, INT64_MAX);
   vp_assert(is(BigInteger(s), s), "from int16_t");
   vp_assert(is(BigInteger(i), i), "from int32_t");
   vp_assert(is(BigInteger(l), l), "from int64_t");
   vp_assert(is(BigInteger((uint16_t)s), (uint16_t)s), "from uint16_t");
   vp_assert(is(BigInteger((uint32_t)i), (uint32_t)i), "from uint32_t");
   vp_assert(is(BigInteger((uint64_t)l), (i128)(uint64_t)l), "from uint64_t");
}
// operands of many digits: digit i of a is base + {-1, 0, 1} at the positions chosen by the mask, likewise of b
namespace
{
   typedef std::vector<uint64_t> Digits;
   Digits digits(const char* name, const char* mask)
   {
      static const uint64_t BASE[] = {5, 0, ~(uint64_t)0, (uint64_t)1 << 63, 1, 0x123456789abcdef0};
      const long n = vp_param("n", 3), at = vp_param(mask, 0), pattern = vp_param("pattern", 0);
      Digits d;
      for ( long i = 0; i < n; ++i ) d.push_back(BASE[(i + pattern) % 6] + (at >> i & 1 ? (uint64_t)vp::in(name, i, -1, 1) : 0));
      if ( d.back() == 0 ) d.back() = 3;
      return d;
   }
   BigInteger number(Digits d, int negative)
   {
      BigInteger x;
      while ( d.size() > 1 && d.back() == 0 ) d.pop_back();
      mirror(x).data = d;
      mirror(x).sign = d.size() == 1 && d[0] == 0 ? 0 : negative;
      return x;
   }
   int less(const Digits& a, const Digits& b)   // of the same length
   {
      int r = 0;
      for ( size_t i = 0; i < a.size(); ++i ) r = vp_or(a[i] < b[i], vp_and(a[i] == b[i], r));
      return r;
   }
   Digits minus(Digits a, const Digits& b)
   {
      uint64_t borrow = 0;
      for ( size_t i = 0; i < a.size(); ++i ) { const u128 t = (u128)b[i] + borrow; borrow = (u128)a[i] < t; a[i] = (uint64_t)((u128)a[i] - t); }
      return a;
   }
   Digits times(Digits a, uint64_t k)
   {
      uint64_t carry = 0;
      for ( auto& x : a ) { const u128 t = (u128)x * k + carry; x = (uint64_t)t; carry = (uint64_t)(t >> 64); }
      a.push_back(carry);
      return a;
   }
   int holds(const BigInteger& x, const Digits& d, int negative)
   {
      const Mirror& m = mirror(const_cast<BigInteger&>(x));
      if ( m.data.empty() || m.data.size() > d.size() ) return 0;
      int ok = vp_or(m.data.size() == 1, m.data.back() != 0), zero = 1;
      for ( size_t i = 0; i < d.size(); ++i ) { ok = vp_and(ok, (i < m.data.size() ? m.data[i] : 0) == d[i]); zero = vp_and(zero, d[i] == 0); }
      return vp_and(ok, m.sign == vp_and(!zero, negative));
   }
}
VP_HARNESS(p08_long)
{
   if ( !representationKnown() ) { vp_reach("unknown representation"); vp_stop(); }
   vp_opaque_numbers = 1;
   const Digits a = digits("a", "amask"), b = digits("b", "bmask");
   const int neg = (int)vp_param("negative", 0);
   const BigInteger A = number(a, neg & 1), B = number(b, neg >> 1);
   vp_reach("op");
   const int below = vp_concrete(less(a, b)) != 0;
   switch ( vp_param("op", 0) )
   {
      case 0:   // order
      {
         int same = 1;
         for ( size_t i = 0; i < a.size(); ++i ) same = vp_and(same, a[i] == b[i]);
         const int na = neg & 1, nb = neg >> 1;
         const int lt = na != nb ? na : na ? vp_and(!below, !same) : below, eq = na != nb ? 0 : same;
         vp_assert((A < B) == lt, "<"); vp_assert((A == B) == eq, "=="); vp_assert((A > B) == vp_and(!lt, !eq), ">");
         vp_assert((A <= B) == vp_or(lt, eq), "<="); vp_assert((A >= B) == !lt, ">="); vp_assert((A != B) == !eq, "!=");
         break;
      }
      case 1:   // the leading digits agree: the quotient is 0 or +-1
      {
         vp_assume(a.back() == b.back());
         const Digits zero(a.size(), 0);
         Digits one = zero; one[0] = 1;
         vp_assert(holds(A / B, below ? zero : one, (neg & 1) != (neg >> 1)), "quotient");
         if ( neg == 0 ) vp_assert(holds(A % B, below ? a : minus(a, b), 0), "remainder");
         break;
      }
      case 2:   // differences: a - b, b - a
      {
         vp_assert(holds(A - B, below ? minus(b, a) : minus(a, b), below), "difference");
         vp_assert(holds(B - A, below ? minus(b, a) : minus(a, b), !below), "difference");
         vp_assert(holds(A + (-B), below ? minus(b, a) : minus(a, b), below), "sum with the negative");
         break;
      }
      case 3:   // (k b + r) / b, for r in {0, 1, b - 1}, and k b
      {
         const int64_t k = (int64_t)vp_param("k", 3);
         const Digits kb = times(b, (uint64_t)k);
         vp_assert(holds(B * BigInteger(k), kb, neg >> 1), "product");
         vp_assert(holds(BigInteger(k) * B, kb, neg >> 1), "product");
         const BigInteger P = number(kb, neg & 1);
         Digits q(1, (uint64_t)k), more = kb;
         vp_assert(holds(P / B, q, (neg & 1) != (neg >> 1)), "quotient of a multiple");
         if ( neg >> 1 == 0 ) vp_assert(holds(P % B, Digits(1, 0), 0), "remainder of a multiple");
         for ( size_t i = 0; i < more.size() && ++more[i] == 0; ++i ) {}
         vp_assert(holds(number(more, 0) / B, q, neg >> 1), "quotient, remainder 1");
         if ( neg >> 1 == 0 ) vp_assert(holds(number(more, 0) % B, Digits(1, 1), 0), "remainder 1");
         break;
      }
   }
}
