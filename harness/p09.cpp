// gcd and lcm of every supported integer type against Euclid's algorithm in 128 bits.
#include "vp.h"
#include "big_integer.h"
#include "safe_integer.h"
#include "algorithm_integer_operations.h"
#include "algorithm_row_operations.h"
#include <limits>

using namespace panda;
typedef __int128 i128;

namespace
{
   i128 refGcd(i128 a, i128 b)
   {
      if ( a < 0 ) a = -a;
      if ( b < 0 ) b = -b;
      while ( b != 0 ) { const i128 r = a % b; a = b; b = r; }
      return a;
   }
   template <typename T> struct Limits { static i128 lo() { return std::numeric_limits<T>::min(); } static i128 hi() { return std::numeric_limits<T>::max(); } };
   template <> struct Limits<SafeInteger> : Limits<int64_t> {};
   template <> struct Limits<BigInteger> : Limits<int64_t> {};
   template <typename T> T make(int64_t v) { return T(v); }
   template <> short make<short>(int64_t v) { return (short)v; }
   template <> int make<int>(int64_t v) { return (int)v; }
   template <typename T> T arg(const char* n, int64_t& v)
   {
      const std::string s = n;
      const i128 m = vp_param((s + "m").c_str(), 10), base = vp_param((s + "base").c_str(), 0);
      // base: 0, or +-1: the largest / smallest value of the type, or the number itself
      i128 from = base == 1 ? Limits<T>::hi() : base == -1 ? Limits<T>::lo() : base;
      i128 to = from + m;
      from -= m;
      if ( from < Limits<T>::lo() ) from = Limits<T>::lo();
      if ( to > Limits<T>::hi() ) to = Limits<T>::hi();
      v = vp_sym(n, (long)from, (long)to);
      return make<T>(v);
   }
   template <typename T>
   void pair()
   {
      vp_opaque_numbers = 1;
      int64_t a, b;
      const T A = arg<T>("a", a), B = arg<T>("b", b);
      const i128 g = refGcd(a, b);
      vp_reach("op");
      const i128 l = g == 0 ? 0 : (a < 0 ? -(i128)a : (i128)a) / g * (b < 0 ? -(i128)b : (i128)b);
      const bool big = std::is_same<T, BigInteger>::value;
      // the absolute values have to fit as well (they are results of the computation, too)
      const bool fitsA = big || (-(i128)a <= Limits<T>::hi()), fitsB = big || (-(i128)b <= Limits<T>::hi());
      const bool safe = std::is_same<T, SafeInteger>::value;
      if ( g <= Limits<T>::hi() && (!safe || (fitsA && fitsB)) )   // the checked type aborts when |a| does not fit
      {
         vp_assert(algorithm::gcd(A, B) == make<T>((int64_t)g), "gcd");
         vp_assert(algorithm::gcd(B, A) == make<T>((int64_t)g), "gcd with the arguments swapped");
      }
      if ( l <= Limits<T>::hi() && fitsA && fitsB )
         vp_assert(algorithm::lcm(A, B) == make<T>((int64_t)l), "lcm");
   }
   // gcd and lcm of all entries of a row
   template <typename T>
   void row()
   {
      vp_opaque_numbers = 1;
      const int n = (int)vp_param("n", 3);
      Row<T> r;
      i128 g = 0, l = 1;
      const long m = vp_param("m", 3);
      for ( int i = 0; i < n; ++i )
      {
         const long v = vp::in("x", i, -m, m);
         r.push_back(make<T>(v));
         g = refGcd(g, v);
         const i128 h = refGcd(l, v);
         l = h == 0 ? 0 : (l < 0 ? -l : l) / h * (v < 0 ? -v : v);
      }
      vp_reach("op");
      vp_assert(algorithm::gcd(r) == make<T>((int64_t)g), "gcd of a row");
      vp_assert(algorithm::lcm(r) == make<T>((int64_t)l), "lcm of a row");
   }
}
VP_HARNESS(p09_pair)
{
   switch ( vp_param("type", 0) )
   {
      case 0: pair<int>(); break;
      case 1: pair<short>(); break;
      case 2: pair<int64_t>(); break;
      case 3: pair<SafeInteger>(); break;
      case 4: pair<BigInteger>(); break;
   }
}
VP_HARNESS(p09_row)
{
   switch ( vp_param("type", 0) )
   {
      case 0: row<int>(); break;
      case 1: row<short>(); break;
      case 2: row<int64_t>(); break;
      case 3: row<SafeInteger>(); break;
      case 4: row<BigInteger>(); break;
   }
}
