// The incidence sets against bit masks.  The contents are symbolic words.
#include "vp.h"
#include "bitset_fixed_size.h"
#include "bitset_variable_size.h"
#include <cstring>
#include <type_traits>

using namespace panda;

namespace
{
   typedef uint32_t W;
   // access to the words; the harness stops when the representation is not the known one
   template <size_t N> W* words(BitsetFixedSize<N>& b) { static_assert(sizeof b == N * sizeof(W), "representation"); return reinterpret_cast<W*>(&b); }
   W* words(BitsetVariableSize& b) { static_assert(sizeof b == sizeof(std::vector<W>), "representation"); return reinterpret_cast<std::vector<W>*>(&b)->data(); }
   struct Model
   {
      W w[12];
      int n;
   };
   Model content(const char* name, int bits)
   {
      Model m = {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, (bits + 31) / 32};
      for ( int i = 0; i < m.n; ++i )
      {
         const int here = bits - 32 * i < 32 ? bits - 32 * i : 32;
         // of many words some are arbitrary, the others fixed (and such that they do not decide)
         const long window = vp_param("window", -1);
         if ( window >= 0 && (i < window || i >= window + vp_param("words", 2)) ) { m.w[i] = (name[0] == 'c' ? 0x84848484u : 0xA5A5A5A5u) & (here == 32 ? 0xffffffffu : (1u << here) - 1); continue; }
         m.w[i] = (W)vp::in(name, i, 0, here == 32 ? 0xffffffffL : (1L << here) - 1);   // unused bits are never set
      }
      return m;
   }
   // few elements, at the ends of the words
   Model sparse(const char* name, int bits)
   {
      Model m = {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, (bits + 31) / 32};
      static const int at[] = {0, 1, 30, 31, 32, 33, 62, 63, 64, 94, 95, 96, 126, 127, 128, 159, 160, 190, 191, 192, 223, 224, 255, 256, 287, 288, 319};
      std::vector<int> use;
      for ( int k : at ) if ( k < bits ) use.push_back(k);
      const size_t first = vp_param("first", 0);
      for ( size_t i = first; i < use.size() && i < first + 6; ++i ) m.w[use[i] / 32] |= (W)vp::in(name, use[i], 0, 1) << (use[i] % 32);
      return m;
   }
   template <typename B> B build(const Model& m, int capacity)
   {
      B b(capacity);
      for ( int i = 0; i < m.n; ++i ) words(b)[i] = m.w[i];
      return b;
   }
   int cnt(const Model& m)
   {
      int c = 0;
      for ( int i = 0; i < m.n; ++i ) for ( int k = 0; k < 32; ++k ) c += (m.w[i] >> k) & 1;
      return c;
   }
   template <typename B>
   void ops(int capacity, int bits)
   {
      const long op0 = vp_param("op", 0);   // the size of a union is arithmetic on bit counts: few elements
      const bool few = op0 == 4 || (op0 == 3 && bits > 96);
      const Model a = few ? sparse("a", bits) : content("a", bits), b = few ? sparse("b", bits) : content("b", bits);
      const B A = build<B>(a, capacity), C = build<B>(b, capacity);
      const long op = vp_param("op", 0);
      int same = 1, sub = 1;
      Model u = a, i = a;
      for ( int k = 0; k < a.n; ++k ) { same = vp_and(same, a.w[k] == b.w[k]); sub = vp_and(sub, (b.w[k] & ~a.w[k]) == 0); u.w[k] = a.w[k] | b.w[k]; i.w[k] = a.w[k] & b.w[k]; }
      vp_reach("op");
      switch ( op )
      {
         case 0: vp_assert((int)A.equals(C, bits) == same, "equality"); break;
         case 1: vp_assert((int)A.contains(C, bits) == sub, "containment"); break;
         case 2:
         {
            B M = A.merge(C, bits);
            int ok = 1;
            for ( int k = 0; k < a.n; ++k ) ok = vp_and(ok, words(M)[k] == u.w[k]);
            vp_assert(ok, "union");
            vp_assert(M.contains(A, bits) && M.contains(C, bits), "the union contains both");
            vp_assert(A.equals(build<B>(a, capacity), bits) && C.equals(build<B>(b, capacity), bits), "merging changes neither");
            break;
         }
         case 3: vp_assert((int)A.count(bits) == cnt(a), "count"); break;
         case 4: vp_assert((int)B::unionCount(A, C, bits) == cnt(u), "size of the union"); break;
         case 5:
         {
            const Model c = content("c", bits);
            int in = 1;
            for ( int k = 0; k < a.n; ++k ) in = vp_and(in, (c.w[k] & ~u.w[k]) == 0);
            vp_assert((int)B::unionContains(A, C, build<B>(c, capacity), bits) == in, "containment in the union");
            break;
         }
         case 6:  // setting any bit adds exactly that element
         {
            B S = A;
            const int k = (int)vp_concrete(vp_sym("k", 0, bits - 1));
            S.set((size_t)k);
            int ok = 1;
            for ( int x = 0; x < a.n; ++x ) ok = vp_and(ok, words(S)[x] == (x == k / 32 ? a.w[x] | ((W)1 << (k % 32)) : a.w[x]));
            vp_assert(ok, "set");
            vp_assert(S.contains(A, bits), "set keeps the others");
            break;
         }
         case 7: // a new set is empty
         {
            B E(capacity);
            vp_assert(E.count(bits) == 0, "empty");
            vp_assert(A.contains(E, bits), "the empty set is contained in every set");
            vp_assert(A.contains(A, bits) && A.equals(A, bits), "reflexive");
            break;
         }
      }
   }
}
VP_HARNESS(p17_ops)
{
   const int bits = (int)vp_param("bits", 32), capacity = (int)vp_param("capacity", bits);
   switch ( vp_param("type", 0) )
   {
      case 0: ops<BitsetVariableSize>(capacity, bits); break;
      case 1: ops<BitsetFixedSize<1>>(capacity, bits); break;
      case 2: ops<BitsetFixedSize<2>>(capacity, bits); break;
      case 3: ops<BitsetFixedSize<3>>(capacity, bits); break;
      case 4: ops<BitsetFixedSize<4>>(capacity, bits); break;
      case 6: ops<BitsetFixedSize<6>>(capacity, bits); break;
      case 8: ops<BitsetFixedSize<8>>(capacity, bits); break;
      case 10: ops<BitsetFixedSize<10>>(capacity, bits); break;
   }
}
