// Development self-test of the expression layer: random terms, the simplified term against plain
// folding, the interval against the value, the Z3 lowering against the value.
#include "solver.h"
#include <random>
#include <cassert>
int main(int argc, char** argv)
{
   const int rounds = argc > 1 ? atoi(argv[1]) : 2000;
   std::mt19937_64 g(argc > 2 ? atoi(argv[2]) : 1);
   long bad = 0, z3n = 0;
   for ( int round = 0; round < rounds; ++round )
   {
      Exprs X; 
      static const unsigned ws[] = {1, 8, 16, 32, 64, 128};
      struct T { Expr* e; u128 v; };
      std::map<unsigned, std::vector<T>> pool;
      std::vector<u128> model;
      for ( int i = 0; i < 4; ++i )
      {
         unsigned w = ws[1 + g() % 5];
         i128 full = w == 128 ? (i128)(((u128)1 << 127) - 1) : (((i128)1 << (w - 1)) - 1), lo = -full - 1, hi = full;
         u64 r = g() % 3;
         if ( r == 0 ) { lo = std::max<i128>(lo, -(i128)(g() % 10)); hi = std::min<i128>(hi, (i128)(g() % 10)); }
         else if ( r == 1 ) { i128 c = (i128)(g() % 2 ? g() & 0x7f : (u64)(full >> (g() % w))); lo = std::max<i128>(lo, c - 3); hi = std::min<i128>(hi, c + 3 < c ? c : c + 3); if ( lo > hi ) lo = hi; }
         Expr* e = X.symbol("s" + std::to_string(i), w, lo, hi);
         u128 span = (u128)hi - (u128)lo + 1, rnd = ((u128)g() << 64) | g();
         u128 v = ((u128)lo + (span ? rnd % span : rnd)) & maskW(w);
         model.push_back(v);
         pool[w].push_back({e, v});
      }
      auto cst = [&](unsigned w) { u128 v; switch ( g() % 5 ) { case 0: v = g() % 4; break; case 1: v = (u128)0 - g() % 4; break; case 2: v = (u128)1 << (g() % w); break; case 3: v = ((u128)1 << (g() % w)) - 1; break; default: v = ((u128)g() << 64) | g(); } v &= maskW(w); return T{X.constant(v, w), v}; };
      auto pick = [&](unsigned w) { auto& p = pool[w]; if ( p.empty() || g() % 4 == 0 ) return cst(w); return p[g() % p.size()]; };
      for ( int i = 0; i < 40; ++i )
      {
         unsigned w = ws[g() % 6];
         T t{nullptr, 0};
         switch ( g() % 8 )
         {
            case 0: case 1: case 2: case 3:
            {
               Op op = (Op)(2 + g() % 18);
               T a = pick(w), b = pick(w);
               if ( (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) ) { if ( !b.v ) continue; if ( w == 1 ) continue; }
               if ( w == 1 && (op == Op::Shl || op == Op::LShr || op == Op::AShr || op == Op::Slt || op == Op::Sle) ) continue;
               t = {X.bin(op, a.e, b.e), Exprs::fold(op, w, a.v, b.v)};
               break;
            }
            case 4: { unsigned to = ws[g() % 6]; if ( to <= w ) continue; T a = pick(w); if ( g() % 2 ) t = {X.zext(a.e, to), a.v}; else { t = {X.sext(a.e, to), (u128)sextW(a.v, w) & maskW(to)}; } break; }
            case 5: { unsigned to = ws[g() % 6]; if ( to >= w ) continue; T a = pick(w); unsigned lo = g() % (w - to + 1); if ( g() % 2 ) lo = lo / 8 * 8; t = {X.extract(a.e, lo, to), (a.v >> lo) & maskW(to)}; break; }
            case 6: { if ( w > 64 || w < 8 ) continue; T a = pick(w), b = pick(w); t = {X.concat(a.e, b.e), (a.v << w) | b.v}; break; }
            case 7: { T c = pick(1), a = pick(w), b = pick(w); t = {X.ite(c.e, a.e, b.e), c.v ? a.v : b.v}; break; }
         }
         static u64 tag = 1000;
         ++tag;
         u128 ev = X.eval(t.e, model, tag);
         i128 sv = t.e->w == 1 ? (i128)t.v : sextW(t.v, t.e->w);
         if ( ev != t.v || sv < t.e->lo || sv > t.e->hi )
         {
            ++bad; fprintf(stderr, "round %d: value %lld expected %lld interval [%lld, %lld] w %u: %s\n", round, (long long)ev, (long long)t.v, (long long)t.e->lo, (long long)t.e->hi, t.e->w, X.str(t.e).c_str());
            if ( bad > 5 ) return 1;
            break;
         }
         pool[t.e->w].push_back(t);
      }
      if ( argc > 3 && round % 20 == 0 )
      {
         Solver S(X); S.useTables = false; S.timeoutMs = 300; S.hardTimeoutMs = 300;
         std::vector<Expr*> cons;
         std::vector<T> all; for ( auto& p : pool ) for ( auto& t : p.second ) all.push_back(t);
         for ( auto& t : all ) if ( t.e->op == Op::Sym ) cons.push_back(X.bin(Op::Eq, t.e, X.constant(t.v, t.e->w)));
         for ( size_t i = 0; i < all.size(); ++i ) if ( g() % 8 == 0 )
         {
            T t = all[i];
            Model m;
            Expr* ne = X.notB(X.bin(Op::Eq, t.e, X.constant(t.v, t.e->w)));
            Res r = S.check(cons, ne, &m); ++z3n;
            if ( r == Res::Sat ) { ++bad; fprintf(stderr, "round %d: Z3 lowering of %s (w %u) is not %lld\n", round, X.str(t.e).c_str(), t.e->w, (long long)t.v); if ( bad > 5 ) return 1; break; }
         }
      }
   }
   printf("%d rounds, %ld solver comparisons, %ld wrong\n", rounds, z3n, bad);
   return bad != 0;
}
