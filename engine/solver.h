// Z3 back end: interval-narrowed bit-vector lowering, constraint slicing, caching.
#pragma once
#include "expr.h"
#include "tables.h"
#include <z3.h>
#include <chrono>
#include <functional>

typedef std::vector<u128> Model;
enum class Res { Sat, Unsat, Unknown };

struct SolverStats { u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, fallback = 0, table = 0; double seconds = 0, maxq = 0; };

class Solver
{
public:
   Exprs& X;
   SolverStats st;
   unsigned timeoutMs = 4000, hardTimeoutMs = 60000;
   bool useInt = false;

   Tables T;
   bool useTables = true;
   explicit Solver(Exprs& x) : X(x), T(x)
   {
      Z3_config cfg = Z3_mk_config();
      Z3_set_param_value(cfg, "model", "true");
      C = Z3_mk_context(cfg);
      Z3_del_config(cfg);
      Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
      S = mkSolver(timeoutMs);
      TS = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, TS);
   }

   // Is (constraints /\ extra) satisfiable?  On Sat, model holds an assignment extending `model` outside the slice.
   Res check(const std::vector<Expr*>& constraints, Expr* extra, Model* model, bool smt = false)
   {
      if ( Exprs::isC(extra) && !extra->c ) return Res::Unsat;
      std::vector<Expr*> slice;
      sliceFor(constraints, extra, slice);
      if ( useTables )
      {
         Res r = viaTables(slice, extra, model, smt);
         if ( r != Res::Unknown ) return r;
      }
      ++st.queries;
      Key key; key.reserve(slice.size() + 1);
      for ( auto e : slice ) key.push_back(e->id);
      std::sort(key.begin(), key.end());
      key.push_back(extra->id);
      auto it = cache.find(key);
      if ( it != cache.end() )
      {
         ++st.cacheHits;
         if ( it->second.r == Res::Sat && model ) apply(it->second.m, *model);
         return it->second.r;
      }
      auto t0 = std::chrono::steady_clock::now();
      if ( getenv("VPSE_DUMP") ) { FILE* f = fopen(getenv("VPSE_DUMP"), "w"); fprintf(f, "%s", smt2(constraints, extra).c_str()); fclose(f); }
      Entry en;
      en.r = incremental(slice, extra, en.m);
      if ( en.r == Res::Unknown ) { ++st.fallback; en.r = fresh(slice, extra, en.m); }
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      st.seconds += dt; if ( dt > st.maxq ) st.maxq = dt;
      if ( en.r == Res::Sat ) ++st.sat; else if ( en.r == Res::Unsat ) ++st.unsat; else ++st.unknown;
      if ( en.r == Res::Sat && model ) apply(en.m, *model);
      if ( en.r != Res::Unknown ) { if ( cache.size() > 400000 ) cache.clear(); cache.emplace(std::move(key), en); }
      return en.r;
   }

   std::string smt2(const std::vector<Expr*>& constraints, Expr* extra)
   {
      std::vector<Expr*> slice; sliceFor(constraints, extra, slice);
      Z3_solver s = mkSolver(1000);
      for ( auto e : slice ) Z3_solver_assert(C, s, lowerBool(e));
      Z3_solver_assert(C, s, lowerBool(extra));
      for ( auto& p : symRange ) Z3_solver_assert(C, s, p.second);
      std::string r = Z3_solver_to_string(C, s);
      Z3_solver_dec_ref(C, s);
      return r;
   }

private:
   // decision tree over the symbols of D for the set b[off ...] of the first k symbols
   Z3_ast tree(const Dom* D, const Bits& b, size_t k, u64 off)
   {
      auto get = [&](u64 i) { return (b[i >> 6] >> (i & 63)) & 1; };
      if ( k == 0 ) return get(off) ? Z3_mk_true(C) : Z3_mk_false(C);
      const u32 n = D->size[k - 1], st = D->stride[k - 1];
      std::vector<Z3_ast> sub(n);
      for ( u32 v = 0; v < n; ++v ) { sub[v] = tree(D, b, k - 1, off + (u64)v * st); Z3_inc_ref(C, sub[v]); }
      Expr* s = X.symbols[D->ids[k - 1]].e;
      Z3_ast r = sub[n - 1];
      Z3_inc_ref(C, r);
      for ( u32 v = n - 1; v-- > 0; )
      {
         if ( sub[v] == sub[v + 1] ) continue;
         Z3_ast c = s->w == 1 ? Z3_mk_not(C, lowerBool(s)) : Z3_mk_bvsle(C, lower(s), num((u128)(i128)(D->lo[k - 1] + (i64)v), s->nw));
         Z3_ast nr = Z3_mk_ite(C, c, sub[v], r);
         // values below v that differ are handled by the smaller bounds nested outside
         Z3_inc_ref(C, nr); Z3_dec_ref(C, r); r = nr;
      }
      for ( u32 v = 0; v < n; ++v ) Z3_dec_ref(C, sub[v]);
      keepAlive.push_back(r);
      return r;
   }
   std::vector<Z3_ast> keepAlive;
   Res viaTables(const std::vector<Expr*>& slice, Expr* extra, Model* model, bool smt)
   {
      const SymSet* s = T.supportOf(slice, extra);
      const Dom* D = T.dom(s);
      if ( !D ) return Res::Unknown;
      T.maybeFlush();
      auto t0 = std::chrono::steady_clock::now();
      Bits pc((D->total + 63) / 64, ~0ull);
      if ( D->total & 63 ) pc.back() = (1ull << (D->total & 63)) - 1;
      for ( auto e : slice ) { auto b = T.bits(e, s, D); if ( !b ) return Res::Unknown; for ( size_t i = 0; i < pc.size(); ++i ) pc[i] &= (*b)[i]; }
      auto b = T.bits(extra, s, D);
      if ( !b ) return Res::Unknown;
      u64 found = ~0ull;
      for ( size_t i = 0; i < pc.size(); ++i ) { u64 x = pc[i] & (*b)[i]; if ( x ) { found = i * 64 + (u64)__builtin_ctzll(x); break; } }
      Res r = found == ~0ull ? Res::Unsat : Res::Sat;
      if ( smt )
      {
         ++st.queries;
         Z3_ast p = tree(D, pc, D->ids.size(), 0), q = tree(D, *b, D->ids.size(), 0);
         Z3_solver_push(C, TS);
         Z3_solver_assert(C, TS, p); Z3_solver_assert(C, TS, q);
         for ( auto id : D->ids ) { lowerSym(id); auto it = symRange.find(id); if ( it != symRange.end() ) Z3_solver_assert(C, TS, it->second); }
         Res z = verdict(Z3_solver_check(C, TS));
         Z3_solver_pop(C, TS, 1);
         for ( auto a : keepAlive ) Z3_dec_ref(C, a);
         keepAlive.clear();
         if ( z == Res::Sat ) ++st.sat; else if ( z == Res::Unsat ) ++st.unsat; else ++st.unknown;
         if ( z != r && z != Res::Unknown ) { fprintf(stderr, "engine: Z3 and the finite-domain tables disagree\n"); abort(); }
         if ( z == Res::Unknown ) return z;
      }
      else ++st.table;
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      st.seconds += dt; if ( dt > st.maxq ) st.maxq = dt;
      if ( r == Res::Sat && model )
         for ( size_t i = 0; i < D->ids.size(); ++i )
         {
            while ( model->size() <= D->ids[i] ) { auto& y = X.symbols[model->size()]; model->push_back((u128)y.lo & maskW(y.w)); }
            (*model)[D->ids[i]] = (u128)(i128)(D->lo[i] + (i64)((found / D->stride[i]) % D->size[i])) & maskW(X.symbols[D->ids[i]].w);
         }
      return r;
   }
   void lowerSym(u32 id) { Expr* e = X.symbols[id].e; if ( e->w == 1 ) lowerBool(e); else lower(e); }
   Z3_solver TS = nullptr;
   typedef std::vector<u32> Key;
   struct KH { size_t operator()(const Key& k) const { u64 h = k.size(); for ( auto i : k ) h = (h ^ i) * 0xff51afd7ed558ccdull, h ^= h >> 30; return h; } };
   typedef std::vector<std::pair<u32, u128>> Part;
   struct Entry { Res r; Part m; };
   std::unordered_map<Key, Entry, KH> cache;
   Z3_context C; Z3_solver S;
   std::vector<Expr*> asserted;
   std::unordered_map<u32, Z3_ast> symConst, symRange;

   Z3_solver mkSolver(unsigned ms)
   {
      Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
      Z3_solver_inc_ref(C, s);
      Z3_params p = Z3_mk_params(C);
      Z3_params_inc_ref(C, p);
      Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
      Z3_solver_set_params(C, s, p);
      Z3_params_dec_ref(C, p);
      return s;
   }
   void apply(const Part& p, Model& m)
   {
      for ( auto& x : p ) { while ( m.size() <= x.first ) m.push_back((u128)X.symbols[m.size()].lo & maskW(X.symbols[m.size()].w)); m[x.first] = x.second; }
   }
   void sliceFor(const std::vector<Expr*>& cs, Expr* extra, std::vector<Expr*>& out)
   {
      static std::vector<char> in; in.assign(X.symbols.size(), 0);
      static std::vector<char> taken; taken.assign(cs.size(), 0);
      for ( auto s : extra->syms->ids ) in[s] = 1;
      bool ch = true;
      while ( ch )
      {
         ch = false;
         for ( size_t i = 0; i < cs.size(); ++i ) if ( !taken[i] )
         {
            bool touch = false, all = true;
            for ( auto s : cs[i]->syms->ids ) { if ( in[s] ) touch = true; else all = false; }
            if ( touch ) { taken[i] = 1; if ( !all ) { ch = true; for ( auto s : cs[i]->syms->ids ) in[s] = 1; } }
         }
      }
      for ( size_t i = 0; i < cs.size(); ++i ) if ( taken[i] ) out.push_back(cs[i]);
   }
   Z3_ast num(u128 v, unsigned w)
   {
      Z3_sort s = Z3_mk_bv_sort(C, w);
      v &= maskW(w);
      char buf[48]; int n = 47; buf[n] = 0;
      if ( v == 0 ) buf[--n] = '0';
      while ( v ) { buf[--n] = '0' + (int)(v % 10); v /= 10; }
      return Z3_mk_numeral(C, buf + n, s);
   }
   Z3_ast adj(Z3_ast a, unsigned from, unsigned to) // sign-extend or truncate
   {
      if ( from == to ) return a;
      if ( from < to ) return Z3_mk_sign_ext(C, to - from, a);
      return Z3_mk_extract(C, to - 1, 0, a);
   }
   Z3_ast keep(Expr* e, Z3_ast a) { Z3_inc_ref(C, a); e->z3 = a; return a; }
   // narrow bit-vector of width e->nw for e->w > 1;
   Z3_ast bv(Expr* e, unsigned to)
   {
      if ( e->w == 1 ) { Z3_ast b = lowerBool(e); return Z3_mk_ite(C, b, num(1, to), num(0, to)); } // unsigned view
      return adj(lower(e), e->nw, to);
   }
   Z3_ast nz(Expr* b, unsigned W) // divisor: 0 counts as 1 (the interpreter excludes zero divisors beforehand)
   {
      Z3_ast z = bv(b, W);
      if ( b->lo > 0 || b->hi < 0 ) return z;
      return Z3_mk_ite(C, Z3_mk_eq(C, z, num(0, W)), num(1, W), z);
   }
   Z3_ast toBV1(Expr* e) { return Z3_mk_ite(C, lowerBool(e), num(1, 1), num(0, 1)); }
   Z3_ast fullBV(Expr* e) { return e->w == 1 ? toBV1(e) : adj(lower(e), e->nw, e->w); }
   Z3_ast lowerBool(Expr* e)
   {
      if ( e->z3 ) return (Z3_ast)e->z3;
      Z3_ast r = nullptr; Expr* a = e->k[0]; Expr* b = e->k[1];
      switch ( e->op )
      {
         case Op::Const: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
         case Op::Sym: r = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->aux), Z3_mk_bool_sort(C)); Z3_inc_ref(C, r); symConst[e->aux] = r; break;
         case Op::And: { Z3_ast x[2] = {lowerBool(a), lowerBool(b)}; r = Z3_mk_and(C, 2, x); break; }
         case Op::Or: { Z3_ast x[2] = {lowerBool(a), lowerBool(b)}; r = Z3_mk_or(C, 2, x); break; }
         case Op::Xor: if ( Exprs::isC(b, 1) ) r = Z3_mk_not(C, lowerBool(a)); else r = Z3_mk_xor(C, lowerBool(a), lowerBool(b)); break;
         case Op::Ite: r = Z3_mk_ite(C, lowerBool(a), lowerBool(b), lowerBool(e->k[2])); break;
         case Op::Eq:
            if ( a->w == 1 ) { r = Z3_mk_iff(C, lowerBool(a), lowerBool(b)); break; }
            { unsigned W = std::max(a->nw, b->nw); r = Z3_mk_eq(C, adj(lower(a), a->nw, W), adj(lower(b), b->nw, W)); break; }
         case Op::Slt: { unsigned W = std::max(a->nw, b->nw); r = Z3_mk_bvslt(C, adj(lower(a), a->nw, W), adj(lower(b), b->nw, W)); break; }
         case Op::Sle: { unsigned W = std::max(a->nw, b->nw); r = Z3_mk_bvsle(C, adj(lower(a), a->nw, W), adj(lower(b), b->nw, W)); break; }
         case Op::Ult: case Op::Ule:
         {
            // sign-extension preserves unsigned order between values of equal extension
            if ( a->w == 1 ) { r = e->op == Op::Ult ? Z3_mk_bvult(C, toBV1(a), toBV1(b)) : Z3_mk_bvule(C, toBV1(a), toBV1(b)); break; }
            unsigned W = std::max(a->nw, b->nw);
            Z3_ast x = adj(lower(a), a->nw, W), y = adj(lower(b), b->nw, W);
            r = e->op == Op::Ult ? Z3_mk_bvult(C, x, y) : Z3_mk_bvule(C, x, y); break;
         }
         case Op::Extract: r = Z3_mk_eq(C, Z3_mk_extract(C, e->aux, e->aux, fullBV(a)), num(1, 1)); break;
         case Op::UDiv: case Op::SDiv: r = lowerBool(a); break;
         case Op::URem: case Op::SRem: r = Z3_mk_false(C); break;
         case Op::Shl: case Op::LShr: { Z3_ast x[2] = {lowerBool(a), Z3_mk_not(C, lowerBool(b))}; r = Z3_mk_and(C, 2, x); break; }
         case Op::AShr: r = lowerBool(a); break;
         default: fprintf(stderr, "engine: bool lowering of op %d\n", (int)e->op); abort();
      }
      return keep(e, r);
   }
   Z3_ast lower(Expr* e) // width e->nw, signed representation
   {
      if ( e->z3 ) return (Z3_ast)e->z3;
      const unsigned r = e->nw, w = e->w;
      Expr* a = e->k[0]; Expr* b = e->k[1];
      Z3_ast z = nullptr;
      switch ( e->op )
      {
         case Op::Const: z = num(e->c, r); break;
         case Op::Sym:
         {
            z = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->aux), Z3_mk_bv_sort(C, r));
            Z3_inc_ref(C, z); symConst[e->aux] = z;
            i128 fl = -(((i128)1) << (r - 1)), fh = -fl - 1;
            if ( r < 128 && (e->lo != fl || e->hi != fh) )
            {
               Z3_ast x[2] = {Z3_mk_bvsle(C, num((u128)e->lo, r), z), Z3_mk_bvsle(C, z, num((u128)e->hi, r))};
               Z3_ast c = Z3_mk_and(C, 2, x); Z3_inc_ref(C, c); symRange[e->aux] = c;
            }
            break;
         }
         case Op::Add: z = Z3_mk_bvadd(C, bv(a, r), bv(b, r)); break;
         case Op::Sub: z = Z3_mk_bvsub(C, bv(a, r), bv(b, r)); break;
         case Op::Mul: z = Z3_mk_bvmul(C, bv(a, r), bv(b, r)); break;
         case Op::And: z = Z3_mk_bvand(C, bv(a, r), bv(b, r)); break;
         case Op::Or: z = Z3_mk_bvor(C, bv(a, r), bv(b, r)); break;
         case Op::Xor: z = Z3_mk_bvxor(C, bv(a, r), bv(b, r)); break;
         case Op::Shl:
         {
            z = adj(Z3_mk_bvshl(C, bv(a, w), bv(b, w)), w, r); break;
         }
         case Op::SDiv: { unsigned W = std::max(a->nw, b->nw) + 1; if ( W > w ) W = w; z = adj(Z3_mk_bvsdiv(C, bv(a, W), nz(b, W)), W, r); break; }
         case Op::SRem: { unsigned W = std::max(a->nw, b->nw) + 1; if ( W > w ) W = w; z = adj(Z3_mk_bvsrem(C, bv(a, W), nz(b, W)), W, r); break; }
         case Op::UDiv: case Op::URem:
         {
            unsigned W = w;
            if ( a->lo >= 0 && b->lo >= 0 ) W = std::max(a->nw, b->nw);
            z = e->op == Op::UDiv ? Z3_mk_bvudiv(C, bv(a, W), nz(b, W)) : Z3_mk_bvurem(C, bv(a, W), nz(b, W));
            z = adj(z, W, r);
            break;
         }
         case Op::LShr:
            if ( a->lo >= 0 && b->op == Op::Const ) { unsigned W = a->nw; u128 s = b->c >= W ? W - 1 : b->c; z = adj(Z3_mk_bvashr(C, bv(a, W), num(s, W)), W, r); }
            else z = adj(Z3_mk_bvlshr(C, bv(a, w), bv(b, w)), w, r);
            break;
         case Op::AShr:
            if ( b->op == Op::Const ) { unsigned W = a->nw; u128 s = b->c >= W ? W - 1 : b->c; z = adj(Z3_mk_bvashr(C, bv(a, W), num(s, W)), W, r); }
            else z = adj(Z3_mk_bvashr(C, bv(a, w), bv(b, w)), w, r);
            break;
         case Op::ZExt:
            if ( a->w == 1 ) { z = Z3_mk_ite(C, lowerBool(a), num(1, r), num(0, r)); break; }
            if ( a->lo >= 0 ) { z = adj(lower(a), a->nw, r); break; }
            { Z3_ast f = fullBV(a); if ( r > a->w ) z = Z3_mk_zero_ext(C, r - a->w, f); else z = adj(f, a->w, r); break; }
         case Op::SExt: z = adj(lower(a), a->nw, r); break;
         case Op::Extract:
            if ( e->aux == 0 ) { z = a->nw >= w ? adj(Z3_mk_extract(C, w - 1, 0, lower(a)), w, r) : adj(lower(a), a->nw, r); break; }
            { Z3_ast f = fullBV(a); z = Z3_mk_extract(C, e->aux + r - 1, e->aux, f); break; }
         case Op::Concat: { Z3_ast f = Z3_mk_concat(C, fullBV(a), fullBV(b)); z = adj(f, w, r); break; }
         case Op::Ite: z = Z3_mk_ite(C, lowerBool(a), bv(b, r), bv(e->k[2], r)); break;
         default: fprintf(stderr, "engine: bv lowering of op %d\n", (int)e->op); abort();
      }
      return keep(e, z);
   }
   // Zero-ext with negative-only interval keeps r == computed width because lo/hi of ZExt are non-negative.

   void getModel(Z3_solver s, const std::vector<Expr*>& slice, Expr* extra, Part& out)
   {
      Z3_model m = Z3_solver_get_model(C, s);
      if ( !m ) return;
      Z3_model_inc_ref(C, m);
      std::vector<char> seen(X.symbols.size(), 0);
      auto add = [&](Expr* e) { for ( auto id : e->syms->ids ) if ( !seen[id] ) { seen[id] = 1;
         auto it = symConst.find(id);
         if ( it == symConst.end() ) continue;
         Z3_ast v = nullptr;
         if ( !Z3_model_eval(C, m, it->second, true, &v) ) continue;
         const auto& si = X.symbols[id];
         u128 val = 0;
         if ( si.w == 1 ) val = Z3_get_bool_value(C, v) == Z3_L_TRUE;
         else
         {
            const char* str = Z3_get_numeral_string(C, v);
            for ( const char* p = str; *p; ++p ) val = val * 10 + (u128)(*p - '0');
            val = (u128)sextW(val, si.e->nw) & maskW(si.w);
         }
         out.emplace_back(id, val);
      } };
      for ( auto e : slice ) add(e);
      add(extra);
      Z3_model_dec_ref(C, m);
   }
   void assertOne(Z3_solver s, Expr* e)
   {
      Z3_solver_assert(C, s, lowerBool(e));
      for ( auto id : e->syms->ids ) { auto it = symRange.find(id); if ( it != symRange.end() ) Z3_solver_assert(C, s, it->second); }
   }
   Res verdict(Z3_lbool r) { return r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown; }
   u64 sinceReset = 0;
   Res incremental(const std::vector<Expr*>& slice, Expr* extra, Part& m)
   {
      if ( ++sinceReset > 4000 ) { Z3_solver_dec_ref(C, S); S = mkSolver(timeoutMs); asserted.clear(); sinceReset = 0; }
      size_t p = 0;
      while ( p < asserted.size() && p < slice.size() && asserted[p] == slice[p] ) ++p;
      if ( asserted.size() > p ) { Z3_solver_pop(C, S, (unsigned)(asserted.size() - p)); asserted.resize(p); }
      for ( ; p < slice.size(); ++p ) { Z3_solver_push(C, S); assertOne(S, slice[p]); asserted.push_back(slice[p]); }
      Z3_solver_push(C, S);
      assertOne(S, extra);
      Res r = verdict(Z3_solver_check(C, S));
      if ( r == Res::Sat ) getModel(S, slice, extra, m);
      Z3_solver_pop(C, S, 1);
      if ( r == Res::Unknown ) { Z3_solver_dec_ref(C, S); S = mkSolver(timeoutMs); asserted.clear(); }
      return r;
   }
   Res fresh(const std::vector<Expr*>& slice, Expr* extra, Part& m)
   {
      Z3_tactic t = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, t);
      Z3_solver s = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, s);
      Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
      Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), hardTimeoutMs);
      Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
      for ( auto e : slice ) assertOne(s, e);
      assertOne(s, extra);
      Res r = verdict(Z3_solver_check(C, s));
      if ( r == Res::Sat ) getModel(s, slice, extra, m);
      Z3_solver_dec_ref(C, s); Z3_tactic_dec_ref(C, t);
      return r;
   }
};
