// Finite-domain tables.  When the symbols a query depends on have a small joint
// domain (the product of their ranges), every term is turned into its value
// table over that domain (built bottom-up over the hash-consed term DAG), the
// path condition into one bit set, and a branch query into a bit-set
// intersection.  Assertion queries use the same tables to build a small formula
// (a decision tree over the symbols) that is handed to Z3 for the verdict.
#pragma once
#include "expr.h"
#include <unordered_map>
#include <map>
#include <memory>

struct Dom
{
   std::vector<u32> ids;
   std::vector<i64> lo;
   std::vector<u32> size, stride;
   u64 total;
};
typedef std::vector<i128> Tab;
typedef std::vector<u64> Bits;

class Tables
{
public:
   Exprs& X;
   u64 limit = 4096;
   u64 bytes = 0, maxBytes = 2ull << 30, built = 0, flushes = 0;
   explicit Tables(Exprs& x) : X(x) {}

   const Dom* dom(const SymSet* s)
   {
      auto it = doms.find(s);
      if ( it != doms.end() ) return it->second.get();
      std::unique_ptr<Dom> d(new Dom);
      d->ids = s->ids;
      u64 t = 1;
      bool ok = true;
      for ( auto i : d->ids )
      {
         const auto& si = X.symbols[i];
         i128 n = si.hi - si.lo + 1;
         if ( n > (i128)limit || n <= 0 ) { ok = false; break; }
         d->lo.push_back((i64)si.lo); d->size.push_back((u32)n); d->stride.push_back((u32)t);
         t *= (u64)n;
         if ( t > limit ) { ok = false; break; }
      }
      d->total = t;
      if ( !ok ) d.reset();
      auto p = d.get();
      doms.emplace(s, std::move(d));
      return p;
   }

   // value table of e over its own support; nullptr if too large
   const Tab* tab(Expr* e)
   {
      if ( e->id < byId.size() && byId[e->id] ) return byId[e->id].get();
      if ( !dom(e->syms) ) return nullptr;
      
      if ( e->id < failed.size() && failed[e->id] ) return nullptr;
      const Dom* D = dom(e->syms);
      const Tab* kt[3] = {0, 0, 0};
      for ( int i = 0; i < 3; ++i ) if ( e->k[i] )
      {
         kt[i] = tab(e->k[i]);
         if ( !kt[i] ) { if ( failed.size() <= e->id ) failed.resize(e->id + 1024, 0); failed[e->id] = 1; return nullptr; }
      }
      std::unique_ptr<Tab> r(new Tab(D->total));
      Tab& t = *r;
      const u64 n = D->total;
      if ( e->op == Op::Const ) t[0] = e->w == 1 ? (i128)e->c : sextW(e->c, e->w);
      else if ( e->op == Op::Sym ) for ( u64 i = 0; i < n; ++i ) t[i] = D->lo[0] + (i64)i;
      else
      {
         const u32* m[3] = {0, 0, 0};
         for ( int i = 0; i < 3; ++i ) if ( e->k[i] && e->k[i]->syms != e->syms ) m[i] = mapping(D, dom(e->k[i]->syms));
         auto at = [&](int i, u64 j) { return (*kt[i])[m[i] ? m[i][j] : j]; };
         const unsigned w = e->w, kw = e->k[0] ? e->k[0]->w : 0;
         auto put = [&](u64 j, u128 v) { t[j] = w == 1 ? (i128)(v & 1) : sextW(v & maskW(w), w); };
         switch ( e->op )
         {
            case Op::ZExt: for ( u64 j = 0; j < n; ++j ) put(j, (u128)(i128)at(0, j) & maskW(kw)); break;
            case Op::SExt: for ( u64 j = 0; j < n; ++j ) { i128 v = at(0, j); if ( kw == 1 ) v = v ? -1 : 0; put(j, (u128)(i128)v); } break;
            case Op::Extract: for ( u64 j = 0; j < n; ++j ) put(j, (((u128)(i128)at(0, j)) & maskW(kw)) >> e->aux); break;
            case Op::Concat: { const unsigned lw = e->k[1]->w; for ( u64 j = 0; j < n; ++j ) put(j, ((((u128)(i128)at(0, j)) & maskW(kw)) << lw) | (((u128)(i128)at(1, j)) & maskW(lw))); break; }
            case Op::Ite: for ( u64 j = 0; j < n; ++j ) t[j] = at(0, j) ? at(1, j) : at(2, j); break;
            case Op::Eq: for ( u64 j = 0; j < n; ++j ) t[j] = at(0, j) == at(1, j); break;
            case Op::Slt: for ( u64 j = 0; j < n; ++j ) t[j] = kw == 1 ? at(0, j) > at(1, j) : at(0, j) < at(1, j); break;
            default: for ( u64 j = 0; j < n; ++j ) put(j, Exprs::fold(e->op, kw, (u128)(i128)at(0, j), (u128)(i128)at(1, j)));
         }
      }
      ++built;
      bytes += n * 16 + 64;
      if ( byId.size() <= e->id ) byId.resize(e->id + 4096);
      byId[e->id] = std::move(r);
      return byId[e->id].get();
   }

   // bit set of a boolean over the domain D (support of e must be inside D)
   const Bits* bits(Expr* e, const SymSet* s, const Dom* D)
   {
      Key k{e->id, s};
      auto it = bitsets.find(k);
      if ( it != bitsets.end() ) return &it->second;
      const Tab* t = tab(e);
      if ( !t ) return nullptr;
      Bits b((D->total + 63) / 64, 0);
      const u32* m = e->syms == s ? nullptr : mapping(D, dom(e->syms));
      for ( u64 j = 0; j < D->total; ++j ) if ( (*t)[m ? m[j] : j] ) b[j >> 6] |= 1ull << (j & 63);
      bytes += b.size() * 8 + 96;
      return &bitsets.emplace(k, std::move(b)).first->second;
   }
   void maybeFlush()
   {
      if ( bytes < maxBytes ) return;
      byId.clear(); failed.clear(); bitsets.clear(); bytes = 0; ++flushes;
   }
   const SymSet* supportOf(const std::vector<Expr*>& slice, Expr* extra)
   {
      const SymSet* s = extra->syms;
      for ( auto e : slice ) s = X.unite(s, e->syms);
      return s;
   }

private:
   struct Key { u32 id; const SymSet* s; bool operator==(const Key& o) const { return id == o.id && s == o.s; } };
   struct KH { size_t operator()(const Key& k) const { return ((size_t)k.id * 0x9E3779B97F4A7C15ull) ^ ((size_t)k.s >> 4); } };
   std::unordered_map<const SymSet*, std::unique_ptr<Dom>> doms;
   std::map<std::pair<const Dom*, const Dom*>, std::vector<u32>> maps;
   std::vector<std::unique_ptr<Tab>> byId;
   std::vector<char> failed;
   std::unordered_map<Key, Bits, KH> bitsets;
   const u32* mapping(const Dom* D, const Dom* d)
   {
      auto it = maps.find({D, d});
      if ( it != maps.end() ) return it->second.data();
      std::vector<u32> m(D->total, 0);
      std::vector<u32> mul(D->ids.size(), 0);
      for ( size_t i = 0; i < D->ids.size(); ++i ) for ( size_t j = 0; j < d->ids.size(); ++j ) if ( d->ids[j] == D->ids[i] ) mul[i] = d->stride[j];
      for ( u64 x = 0; x < D->total; ++x ) { u32 r = 0; for ( size_t i = 0; i < D->ids.size(); ++i ) r += mul[i] * (u32)((x / D->stride[i]) % D->size[i]); m[x] = r; }
      return maps.emplace(std::make_pair(D, d), std::move(m)).first->second.data();
   }
};
