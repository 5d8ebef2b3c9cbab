// Hash-consed bit-vector expression DAG with signed-interval analysis.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <map>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum class Op : u8 { Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
                     Eq, Ult, Ule, Slt, Sle, ZExt, SExt, Extract, Concat, Ite };

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextW(u128 v, unsigned w) {
   if ( w >= 128 ) return (i128)v;
   v &= maskW(w);
   if ( (v >> (w - 1)) & 1 ) v |= ~maskW(w);
   return (i128)v;
}

struct SymSet { std::vector<u32> ids; };

struct Expr
{
   Op op;
   uint16_t w;
   u32 id;
   u32 aux;        // symbol index or extract low bit
   Expr* k[3];
   u128 c;
   i128 lo, hi;    // signed interval (for w == 1: unsigned 0..1)
   const SymSet* syms;
   u64 evalTag;
   u128 evalVal;
   void* z3;       // lowered ast (narrow)
   uint16_t nw;    // narrow signed width
};

struct SymInfo { std::string name; unsigned w; i128 lo, hi; Expr* e; };

class Exprs
{
public:
   std::vector<SymInfo> symbols;
   u64 nodeCount = 0;

   Expr* constant(u128 v, unsigned w)
   {
      Expr t{}; t.op = Op::Const; t.w = (uint16_t)w; t.c = v & maskW(w);
      return intern(t);
   }
   Expr* boolean(bool b) { return constant(b ? 1 : 0, 1); }
   Expr* symbol(const std::string& name, unsigned w, i128 lo, i128 hi)
   {
      Expr t{}; t.op = Op::Sym; t.w = (uint16_t)w; t.aux = (u32)symbols.size();
      symbols.push_back({name, w, lo, hi, nullptr});
      Expr* e = intern(t);
      symbols.back().e = e;
      return e;
   }
   static bool isC(const Expr* e) { return e->op == Op::Const; }
   static bool isC(const Expr* e, u128 v) { return e->op == Op::Const && e->c == v; }

   static u128 fold(Op op, unsigned w, u128 a, u128 b)
   {
      const u128 m = maskW(w);
      a &= m; b &= m;
      switch ( op )
      {
         case Op::Add: return (a + b) & m;
         case Op::Sub: return (a - b) & m;
         case Op::Mul: return (a * b) & m;
         case Op::UDiv: return b ? (a / b) & m : a; // the interpreter forks on zero divisors first; here 0 means 1
         case Op::URem: return b ? (a % b) & m : 0;
         case Op::SDiv: { i128 x = sextW(a, w), y = sextW(b, w); if ( y == 0 ) return a; if ( y == -1 ) return ((u128)0 - (u128)x) & m; return (u128)(x / y) & m; }
         case Op::SRem: { i128 x = sextW(a, w), y = sextW(b, w); if ( y == 0 || y == -1 ) return 0; return (u128)(x % y) & m; }
         case Op::And: return a & b;
         case Op::Or: return a | b;
         case Op::Xor: return a ^ b;
         case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
         case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b);
         case Op::AShr: { i128 x = sextW(a, w); return (u128)(b >= w ? (x < 0 ? (i128)-1 : (i128)0) : (x >> (unsigned)b)) & m; }
         case Op::Eq: return a == b;
         case Op::Ult: return a < b;
         case Op::Ule: return a <= b;
         case Op::Slt: return sextW(a, w) < sextW(b, w);
         case Op::Sle: return sextW(a, w) <= sextW(b, w);
         default: abort();
      }
   }

   Expr* notB(Expr* a)
   {
      if ( isC(a) ) return boolean(!a->c);
      if ( a->op == Op::Xor && a->w == 1 && isC(a->k[1], 1) ) return a->k[0];
      if ( a->op == Op::Slt ) return bin(Op::Sle, a->k[1], a->k[0]);
      if ( a->op == Op::Sle ) return bin(Op::Slt, a->k[1], a->k[0]);
      return raw2(Op::Xor, 1, a, boolean(true));
   }

   Expr* bin(Op op, Expr* a, Expr* b)
   {
      const unsigned w = a->w;
      if ( a->w != b->w ) { fprintf(stderr, "engine: width mismatch op %d: %u vs %u\n", (int)op, a->w, b->w); abort(); }
      const bool cmp = op >= Op::Eq && op <= Op::Sle;
      const unsigned rw = cmp ? 1 : w;
      if ( isC(a) && isC(b) ) return constant(fold(op, w, a->c, b->c), rw);
      const u128 m = maskW(w);
      // canonical: constants to the right for commutative operators
      if ( isC(a) && (op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq) ) std::swap(a, b);
      else if ( !isC(b) && (op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq) && a->id > b->id ) std::swap(a, b);
      switch ( op )
      {
         case Op::Add:
            if ( isC(b, 0) ) return a;
            if ( w == 1 ) return bin(Op::Xor, a, b);
            if ( isC(b) && a->op == Op::Add && isC(a->k[1]) ) return bin(Op::Add, a->k[0], constant(a->k[1]->c + b->c, w));
            break;
         case Op::Sub:
            if ( a == b ) return constant(0, w);
            if ( w == 1 ) return bin(Op::Xor, a, b);
            if ( isC(b) ) return bin(Op::Add, a, constant((u128)0 - b->c, w));
            break;
         case Op::Mul:
            if ( isC(b, 0) ) return b;
            if ( isC(b, 1) ) return a;
            if ( w == 1 ) return bin(Op::And, a, b);
            if ( isC(b) && a->op == Op::Mul && isC(a->k[1]) ) return bin(Op::Mul, a->k[0], constant(a->k[1]->c * b->c, w));
            break;
         case Op::UDiv: case Op::SDiv:
            if ( isC(b, 1) && w > 1 ) return a;
            if ( isC(a, 0) ) return a;
            if ( op == Op::SDiv && w > 1 && isC(b, m) ) return bin(Op::Sub, constant(0, w), a);
            if ( op == Op::UDiv && isC(b) && (b->c & (b->c - 1)) == 0 && b->c ) { unsigned s = 0; while ( !((b->c >> s) & 1) ) ++s; return bin(Op::LShr, a, constant(s, w)); }
            break;
         case Op::URem: case Op::SRem:
            if ( isC(b, 1) && w > 1 ) return constant(0, w);
            if ( isC(a, 0) ) return a;
            if ( op == Op::SRem && w > 1 && isC(b, m) ) return constant(0, w);
            if ( op == Op::URem && isC(b) && (b->c & (b->c - 1)) == 0 && b->c ) return bin(Op::And, a, constant(b->c - 1, w));
            break;
         case Op::And:
            if ( isC(b, 0) ) return b;
            if ( isC(b, m) ) return a;
            if ( a == b ) return a;
            if ( w == 1 && notB(a) == b ) return boolean(false);
            if ( isC(b) && a->op == Op::And && isC(a->k[1]) ) return bin(Op::And, a->k[0], constant(a->k[1]->c & b->c, w));
            if ( isC(b) && a->op == Op::ZExt && (b->c & maskW(a->k[0]->w)) == maskW(a->k[0]->w) ) return a;
            if ( isC(b) && w > 1 && a->lo >= 0 && (b->c & (b->c + 1)) == 0 && (u128)a->hi <= b->c ) return a;
            if ( isC(b) && a->op == Op::ZExt && w > 1 ) return zext(bin(Op::And, a->k[0], constant(b->c, a->k[0]->w)), w);
            break;
         case Op::Or:
            if ( isC(b, 0) ) return a;
            if ( isC(b, m) ) return b;
            if ( a == b ) return a;
            if ( w == 1 && notB(a) == b ) return boolean(true);
            break;
         case Op::Xor:
            if ( isC(b, 0) ) return a;
            if ( a == b ) return constant(0, w);
            if ( w == 1 && isC(b, 1) ) return notB(a);
            if ( isC(b) && a->op == Op::Xor && isC(a->k[1]) ) return bin(Op::Xor, a->k[0], constant(a->k[1]->c ^ b->c, w));
            break;
         case Op::Shl:
            if ( isC(b, 0) ) return a;
            if ( isC(b) && b->c >= w ) return constant(0, w);
            if ( isC(a, 0) ) return a;
            if ( isC(b) && w > 1 ) return bin(Op::Mul, a, constant((u128)1 << (unsigned)b->c, w));
            break;
         case Op::LShr:
            if ( isC(b, 0) || isC(a, 0) ) return a;
            if ( isC(b) && b->c >= w ) return constant(0, w);
            if ( isC(b) && a->op == Op::LShr && isC(a->k[1]) ) { u128 s = a->k[1]->c + b->c; return bin(Op::LShr, a->k[0], constant(s >= w ? w : s, w)); }
            if ( isC(b) && a->op == Op::Concat && b->c >= a->k[1]->w ) return bin(Op::LShr, zext(a->k[0], w), constant(b->c - a->k[1]->w, w));
            if ( isC(b) && a->op == Op::ZExt && w > 1 ) { Expr* z = a->k[0]; if ( b->c >= z->w ) return constant(0, w); return zext(bin(Op::LShr, z, constant(b->c, z->w)), w); }
            break;
         case Op::AShr:
            if ( isC(b, 0) || isC(a, 0) ) return a;
            if ( isC(b) && b->c >= w ) b = constant(w - 1, w);
            if ( w > 1 && a->lo >= 0 ) return bin(Op::LShr, a, b);
            break;
         case Op::Eq:
            if ( a == b ) return boolean(true);
            if ( w == 1 )
            {
               if ( isC(b, 1) ) return a;
               if ( isC(b, 0) ) return notB(a);
            }
            else
            {
               if ( a->hi < b->lo || b->hi < a->lo ) return boolean(false);
               if ( isC(b) )
               {
                  const i128 v = sextW(b->c, w);
                  if ( a->op == Op::ZExt ) { if ( b->c > maskW(a->k[0]->w) ) return boolean(false); return bin(Op::Eq, a->k[0], constant(b->c, a->k[0]->w)); }
                  if ( a->op == Op::SExt )
                  {
                     if ( sextW(b->c, a->k[0]->w) != v ) return boolean(false);
                     return bin(Op::Eq, a->k[0], constant(b->c, a->k[0]->w));
                  }
                  if ( a->op == Op::Add && isC(a->k[1]) ) return bin(Op::Eq, a->k[0], constant(b->c - a->k[1]->c, w));
                  if ( a->op == Op::Sub && isC(a->k[0]) ) return bin(Op::Eq, a->k[1], constant(a->k[0]->c - b->c, w));
                  if ( a->op == Op::Sub && isC(b, 0) ) return bin(Op::Eq, a->k[0], a->k[1]);
                  if ( a->op == Op::Xor && isC(a->k[1]) ) return bin(Op::Eq, a->k[0], constant(a->k[1]->c ^ b->c, w));
                  if ( a->op == Op::Xor && isC(b, 0) ) return bin(Op::Eq, a->k[0], a->k[1]);
                  if ( a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]) )
                  {
                     const bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
                     if ( t && f ) return boolean(true);
                     if ( t ) return a->k[0];
                     if ( f ) return notB(a->k[0]);
                     return boolean(false);
                  }
                  if ( a->op == Op::Ite && (isC(a->k[1]) || isC(a->k[2])) )
                  {
                     // Eq(Ite(c, K, y), v): K != v -> !c && y == v ; K == v -> c || y == v
                     if ( isC(a->k[1]) )
                     {
                        Expr* r = bin(Op::Eq, a->k[2], b);
                        return a->k[1]->c == b->c ? bin(Op::Or, a->k[0], r) : bin(Op::And, notB(a->k[0]), r);
                     }
                     Expr* r = bin(Op::Eq, a->k[1], b);
                     return a->k[2]->c == b->c ? bin(Op::Or, notB(a->k[0]), r) : bin(Op::And, a->k[0], r);
                  }
                  if ( a->op == Op::Mul && isC(a->k[1]) && sextW(a->k[1]->c, w) != 0 && exactMul(a) )
                  {
                     const i128 f = sextW(a->k[1]->c, w);
                     if ( v % f != 0 ) return boolean(false);
                     return bin(Op::Eq, a->k[0], constant((u128)(v / f), w));
                  }
                  if ( a->op == Op::Concat )
                  {
                     Expr* h = bin(Op::Eq, a->k[0], constant(b->c >> a->k[1]->w, a->k[0]->w));
                     Expr* l = bin(Op::Eq, a->k[1], constant(b->c, a->k[1]->w));
                     return bin(Op::And, h, l);
                  }
               }
               else
               {
                  if ( a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w ) return bin(Op::Eq, a->k[0], b->k[0]);
                  if ( a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w ) return bin(Op::Eq, a->k[0], b->k[0]);
               }
            }
            break;
         case Op::Ult:
            if ( a == b ) return boolean(false);
            if ( isC(b, 0) ) return boolean(false);
            if ( isC(a, m) ) return boolean(false);
            if ( isC(b, 1) ) return bin(Op::Eq, a, constant(0, w));
            if ( w > 1 && a->lo >= 0 && b->lo >= 0 ) return bin(Op::Slt, a, b);
            if ( w > 1 && a->hi < 0 && b->hi < 0 ) return bin(Op::Slt, a, b);
            if ( w > 1 && a->lo >= 0 && b->hi < 0 ) return boolean(true);
            if ( w > 1 && a->hi < 0 && b->lo >= 0 ) return boolean(false);
            // range check idiom: (x + c) <u n  with  x + c possibly negative
            if ( w > 1 && isC(b) && b->lo > 0 ) return bin(Op::And, bin(Op::Sle, constant(0, w), a), bin(Op::Slt, a, b));
            break;
         case Op::Ule:
            return notB(bin(Op::Ult, b, a));
         case Op::Slt:
            if ( a == b ) return boolean(false);
            if ( w == 1 ) return bin(Op::And, a, notB(b));
            if ( a->hi < b->lo ) return boolean(true);
            if ( a->lo >= b->hi ) return boolean(false);
            {
               // strip extensions
               if ( (a->op == Op::SExt || a->op == Op::ZExt) && isC(b) && fits(b, a->k[0], a->op) ) return bin(a->op == Op::SExt ? Op::Slt : Op::Ult, a->k[0], constant(b->c, a->k[0]->w));
               if ( (b->op == Op::SExt || b->op == Op::ZExt) && isC(a) && fits(a, b->k[0], b->op) ) return bin(b->op == Op::SExt ? Op::Slt : Op::Ult, constant(a->c, b->k[0]->w), b->k[0]);
               if ( a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w ) return bin(Op::Slt, a->k[0], b->k[0]);
               if ( a->op == Op::Add && isC(a->k[1]) && isC(b) && exactAdd(a) )
               {
                  i128 v;
                  if ( !__builtin_sub_overflow(sextW(b->c, w), sextW(a->k[1]->c, w), &v) && inW(v, w) ) return bin(Op::Slt, a->k[0], constant((u128)v, w));
               }
               if ( b->op == Op::Add && isC(b->k[1]) && isC(a) && exactAdd(b) )
               {
                  i128 v;
                  if ( !__builtin_sub_overflow(sextW(a->c, w), sextW(b->k[1]->c, w), &v) && inW(v, w) ) return bin(Op::Slt, constant((u128)v, w), b->k[0]);
               }
            }
            break;
         case Op::Sle:
            return notB2Slt(b, a);
         default: break;
      }
      if ( !cmp && w > 1 )
      {
         // push operations with a constant through ite-of-constants
         if ( isC(b) && a->op == Op::Ite && (isC(a->k[1]) || isC(a->k[2])) && depthIte(a) <= 12 )
            return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
      }
      else if ( cmp && w > 1 )
      {
         if ( isC(b) && a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]) ) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
         if ( isC(a) && b->op == Op::Ite && isC(b->k[1]) && isC(b->k[2]) ) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
      }
      return raw2(op, rw, a, b);
   }

   Expr* zext(Expr* a, unsigned w)
   {
      if ( a->w == w ) return a;
      if ( isC(a) ) return constant(a->c, w);
      if ( a->op == Op::ZExt ) return zext(a->k[0], w);
      return raw1(Op::ZExt, w, a);
   }
   Expr* sext(Expr* a, unsigned w)
   {
      if ( a->w == w ) return a;
      if ( isC(a) ) return constant((u128)sextW(a->c, a->w), w);
      if ( a->op == Op::ZExt ) return zext(a->k[0], w);
      if ( a->op == Op::SExt ) return sext(a->k[0], w);
      if ( a->w > 1 && a->lo >= 0 ) return zext(a, w);
      if ( a->w == 1 ) return ite(a, constant(~(u128)0, w), constant(0, w));
      return raw1(Op::SExt, w, a);
   }
   Expr* extract(Expr* a, unsigned lo, unsigned w)
   {
      if ( lo == 0 && a->w == w ) return a;
      if ( isC(a) ) return constant(a->c >> lo, w);
      switch ( a->op )
      {
         case Op::Extract: return extract(a->k[0], a->aux + lo, w);
         case Op::ZExt:
            if ( lo >= a->k[0]->w ) return constant(0, w);
            if ( lo + w <= a->k[0]->w ) return extract(a->k[0], lo, w);
            return zext(extract(a->k[0], lo, a->k[0]->w - lo), w);
         case Op::SExt:
            if ( lo + w <= a->k[0]->w ) return extract(a->k[0], lo, w);
            if ( lo < a->k[0]->w ) return sext(extract(a->k[0], lo, a->k[0]->w - lo), w);
            break;
         case Op::Concat:
            if ( lo + w <= a->k[1]->w ) return extract(a->k[1], lo, w);
            if ( lo >= a->k[1]->w ) return extract(a->k[0], lo - a->k[1]->w, w);
            return concat(extract(a->k[0], 0, lo + w - a->k[1]->w), extract(a->k[1], lo, a->k[1]->w - lo));
         case Op::Ite:
            if ( isC(a->k[1]) || isC(a->k[2]) ) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
            break;
         case Op::Add: case Op::Sub: case Op::Mul:
            if ( lo == 0 && w > 1 ) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
            break;
         case Op::And: case Op::Or: case Op::Xor:
            return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
         case Op::LShr:
            if ( isC(a->k[1]) && a->k[1]->c + lo + w <= a->w ) return extract(a->k[0], lo + (unsigned)a->k[1]->c, w);
            break;
         default: break;
      }
      if ( a->w > 1 && w > 1 && a->lo >= 0 && lo > 0 && lo < 127 && (a->hi >> lo) == 0 ) return constant(0, w);
      Expr t{}; t.op = Op::Extract; t.w = (uint16_t)w; t.aux = lo; t.k[0] = a;
      return intern(t);
   }
   Expr* trunc(Expr* a, unsigned w) { return extract(a, 0, w); }
   Expr* concat(Expr* h, Expr* l)
   {
      if ( isC(h) && isC(l) ) return constant((h->c << l->w) | l->c, h->w + l->w);
      if ( isC(h, 0) ) return zext(l, h->w + l->w);
      if ( h->op == Op::Extract && l->op == Op::Extract && h->k[0] == l->k[0] && h->aux == l->aux + l->w ) return extract(l->k[0], l->aux, h->w + l->w);
      // extension recombination
      if ( h->op == Op::Extract && h->aux == l->w && h->k[0]->op == Op::SExt && h->k[0]->k[0] == l && h->k[0]->w == h->w + l->w ) return h->k[0];
      return raw2(Op::Concat, h->w + l->w, h, l);
   }
   Expr* ite(Expr* c, Expr* a, Expr* b)
   {
      if ( isC(c) ) return c->c ? a : b;
      if ( a == b ) return a;
      if ( a->w == 1 )
      {
         if ( isC(a) && isC(b) ) return a->c ? c : notB(c);
         if ( isC(a, 1) ) return bin(Op::Or, c, b);
         if ( isC(a, 0) ) return bin(Op::And, notB(c), b);
         if ( isC(b, 1) ) return bin(Op::Or, notB(c), a);
         if ( isC(b, 0) ) return bin(Op::And, c, a);
      }
      if ( c->op == Op::Xor && c->w == 1 && isC(c->k[1], 1) ) return ite(c->k[0], b, a);
      if ( a->op == Op::Ite && a->k[0] == c ) return ite(c, a->k[1], b);
      if ( b->op == Op::Ite && b->k[0] == c ) return ite(c, a, b->k[2]);
      Expr t{}; t.op = Op::Ite; t.w = a->w; t.k[0] = c; t.k[1] = a; t.k[2] = b;
      return intern(t);
   }

   // ---- evaluation under an assignment --------------------------------------------------
   u64 evalEpoch = 1;
   u128 eval(Expr* e, const std::vector<u128>& model, u64 tag)
   {
      if ( e->op == Op::Const ) return e->c;
      if ( e->evalTag == tag ) return e->evalVal;
      u128 r = 0;
      switch ( e->op )
      {
         case Op::Sym: r = e->aux < model.size() ? model[e->aux] : ((u128)symbols[e->aux].lo & maskW(e->w)); break;
         case Op::ZExt: r = eval(e->k[0], model, tag); break;
         case Op::SExt: r = (u128)sextW(eval(e->k[0], model, tag), e->k[0]->w) & maskW(e->w); break;
         case Op::Extract: r = (eval(e->k[0], model, tag) >> e->aux) & maskW(e->w); break;
         case Op::Concat: r = (eval(e->k[0], model, tag) << e->k[1]->w) | eval(e->k[1], model, tag); break;
         case Op::Ite: r = eval(e->k[0], model, tag) ? eval(e->k[1], model, tag) : eval(e->k[2], model, tag); break;
         default: { u128 a = eval(e->k[0], model, tag); u128 b = eval(e->k[1], model, tag); r = fold(e->op, e->k[0]->w, a, b); }
      }
      e->evalTag = tag; e->evalVal = r;
      return r;
   }

   std::string str(const Expr* e, int depth = 6)
   {
      static const char* names[] = {"c","s","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>u",">>s","==","<u","<=u","<","<=","zx","sx","ex","cc","ite"};
      if ( e->op == Op::Const ) { i128 v = sextW(e->c, e->w); if ( e->w == 1 ) v = (i128)e->c; return std::to_string((long long)v); }
      if ( e->op == Op::Sym ) return symbols[e->aux].name;
      if ( depth == 0 ) return "..";
      std::string r = std::string("(") + names[(int)e->op];
      if ( e->op == Op::ZExt || e->op == Op::SExt ) r += std::to_string(e->w);
      if ( e->op == Op::Extract ) r += std::to_string(e->aux) + ":" + std::to_string(e->w);
      for ( auto k : e->k ) if ( k ) r += " " + str(k, depth - 1);
      return r + ")";
   }

private:
   static bool inW(i128 v, unsigned w) { if ( w >= 128 ) return true; i128 h = ((i128)1 << (w - 1)); return v >= -h && v < h; }
   static bool fits(Expr* c, Expr* k, Op ext)
   {
      if ( ext == Op::ZExt ) return c->c <= maskW(k->w) && sextW(c->c, c->w) >= 0;
      return inW(sextW(c->c, c->w), k->w);
   }
   Expr* notB2Slt(Expr* b, Expr* a) // a <= b  ==  !(b < a)
   {
      // try to use constants:  a <= C  ==  a < C+1 ;  C <= a == C-1 < a
      const unsigned w = a->w;
      if ( w > 1 )
      {
         if ( isC(b) && w < 128 ) { i128 v = sextW(b->c, w); if ( inW(v + 1, w) ) return bin(Op::Slt, a, constant((u128)(v + 1), w)); return boolean(true); }
         if ( isC(a) && w < 128 ) { i128 v = sextW(a->c, w); if ( inW(v - 1, w) ) return bin(Op::Slt, constant((u128)(v - 1), w), b); return boolean(true); }
      }
      if ( a == b ) return boolean(true);
      if ( w > 1 )
      {
         if ( a->hi <= b->lo ) return boolean(true);
         if ( a->lo > b->hi ) return boolean(false);
      }
      Expr* lt = bin(Op::Slt, b, a);
      if ( isC(lt) ) return boolean(!lt->c);
      return raw2(Op::Xor, 1, lt, boolean(true));
   }
   static int depthIte(Expr* e) { int d = 0; while ( e->op == Op::Ite && d < 50 ) { ++d; e = isC(e->k[1]) ? e->k[2] : e->k[1]; } return d; }
   static void full(unsigned w, i128& lo, i128& hi)
   {
      if ( w == 1 ) { lo = 0; hi = 1; return; }
      if ( w >= 128 ) { lo = (i128)((u128)1 << 127); hi = (i128)(((u128)1 << 127) - 1); return; }
      hi = (((i128)1) << (w - 1)) - 1; lo = -hi - 1;
   }
   bool exactAdd(Expr* a) { i128 l, h; return addR(a->k[0], a->k[1], l, h) && inW(l, a->w) && inW(h, a->w); }
   bool exactMul(Expr* a) { i128 l, h; return mulR(a->k[0], a->k[1], l, h) && inW(l, a->w) && inW(h, a->w); }
   static bool addR(Expr* a, Expr* b, i128& l, i128& h) { return !__builtin_add_overflow(a->lo, b->lo, &l) && !__builtin_add_overflow(a->hi, b->hi, &h); }
   static bool subR(Expr* a, Expr* b, i128& l, i128& h) { return !__builtin_sub_overflow(a->lo, b->hi, &l) && !__builtin_sub_overflow(a->hi, b->lo, &h); }
   static bool mulR(Expr* a, Expr* b, i128& l, i128& h)
   {
      i128 p[4];
      if ( __builtin_mul_overflow(a->lo, b->lo, &p[0]) || __builtin_mul_overflow(a->lo, b->hi, &p[1]) || __builtin_mul_overflow(a->hi, b->lo, &p[2]) || __builtin_mul_overflow(a->hi, b->hi, &p[3]) ) return false;
      l = std::min(std::min(p[0], p[1]), std::min(p[2], p[3])); h = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
      return true;
   }
   static i128 absS(i128 v) { return v < 0 ? (v == (i128)((u128)1 << 127) ? (i128)(((u128)1 << 127) - 1) : -v) : v; }
   static unsigned bitsFor(i128 v) { unsigned n = 0; while ( v > 0 ) { ++n; v >>= 1; } return n; }
   void range(Expr* e)
   {
      const unsigned w = e->w;
      full(w, e->lo, e->hi);
      if ( e->op == Op::Const ) { e->lo = e->hi = (w == 1 ? (i128)e->c : sextW(e->c, w)); return; }
      if ( w == 1 ) return;
      i128 l = e->lo, h = e->hi;
      Expr* a = e->k[0]; Expr* b = e->k[1];
      bool ok = false;
      switch ( e->op )
      {
         case Op::Sym: l = symbols[e->aux].lo; h = symbols[e->aux].hi; ok = true; break;
         case Op::Add: ok = addR(a, b, l, h); break;
         case Op::Sub: ok = subR(a, b, l, h); break;
         case Op::Mul: ok = mulR(a, b, l, h); if ( ok && a == b && l < 0 ) l = 0; break;
         case Op::SDiv:
         {
            i128 m = std::max(absS(a->lo), absS(a->hi));
            l = -m; h = m; ok = true;
            if ( b->lo >= 0 ) { i128 d = b->lo > 0 ? b->lo : 1; l = a->lo < 0 ? a->lo / d : 0; h = a->hi > 0 ? a->hi / d : 0; }
            break;
         }
         case Op::SRem:
         {
            i128 m = std::max(absS(b->lo), absS(b->hi)); if ( m > 0 ) m -= 1;
            i128 am = std::max(absS(a->lo), absS(a->hi));
            m = std::min(m, am);
            l = a->lo >= 0 ? 0 : -m; h = a->hi <= 0 ? 0 : m; ok = true; break;
         }
         case Op::UDiv: if ( a->lo >= 0 && b->lo >= 0 ) { l = 0; h = b->lo > 0 ? a->hi / b->lo : a->hi; ok = true; } else if ( a->lo >= 0 ) { l = 0; h = a->hi; ok = true; } break;
         case Op::URem: if ( b->lo >= 0 ) { l = 0; h = std::max<i128>(0, b->hi - 1); if ( a->lo >= 0 ) h = std::min(a->hi, h); ok = true; } else if ( a->lo >= 0 ) { l = 0; h = a->hi; ok = true; } break;
         case Op::And:
            if ( a->lo >= 0 && b->lo >= 0 ) { l = 0; h = std::min(a->hi, b->hi); ok = true; }
            else if ( a->lo >= 0 ) { l = 0; h = a->hi; ok = true; }
            else if ( b->lo >= 0 ) { l = 0; h = b->hi; ok = true; }
            break;
         case Op::Or: case Op::Xor:
            if ( a->lo >= 0 && b->lo >= 0 ) { unsigned n = std::max(bitsFor(a->hi), bitsFor(b->hi)); l = 0; h = n >= 127 ? h : (((i128)1) << n) - 1; ok = true; }
            else { // signed: fits in max width of both
               unsigned n = std::max(std::max(bitsFor(a->hi), bitsFor(absS(a->lo))), std::max(bitsFor(b->hi), bitsFor(absS(b->lo))));
               if ( n < w - 1 ) { h = (((i128)1) << n) - 1; l = -h - 1; ok = true; } }
            break;
         case Op::LShr:
            if ( b->op == Op::Const && b->c > 0 && b->c < w )
            {
               if ( a->lo >= 0 ) { l = a->lo >> (unsigned)b->c; h = a->hi >> (unsigned)b->c; ok = true; }
               else { l = 0; h = (i128)(maskW(w) >> (unsigned)b->c); ok = true; }
            }
            else if ( a->lo >= 0 ) { l = 0; h = a->hi; ok = true; }
            break;
         case Op::AShr: if ( b->op == Op::Const ) { unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; l = a->lo >> s; h = a->hi >> s; ok = true; } else { l = std::min<i128>(a->lo, 0); h = std::max<i128>(a->hi, 0); if ( a->hi < 0 ) h = -1; ok = true; } break;
         case Op::ZExt:
            if ( a->w == 1 ) { l = 0; h = 1; ok = true; }
            else if ( a->lo >= 0 ) { l = a->lo; h = a->hi; ok = true; }
            else { l = 0; h = (i128)maskW(a->w); if ( a->w == 128 ) break; ok = true; if ( a->hi < 0 ) l = (i128)((u128)a->lo & maskW(a->w)), h = (i128)((u128)a->hi & maskW(a->w)); }
            break;
         case Op::SExt: l = a->lo; h = a->hi; ok = true; break;
         case Op::Extract:
            if ( a->w > 1 )
            {
               if ( e->aux == 0 ) { if ( inW(a->lo, w) && inW(a->hi, w) ) { l = a->lo; h = a->hi; ok = true; } }
               else { i128 x = a->lo >> e->aux, y = a->hi >> e->aux; if ( inW(x, w) && inW(y, w) ) { l = x; h = y; ok = true; } }
            }
            break;
         case Op::Concat:
            if ( a->w == 1 ) break;
            if ( b->w < 120 ) { i128 x, y; if ( !__builtin_mul_overflow(a->lo, (i128)1 << b->w, &x) && !__builtin_mul_overflow(a->hi, (i128)1 << b->w, &y) ) { l = x; if ( !__builtin_add_overflow(y, (i128)maskW(b->w), &h) ) ok = true; } }
            break;
         case Op::Ite: l = std::min(e->k[1]->lo, e->k[2]->lo); h = std::max(e->k[1]->hi, e->k[2]->hi); ok = true; break;
         default: break;
      }
      if ( ok && inW(l, w) && inW(h, w) && l <= h ) { e->lo = l; e->hi = h; }
   }
   Expr* raw1(Op op, unsigned w, Expr* a) { Expr t{}; t.op = op; t.w = (uint16_t)w; t.k[0] = a; return intern(t); }
   Expr* raw2(Op op, unsigned w, Expr* a, Expr* b) { Expr t{}; t.op = op; t.w = (uint16_t)w; t.k[0] = a; t.k[1] = b; return intern(t); }

   struct H { size_t operator()(const Expr* e) const {
      u64 h = (u64)e->op * 0x9E3779B97F4A7C15ull ^ ((u64)e->w << 8) ^ ((u64)e->aux << 24);
      for ( auto k : e->k ) h = (h ^ (k ? k->id + 1 : 0)) * 0xff51afd7ed558ccdull, h ^= h >> 29;
      h ^= (u64)e->c * 0xc4ceb9fe1a85ec53ull; h ^= (u64)(e->c >> 64) * 0x2545F4914F6CDD1Dull; h ^= h >> 31; return h; } };
   struct E { bool operator()(const Expr* a, const Expr* b) const { return a->op == b->op && a->w == b->w && a->aux == b->aux && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2] && a->c == b->c; } };
   std::unordered_set<Expr*, H, E> table;
   struct SH { size_t operator()(const SymSet* s) const { u64 h = s->ids.size(); for ( auto i : s->ids ) h = (h ^ i) * 0xff51afd7ed558ccdull, h ^= h >> 30; return h; } };
   struct SE { bool operator()(const SymSet* a, const SymSet* b) const { return a->ids == b->ids; } };
   std::unordered_set<SymSet*, SH, SE> symsets;
   SymSet emptySet;
   const SymSet* internSet(std::vector<u32> v)
   {
      if ( v.empty() ) return &emptySet;
      SymSet t{std::move(v)};
      auto it = symsets.find(&t);
      if ( it != symsets.end() ) return *it;
      auto n = new SymSet(std::move(t));
      symsets.insert(n);
      return n;
   }
public:
   const SymSet* unite(const SymSet* a, const SymSet* b)
   {
      if ( a == b || b->ids.empty() ) return a;
      if ( a->ids.empty() ) return b;
      std::vector<u32> v;
      std::set_union(a->ids.begin(), a->ids.end(), b->ids.begin(), b->ids.end(), std::back_inserter(v));
      if ( v.size() == a->ids.size() ) return a;
      if ( v.size() == b->ids.size() ) return b;
      return internSet(std::move(v));
   }
private:
   std::vector<Expr*> pool; size_t poolUsed = 0;
   static const size_t CH = 4096;
   Expr* intern(Expr& t)
   {
      auto it = table.find(&t);
      if ( it != table.end() ) return *it;
      if ( pool.empty() || poolUsed == CH ) { pool.push_back((Expr*)malloc(sizeof(Expr) * CH)); poolUsed = 0; }
      Expr* e = pool.back() + poolUsed++;
      *e = t;
      e->id = (u32)++nodeCount;
      e->evalTag = 0; e->z3 = nullptr;
      if ( e->op == Op::Sym ) e->syms = internSet({e->aux});
      else { e->syms = &emptySet; for ( auto k : e->k ) if ( k ) e->syms = unite(e->syms, k->syms); }
      range(e);
      if ( e->w == 1 ) e->nw = 1;
      else
      {
         unsigned n = 1;
         i128 l = e->lo, h = e->hi;
         while ( n < e->w && !inW(l, n) ) ++n;
         while ( n < e->w && !inW(h, n) ) ++n;
         e->nw = (uint16_t)n;
      }
      // single-value interval
      if ( e->op != Op::Const && e->w > 1 && e->lo == e->hi )
      {
         table.insert(e);
         Expr* c = constant((u128)e->lo, e->w);
         table.erase(e); // return constant from now on
         return c;
      }
      table.insert(e);
      return e;
   }
};
