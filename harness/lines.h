// Lines of input with symbolic characters, and an independent reading of what they mean.
#pragma once
#include "vp.h"

namespace lines
{
   typedef std::vector<std::string> Strings;
   inline bool space(unsigned char c) { return c == ' ' || (c >= '\t' && c <= '\r' && c != '\n'); }
   inline bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
   inline bool sign(unsigned char c) { return c == '+' || c == '-'; }
   inline bool relationChar(unsigned char c) { return c == '<' || c == '>' || c == '='; }

   // the template with '?' replaced by arbitrary characters (not the newline), and '#' by an arbitrary digit, '~' by an arbitrary sign,
   // '_' by an arbitrary white space character
   inline std::string fill(const std::string& t)
   {
      std::string s;
      int i = 0;
      for ( char c : t )
      {
         if ( c == '?' ) { const long x = vp::in("c", i++, 0, 255); vp_assume(x != '\n'); s += (char)x; }
         else if ( c == '#' ) s += (char)vp::in("d", i++, '0', '9');
         else if ( c == '~' ) s += (char)vp_ite((int)vp::in("s", i++, 0, 1), '-', '+');
         else if ( c == '_' ) s += (char)vp_ite((int)vp::in("w", i++, 0, 1), ' ', '\t');
         else s += c;
      }
      return s;
   }

   const long LIMIT = 2147483647L;
   struct Number { bool ok; long v; };   // ok: it fits
   inline Number number(const std::string& s, size_t& i)   // digits only
   {
      Number n{true, 0};
      for ( ; i < s.size() && digit(s[i]); ++i ) { if ( n.ok ) n.v = n.v * 10 + (s[i] - '0'); if ( n.v > LIMIT ) n.ok = false; }
      return n;
   }

   // a row or the verdicts: 0 not readable at all, 1 readable in a lenient way (may be rejected), 2 as documented (must be accepted)
   struct Reading { int level; std::vector<long> row; };

   // skips white space and "(identifier)"; 0 if it is malformed, 1 if it contains a carriage return
   inline int identifier(const std::string& s, size_t& i)
   {
      int level = 2;
      while ( i < s.size() && space(s[i]) ) ++i;
      if ( i < s.size() && s[i] == '(' )
      {
         for ( ; i < s.size() && s[i] != ')'; ++i ) if ( s[i] == '\r' ) level = 1;
         if ( i == s.size() ) return 0;
         ++i;
      }
      return level;
   }

   enum { NONE, LE, GE, EQ };
   inline int relation(const std::string& s, size_t& i)
   {
      const char c = s[i++];
      const bool two = i < s.size() && s[i] == '=';
      if ( two ) ++i;
      if ( c == '=' ) return EQ;
      if ( !two ) return NONE;
      return c == '<' ? LE : GE;
   }

   // sum of terms, relation, constant. A row of the form a^T x - b (<= / =) 0.
   inline Reading named(const std::string& s, const Strings& names, bool equation)
   {
      Reading r{2, std::vector<long>(names.size() + 1, 0)};
      std::vector<int> seen(names.size() + 1, 0);
      size_t i = 0;
      r.level = identifier(s, i);
      if ( r.level == 0 ) return {0, {}};
      int rel = NONE;
      bool rhs = false, spaced = true;
      for ( ;; )
      {
         size_t j = i;
         while ( i < s.size() && space(s[i]) ) ++i;
         if ( i == s.size() ) break;
         if ( i == j && j != 0 && s[j - 1] != ')' ) r.level = std::min(r.level, 1);   // nothing between the tokens
         if ( relationChar(s[i]) )
         {
            if ( rel != NONE ) return {0, {}};
            rel = relation(s, i);
            if ( rel == NONE || equation != (rel == EQ) ) return {0, {}};
            continue;
         }
         long f = 1;
         int signs = 0;
         bool lone = false;
         for ( ; i < s.size() && (sign(s[i]) || space(s[i])); ++i )
         {
            if ( sign(s[i]) ) { ++signs; if ( s[i] == '-' ) f = -f; }
            else lone = true;
         }
         if ( signs > 1 ) r.level = std::min(r.level, 1);
         if ( i == s.size() ) return {0, {}};
         const bool digits = digit(s[i]);
         const Number n = number(s, i);
         if ( digits && !n.ok ) return {0, {}};
         if ( digits ) f *= n.v;
         std::string name;
         while ( i < s.size() && !space(s[i]) && !relationChar(s[i]) && !sign(s[i]) ) name += s[i++];
         size_t k = names.size();
         if ( !name.empty() )
         {
            for ( k = 0; k < names.size() && names[k] != name; ++k ) {}
            if ( k == names.size() ) return {0, {}};
         }
         else if ( !digits ) return {0, {}};
         if ( k == names.size() && lone ) r.level = std::min(r.level, 1);   // "- 3" is refused on the right hand side
         const bool right = rel != NONE;
         // documented: every variable at most once on the left, one constant on the right
         if ( seen[k] || right != (k == names.size()) ) r.level = std::min(r.level, 1);
         if ( k == names.size() ) rhs = true;
         seen[k] = 1;
         if ( k == names.size() ) r.row[k] += right ? -f : f;
         else r.row[k] += right ? -f : f;
      }
      if ( rel == NONE ) return {0, {}};
      if ( !rhs ) r.level = std::min(r.level, 1);
      if ( rel == GE ) for ( auto& x : r.row ) x = -x;
      return r;
   }

   // coefficients, possibly with a relation before the last one
   inline Reading unnamed(const std::string& s, bool equation)
   {
      Reading r{2, {}};
      size_t i = 0;
      r.level = identifier(s, i);
      if ( r.level == 0 ) return {0, {}};
      int rel = NONE;
      size_t before = 0;
      for ( ;; )
      {
         const size_t j = i;
         while ( i < s.size() && space(s[i]) ) ++i;
         if ( i == s.size() ) break;
         if ( i == j && j != 0 && s[j - 1] != ')' ) r.level = std::min(r.level, 1);
         if ( relationChar(s[i]) )
         {
            if ( rel != NONE ) return {0, {}};
            rel = relation(s, i);
            if ( rel == NONE || equation != (rel == EQ) ) return {0, {}};
            before = r.row.size();
            continue;
         }
         long f = 1;
         if ( sign(s[i]) ) { if ( s[i] == '-' ) f = -1; ++i; }
         if ( i == s.size() || !digit(s[i]) ) return {0, {}};
         const Number n = number(s, i);
         if ( !n.ok ) return {0, {}};
         r.row.push_back(f * n.v);
      }
      if ( r.row.empty() ) return {rel == NONE ? 1 : 0, {}};
      if ( rel != NONE )
      {
         if ( r.row.size() != before + 1 ) return {0, {}};
         r.row.back() = -r.row.back();
         if ( rel == GE ) for ( auto& x : r.row ) x = -x;
      }
      return r;
   }
}

namespace lines
{
   struct Fraction { long n, d; };
   struct Point { int level; std::vector<Fraction> v; };
   // integers and fractions
   inline Point point(const std::string& s)
   {
      Point p{2, {}};
      size_t i = 0;
      p.level = identifier(s, i);
      if ( p.level == 0 ) return {0, {}};
      bool first = true;
      for ( ;; first = false )
      {
         const size_t j = i;
         while ( i < s.size() && space(s[i]) ) ++i;
         if ( i == s.size() ) break;
         if ( i == j && !first ) return {0, {}};
         Fraction f{0, 1};
         for ( int part = 0; part < 2; ++part )
         {
            long sg = 1;
            if ( sign(s[i]) ) { if ( s[i] == '-' ) sg = -1; if ( part ) p.level = std::min(p.level, 1); ++i; }
            if ( i == s.size() || !digit(s[i]) ) return {0, {}};
            const Number n = number(s, i);
            if ( !n.ok ) { if ( !(sg < 0 && part == 0 && n.v == LIMIT + 1) ) return {0, {}}; p.level = std::min(p.level, 1); }
            (part ? f.d : f.n) = sg * n.v;
            if ( part ) { if ( f.d == 0 ) return {0, {}}; break; }
            size_t k = i;
            while ( k < s.size() && space(s[k]) ) ++k;
            if ( k == s.size() || s[k] != '/' ) break;
            if ( k != i ) p.level = std::min(p.level, 1);
            i = k + 1;
            while ( i < s.size() && space(s[i]) ) { p.level = std::min(p.level, 1); ++i; }
            if ( i == s.size() ) return {0, {}};
         }
         p.v.push_back(f);
      }
      if ( p.v.empty() ) p.level = 1;
      return p;
   }

   // the images of the coordinates: linear combinations of the names and a constant (index names.size())
   struct MapReading { int level; std::vector<std::vector<long>> images; };
   inline MapReading map(const std::string& s, const Strings& names)
   {
      MapReading m{2, {}};
      size_t i = 0;
      for ( ;; )
      {
         while ( i < s.size() && space(s[i]) ) ++i;
         if ( i == s.size() ) break;
         std::vector<long> image(names.size() + 1, 0);
         for ( bool first = true; i < s.size() && !space(s[i]); first = false )
         {
            long f = 1;
            int signs = 0;
            for ( ; i < s.size() && sign(s[i]); ++i ) { ++signs; if ( s[i] == '-' ) f = -f; }
            if ( signs > 1 ) m.level = std::min(m.level, 1);
            if ( signs == 0 && !first ) return {0, {}};
            if ( i == s.size() || space(s[i]) ) return {0, {}};
            const bool digits = digit(s[i]);
            const Number n = number(s, i);
            if ( digits && !n.ok ) return {0, {}};
            if ( digits ) f *= n.v;
            std::string name;
            while ( i < s.size() && !space(s[i]) && !sign(s[i]) ) name += s[i++];
            size_t k = names.size();
            if ( !name.empty() )
            {
               for ( k = 0; k < names.size() && names[k] != name; ++k ) {}
               if ( k == names.size() ) return {0, {}};
            }
            else if ( !digits ) return {0, {}};
            image[k] += f;
         }
         m.images.push_back(image);
      }
      if ( m.images.size() != names.size() ) return {m.images.empty() ? 1 : 0, {}};
      return m;
   }
}
