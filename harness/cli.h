// Runs the command line program on files held in memory and reads its output.
#pragma once
#include "geo.h"

int panda_main(int, char**);   // main of /repo/src/main.cpp, renamed when compiled for the checks

namespace cli
{
   struct Result { int rc; std::string out, err; };
   // rc -1: an exception left main (the program would terminate abnormally)
   inline Result run(std::vector<std::string> args)
   {
      Result r;
      args.insert(args.begin(), "panda");
      vp::Capture out(std::cout), err(std::cerr);
      try { vp::Args a(args); r.rc = panda_main(a.argc(), a.argv()); }
      catch ( ... ) { r.rc = -1; }
      r.out = out.str(); r.err = err.str();
      return r;
   }
   // decimal text of a symbolic number of at most that many digits, without branching on it
   inline std::string num(long x, int digits = 1)
   {
      std::string s;
      const long neg = x < 0;
      const long a = vp_ite(neg, -x, x);
      s += (char)vp_ite(neg, '-', ' ');
      long p = 1;
      for ( int i = 1; i < digits; ++i ) p *= 10;
      vp_assume(a < 10 * p);
      for ( ; p > 0; p /= 10 ) s += (char)('0' + a / p % 10);
      return s;
   }
   inline std::string lines(const geo::Mat& m, bool homogeneous, int digits = 1, size_t from = 0)
   {
      std::string s;
      for ( size_t i = from; i < m.size(); ++i )
      {
         for ( size_t j = 0; j + (homogeneous ? 0 : 1) < m[i].size(); ++j ) s += num(m[i][j], digits) + " ";
         s += "\n";
      }
      return s;
   }
   // points/rays file of a homogenised matrix
   inline std::string polyhedron(const geo::Mat& m, int digits = 1)
   {
      geo::Mat v, r;
      for ( auto& x : m ) (x.back() ? v : r).push_back(x);
      std::string s;
      if ( !v.empty() ) s += "Vertices:\n" + lines(v, false, digits);
      if ( !r.empty() ) s += "\nRays:\n" + lines(r, false, digits);
      return s;
   }
   struct Section { std::string title; std::vector<std::vector<std::string>> rows; };
   // splits the output in sections; a title is a line ending in ':'
   inline std::vector<Section> sections(const std::string& text)
   {
      std::vector<Section> r;
      std::string line;
      auto flush = [&]() {
         std::vector<std::string> tok;
         std::string t;
         for ( char c : line ) { if ( c == ' ' ) { if ( !t.empty() ) tok.push_back(t); t.clear(); } else t += c; }
         if ( !t.empty() ) tok.push_back(t);
         if ( !line.empty() && line.back() == ':' ) { r.push_back({line, {}}); }
         else if ( !tok.empty() )
         {
            if ( r.empty() ) r.push_back({"", {}});
            r.back().rows.push_back(tok);
         }
         line.clear();
      };
      for ( char c : text ) { if ( c == '\n' ) flush(); else line += c; }
      flush();
      return r;
   }
   inline long toLong(const std::string& s, size_t from = 0, size_t to = std::string::npos)
   {
      if ( to == std::string::npos ) to = s.size();
      bool neg = false;
      size_t i = from;
      if ( i < to && (s[i] == '-' || s[i] == '+') ) { neg = s[i] == '-'; ++i; }
      vp_assert(i < to, "a printed number has digits");
      long v = 0;
      for ( ; i < to; ++i ) { vp_assert(vp_and(s[i] >= '0', s[i] <= '9'), "a printed number consists of digits"); v = v * 10 + (s[i] - '0'); }
      return neg ? -v : v;
   }
   inline geo::Mat matrix(const Section& s)
   {
      geo::Mat m;
      for ( auto& r : s.rows ) { geo::Vec v; for ( auto& t : r ) v.push_back(toLong(t)); m.push_back(v); }
      return m;
   }
   // rows of fractions -> homogeneous rows (numerators over the common denominator)
   inline geo::Mat fractions(const Section& s)
   {
      geo::Mat m;
      for ( auto& r : s.rows )
      {
         geo::Vec n, d;
         long all = 1;
         for ( auto& t : r )
         {
            const size_t k = t.find('/');
            if ( k == std::string::npos ) { n.push_back(toLong(t)); d.push_back(1); }
            else { n.push_back(toLong(t, 0, k)); d.push_back(toLong(t, k + 1)); }
            // the least common denominator is at most the product; entries are small
            long a = all, b = d.back();
            vp_assert(b > 0, "a printed denominator is positive");
            if ( k != std::string::npos )
            {
               vp_assert(b > 1, "a whole number is printed without a denominator");
               long rest = vp_concrete(b);
               int lowest = 1;
               for ( long p = 2; p <= rest; ++p ) if ( rest % p == 0 ) { lowest = vp_and(lowest, n.back() % p != 0); while ( rest % p == 0 ) rest /= p; }
               vp_assert(lowest, "a printed fraction is in lowest terms");
            }
            long x = vp_concrete(a), y = vp_concrete(b);
            while ( y ) { const long z = x % y; x = y; y = z; }
            all = vp_concrete(a) / x * vp_concrete(b);
         }
         geo::Vec v;
         for ( size_t i = 0; i < n.size(); ++i ) v.push_back(n[i] * (all / vp_concrete(d[i])));
         v.push_back(all);
         m.push_back(v);
      }
      return m;
   }
   inline const Section* find(const std::vector<Section>& ss, const char* title) { for ( auto& s : ss ) if ( s.title == title ) return &s; return nullptr; }
   inline int hasSection(const std::vector<Section>& ss, const char* title) { return find(ss, title) != nullptr; }
   // vertices and rays of an output, homogeneous
   inline geo::Mat vertices(const std::vector<Section>& ss)
   {
      geo::Mat m;
      for ( auto t : {"Vertices:", "Reduced Vertices:"} ) if ( auto v = find(ss, t) ) m = fractions(*v);
      for ( auto t : {"Rays:", "Reduced Rays:"} ) if ( auto r = find(ss, t) ) { for ( auto x : matrix(*r) ) { x.push_back(0); m.push_back(x); } }
      for ( auto t : {"Vertices / Rays:", "Reduced Vertices / Rays:"} ) if ( auto v = find(ss, t) ) for ( auto& x : matrix(*v) ) m.push_back(x);
      return m;
   }
   inline geo::Mat inequalities(const std::vector<Section>& ss)
   {
      geo::Mat m;
      for ( auto t : {"Inequalities:", "Reduced Inequalities:"} ) if ( auto v = find(ss, t) ) for ( auto& x : matrix(*v) ) m.push_back(x);
      return m;
   }
   inline std::string rows(const geo::Mat& m, int digits = 1) { return lines(m, true, digits); }
}
