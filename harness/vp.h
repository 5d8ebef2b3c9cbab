// Interface between harnesses and the symbolic executor (engine/) or, when a
// counterexample is replayed, the native replayer (runtime/vp_native.cpp).
#pragma once
#include <cstdint>
#include <exception>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

extern "C"
{
   long vp_sym(const char* name, long lo, long hi);   // fresh symbolic integer in [lo, hi]
   long vp_param(const char* name, long dflt);        // concrete parameter of the run
   void vp_assume(int);
   void vp_assert(int, const char* msg);
   void vp_fail(const char* msg);
   void vp_reach(const char* id);
   void vp_note(const char* name, long value);
   long vp_concrete(long);                            // fork over the values
   int vp_is_symbolic_run();
   void vp_stop();                                    // ends the path (fine)
   void vp_skip();                                    // ends the path (outside the precondition)
   void vp_terminate_ok(int);                         // std::terminate ends the path (fine)
   void vp_print(const char*);
   int vp_and(int, int);                              // branch-free connectives
   int vp_or(int, int);
   long vp_ite(int, long, long);
   void vp_vfs_add(const char* name, const char* data, unsigned long size);
   extern long (*vp_clock_hook)();
   void vp_thread_yield();
   extern int vp_opaque_numbers;                      // symbolic run: numbers are printed as "#"
}

namespace vp
{
   inline std::string num(long v)   // (not std::to_string: see vp_opaque_numbers)
   {
      if ( v < 0 ) return "-" + num(-v);
      return (v >= 10 ? num(v / 10) : std::string()) + (char)('0' + v % 10);
   }
   // value of a named input with an index, e.g. in("x", 3, lo, hi) is called x3
   inline long in(const char* base, int i, long lo, long hi)
   {
      const std::string n = std::string(base) + num(i);
      return vp_sym(n.c_str(), lo, hi);
   }
   inline long in(const char* base, int i, int j, long lo, long hi)
   {
      const std::string n = std::string(base) + num(i) + "_" + num(j);
      return vp_sym(n.c_str(), lo, hi);
   }
   inline void file(const std::string& name, const std::string& content) { vp_vfs_add(name.c_str(), content.data(), content.size()); }

   // redirects an output stream into a string for its lifetime
   class Capture
   {
         std::ostream& s;
         std::stringbuf b;
         std::streambuf* old;
      public:
         explicit Capture(std::ostream& s_ = std::cout) : s(s_), b(), old(s_.rdbuf(&b)) {}
         ~Capture() { s.rdbuf(old); }
         std::string str() const { return b.str(); }
   };
   // argc/argv
   class Args
   {
         std::vector<std::string> v;
         std::vector<char*> p;
      public:
         Args(std::vector<std::string> a) : v(a) { for ( auto& s : v ) p.push_back(&s[0]); p.push_back(nullptr); }
         int argc() const { return (int)v.size(); }
         char** argv() { return p.data(); }
   };
}
#define VP_HARNESS(name) extern "C" void name()
