// Scope guards, delayed actions with any clock, peeking and guarded streams.
#include "cli.h"
#include "delayed_action.h"
#include "scope_guard.h"
#include "istream_peek_line.h"
#include "position_guarded_file.h"
#include "joining_thread.h"
#include "matrix.h"
#include "algorithm_fourier_motzkin_elimination.h"
#include <fstream>
#include <memory>
#include <new>
#include <sstream>

using namespace panda;

namespace
{
   long flag(const char* n, int i = 0) { return vp_concrete(vp::in(n, i, 0, 1)); }
   long pick(const char* n, int i, long count) { return vp_concrete(vp::in(n, i, 0, count - 1)); }

   struct Counter { int runs = 0; long order = 0; };
   long order_ = 0;
   // one scope with a guard: ways to leave it, dismissal before or after a move
   int leave(Counter& c, long way, long dismiss, long move)
   {
      auto guard = makeScopeGuard([&c]() { ++c.runs; c.order = ++order_; });
      vp_assert(c.runs == 0, "the action does not run before the scope is left");
      if ( dismiss == 1 ) guard.dismiss();
      if ( move )
      {
         auto other(std::move(guard));
         if ( dismiss == 2 ) other.dismiss();
         if ( dismiss == 3 ) guard.dismiss();   // the moved-from guard: nothing to dismiss any more
         if ( way == 1 ) throw 1;
         if ( way == 2 ) return 2;
         vp_assert(c.runs == 0, "the action does not run before the scope is left");
         if ( move == 2 ) { auto third(std::move(other)); }   // leaves the inner scope
      }
      if ( way == 1 ) throw 1;
      if ( way == 2 ) return 2;
      return 3;
   }
}

VP_HARNESS(p24_scope)
{
   const long count = vp_param("count", 2);
   Counter c[4];
   long expected[4];
   for ( long i = 0; i < count; ++i )
   {
      const long way = pick("way", (int)i, 3), dismiss = pick("dismiss", (int)i, 4), move = pick("move", (int)i, 3);
      if ( dismiss >= 2 && !move ) vp_skip();
      bool thrown = false;
      int r = 0;
      try { r = leave(c[i], way, dismiss, move); } catch ( int ) { thrown = true; }
      vp_assert(thrown == (way == 1), "an exception passes the guard");
      vp_assert(thrown || r == (way == 2 ? 2 : 3), "a return value passes the guard");
      expected[i] = dismiss == 1 || dismiss == 2 ? 0 : 1;
   }
   vp_reach("op");
   for ( long i = 0; i < count; ++i ) vp_assert(c[i].runs == expected[i], "the action of a guard runs exactly once unless dismissed");
   // nested guards: inner first
   Counter a, b;
   try
   {
      auto outer = makeScopeGuard([&a]() { ++a.runs; a.order = ++order_; });
      try
      {
         auto inner = makeScopeGuard([&b]() { ++b.runs; b.order = ++order_; });
         if ( flag("throws", 0) ) throw 1;
         if ( flag("dismissed", 0) ) inner.dismiss();
      }
      catch ( int ) { vp_assert(b.runs == 1, "the inner action has run when the exception is caught"); if ( flag("rethrown", 0) ) throw; }
      vp_assert(a.runs == 0, "the outer action runs when the outer scope is left");
   }
   catch ( int ) {}
   vp_assert(a.runs == 1, "the action of a guard runs exactly once unless dismissed");
   vp_assert(b.runs == 0 || b.order < a.order, "the inner guard comes first");
}

namespace { long now_ = 0; long clock_() { return now_; } }
namespace
{
   template <typename Action>
   void act(Action action, const int& runs, long elapsed, long dismiss, long move)
   {
      if ( dismiss == 1 ) action.dismiss();
      vp_assert(runs == 0, "the action does not run before the scope is left");
      now_ += elapsed;
      vp_assert(runs == 0, "the action does not run before the scope is left");
      if ( move )
      {
         auto other(std::move(action));
         if ( dismiss == 2 ) other.dismiss();
         if ( dismiss == 3 ) action.dismiss();
         if ( move == 2 ) { auto third(std::move(other)); }
      }
   }
}
VP_HARNESS(p24_delayed)
{
   const long S = 1000000000L, range = 3600 * S;
   vp_clock_hook = clock_;
   now_ = vp::in("start", 0, 0, range);
   const long elapsed = vp::in("elapsed", 0, 0, range);
   const long unit = vp_param("unit", 0);
   const long delay = vp::in("delay", 0, 0, unit == 0 ? 3600 : unit == 1 ? 3600000 : range);
   const long move = pick("move", 0, 3), dismiss = pick("dismiss", 0, 4);
   if ( dismiss >= 2 && !move ) vp_skip();
   int runs = 0;
   auto run = [&runs]() { ++runs; };
   const long ns = unit == 0 ? S : unit == 1 ? 1000000L : 1;
   if ( unit == 0 ) act(makeDelayedAction([&run]() { run(); }, std::chrono::seconds(delay)), runs, elapsed, dismiss, move);
   else if ( unit == 1 ) act(makeDelayedAction([&run]() { run(); }, std::chrono::milliseconds(delay)), runs, elapsed, dismiss, move);
   else act(makeDelayedAction([&run]() { run(); }, std::chrono::nanoseconds(delay)), runs, elapsed, dismiss, move);
   vp_clock_hook = nullptr;
   vp_reach("op");
   const int due = elapsed >= delay * ns;
   vp_assert(runs == (dismiss == 1 || dismiss == 2 ? 0 : (int)vp_ite(due, 1, 0)), "the action runs once if the delay has passed, otherwise not at all");
}

// progress messages of double description: at most one in two seconds, none if there was no time, the same result always
namespace { int ticks_ = 0; long total_ = 0; long ticking() { if ( ticks_ < 6 ) { const long d = vp::in("tick", ticks_++, 0, 5); now_ += d * 1000000000L; total_ += d; } return now_; } }
VP_HARNESS(p24_progress)
{
   Matrix<int> V{{0, 0, 1}, {2, 0, 1}, {0, 2, 1}, {2, 2, 1}, {1, 1, 1}, {3, 1, 1}};
   const auto quiet = algorithm::fourierMotzkinElimination(V);
   now_ = 0; ticks_ = 0; total_ = 0;
   vp_clock_hook = ticking;
   std::string text;
   Matrix<int> F;
   {
      vp::Capture err(std::cerr);
      F = algorithm::fourierMotzkinElimination(V);
      text = err.str();
   }
   vp_clock_hook = nullptr;
   long messages = 0;
   for ( char c : text ) messages += c == '\n';
   vp_reach("op");
   vp_note("messages", messages);
   vp_assert(2 * messages <= total_, "progress is reported at most once in two seconds");
   vp_assert(F == quiet, "the result does not depend on the time taken");
}

namespace
{
   // any text over letters and line ends
   std::string text(int length)
   {
      std::string s;
      const size_t fill = (size_t)vp_param("fill", 0);   // fixed characters before each arbitrary one
      for ( int i = 0; i < length; ++i ) s += std::string(fill, 'f') + (char)vp_ite(vp::in("nl", i, 0, 1), '\n', vp::in("c", i, vp_param("low", 33), 126));
      return s;
   }
   std::string lineFrom(const std::string& s, size_t p) { std::string r; while ( p < s.size() && s[p] != '\n' ) r += s[p++]; return r; }
}
template <typename Stream, typename Open>
static void histories(Open open)
{
   const std::string s = text((int)vp_param("length", 3));
   std::unique_ptr<Stream> stream = open(s);
   Stream& in = *stream;
   size_t p = 0;
   bool ended = false;   // something has been read up to the end of the text
   const long steps = vp_param("steps", 3);
   for ( long k = 0; k < steps; ++k )
   {
      const long op = pick("op", (int)k, vp_param("ops", 3));
      if ( op == 0 )   // peek
      {
         const auto before = ended ? std::streampos(-1) : in.tellg();
         const std::string l = peekLine(in);
         if ( ended ) { vp_assert(l.empty(), "there is nothing left to peek at"); }
         else
         {
            vp_assert(l == lineFrom(s, p), "peeking gives the rest of the line");
            vp_assert((bool)in, "the stream can be read after peeking");
            vp_assert(in.tellg() == before, "peeking keeps the reading position");
         }
      }
      else if ( op == 1 )   // read a line
      {
         std::string l;
         const bool ok = (bool)std::getline(in, l);
         if ( ended || p >= s.size() ) { vp_assert(!ok, "there is nothing left to read"); ended = true; }
         else
         {
            const std::string e = lineFrom(s, p);
            vp_assert(ok && l == e, "reading goes on where it was");
            p += e.size() + 1;
            if ( p > s.size() ) ended = true;   // no line end: the end of the text was met
         }
      }
      else if ( op == 2 )   // read a character
      {
         const int c = in.get();
         if ( ended || p >= s.size() ) { vp_assert(c == -1, "there is nothing left to read"); ended = true; }
         else { vp_assert(c == (unsigned char)s[p], "reading goes on where it was"); ++p; }
      }
   }
   vp_reach("op");
}
VP_HARNESS(p24_peek)
{
   if ( vp_param("file", 0) ) histories<std::ifstream>([](const std::string& s) { vp::file("text", s); return std::unique_ptr<std::ifstream>(new std::ifstream("text")); });
   else histories<std::istringstream>([](const std::string& s) { return std::unique_ptr<std::istringstream>(new std::istringstream(s)); });
}

VP_HARNESS(p24_guarded)
{
   const std::string s = text((int)vp_param("length", 4));
   vp::file("text", s);
   std::ifstream in("text");
   size_t p = 0;
   for ( long skip = pick("skip", 0, vp_param("skips", 3)); skip > 0; --skip )
   {
      if ( p >= s.size() ) vp_skip();
      in.get(); ++p;
   }
   const auto before = in.tellg();
   try
   {
      const PositionGuardedFile guard(in);
      for ( long k = 0; k < vp_param("steps", 3); ++k )
      {
         const long op = pick("op", (int)k, 5);
         std::string l;
         if ( op == 0 ) std::getline(guard.file, l);
         if ( op == 1 ) guard.file.get();
         if ( op == 2 ) while ( std::getline(guard.file, l) ) {}
         if ( op == 3 ) guard.file.seekg(0);
         if ( op == 4 ) throw 1;
      }
   }
   catch ( int ) {}
   vp_reach("op");
   vp_assert((bool)in, "the file can be read after the guarded access");
   vp_assert(in.tellg() == before, "guarded access keeps the reading position");
   for ( ; p < s.size(); ++p ) { const int c = in.get(); vp_assert(c == (unsigned char)s[p], "reading goes on where it was"); }
   vp_assert(in.get() == -1, "nothing is added to the file");
}

// a thread that joins: its work is complete when the scope is left
VP_HARNESS(p24_joining)
{
   int done = 0, seen = 0;
   const long way = pick("way", 0, 3);
   try
   {
      JoiningThread first([&done](int k) { done += k; }, 2);
      if ( way == 1 ) throw 1;
      if ( way == 2 ) { JoiningThread second(std::move(first)); }
   }
   catch ( int ) { ++seen; }
   vp_reach("op");
   vp_assert(done == 2, "the thread has ended when the scope is left");
   vp_assert(seen == (way == 1), "an exception passes");
}
