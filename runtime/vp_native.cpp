// Native side of vp.h: replays one recorded assignment of the symbolic inputs
// against the compiled code.  usage: prog <entry> <inputs-file> [scratch-dir]
#include "../harness/vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <unistd.h>

static std::map<std::string, std::vector<long>> inputs;   // per name, in order
static std::map<std::string, size_t> used;
static std::map<std::string, long> params;
std::vector<int> vp_schedule;   // for vp_native_threads.cpp

extern "C" { int vp_opaque_numbers = 0; }
extern "C"
{
   long (*vp_clock_hook)() = nullptr;
   long vp_sym(const char* name, long lo, long hi)
   {
      auto& v = inputs[name];
      const size_t i = used[name]++;
      const long x = i < v.size() ? v[i] : (lo > 0 ? lo : hi < 0 ? hi : 0);
      if ( x < lo || x > hi ) { fprintf(stderr, "VP-REPLAY: input %s=%ld outside [%ld,%ld]\n", name, x, lo, hi); _exit(90); }
      return x;
   }
   long vp_param(const char* name, long d) { auto i = params.find(name); return i == params.end() ? d : i->second; }
   void vp_terminate_ok(int ok) { std::set_terminate(ok ? []() { fflush(stdout); _exit(0); } : (std::terminate_handler)[]() { abort(); }); }
   void vp_stop() { fflush(stdout); _exit(0); }
   void vp_skip() { fflush(stdout); _exit(0); }
   void vp_assume(int c) { if ( !c ) { fprintf(stderr, "VP-REPLAY: assumption does not hold\n"); _exit(91); } }
   void vp_fail(const char* m) { fflush(stdout); fprintf(stderr, "VP-ASSERT-FAILED: %s\n", m); _exit(77); }
   void vp_assert(int c, const char* m) { if ( !c ) vp_fail(m); }
   void vp_reach(const char*) {}
   void vp_note(const char* n, long v) { fprintf(stderr, "VP-NOTE %s %ld\n", n, v); }
   long vp_concrete(long x) { return x; }
   int vp_is_symbolic_run() { return 0; }
   void vp_print(const char* s) { fprintf(stderr, "  %s\n", s); }
   int vp_and(int a, int b) { return (a != 0) & (b != 0); }
   int vp_or(int a, int b) { return (a != 0) | (b != 0); }
   long vp_ite(int c, long a, long b) { return c ? a : b; }
   void vp_unsupported(const char* m) { fprintf(stderr, "VP-REPLAY: unsupported %s\n", m); _exit(92); }
   void vp_vfs_add(const char* name, const char* data, unsigned long size) { std::ofstream f(name, std::ios::binary); f.write(data, (long)size); }
}
// the clock of the program, for recorded times
#include <chrono>
#include <ctime>
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept
{
   if ( vp_clock_hook ) return time_point(duration(vp_clock_hook()));
   timespec t;
   clock_gettime(CLOCK_REALTIME, &t);
   return time_point(std::chrono::nanoseconds(t.tv_sec * 1000000000L + t.tv_nsec));
}
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
   if ( vp_clock_hook ) return time_point(duration(vp_clock_hook()));
   timespec t;
   clock_gettime(CLOCK_MONOTONIC, &t);
   return time_point(std::chrono::nanoseconds(t.tv_sec * 1000000000L + t.tv_nsec));
}
void vp_run_threads(void (*)());
__attribute__((weak)) void vp_run_threads(void (*f)()) { f(); }

int main(int argc, char** argv)
{
   if ( argc < 3 ) return 99;
   std::ifstream f(argv[2]);
   std::string kind, name; 
   while ( f >> kind >> name )
   {
      if ( kind == "in" ) { long v; f >> v; inputs[name].push_back(v); }
      else if ( kind == "param" ) { long v; f >> v; params[name] = v; }
      else if ( kind == "sched" ) vp_schedule.push_back(atoi(name.c_str()));
   }
   if ( argc > 3 ) { mkdir(argv[3], 0700); if ( chdir(argv[3]) ) return 98; }
   void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
   if ( !fn ) { fprintf(stderr, "VP-REPLAY: no entry %s\n", argv[1]); return 97; }
   vp_run_threads(fn);
   fflush(stdout);
   return 0;
}
