// Native counterpart of the executor's scheduler: real threads, one of which runs
// at a time.  Whoever holds the baton decides at every visible operation who goes
// on, following the recorded schedule (vp_schedule), so that an interleaving found
// symbolically is reproduced by the compiled code.
#include <condition_variable>   // runtime/threads: declares the primitives only
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <vector>
#include <climits>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

// With ThreadSanitizer linked in, the baton itself stays invisible to it (plain
// futexes in this uninstrumented file) and only the modelled locks order memory.
extern "C" __attribute__((weak)) void __tsan_acquire(void*);
extern "C" __attribute__((weak)) void __tsan_release(void*);

extern std::vector<int> vp_schedule;
extern "C" long vp_param(const char*, long);

namespace
{
   enum Stat { READY, MUTEX, COND, JOIN, DONE };
   struct T { Stat stat = READY; void* obj = nullptr; void* obj2 = nullptr; int join = 0; bool granted = false, timed = false, byTimeout = false, waiting = false; pthread_t h; void (*f)(void*) = nullptr; void* a = nullptr; };
   std::vector<T*> th(1, new T);
   std::map<void*, int> owner;   // mutex -> thread, absent: free
   int cur = 0;
   void acquired(void* m) { if ( __tsan_acquire ) __tsan_acquire(m); }
   void released(void* m) { if ( __tsan_release ) __tsan_release(m); }
   void await(int who)
   {
      for ( int c; (c = __atomic_load_n(&cur, __ATOMIC_ACQUIRE)) != who; ) syscall(SYS_futex, &cur, FUTEX_WAIT_PRIVATE, c, nullptr, nullptr, 0);
   }
   void pass(int to)
   {
      __atomic_store_n(&cur, to, __ATOMIC_RELEASE);
      syscall(SYS_futex, &cur, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);
   }
   int preemptions = 0, spurious = 0;
   size_t pos = 0;
   __thread int self = 0;

   bool explore() { static const bool e = vp_param("vp_explore", 0) != 0; return e; }
   bool enabled(int t)
   {
      T& x = *th[(size_t)t];
      switch ( x.stat )
      {
         case READY: return true;
         case MUTEX: return owner.find(x.obj) == owner.end();
         case COND: return x.timed || spurious < vp_param("vp_spurious", 0);
         case JOIN: return th[(size_t)x.join]->stat == DONE;
         case DONE: return false;
      }
      return false;
   }
   void end(int code) { fflush(stdout); _exit(code); }
   void handOver(int t, bool finished)
   {
      T& x = *th[(size_t)t];
      if ( x.stat == COND ) { if ( x.timed ) x.byTimeout = true; else ++spurious; }
      x.stat = x.stat == DONE ? DONE : READY;
      x.granted = true;
      if ( t == self && !finished ) return;
      const int who = self;
      pass(t);
      if ( !finished ) await(who);
   }
   void schedule(bool blocked, bool finished = false)
   {
      std::vector<int> E;
      for ( int t = 0; t < (int)th.size(); ++t ) if ( enabled(t) ) E.push_back(t);
      if ( E.empty() )
      {
         fprintf(stderr, "VP-DEADLOCK: no thread can make progress\n");
         end(78);
      }
      const bool curEnabled = !blocked && enabled(self);
      int pick;
      if ( E.size() == 1 ) pick = E[0];
      else if ( !explore() )
      {
         pick = curEnabled ? self : E[0];
         if ( !curEnabled ) for ( int t : E ) if ( th[(size_t)t]->stat != COND ) { pick = t; break; }
      }
      else if ( curEnabled && vp_param("vp_preempt", -1) >= 0 && preemptions >= vp_param("vp_preempt", -1) ) pick = self;
      else
      {
         pick = pos < vp_schedule.size() ? vp_schedule[pos++] : curEnabled ? self : E[0];
         bool ok = false;
         for ( int t : E ) ok = ok || t == pick;
         if ( !ok ) { fprintf(stderr, "VP-REPLAY: the schedule names a thread that cannot run\n"); end(92); }
         if ( curEnabled && pick != self ) ++preemptions;
      }
      handOver(pick, finished);
   }
   T& me() { return *th[(size_t)self]; }
   void visible()
   {
      if ( me().granted ) { me().granted = false; return; }
      if ( th.size() < 2 ) return;
      me().stat = READY;
      schedule(false);
      me().granted = false;
   }
   void* start(void* p)
   {
      self = (int)(size_t)p;
      await(self);
      me().f(me().a);
      me().stat = DONE;
      schedule(true, true);
      return nullptr;
   }
}

extern "C"
{
   int vp_thread_create(void (*f)(void*), void* a)
   {
      T* t = new T;
      t->f = f; t->a = a;
      th.push_back(t);
      const size_t id = th.size() - 1;
      pthread_create(&t->h, nullptr, start, (void*)id);
      return (int)id;
   }
   int vp_thread_self() { return self; }
   void vp_thread_join(int t)
   {
      if ( !me().granted ) { me().stat = JOIN; me().join = t; schedule(false); }
      me().granted = false;
      pthread_join(th[(size_t)t]->h, nullptr);
   }
   void vp_thread_yield() { if ( explore() ) { visible(); me().granted = false; } }
   void vp_mutex_lock(void* m)
   {
      if ( owner.count(m) && owner[m] == self ) { fprintf(stderr, "VP-DEADLOCK: a thread locks a mutex it already holds\n"); end(78); }
      if ( !me().granted && th.size() > 1 ) { me().stat = MUTEX; me().obj = m; schedule(false); }
      me().granted = false;
      while ( owner.count(m) ) { me().stat = MUTEX; me().obj = m; schedule(false); me().granted = false; }
      owner[m] = self; acquired(m);
   }
   int vp_mutex_trylock(void* m)
   {
      visible();
      if ( owner.count(m) ) return 0;
      owner[m] = self; acquired(m);
      return 1;
   }
   void vp_mutex_unlock(void* m)
   {
      if ( !owner.count(m) || owner[m] != self ) { fprintf(stderr, "VP-LOCK-MISUSE\n"); end(79); }
      released(m); owner.erase(m);
   }
   int vp_cond_wait(void* c, void* m, int timed)
   {
      if ( !owner.count(m) || owner[m] != self ) { fprintf(stderr, "VP-LOCK-MISUSE\n"); end(79); }
      visible();
      released(m); owner.erase(m);
      me().stat = COND; me().obj = c; me().obj2 = m; me().timed = timed != 0; me().byTimeout = false;
      schedule(true);
      me().granted = false;
      while ( owner.count(m) ) { me().stat = MUTEX; me().obj = m; schedule(false); me().granted = false; }
      owner[m] = self; acquired(m);
      const int r = me().byTimeout;
      me().byTimeout = false; me().timed = false;
      return r;
   }
   void vp_cond_notify(void* c, int all)
   {
      visible();
      std::vector<int> W;
      for ( int t = 0; t < (int)th.size(); ++t ) if ( th[(size_t)t]->stat == COND && th[(size_t)t]->obj == c ) W.push_back(t);
      auto wake = [](int t) { th[(size_t)t]->stat = MUTEX; th[(size_t)t]->obj = th[(size_t)t]->obj2; th[(size_t)t]->timed = false; };
      if ( all ) for ( int t : W ) wake(t);
      else if ( !W.empty() )
      {
         int k = 0;
         if ( W.size() > 1 && explore() && pos < vp_schedule.size() ) k = vp_schedule[pos++];
         if ( k < 0 || k >= (int)W.size() ) { fprintf(stderr, "VP-REPLAY: bad choice in the schedule\n"); end(92); }
         wake(W[(size_t)k]);
      }
   }
}
