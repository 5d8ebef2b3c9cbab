// Model of the standard threading library: every operation is a call of a
// scheduler primitive.  The symbolic executor provides the primitives with a
// symbolic scheduler; for the native replay vp_native_threads.cpp provides them
// with a cooperative scheduler that follows a recorded schedule.
#pragma once
#include <exception>
#include <functional>
#include <utility>
#include <tuple>
#include <memory>
#include <chrono>
#include <type_traits>
#include <stdexcept>
#include <system_error>

extern "C"
{
   long vp_param(const char*, long);
   int vp_thread_create(void (*)(void*), void*);
   int vp_thread_self();
   void vp_thread_join(int);
   void vp_thread_yield();
   void vp_mutex_lock(void*);
   int vp_mutex_trylock(void*);
   void vp_mutex_unlock(void*);
   int vp_cond_wait(void*, void*, int timed);
   void vp_cond_notify(void*, int all);
}

namespace std
{
   class mutex
   {
      public:
         constexpr mutex() noexcept : word_(0) {}
         mutex(const mutex&) = delete;
         mutex& operator=(const mutex&) = delete;
         void lock() { vp_mutex_lock(this); }
         bool try_lock() { return vp_mutex_trylock(this) != 0; }
         void unlock() { vp_mutex_unlock(this); }
      private:
         long word_;
   };
   class recursive_mutex
   {
      public:
         recursive_mutex() noexcept {}
         recursive_mutex(const recursive_mutex&) = delete;
         void lock() { const int me = vp_thread_self() + 1; if ( owner_ == me ) { ++depth_; return; } m_.lock(); owner_ = me; depth_ = 1; }
         bool try_lock() { const int me = vp_thread_self() + 1; if ( owner_ == me ) { ++depth_; return true; } if ( !m_.try_lock() ) return false; owner_ = me; depth_ = 1; return true; }
         void unlock() { if ( --depth_ == 0 ) { owner_ = 0; m_.unlock(); } }
      private:
         mutex m_;
         int owner_ = 0, depth_ = 0;
   };
   typedef mutex timed_mutex;

   struct defer_lock_t {}; struct try_to_lock_t {}; struct adopt_lock_t {};
   static const defer_lock_t defer_lock = {}; static const try_to_lock_t try_to_lock = {}; static const adopt_lock_t adopt_lock = {};

   template <typename M>
   class lock_guard
   {
      public:
         typedef M mutex_type;
         explicit lock_guard(M& m) : m_(m) { m_.lock(); }
         lock_guard(M& m, adopt_lock_t) : m_(m) {}
         ~lock_guard() { m_.unlock(); }
         lock_guard(const lock_guard&) = delete;
         lock_guard& operator=(const lock_guard&) = delete;
      private:
         M& m_;
   };
   template <typename M>
   class unique_lock
   {
      public:
         typedef M mutex_type;
         unique_lock() noexcept : m_(nullptr), owns_(false) {}
         explicit unique_lock(M& m) : m_(&m), owns_(false) { lock(); }
         unique_lock(M& m, defer_lock_t) noexcept : m_(&m), owns_(false) {}
         unique_lock(M& m, try_to_lock_t) : m_(&m), owns_(m.try_lock()) {}
         unique_lock(M& m, adopt_lock_t) : m_(&m), owns_(true) {}
         unique_lock(unique_lock&& o) noexcept : m_(o.m_), owns_(o.owns_) { o.m_ = nullptr; o.owns_ = false; }
         unique_lock& operator=(unique_lock&& o) { if ( owns_ ) unlock(); m_ = o.m_; owns_ = o.owns_; o.m_ = nullptr; o.owns_ = false; return *this; }
         ~unique_lock() { if ( owns_ ) unlock(); }
         void lock()
         {
            if ( !m_ || owns_ ) throw std::runtime_error("unique_lock::lock");
            m_->lock();
            owns_ = true;
         }
         bool try_lock() { owns_ = m_->try_lock(); return owns_; }
         void unlock()
         {
            if ( !owns_ ) throw std::runtime_error("unique_lock::unlock");
            m_->unlock();
            owns_ = false;
         }
         M* release() noexcept { M* m = m_; m_ = nullptr; owns_ = false; return m; }
         bool owns_lock() const noexcept { return owns_; }
         explicit operator bool() const noexcept { return owns_; }
         M* mutex() const noexcept { return m_; }
      private:
         M* m_;
         bool owns_;
   };
   template <typename A, typename B>
   void lock(A& a, B& b) { for ( ;; ) { a.lock(); if ( b.try_lock() ) return; a.unlock(); vp_thread_yield(); } }
   template <typename A, typename B>
   int try_lock(A& a, B& b) { if ( !a.try_lock() ) return 0; if ( !b.try_lock() ) { a.unlock(); return 1; } return -1; }
   template <typename A, typename B, typename C>
   void lock(A& a, B& b, C& c) { for ( ;; ) { a.lock(); if ( b.try_lock() ) { if ( c.try_lock() ) return; b.unlock(); } a.unlock(); vp_thread_yield(); } }
   struct once_flag { once_flag() : done_(false) {} once_flag(const once_flag&) = delete; mutex m_; bool done_; };
   template <typename F, typename... A>
   void call_once(once_flag& o, F&& f, A&&... a)
   {
      lock_guard<mutex> l(o.m_);
      if ( !o.done_ ) { std::forward<F>(f)(std::forward<A>(a)...); o.done_ = true; }
   }

   enum class cv_status { no_timeout, timeout };
   class condition_variable
   {
      public:
         condition_variable() : word_(0) {}
         condition_variable(const condition_variable&) = delete;
         condition_variable& operator=(const condition_variable&) = delete;
         void notify_one() noexcept { vp_cond_notify(this, 0); }
         void notify_all() noexcept { vp_cond_notify(this, 1); }
         void wait(unique_lock<mutex>& l) { vp_cond_wait(this, l.mutex(), 0); }
         template <typename P>
         void wait(unique_lock<mutex>& l, P p) { while ( !p() ) wait(l); }
         template <typename R, typename Q>
         cv_status wait_for(unique_lock<mutex>& l, const chrono::duration<R, Q>&) { return vp_cond_wait(this, l.mutex(), 1) ? cv_status::timeout : cv_status::no_timeout; }
         template <typename R, typename Q, typename P>
         bool wait_for(unique_lock<mutex>& l, const chrono::duration<R, Q>& d, P p) { while ( !p() ) if ( wait_for(l, d) == cv_status::timeout ) return p(); return true; }
         template <typename C, typename D>
         cv_status wait_until(unique_lock<mutex>& l, const chrono::time_point<C, D>&) { return vp_cond_wait(this, l.mutex(), 1) ? cv_status::timeout : cv_status::no_timeout; }
         template <typename C, typename D, typename P>
         bool wait_until(unique_lock<mutex>& l, const chrono::time_point<C, D>& t, P p) { while ( !p() ) if ( wait_until(l, t) == cv_status::timeout ) return p(); return true; }
      private:
         long word_;
   };
   class condition_variable_any
   {
         mutex m_;
         condition_variable c_;
      public:
         void notify_one() noexcept { lock_guard<mutex> l(m_); c_.notify_one(); }
         void notify_all() noexcept { lock_guard<mutex> l(m_); c_.notify_all(); }
         template <typename L>
         void wait(L& l) { { unique_lock<mutex> u(m_); l.unlock(); c_.wait(u); } l.lock(); }
         template <typename L, typename P>
         void wait(L& l, P p) { while ( !p() ) wait(l); }
   };

   template <typename F>
   struct vp_closure_ { F f; static void run(void* p) { unique_ptr<vp_closure_> c(static_cast<vp_closure_*>(p)); c->f(); } };

   class thread
   {
      public:
         class id
         {
            public:
               id() noexcept : v_(-1) {}
               explicit id(int v) noexcept : v_(v) {}
               friend bool operator==(id a, id b) noexcept { return a.v_ == b.v_; }
               friend bool operator!=(id a, id b) noexcept { return a.v_ != b.v_; }
               friend bool operator<(id a, id b) noexcept { return a.v_ < b.v_; }
               friend bool operator>(id a, id b) noexcept { return a.v_ > b.v_; }
               friend bool operator<=(id a, id b) noexcept { return a.v_ <= b.v_; }
               friend bool operator>=(id a, id b) noexcept { return a.v_ >= b.v_; }
               int value_() const { return v_; }
            private:
               int v_;
         };
         typedef int native_handle_type;
         thread() noexcept : t_(-1) {}
         template <typename F, typename = typename enable_if<!is_same<typename decay<F>::type, thread>::value>::type>
         explicit thread(F&& f)
         {
            typedef vp_closure_<typename decay<F>::type> C;
            t_ = vp_thread_create(&C::run, new C{std::forward<F>(f)});
         }
         template <typename F, typename A, typename... R>
         explicit thread(F&& f, A&& a, R&&... r) : thread(std::bind(std::forward<F>(f), std::forward<A>(a), std::forward<R>(r)...)) {}
         thread(thread&& o) noexcept : t_(o.t_) { o.t_ = -1; }
         thread& operator=(thread&& o) noexcept { if ( t_ != -1 ) std::terminate(); t_ = o.t_; o.t_ = -1; return *this; }
         thread(const thread&) = delete;
         ~thread() { if ( t_ != -1 ) std::terminate(); }
         bool joinable() const noexcept { return t_ != -1; }
         void join() { if ( t_ == -1 ) throw std::runtime_error("thread::join"); vp_thread_join(t_); t_ = -1; }
         void detach() { if ( t_ == -1 ) throw std::runtime_error("thread::detach"); t_ = -1; }
         id get_id() const noexcept { return t_ == -1 ? id() : id(t_); }
         void swap(thread& o) noexcept { std::swap(t_, o.t_); }
         static unsigned hardware_concurrency() noexcept { return (unsigned)vp_param("hardware_concurrency", 2); }
      private:
         int t_;
   };
   inline void swap(thread& a, thread& b) noexcept { a.swap(b); }
   template <> struct hash<thread::id> { size_t operator()(thread::id i) const noexcept { return (size_t)i.value_(); } };
   namespace this_thread
   {
      inline thread::id get_id() noexcept { return thread::id(vp_thread_self()); }
      inline void yield() noexcept { vp_thread_yield(); }
      template <typename R, typename P> inline void sleep_for(const chrono::duration<R, P>&) { vp_thread_yield(); }
      template <typename C, typename D> inline void sleep_until(const chrono::time_point<C, D>&) { vp_thread_yield(); }
   }

   enum class launch { async = 1, deferred = 2 };
   inline launch operator|(launch a, launch b) { return (launch)((int)a | (int)b); }
   enum class future_status { ready, timeout, deferred };

   template <typename R> struct vp_result_
   {
      mutex m; condition_variable c; bool ready = false; exception_ptr e; unique_ptr<R> v; thread t;
      template <typename F> void run(F& f) { v.reset(new R(f())); }
      R take() { return std::move(*v); }
   };
   template <> struct vp_result_<void>
   {
      mutex m; condition_variable c; bool ready = false; exception_ptr e; thread t;
      template <typename F> void run(F& f) { f(); }
      void take() {}
   };
   template <typename R>
   class future
   {
      public:
         typedef shared_ptr<vp_result_<R>> P_;
         future() noexcept {}
         explicit future(P_ s, function<void()> d) : s_(s), deferred_(std::move(d)) {}
         future(future&& o) noexcept : s_(std::move(o.s_)), deferred_(std::move(o.deferred_)) { o.s_.reset(); }
         future& operator=(future&& o) noexcept { end_(); s_ = std::move(o.s_); deferred_ = std::move(o.deferred_); o.s_.reset(); return *this; }
         future(const future&) = delete;
         ~future() { end_(); }
         bool valid() const noexcept { return (bool)s_; }
         void wait() const
         {
            if ( deferred_ ) { function<void()> d; d.swap(deferred_); d(); return; }
            unique_lock<mutex> l(s_->m);
            while ( !s_->ready ) s_->c.wait(l);
         }
         template <typename A, typename B>
         future_status wait_for(const chrono::duration<A, B>&) const
         {
            if ( deferred_ ) return future_status::deferred;
            unique_lock<mutex> l(s_->m);
            return s_->ready ? future_status::ready : future_status::timeout;
         }
         R get()
         {
            if ( !s_ ) throw std::runtime_error("future::get");
            wait();
            P_ s = std::move(s_);
            s_.reset();
            if ( s->t.joinable() ) s->t.join();
            if ( s->e ) rethrow_exception(s->e);
            return s->take();
         }
      private:
         // the future of std::async waits for its thread when it goes away
         void end_() { if ( s_ && s_->t.joinable() ) { s_->t.join(); } s_.reset(); }
         P_ s_;
         mutable function<void()> deferred_;
   };
   template <typename F>
   future<typename result_of<typename decay<F>::type()>::type> async(launch p, F&& f)
   {
      typedef typename result_of<typename decay<F>::type()>::type R;
      auto s = make_shared<vp_result_<R>>();
      auto* raw = s.get();
      typename decay<F>::type g(std::forward<F>(f));
      auto body = [raw, g]() mutable
      {
         try { raw->run(g); } catch ( ... ) { raw->e = current_exception(); }
         lock_guard<mutex> l(raw->m);
         raw->ready = true;
         raw->c.notify_all();
      };
      if ( (int)p & (int)launch::async )
      {
         s->t = thread(body);
         return future<R>(s, function<void()>());
      }
      return future<R>(s, body);
   }
   template <typename F, typename A, typename... B>
   auto async(launch p, F&& f, A&& a, B&&... b) -> decltype(async(p, std::bind(std::forward<F>(f), std::forward<A>(a), std::forward<B>(b)...)))
   { return async(p, std::bind(std::forward<F>(f), std::forward<A>(a), std::forward<B>(b)...)); }
   template <typename F, typename = typename enable_if<!is_same<typename decay<F>::type, launch>::value>::type>
   auto async(F&& f) -> decltype(async(launch::async, std::forward<F>(f))) { return async(launch::async, std::forward<F>(f)); }
}
