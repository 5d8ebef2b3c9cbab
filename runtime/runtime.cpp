// Out-of-line parts of the C++ standard library that the code under test and
// the harnesses may reference, compiled to IR together with them.
#include "vp_io.h"
#include <new>
#include <typeinfo>
#include <chrono>
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <functional>
#include <vector>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <algorithm>

extern "C" { int vp_opaque_numbers = 0; }
extern "C" void* vp_current_exception();
extern "C" void vp_rethrow_exception(void*);

// ------------------------------------------------------------- exceptions
namespace std
{
   static const char* vp_dup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
   __cow_string::__cow_string() : _M_p(vp_dup("", 0)) {}
   __cow_string::__cow_string(const std::string& s) : _M_p(vp_dup(s.data(), s.size())) {}
   __cow_string::__cow_string(const char* s, size_t n) : _M_p(vp_dup(s, n)) {}
   __cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(vp_dup(o._M_p, strlen(o._M_p))) {}
   __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = vp_dup(o._M_p, strlen(o._M_p)); return *this; }
   __cow_string::~__cow_string() {}
   __cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(vp_dup(o._M_p, strlen(o._M_p))) {}
   __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = vp_dup(o._M_p, strlen(o._M_p)); return *this; }

   exception::~exception() noexcept {}
   const char* exception::what() const noexcept { return "std::exception"; }
   bad_exception::~bad_exception() noexcept {}
   const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
   bad_alloc::~bad_alloc() noexcept {}
   const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
   bad_array_new_length::~bad_array_new_length() noexcept {}
   const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
   bad_cast::~bad_cast() noexcept {}
   const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
   bad_typeid::~bad_typeid() noexcept {}
   const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
   bad_function_call::~bad_function_call() noexcept {}
   const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

   logic_error::logic_error(const string& s) : _M_msg(s) {}
   logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
   logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
   logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
   logic_error::~logic_error() noexcept {}
   const char* logic_error::what() const noexcept { return _M_msg._M_p; }
   runtime_error::runtime_error(const string& s) : _M_msg(s) {}
   runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
   runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
   runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
   runtime_error::~runtime_error() noexcept {}
   const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define VP_EXC(NAME) NAME::NAME(const string& s) : VP_BASE(s) {} NAME::NAME(const char* s) : VP_BASE(s) {} NAME::~NAME() noexcept {}
#define VP_BASE logic_error
   VP_EXC(domain_error) VP_EXC(invalid_argument) VP_EXC(length_error) VP_EXC(out_of_range)
#undef VP_BASE
#define VP_BASE runtime_error
   VP_EXC(range_error) VP_EXC(overflow_error) VP_EXC(underflow_error)
#undef VP_BASE

   void __throw_bad_exception() { throw bad_exception(); }
   void __throw_bad_alloc() { throw bad_alloc(); }
   void __throw_bad_array_new_length() { throw bad_array_new_length(); }
   void __throw_bad_cast() { throw bad_cast(); }
   void __throw_bad_typeid() { throw bad_typeid(); }
   void __throw_logic_error(const char* s) { throw logic_error(s); }
   void __throw_domain_error(const char* s) { throw domain_error(s); }
   void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
   void __throw_length_error(const char* s) { throw length_error(s); }
   void __throw_out_of_range(const char* s) { throw out_of_range(s); }
   void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
   void __throw_runtime_error(const char* s) { throw runtime_error(s); }
   void __throw_range_error(const char* s) { throw range_error(s); }
   void __throw_overflow_error(const char* s) { throw overflow_error(s); }
   void __throw_underflow_error(const char* s) { throw underflow_error(s); }
   void __throw_bad_function_call() { throw bad_function_call(); }
   void __throw_system_error(int) { throw runtime_error("system_error"); }
   void __throw_ios_failure(const char* s) { throw runtime_error(s); }

   namespace __exception_ptr
   {
      exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) {}
      void exception_ptr::_M_addref() noexcept {}
      void exception_ptr::_M_release() noexcept {}
   }
   exception_ptr current_exception() noexcept { void* p = vp_current_exception(); exception_ptr r; *(void**)&r = p; return r; }
   void rethrow_exception(exception_ptr p) { vp_rethrow_exception(*(void**)&p); __builtin_unreachable(); }

   // ---------------------------------------------------------------- clock
   namespace chrono
   {
      inline namespace _V2
      {
         system_clock::time_point system_clock::now() noexcept { extern long vp_clock_value(); return time_point(duration(vp_clock_value())); }
         steady_clock::time_point steady_clock::now() noexcept { extern long vp_clock_value(); return time_point(duration(vp_clock_value())); }
      }
   }
}
extern "C" { long (*vp_clock_hook)() = nullptr; }
namespace std { namespace chrono { inline namespace _V2 { long vp_clock_value() { return vp_clock_hook ? vp_clock_hook() : 0; } } } }

// ------------------------------------------------------- red-black trees
namespace std
{
   typedef _Rb_tree_node_base N_;
   static N_* inc_(N_* x)
   {
      if ( x->_M_right ) { x = x->_M_right; while ( x->_M_left ) x = x->_M_left; return x; }
      N_* y = x->_M_parent;
      while ( x == y->_M_right ) { x = y; y = y->_M_parent; }
      if ( x->_M_right != y ) x = y;
      return x;
   }
   static N_* dec_(N_* x)
   {
      if ( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) return x->_M_right;
      if ( x->_M_left ) { N_* y = x->_M_left; while ( y->_M_right ) y = y->_M_right; return y; }
      N_* y = x->_M_parent;
      while ( x == y->_M_left ) { x = y; y = y->_M_parent; }
      return y;
   }
   N_* _Rb_tree_increment(N_* x) throw() { return inc_(x); }
   const N_* _Rb_tree_increment(const N_* x) throw() { return inc_(const_cast<N_*>(x)); }
   N_* _Rb_tree_decrement(N_* x) throw() { return dec_(x); }
   const N_* _Rb_tree_decrement(const N_* x) throw() { return dec_(const_cast<N_*>(x)); }
   static void rotl_(N_* x, N_*& root)
   {
      N_* y = x->_M_right;
      x->_M_right = y->_M_left;
      if ( y->_M_left ) y->_M_left->_M_parent = x;
      y->_M_parent = x->_M_parent;
      if ( x == root ) root = y;
      else if ( x == x->_M_parent->_M_left ) x->_M_parent->_M_left = y;
      else x->_M_parent->_M_right = y;
      y->_M_left = x;
      x->_M_parent = y;
   }
   static void rotr_(N_* x, N_*& root)
   {
      N_* y = x->_M_left;
      x->_M_left = y->_M_right;
      if ( y->_M_right ) y->_M_right->_M_parent = x;
      y->_M_parent = x->_M_parent;
      if ( x == root ) root = y;
      else if ( x == x->_M_parent->_M_right ) x->_M_parent->_M_right = y;
      else x->_M_parent->_M_left = y;
      y->_M_right = x;
      x->_M_parent = y;
   }
   void _Rb_tree_insert_and_rebalance(const bool left, N_* x, N_* p, N_& header) throw()
   {
      N_*& root = header._M_parent;
      x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
      if ( left )
      {
         p->_M_left = x;
         if ( p == &header ) { header._M_parent = x; header._M_right = x; }
         else if ( p == header._M_left ) header._M_left = x;
      }
      else
      {
         p->_M_right = x;
         if ( p == header._M_right ) header._M_right = x;
      }
      while ( x != root && x->_M_parent->_M_color == _S_red )
      {
         N_* const xpp = x->_M_parent->_M_parent;
         if ( x->_M_parent == xpp->_M_left )
         {
            N_* const y = xpp->_M_right;
            if ( y && y->_M_color == _S_red ) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else
            {
               if ( x == x->_M_parent->_M_right ) { x = x->_M_parent; rotl_(x, root); }
               x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr_(xpp, root);
            }
         }
         else
         {
            N_* const y = xpp->_M_left;
            if ( y && y->_M_color == _S_red ) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else
            {
               if ( x == x->_M_parent->_M_left ) { x = x->_M_parent; rotr_(x, root); }
               x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl_(xpp, root);
            }
         }
      }
      root->_M_color = _S_black;
   }
   N_* _Rb_tree_rebalance_for_erase(N_* const z, N_& header) throw()
   {
      N_*& root = header._M_parent;
      N_*& leftmost = header._M_left;
      N_*& rightmost = header._M_right;
      N_* y = z; N_* x = 0; N_* xp = 0;
      if ( y->_M_left == 0 ) x = y->_M_right;
      else if ( y->_M_right == 0 ) x = y->_M_left;
      else { y = y->_M_right; while ( y->_M_left ) y = y->_M_left; x = y->_M_right; }
      if ( y != z )
      {
         z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
         if ( y != z->_M_right )
         {
            xp = y->_M_parent;
            if ( x ) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
         }
         else xp = y;
         if ( root == z ) root = y;
         else if ( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = y;
         else z->_M_parent->_M_right = y;
         y->_M_parent = z->_M_parent;
         std::swap(y->_M_color, z->_M_color);
         y = z;
      }
      else
      {
         xp = y->_M_parent;
         if ( x ) x->_M_parent = y->_M_parent;
         if ( root == z ) root = x;
         else if ( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = x;
         else z->_M_parent->_M_right = x;
         if ( leftmost == z )
         {
            if ( z->_M_right == 0 ) leftmost = z->_M_parent;
            else { N_* m = x; while ( m->_M_left ) m = m->_M_left; leftmost = m; }
         }
         if ( rightmost == z )
         {
            if ( z->_M_left == 0 ) rightmost = z->_M_parent;
            else { N_* m = x; while ( m->_M_right ) m = m->_M_right; rightmost = m; }
         }
      }
      if ( y->_M_color != _S_red )
      {
         while ( x != root && (x == 0 || x->_M_color == _S_black) )
            if ( x == xp->_M_left )
            {
               N_* w = xp->_M_right;
               if ( w->_M_color == _S_red ) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl_(xp, root); w = xp->_M_right; }
               if ( (w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black) )
               { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
               else
               {
                  if ( w->_M_right == 0 || w->_M_right->_M_color == _S_black ) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr_(w, root); w = xp->_M_right; }
                  w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                  if ( w->_M_right ) w->_M_right->_M_color = _S_black;
                  rotl_(xp, root);
                  break;
               }
            }
            else
            {
               N_* w = xp->_M_left;
               if ( w->_M_color == _S_red ) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr_(xp, root); w = xp->_M_left; }
               if ( (w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black) )
               { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
               else
               {
                  if ( w->_M_left == 0 || w->_M_left->_M_color == _S_black ) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl_(w, root); w = xp->_M_left; }
                  w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                  if ( w->_M_left ) w->_M_left->_M_color = _S_black;
                  rotr_(xp, root);
                  break;
               }
            }
         if ( x ) x->_M_color = _S_black;
      }
      return y;
   }

   namespace __detail
   {
      void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
      void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
      void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
      {
         if ( this == l ) return;
         l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
         _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
      }
      void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while ( t != this ); }
      void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
      {
         if ( x._M_next != &x )
         {
            if ( y._M_next != &y )
            {
               std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
               x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
            }
            else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
         }
         else if ( y._M_next != &y ) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
      }
      size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
      {
         static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
         for ( size_t p : primes ) if ( p >= n ) { _M_next_resize = p; return p; }
         _M_next_resize = n | 1; return n | 1;
      }
      pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
      {
         if ( elt + ins <= _M_next_resize && bkt > 1 ) return make_pair(false, (size_t)0);
         return make_pair(true, _M_next_bkt(max(elt + ins, bkt * 2)));
      }
   }
   size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; for ( size_t i = 0; i < n; ++i ) seed = seed * 131 + c[i]; return seed; }
   size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}

// ----------------------------------------------------------------- C library
extern "C"
{
   static int vp_errno_;
   int* __errno_location() noexcept { return &vp_errno_; }
   int isspace(int c) noexcept { return std::vp_isspace_(c); }
   int isblank(int c) noexcept { return c == ' ' || c == '\t'; }
   int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
   int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
   int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
   int isalpha(int c) noexcept { return isupper(c) || islower(c); }
   int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
   int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
   int isprint(int c) noexcept { return c >= 32 && c < 127; }
   int isgraph(int c) noexcept { return c > 32 && c < 127; }
   int iscntrl(int c) noexcept { return (c >= 0 && c < 32) || c == 127; }
   int ispunct(int c) noexcept { return isgraph(c) && !isalnum(c); }
   int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
   int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
   // the digits of strtol/strtoul; limit[0], limit[1]: largest magnitude without and with a minus sign
   static bool vp_strto_(const char* s, char** end, int base, unsigned long limit_pos, unsigned long limit_neg, bool& neg, unsigned long& v)
   {
      const char* p = s;
      while ( std::vp_isspace_((unsigned char)*p) ) ++p;
      neg = false;
      if ( *p == '-' || *p == '+' ) { neg = *p == '-'; ++p; }
      if ( (base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2]) ) { p += 2; base = 16; }
      else if ( base == 0 ) base = p[0] == '0' ? 8 : 10;
      v = 0;
      bool any = false, ovf = false;
      const unsigned long limit = neg ? limit_neg : limit_pos;
      for ( ;; ++p )
      {
         const int c = (unsigned char)*p;
         const int d = isdigit(c) ? c - '0' : islower(c) ? c - 'a' + 10 : isupper(c) ? c - 'A' + 10 : 99;
         if ( d >= base ) break;
         any = true;
         if ( v > (limit - (unsigned long)d) / (unsigned long)base ) ovf = true;
         v = v * (unsigned long)base + (unsigned long)d;
      }
      if ( end ) *end = const_cast<char*>(any ? p : s);
      if ( ovf ) vp_errno_ = ERANGE;
      return !ovf;
   }
   static long vp_strtol(const char* s, char** end, int base) noexcept
   {
      bool neg; unsigned long v;
      if ( !vp_strto_(s, end, base, 0x7ffffffffffffffful, 0x8000000000000000ul, neg, v) ) return neg ? LONG_MIN : LONG_MAX;
      return neg ? (long)(0ul - v) : (long)v;
   }
   static unsigned long vp_strtoul(const char* s, char** end, int base) noexcept
   {
      bool neg; unsigned long v;
      if ( !vp_strto_(s, end, base, ~0ul, ~0ul, neg, v) ) return ~0ul;
      return neg ? 0ul - v : v;
   }
   long vp_strtol_(const char*, char**, int) noexcept asm("strtol");
   long vp_strtol_(const char* s, char** e, int b) noexcept { return vp_strtol(s, e, b); }
   long vp___isoc23_strtol_(const char*, char**, int) noexcept asm("__isoc23_strtol");
   long vp___isoc23_strtol_(const char* s, char** e, int b) noexcept { return vp_strtol(s, e, b); }
   long vp_strtoll_(const char*, char**, int) noexcept asm("strtoll");
   long vp_strtoll_(const char* s, char** e, int b) noexcept { return vp_strtol(s, e, b); }
   long vp___isoc23_strtoll_(const char*, char**, int) noexcept asm("__isoc23_strtoll");
   long vp___isoc23_strtoll_(const char* s, char** e, int b) noexcept { return vp_strtol(s, e, b); }
   unsigned long vp_strtoul_(const char*, char**, int) noexcept asm("strtoul");
   unsigned long vp_strtoul_(const char* s, char** e, int b) noexcept { return vp_strtoul(s, e, b); }
   unsigned long vp___isoc23_strtoul_(const char*, char**, int) noexcept asm("__isoc23_strtoul");
   unsigned long vp___isoc23_strtoul_(const char* s, char** e, int b) noexcept { return vp_strtoul(s, e, b); }
   unsigned long vp_strtoull_(const char*, char**, int) noexcept asm("strtoull");
   unsigned long vp_strtoull_(const char* s, char** e, int b) noexcept { return vp_strtoul(s, e, b); }
   unsigned long vp___isoc23_strtoull_(const char*, char**, int) noexcept asm("__isoc23_strtoull");
   unsigned long vp___isoc23_strtoull_(const char* s, char** e, int b) noexcept { return vp_strtoul(s, e, b); }
   int vp_atoi(const char*) noexcept asm("atoi");
   int vp_atoi(const char* s) noexcept { return (int)vp_strtol(s, 0, 10); }
   long vp_atol(const char*) noexcept asm("atol");
   long vp_atol(const char* s) noexcept { return vp_strtol(s, 0, 10); }
   char* vp_strchr(const char*, int) noexcept asm("strchr");
   char* vp_strchr(const char* s, int c) noexcept { for ( ;; ++s ) { if ( *s == (char)c ) return (char*)s; if ( !*s ) return 0; } }
   char* vp_strrchr(const char*, int) noexcept asm("strrchr");
   char* vp_strrchr(const char* s, int c) noexcept { const char* r = 0; for ( ;; ++s ) { if ( *s == (char)c ) r = s; if ( !*s ) return (char*)r; } }
   char* vp_strstr(const char*, const char*) noexcept asm("strstr");
   char* vp_strstr(const char* h, const char* n) noexcept { const size_t l = strlen(n); for ( ;; ++h ) { if ( !strncmp(h, n, l) ) return (char*)h; if ( !*h ) return 0; } }
   char* strcpy(char* d, const char* s) noexcept { char* r = d; while ( (*d++ = *s++) ) {} return r; }
   char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for ( ; i < n && s[i]; ++i ) d[i] = s[i]; for ( ; i < n; ++i ) d[i] = 0; return d; }
   long vp_atoll(const char*) noexcept asm("atoll");
   long vp_atoll(const char* s) noexcept { return vp_strtol(s, 0, 10); }
   void* vp_memchr(const void*, int, size_t) noexcept asm("memchr");
   void* vp_memchr(const void* s, int c, size_t n) noexcept { const unsigned char* p = (const unsigned char*)s; for ( ; n; --n, ++p ) if ( *p == (unsigned char)c ) return (void*)p; return nullptr; }
   static bool vp_in_(char c, const char* set) { for ( ; *set; ++set ) if ( *set == c ) return true; return false; }
   size_t strspn(const char* s, const char* set) noexcept { size_t n = 0; while ( s[n] && vp_in_(s[n], set) ) ++n; return n; }
   size_t strcspn(const char* s, const char* set) noexcept { size_t n = 0; while ( s[n] && !vp_in_(s[n], set) ) ++n; return n; }
   char* vp_strpbrk(const char*, const char*) noexcept asm("strpbrk");
   char* vp_strpbrk(const char* s, const char* set) noexcept { s += strcspn(s, set); return *s ? const_cast<char*>(s) : nullptr; }
   char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; }
   char* strncat(char* d, const char* s, size_t n) noexcept { char* r = d; d += strlen(d); while ( n-- && *s ) *d++ = *s++; *d = 0; return r; }
   size_t strnlen(const char* s, size_t n) noexcept { size_t i = 0; while ( i < n && s[i] ) ++i; return i; }
   int strcasecmp(const char* a, const char* b) noexcept { for ( ;; ++a, ++b ) { const int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if ( x != y || !x ) return x - y; } }
   int strncasecmp(const char* a, const char* b, size_t n) noexcept { for ( ; n; --n, ++a, ++b ) { const int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if ( x != y || !x ) return x - y; } return 0; }
   char* getenv(const char*) noexcept { return nullptr; }

   // in-memory files
   struct VpFile_ { const char* name; const char* data; unsigned long size; };
   static VpFile_ vp_files_[16];
   static int vp_nfiles_;
   void vp_vfs_add(const char* name, const char* data, unsigned long size)
   {
      char* n = (char*)malloc(strlen(name) + 1); strcpy(n, name);
      char* d = (char*)malloc(size + 1); memcpy(d, data, size);
      for ( int i = 0; i < vp_nfiles_; ++i ) if ( !strcmp(vp_files_[i].name, name) ) { vp_files_[i].data = d; vp_files_[i].size = size; return; }
      vp_files_[vp_nfiles_].name = n; vp_files_[vp_nfiles_].data = d; vp_files_[vp_nfiles_].size = size; ++vp_nfiles_;
   }
   const char* vp_vfs_find(const char* name, unsigned long* size)
   {
      for ( int i = 0; i < vp_nfiles_; ++i ) if ( !strcmp(vp_files_[i].name, name) ) { *size = vp_files_[i].size; return vp_files_[i].data; }
      return nullptr;
   }
}

// ----------------------------------------------------------- standard streams
static std::stringbuf vp_bufs_[4];
namespace std
{
   istream cin(&vp_bufs_[0]);
   ostream cout(&vp_bufs_[1]);
   ostream cerr(&vp_bufs_[2]);
   ostream clog(&vp_bufs_[3]);
}
template class std::basic_string<char>;
extern "C" char __libc_single_threaded = 0;
