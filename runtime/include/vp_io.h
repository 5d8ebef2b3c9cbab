// Minimal model of the iostreams library (used only when the code under test is
// compiled for the symbolic executor).  Semantics follow libstdc++'s char
// streams in the "C" locale; files live in memory (vp_file_open), cout/cerr
// append to buffers.  Anything not modelled fails to compile or calls
// vp_unsupported.
#pragma once
#include <iosfwd>
#include <string>
#include <exception>
#include <stdexcept>
#include <cstring>
#include <cstdint>
#include <limits>
#include <utility>
#include <new>

extern "C" void vp_unsupported(const char*);
extern "C" int vp_opaque_numbers; // numbers print as "#" (harnesses in which printed numbers are of no consequence)
extern "C" const char* vp_vfs_find(const char* name, unsigned long* size); // nullptr: no such file

namespace std
{
   typedef long streamsize_;
   class ios_base
   {
      public:
         typedef unsigned fmtflags;
         typedef unsigned iostate;
         typedef unsigned openmode;
         typedef int seekdir;
         static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
         static const fmtflags skipws = 1, dec = 2, hex = 4, oct = 8, boolalpha = 16, showpos = 32, left = 64, right = 128,
                               internal = 256, fixed = 512, scientific = 1024, showbase = 2048, uppercase = 4096, unitbuf = 8192,
                               basefield = 2 | 4 | 8, adjustfield = 64 | 128 | 256, floatfield = 512 | 1024, showpoint = 16384;
         static const openmode in = 1, out = 2, app = 4, ate = 8, binary = 16, trunc = 32;
         static const seekdir beg = 0, cur = 1, end = 2;
         class failure : public std::runtime_error { public: explicit failure(const std::string& s) : std::runtime_error(s) {} };
         fmtflags flags() const { return flags_; }
         fmtflags flags(fmtflags f) { fmtflags o = flags_; flags_ = f; return o; }
         fmtflags setf(fmtflags f) { fmtflags o = flags_; flags_ |= f; return o; }
         fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = flags_; flags_ = (flags_ & ~m) | (f & m); return o; }
         void unsetf(fmtflags f) { flags_ &= ~f; }
         std::streamsize width() const { return width_; }
         std::streamsize width(std::streamsize w) { auto o = width_; width_ = w; return o; }
         std::streamsize precision() const { return precision_; }
         std::streamsize precision(std::streamsize w) { auto o = precision_; precision_ = w; return o; }
         static bool sync_with_stdio(bool = true) { return true; }
         class Init {};
      protected:
         ios_base() {}
         virtual ~ios_base() {}
         fmtflags flags_ = skipws | dec;
         std::streamsize width_ = 0, precision_ = 6;
      private:
         ios_base(const ios_base&);
         ios_base& operator=(const ios_base&);
   };

   template <>
   class basic_streambuf<char, char_traits<char>>
   {
      public:
         typedef char char_type;
         typedef char_traits<char> traits_type;
         typedef int int_type;
         basic_streambuf() {}
         virtual ~basic_streambuf() {}
         // the model: one character sequence, one read position, append only writing
         std::string data_;
         size_t pos_ = 0;
         bool writable_ = true;
         int sgetc() { return pos_ < data_.size() ? (int)(unsigned char)data_[pos_] : -1; }
         int sbumpc() { return pos_ < data_.size() ? (int)(unsigned char)data_[pos_++] : -1; }
         int snextc() { if ( pos_ >= data_.size() ) return -1; ++pos_; return sgetc(); }
         int sungetc() { if ( pos_ == 0 ) return -1; --pos_; return sgetc(); }
         int sputbackc(char c) { if ( pos_ == 0 || data_[pos_ - 1] != c ) return -1; --pos_; return sgetc(); }
         std::streamsize in_avail() { return (std::streamsize)(data_.size() - pos_); }
         int sputc(char c) { if ( !writable_ ) return -1; data_.push_back(c); return (int)(unsigned char)c; }
         std::streamsize sputn(const char* s, std::streamsize n) { if ( !writable_ ) return 0; data_.append(s, (size_t)n); return n; }
         long seek_(long p) { if ( p < 0 || (unsigned long)p > data_.size() ) return -1; pos_ = (size_t)p; return p; }
         int pubsync() { return 0; }
   };

   template <>
   class basic_ios<char, char_traits<char>> : public ios_base
   {
      public:
         typedef char char_type;
         typedef char_traits<char> traits_type;
         typedef int int_type;
         typedef streampos pos_type;
         typedef streamoff off_type;
         explicit basic_ios(basic_streambuf<char>* b) : buf_(b), state_(b ? goodbit : badbit) {}
         basic_ios() : buf_(nullptr), state_(badbit) {}
         void init(basic_streambuf<char>* b) { buf_ = b; state_ = b ? goodbit : badbit; }
         explicit operator bool() const { return (state_ & (badbit | failbit)) == 0; }
         bool operator!() const { return (state_ & (badbit | failbit)) != 0; }
         iostate rdstate() const { return state_; }
         void clear(iostate s = goodbit)
         {
            if ( !buf_ ) s |= badbit;
            state_ = s;
            if ( exc_ & state_ ) throw failure("basic_ios::clear");
         }
         void setstate(iostate s) { clear(state_ | s); }
         bool good() const { return state_ == 0; }
         bool eof() const { return (state_ & eofbit) != 0; }
         bool fail() const { return (state_ & (badbit | failbit)) != 0; }
         bool bad() const { return (state_ & badbit) != 0; }
         iostate exceptions() const { return exc_; }
         void exceptions(iostate e) { exc_ = e; clear(state_); }
         char fill() const { return fill_; }
         char fill(char c) { char o = fill_; fill_ = c; return o; }
         basic_streambuf<char>* rdbuf() const { return buf_; }
         basic_streambuf<char>* rdbuf(basic_streambuf<char>* b) { auto o = buf_; buf_ = b; clear(); return o; }
         basic_ostream<char>* tie() const { return nullptr; }
         basic_ostream<char>* tie(basic_ostream<char>*) { return nullptr; }
      protected:
         basic_streambuf<char>* buf_;
         iostate state_;
         iostate exc_ = 0;
         char fill_ = ' ';
   };

   inline bool vp_isspace_(int c) { return c == ' ' || (c >= 9 && c <= 13); }

   template <>
   class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char>
   {
      public:
         typedef char char_type;
         typedef char_traits<char> traits_type;
         typedef int int_type;
         explicit basic_ostream(basic_streambuf<char>* b) { init(b); }
         virtual ~basic_ostream() {}
         class sentry
         {
            bool ok_;
            public:
               explicit sentry(basic_ostream& o) : ok_(o.good()) { if ( !ok_ ) o.setstate(ios_base::failbit); }
               explicit operator bool() const { return ok_; }
         };
         basic_ostream& raw_(const char* s, std::streamsize n)
         {
            if ( !good() ) { setstate(failbit); return *this; }
            const std::streamsize pad = width_ > n ? width_ - n : 0;
            width_ = 0;
            if ( pad && (flags_ & adjustfield) == internal ) vp_unsupported("ostream internal adjustment");
            const bool l = (flags_ & adjustfield) == left;
            if ( pad && !l ) for ( std::streamsize i = 0; i < pad; ++i ) buf_->sputc(fill_);
            if ( buf_->sputn(s, n) != n ) setstate(badbit);
            if ( pad && l ) for ( std::streamsize i = 0; i < pad; ++i ) buf_->sputc(fill_);
            return *this;
         }
         basic_ostream& number_(unsigned long v, bool negative, bool issigned)
         {
            if ( vp_opaque_numbers ) return raw_("#", 1);
            char b[72]; int i = 72;
            const unsigned base = (flags_ & hex) ? 16u : (flags_ & oct) ? 8u : 10u;
            do { const unsigned d = (unsigned)(v % base); b[--i] = (char)(d < 10 ? '0' + d : ((flags_ & uppercase) ? 'A' : 'a') + (d - 10)); v /= base; } while ( v );
            if ( (flags_ & showbase) && base != 10 ) vp_unsupported("ostream showbase");
            if ( negative ) b[--i] = '-';
            else if ( issigned && (flags_ & showpos) ) b[--i] = '+';
            return raw_(b + i, 72 - i);
         }
         basic_ostream& signed_(long v)
         {
            if ( flags_ & (hex | oct) ) return number_((unsigned long)v, false, false);
            if ( v < 0 ) return number_(0ul - (unsigned long)v, true, true);
            return number_((unsigned long)v, false, true);
         }
         basic_ostream& operator<<(bool v) { if ( flags_ & boolalpha ) return v ? raw_("true", 4) : raw_("false", 5); return number_(v, false, false); }
         basic_ostream& operator<<(short v) { return signed_(v); }
         basic_ostream& operator<<(unsigned short v) { return number_(v, false, false); }
         basic_ostream& operator<<(int v) { return signed_(v); }
         basic_ostream& operator<<(unsigned v) { return number_(v, false, false); }
         basic_ostream& operator<<(long v) { return signed_(v); }
         basic_ostream& operator<<(unsigned long v) { return number_(v, false, false); }
         basic_ostream& operator<<(long long v) { return signed_((long)v); }
         basic_ostream& operator<<(unsigned long long v) { return number_((unsigned long)v, false, false); }
         basic_ostream& operator<<(float) { vp_unsupported("ostream << float"); return *this; }
         basic_ostream& operator<<(long double) { vp_unsupported("ostream << long double"); return *this; }
         basic_ostream& operator<<(double) { vp_unsupported("ostream << double"); return *this; }
         basic_ostream& operator<<(const void*) { vp_unsupported("ostream << pointer"); return *this; }
         basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
         basic_ostream& operator<<(basic_ios<char>& (*f)(basic_ios<char>&)) { f(*this); return *this; }
         basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
         basic_ostream& operator<<(basic_streambuf<char>* b) { while ( b->pos_ < b->data_.size() ) put((char)b->sbumpc()); return *this; }
         basic_ostream& put(char c) { if ( !good() ) { setstate(failbit); return *this; } if ( buf_->sputc(c) < 0 ) setstate(badbit); return *this; }
         basic_ostream& write(const char* s, std::streamsize n) { if ( !good() ) { setstate(failbit); return *this; } if ( buf_->sputn(s, n) != n ) setstate(badbit); return *this; }
         basic_ostream& flush() { return *this; }
         streampos tellp() { return fail() ? streampos(-1) : streampos((streamoff)buf_->data_.size()); }
      protected:
         basic_ostream() {}
   };

   inline basic_ostream<char>& operator<<(basic_ostream<char>& o, char c) { return o.raw_(&c, 1); }
   inline basic_ostream<char>& operator<<(basic_ostream<char>& o, signed char c) { char d = (char)c; return o.raw_(&d, 1); }
   inline basic_ostream<char>& operator<<(basic_ostream<char>& o, unsigned char c) { char d = (char)c; return o.raw_(&d, 1); }
   inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const char* s) { if ( !s ) { o.setstate(ios_base::badbit); return o; } return o.raw_(s, (std::streamsize)strlen(s)); }
   inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const std::string& s) { return o.raw_(s.data(), (std::streamsize)s.size()); }
   inline basic_ostream<char>& endl(basic_ostream<char>& o) { o.put('\n'); return o; }
   inline basic_ostream<char>& ends(basic_ostream<char>& o) { o.put('\0'); return o; }
   inline basic_ostream<char>& flush(basic_ostream<char>& o) { return o; }
   inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
   inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
   inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
   inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
   inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
   inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
   inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
   inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
   inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
   inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
   inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
   inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
   inline ios_base& noshowbase(ios_base& b) { b.unsetf(ios_base::showbase); return b; }
   inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
   inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
   inline ios_base& unitbuf(ios_base& b) { b.setf(ios_base::unitbuf); return b; }
   inline ios_base& nounitbuf(ios_base& b) { b.unsetf(ios_base::unitbuf); return b; }
   inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
   inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
   inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }

   template <typename S, typename T>
   inline typename enable_if<!is_lvalue_reference<S>::value && is_base_of<ios_base, S>::value, S&&>::type
   operator<<(S&& s, const T& t) { s << t; return std::move(s); }

   template <>
   class basic_istream<char, char_traits<char>> : virtual public basic_ios<char>
   {
      public:
         typedef char char_type;
         typedef char_traits<char> traits_type;
         typedef int int_type;
         typedef streampos pos_type;
         typedef streamoff off_type;
         explicit basic_istream(basic_streambuf<char>* b) { init(b); }
         virtual ~basic_istream() {}
         class sentry
         {
            bool ok_;
            public:
               explicit sentry(basic_istream& i, bool noskip = false) : ok_(false)
               {
                  ios_base::iostate err = ios_base::goodbit;
                  if ( i.good() && !noskip && (i.flags() & ios_base::skipws) )
                  {
                     int c = i.rdbuf()->sgetc();
                     while ( c != -1 && vp_isspace_(c) ) c = i.rdbuf()->snextc();
                     if ( c == -1 ) err |= ios_base::eofbit;
                  }
                  if ( i.good() && err == ios_base::goodbit ) ok_ = true;
                  else i.setstate(err | ios_base::failbit);
               }
               explicit operator bool() const { return ok_; }
         };
         std::streamsize gcount() const { return gcount_; }
         int get()
         {
            gcount_ = 0;
            int c = -1;
            iostate err = goodbit;
            sentry s(*this, true);
            if ( s ) { c = buf_->sbumpc(); if ( c != -1 ) gcount_ = 1; else err |= eofbit; }
            if ( !gcount_ ) err |= failbit;
            if ( err ) setstate(err);
            return c;
         }
         basic_istream& get(char& ch) { const int c = get(); if ( c != -1 ) ch = (char)c; return *this; }
         // get/getline into a character array (n includes the terminating zero)
         basic_istream& array_(char* p, std::streamsize n, char delim, bool line)
         {
            gcount_ = 0;
            std::streamsize stored = 0;
            iostate err = goodbit;
            sentry s(*this, true);
            if ( s )
            {
               int c = buf_->sgetc();
               while ( stored + 1 < n && c != -1 && (char)c != delim ) { p[stored++] = (char)c; ++gcount_; c = buf_->snextc(); }
               if ( c == -1 ) err |= eofbit;
               else if ( line )
               {
                  if ( (char)c == delim ) { ++gcount_; buf_->sbumpc(); }
                  else err |= failbit;
               }
            }
            if ( n > 0 ) p[stored] = 0;
            if ( !gcount_ ) err |= failbit;
            if ( err ) setstate(err);
            return *this;
         }
         basic_istream& get(char* p, std::streamsize n, char delim) { return array_(p, n, delim, false); }
         basic_istream& get(char* p, std::streamsize n) { return array_(p, n, '\n', false); }
         basic_istream& getline(char* p, std::streamsize n, char delim) { return array_(p, n, delim, true); }
         basic_istream& getline(char* p, std::streamsize n) { return array_(p, n, '\n', true); }
         basic_istream& get(basic_streambuf<char>& b, char delim = '\n')
         {
            gcount_ = 0;
            iostate err = goodbit;
            sentry s(*this, true);
            if ( s )
            {
               int c = buf_->sgetc();
               while ( c != -1 && (char)c != delim && b.sputc((char)c) >= 0 ) { ++gcount_; c = buf_->snextc(); }
               if ( c == -1 ) err |= eofbit;
            }
            if ( !gcount_ ) err |= failbit;
            if ( err ) setstate(err);
            return *this;
         }
         std::streamsize readsome(char* p, std::streamsize n)
         {
            gcount_ = 0;
            sentry s(*this, true);
            if ( s )
            {
               const std::streamsize a = buf_->in_avail();
               if ( a <= 0 ) setstate(eofbit); // libstdc++: in_avail() of an exhausted buffer is 0 or -1
               else while ( gcount_ < n && gcount_ < a ) p[gcount_++] = (char)buf_->sbumpc();
            }
            return gcount_;
         }
         int peek()
         {
            int c = -1;
            gcount_ = 0;
            sentry s(*this, true);
            if ( s ) { c = buf_->sgetc(); if ( c == -1 ) setstate(eofbit); }
            return c;
         }
         basic_istream& unget()
         {
            gcount_ = 0;
            clear(rdstate() & ~eofbit);
            sentry s(*this, true);
            if ( s && buf_->sungetc() == -1 ) setstate(badbit);
            return *this;
         }
         basic_istream& putback(char c)
         {
            gcount_ = 0;
            clear(rdstate() & ~eofbit);
            sentry s(*this, true);
            if ( s && buf_->sputbackc(c) == -1 ) setstate(badbit);
            return *this;
         }
         basic_istream& ignore(std::streamsize n = 1, int delim = -1)
         {
            gcount_ = 0;
            sentry s(*this, true);
            if ( s )
            {
               while ( n == std::numeric_limits<std::streamsize>::max() || gcount_ < n )
               {
                  const int c = buf_->sbumpc();
                  if ( c == -1 ) { setstate(eofbit); break; }
                  ++gcount_;
                  if ( c == delim ) break;
               }
            }
            return *this;
         }
         basic_istream& read(char* p, std::streamsize n)
         {
            gcount_ = 0;
            sentry s(*this, true);
            if ( s )
            {
               while ( gcount_ < n ) { const int c = buf_->sbumpc(); if ( c == -1 ) break; p[gcount_++] = (char)c; }
               if ( gcount_ != n ) setstate(eofbit | failbit);
            }
            return *this;
         }
         pos_type tellg()
         {
            pos_type r = pos_type(streamoff(-1));
            sentry s(*this, true);
            if ( s && !fail() ) r = pos_type((streamoff)buf_->pos_);
            return r;
         }
         basic_istream& seekg(pos_type p)
         {
            clear(rdstate() & ~eofbit);
            sentry s(*this, true);
            if ( s && !fail() && buf_->seek_((long)(streamoff)p) == -1 ) setstate(failbit);
            return *this;
         }
         basic_istream& seekg(off_type o, ios_base::seekdir d)
         {
            clear(rdstate() & ~eofbit);
            sentry s(*this, true);
            if ( s && !fail() )
            {
               const long b = d == beg ? 0 : d == cur ? (long)buf_->pos_ : (long)buf_->data_.size();
               if ( buf_->seek_(b + (long)o) == -1 ) setstate(failbit);
            }
            return *this;
         }
         int sync() { return 0; }
         basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
         basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
         basic_istream& operator>>(short& v) { return small_(v); }
         basic_istream& operator>>(int& v) { return small_(v); }
         basic_istream& operator>>(long& v) { long x; if ( extract_(x) ) v = x; return *this; }
         basic_istream& operator>>(long long& v) { long x; if ( extract_(x) ) v = x; return *this; }
         basic_istream& operator>>(unsigned short& v) { return usmall_(v); }
         basic_istream& operator>>(unsigned& v) { return usmall_(v); }
         basic_istream& operator>>(unsigned long& v) { unsigned long x; if ( uextract_(x) ) v = x; return *this; }
         basic_istream& operator>>(unsigned long long& v) { unsigned long x; if ( uextract_(x) ) v = x; return *this; }
         basic_istream& operator>>(bool& v)
         {
            if ( flags_ & boolalpha ) { vp_unsupported("istream >> bool with boolalpha"); return *this; }
            long x;
            if ( !extract_(x) ) return *this;
            v = x != 0;
            if ( x != 0 && x != 1 ) setstate(failbit);
            return *this;
         }
         basic_istream& operator>>(float&) { vp_unsupported("istream >> float"); return *this; }
         basic_istream& operator>>(double&) { vp_unsupported("istream >> double"); return *this; }
         basic_istream& operator>>(long double&) { vp_unsupported("istream >> long double"); return *this; }
         basic_istream& operator>>(basic_streambuf<char>* b)
         {
            iostate err = goodbit;
            bool any = false;
            sentry s(*this, false);
            if ( s )
            {
               int c = buf_->sgetc();
               while ( c != -1 && b->sputc((char)c) >= 0 ) { any = true; c = buf_->snextc(); }
               if ( c == -1 ) err |= eofbit;
            }
            if ( !any ) err |= failbit;
            if ( err ) setstate(err);
            return *this;
         }
      protected:
         basic_istream() {}
         std::streamsize gcount_ = 0;
         template <typename T>
         basic_istream& small_(T& v)
         {
            long x;
            if ( !extract_(x) ) return *this;
            if ( x < (long)std::numeric_limits<T>::min() ) { v = std::numeric_limits<T>::min(); setstate(failbit); }
            else if ( x > (long)std::numeric_limits<T>::max() ) { v = std::numeric_limits<T>::max(); setstate(failbit); }
            else v = (T)x;
            return *this;
         }
         template <typename T>
         basic_istream& usmall_(T& v)
         {
            // num_get<unsigned>: negative numbers wrap within the type, too large saturate
            unsigned long mag; bool neg, ovf, any;
            if ( !scan_(mag, neg, ovf, any) ) return *this;
            if ( !any ) { v = 0; setstate(failbit); }
            else if ( ovf || mag > (unsigned long)std::numeric_limits<T>::max() ) { v = std::numeric_limits<T>::max(); setstate(failbit); }
            else v = (T)(neg ? 0ul - mag : mag);
            return *this;
         }
         // false: the sentry failed (value untouched)
         bool scan_(unsigned long& mag, bool& neg, bool& ovf, bool& any)
         {
            mag = 0; neg = false; ovf = false; any = false;
            sentry s(*this, false);
            if ( !s ) return false;
            if ( flags_ & (hex | oct) || !(flags_ & dec) ) vp_unsupported("istream number base");
            int c = buf_->sgetc();
            if ( c == '-' || c == '+' ) { neg = c == '-'; c = buf_->snextc(); }
            while ( c >= '0' && c <= '9' )
            {
               any = true;
               const unsigned long d = (unsigned long)(c - '0');
               if ( mag > (~0ul - d) / 10 ) ovf = true;
               mag = mag * 10 + d;
               c = buf_->snextc();
            }
            if ( c == -1 ) setstate(eofbit);
            return true;
         }
         bool extract_(long& v)
         {
            unsigned long mag; bool neg, ovf, any;
            if ( !scan_(mag, neg, ovf, any) ) return false;
            const unsigned long limit = neg ? 0x8000000000000000ul : 0x7ffffffffffffffful;
            if ( !any ) { v = 0; setstate(failbit); }
            else if ( ovf || mag > limit ) { v = neg ? std::numeric_limits<long>::min() : std::numeric_limits<long>::max(); setstate(failbit); }
            else v = neg ? (long)(0ul - mag) : (long)mag;
            return true;
         }
         bool uextract_(unsigned long& v)
         {
            unsigned long mag; bool neg, ovf, any;
            if ( !scan_(mag, neg, ovf, any) ) return false;
            if ( !any ) { v = 0; setstate(failbit); }
            else if ( ovf ) { v = ~0ul; setstate(failbit); }
            else v = neg ? 0ul - mag : mag;
            return true;
         }
   };

   inline basic_istream<char>& operator>>(basic_istream<char>& i, char& c)
   {
      basic_istream<char>::sentry s(i, false);
      if ( s )
      {
         const int x = i.rdbuf()->sbumpc();
         if ( x == -1 ) i.setstate(ios_base::eofbit | ios_base::failbit);
         else c = (char)x;
      }
      return i;
   }
   inline basic_istream<char>& operator>>(basic_istream<char>& i, unsigned char& c) { char d; if ( i >> d ) c = (unsigned char)d; return i; }
   inline basic_istream<char>& operator>>(basic_istream<char>& i, signed char& c) { char d; if ( i >> d ) c = (signed char)d; return i; }
   inline basic_istream<char>& operator>>(basic_istream<char>& i, char* str)
   {
      basic_istream<char>::sentry s(i, false);
      ios_base::iostate err = ios_base::goodbit;
      std::streamsize n = 0;
      if ( s )
      {
         const std::streamsize w = i.width() > 0 ? i.width() - 1 : std::numeric_limits<std::streamsize>::max();
         int c = i.rdbuf()->sgetc();
         while ( n < w && c != -1 && !vp_isspace_(c) ) { str[n++] = (char)c; c = i.rdbuf()->snextc(); }
         if ( c == -1 ) err |= ios_base::eofbit;
         str[n] = 0;
         i.width(0);
      }
      if ( !n ) err |= ios_base::failbit;
      if ( err ) i.setstate(err);
      return i;
   }
   inline basic_istream<char>& operator>>(basic_istream<char>& i, std::string& str)
   {
      basic_istream<char>::sentry s(i, false);
      ios_base::iostate err = ios_base::goodbit;
      size_t n = 0;
      if ( s )
      {
         str.erase();
         const std::streamsize w = i.width();
         int c = i.rdbuf()->sgetc();
         while ( (w <= 0 || n < (size_t)w) && c != -1 && !vp_isspace_(c) ) { str.push_back((char)c); ++n; c = i.rdbuf()->snextc(); }
         if ( c == -1 ) err |= ios_base::eofbit;
         i.width(0);
      }
      if ( !n ) err |= ios_base::failbit;
      if ( err ) i.setstate(err);
      return i;
   }
   inline basic_istream<char>& getline(basic_istream<char>& i, std::string& str, char delim)
   {
      basic_istream<char>::sentry s(i, true);
      ios_base::iostate err = ios_base::goodbit;
      bool any = false;
      if ( s )
      {
         str.erase();
         for ( ;; )
         {
            const int c = i.rdbuf()->sbumpc();
            if ( c == -1 ) { err |= ios_base::eofbit; break; }
            any = true;
            if ( (char)c == delim ) break;
            str.push_back((char)c);
         }
      }
      if ( !any ) err |= ios_base::failbit;
      if ( err ) i.setstate(err);
      return i;
   }
   inline basic_istream<char>& getline(basic_istream<char>& i, std::string& str) { return getline(i, str, '\n'); }
   inline basic_istream<char>& getline(basic_istream<char>&& i, std::string& str) { return getline(i, str, '\n'); }
   inline basic_istream<char>& getline(basic_istream<char>&& i, std::string& str, char d) { return getline(i, str, d); }
   inline basic_istream<char>& ws(basic_istream<char>& i)
   {
      if ( !i.good() ) { i.setstate(ios_base::failbit); return i; }
      int c = i.rdbuf()->sgetc();
      while ( c != -1 && vp_isspace_(c) ) c = i.rdbuf()->snextc();
      if ( c == -1 ) i.setstate(ios_base::eofbit);
      return i;
   }
   template <typename S, typename T>
   inline typename enable_if<!is_lvalue_reference<S>::value && is_base_of<ios_base, S>::value, S&&>::type
   operator>>(S&& s, T&& t) { s >> std::forward<T>(t); return std::move(s); }

   template <>
   class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char>
   {
      public:
         explicit basic_iostream(basic_streambuf<char>* b) : basic_istream<char>(b), basic_ostream<char>(b) {}
   };

   template <>
   class basic_stringbuf<char, char_traits<char>, allocator<char>> : public basic_streambuf<char>
   {
      public:
         basic_stringbuf() {}
         explicit basic_stringbuf(ios_base::openmode) {}
         explicit basic_stringbuf(const std::string& s, ios_base::openmode m = ios_base::in | ios_base::out)
         {
            data_ = s;
            if ( (m & ios_base::out) && !(m & (ios_base::ate | ios_base::app)) && !s.empty() ) { if ( m & ios_base::in ) {} else vp_unsupported("stringbuf overwrite"); }
         }
         std::string str() const { return data_; }
         void str(const std::string& s) { data_ = s; pos_ = 0; }
   };
   template <>
   class basic_filebuf<char, char_traits<char>> : public basic_streambuf<char>
   {
      public:
         bool open_ = false;
         bool is_open() const { return open_; }
         bool load_(const char* name)
         {
            unsigned long n = 0;
            const char* p = vp_vfs_find(name, &n);
            if ( !p ) return false;
            data_.assign(p, n);
            pos_ = 0;
            writable_ = false;
            open_ = true;
            return true;
         }
   };
   template <>
   class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char>
   {
         basic_stringbuf<char> b_;
      public:
         explicit basic_istringstream(openmode = in) : basic_istream<char>(&b_) {}
         explicit basic_istringstream(const std::string& s, openmode = in) : basic_istream<char>(&b_) { b_.str(s); }
         std::string str() const { return b_.str(); }
         void str(const std::string& s) { b_.str(s); }
         basic_stringbuf<char>* rdbuf() const { return const_cast<basic_stringbuf<char>*>(&b_); }
   };
   template <>
   class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char>
   {
         basic_stringbuf<char> b_;
      public:
         explicit basic_ostringstream(openmode = out) : basic_ostream<char>(&b_) {}
         explicit basic_ostringstream(const std::string& s, openmode m = out) : basic_ostream<char>(&b_) { if ( m & (ate | app) ) b_.str(s); else if ( !s.empty() ) vp_unsupported("ostringstream overwrite"); }
         std::string str() const { return b_.str(); }
         void str(const std::string& s) { b_.str(s); }
         basic_stringbuf<char>* rdbuf() const { return const_cast<basic_stringbuf<char>*>(&b_); }
   };
   template <>
   class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char>
   {
         basic_stringbuf<char> b_;
      public:
         explicit basic_stringstream(openmode = in | out) : basic_iostream<char>(&b_) {}
         explicit basic_stringstream(const std::string& s, openmode = in | out) : basic_iostream<char>(&b_) { b_.str(s); }
         std::string str() const { return b_.str(); }
         void str(const std::string& s) { b_.str(s); }
         basic_stringbuf<char>* rdbuf() const { return const_cast<basic_stringbuf<char>*>(&b_); }
   };
   template <>
   class basic_ifstream<char, char_traits<char>> : public basic_istream<char>
   {
         basic_filebuf<char> b_;
      public:
         basic_ifstream() : basic_istream<char>(&b_) {}
         explicit basic_ifstream(const char* name, openmode = in) : basic_istream<char>(&b_) { open(name); }
         explicit basic_ifstream(const std::string& name, openmode = in) : basic_istream<char>(&b_) { open(name.c_str()); }
         void open(const char* name, openmode = in) { if ( b_.load_(name) ) clear(); else setstate(failbit); }
         void open(const std::string& name, openmode = in) { open(name.c_str()); }
         bool is_open() const { return b_.is_open(); }
         void close() { if ( !b_.open_ ) setstate(failbit); b_.open_ = false; b_.data_.clear(); b_.pos_ = 0; }
         basic_filebuf<char>* rdbuf() const { return const_cast<basic_filebuf<char>*>(&b_); }
   };
   template <>
   class basic_ofstream<char, char_traits<char>> : public basic_ostream<char>
   {
         basic_filebuf<char> b_;
      public:
         basic_ofstream() : basic_ostream<char>(&b_) {}
         explicit basic_ofstream(const char*, openmode = out) : basic_ostream<char>(&b_) { vp_unsupported("ofstream"); }
         explicit basic_ofstream(const std::string&, openmode = out) : basic_ostream<char>(&b_) { vp_unsupported("ofstream"); }
   };

   struct vp_setw_ { int n; };
   inline vp_setw_ setw(int n) { return vp_setw_{n}; }
   inline basic_ostream<char>& operator<<(basic_ostream<char>& o, vp_setw_ w) { o.width(w.n); return o; }
   inline basic_istream<char>& operator>>(basic_istream<char>& o, vp_setw_ w) { o.width(w.n); return o; }
   struct vp_setbase_ { int n; };
   inline vp_setbase_ setbase(int n) { return vp_setbase_{n}; }
   inline basic_ostream<char>& operator<<(basic_ostream<char>& o, vp_setbase_ w) { o.setf(w.n == 16 ? ios_base::hex : w.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
   inline basic_istream<char>& operator>>(basic_istream<char>& o, vp_setbase_ w) { o.setf(w.n == 16 ? ios_base::hex : w.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
   struct vp_setprecision_ { int n; };
   inline vp_setprecision_ setprecision(int n) { return vp_setprecision_{n}; }
   inline basic_ostream<char>& operator<<(basic_ostream<char>& o, vp_setprecision_ w) { o.precision(w.n); return o; }
   struct vp_setfill_ { char c; };
   inline vp_setfill_ setfill(char c) { return vp_setfill_{c}; }
   inline basic_ostream<char>& operator<<(basic_ostream<char>& o, vp_setfill_ w) { o.fill(w.c); return o; }

   extern istream cin;
   extern ostream cout, cerr, clog;
}
