// Shadows libstdc++'s <bits/charconv.h> (GCC 11), used by std::to_string, in
// the code given to the symbolic executor: the same two functions, and
// numbers are written as "#" when the harness asks for it.
#ifndef _GLIBCXX_CHARCONV_H
#define _GLIBCXX_CHARCONV_H 1
#include <type_traits>
extern "C" int vp_opaque_numbers;
namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
namespace __detail
{
  template<typename _Tp>
    unsigned __to_chars_len(_Tp __value, int __base = 10) noexcept
    {
      unsigned __n = 1;
      if (vp_opaque_numbers) return __n;
      for (; __value >= (unsigned)__base; __value /= (unsigned)__base) ++__n;
      return __n;
    }
  template<typename _Tp>
    void __to_chars_10_impl(char* __first, unsigned __len, _Tp __val) noexcept
    {
      if (vp_opaque_numbers) { for (unsigned __i = 0; __i < __len; ++__i) __first[__i] = '#'; return; }
      for (; __len > 0; __val /= 10) __first[--__len] = '0' + __val % 10;
    }
}
_GLIBCXX_END_NAMESPACE_VERSION
}
#endif
