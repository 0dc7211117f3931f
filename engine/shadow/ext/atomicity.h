// Replaces libstdc++'s <ext/atomicity.h> in xs builds: reference counts are happens-before
// edges known to the runtime but no scheduling points.
#ifndef _GLIBCXX_ATOMICITY_H
#define _GLIBCXX_ATOMICITY_H 1
#pragma GCC system_header
#include <bits/c++config.h>
#include <bits/gthr.h>
#include <bits/atomic_word.h>
#if __has_include(<sys/single_threaded.h>)
# include <sys/single_threaded.h>
#endif
extern "C" int xs_refcount_add(volatile int *mem, int val) noexcept;
namespace __gnu_cxx _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
  inline bool __is_single_threaded() _GLIBCXX_NOTHROW { return false; }
  inline _Atomic_word __exchange_and_add(volatile _Atomic_word* __mem, int __val) { return xs_refcount_add(__mem, __val); }
  inline void __atomic_add(volatile _Atomic_word* __mem, int __val) { xs_refcount_add(__mem, __val); }
  inline _Atomic_word __exchange_and_add_single(_Atomic_word* __mem, int __val) { return xs_refcount_add(__mem, __val); }
  inline void __atomic_add_single(_Atomic_word* __mem, int __val) { xs_refcount_add(__mem, __val); }
  inline _Atomic_word __exchange_and_add_dispatch(_Atomic_word* __mem, int __val) { return xs_refcount_add(__mem, __val); }
  inline void __atomic_add_dispatch(_Atomic_word* __mem, int __val) { xs_refcount_add(__mem, __val); }
_GLIBCXX_END_NAMESPACE_VERSION
}
#ifndef _GLIBCXX_READ_MEM_BARRIER
#define _GLIBCXX_READ_MEM_BARRIER __atomic_thread_fence (__ATOMIC_ACQUIRE)
#endif
#ifndef _GLIBCXX_WRITE_MEM_BARRIER
#define _GLIBCXX_WRITE_MEM_BARRIER __atomic_thread_fence (__ATOMIC_RELEASE)
#endif
#endif
