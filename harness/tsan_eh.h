// The reference counts of exception objects live in libstdc++, which is not instrumented: ThreadSanitizer does not see
// that the last release of an exception handed to another thread comes after that thread's use of it.  These wrappers
// (which take the place of libstdc++'s functions, for its own calls too) tell it about the synchronisation the counts really give.
#pragma once
#ifdef __SANITIZE_THREAD__
#include <cstring>
#include <exception>
#include <dlfcn.h>
#include <sched.h>
extern "C" {
void __tsan_acquire(void *);
void __tsan_release(void *);
}
namespace tsan_eh {
// makes annotation and decrement one step; a lock that ThreadSanitizer does not see, so that it orders nothing else
inline int g_lock = 0;
inline thread_local int t_depth = 0;
struct Step {
    __attribute__((no_sanitize("thread"), noinline)) Step() {
        if (t_depth++ == 0) while (__atomic_exchange_n(&g_lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
    }
    __attribute__((no_sanitize("thread"), noinline)) ~Step() {
        if (--t_depth == 0) __atomic_store_n(&g_lock, 0, __ATOMIC_RELEASE);
    }
};
using Release = void (*)(void *);
using EndCatch = void (*)();
inline const Release g_release = (Release)dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
inline const EndCatch g_endCatch = (EndCatch)dlsym(RTLD_NEXT, "__cxa_end_catch");
inline void pass(void * self) {
    void * object;
    std::memcpy(&object, self, sizeof object);
    if (object) { __tsan_release(object); __tsan_acquire(object); }
}
}
extern "C" {
void tsan_eh_release(void * self) __asm__("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
void tsan_eh_end_catch() __asm__("__cxa_end_catch");
void tsan_eh_release(void * self) {
    tsan_eh::Step s;
    tsan_eh::pass(self);
    tsan_eh::g_release(self);
}
void tsan_eh_end_catch() {
    tsan_eh::Step s;
    { std::exception_ptr e = std::current_exception(); } // its release is annotated
    tsan_eh::g_endCatch();
}
}
#endif
