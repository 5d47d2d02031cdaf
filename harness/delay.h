// Injected delays at the synchronisation points of the code under test (linked with -Wl,--wrap=...).
// Nothing is changed but the time a thread spends before or after a lock, an unlock, a wait or a notification.
#pragma once
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <system_error>
#include <time.h>

namespace delay {

// where: 0 before lock, 1 after lock, 2 after unlock, 3 before wait, 4 after wait, 5 before notify, 6 after notify, 7 task or thread start
inline std::atomic<int> mode{0};           // 0 off, 1 yields, 2 short sleeps anywhere, 3 long sleeps at one point, 4 sleeps in some threads only
inline std::atomic<std::uint64_t> seed{1};
inline std::atomic<int> target{0};
inline std::atomic<unsigned long> hits{0}, slept{0};
inline std::atomic<unsigned> threads{0};

inline std::uint64_t next(std::uint64_t & s) {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s;
}

struct Local {
    std::uint64_t s = 0, of = 0;
    unsigned me = 0;
};

inline void nap(long us) {
    slept.fetch_add(1, std::memory_order_relaxed);
    timespec t{0, us * 1000};
    nanosleep(&t, nullptr);
}

inline void at(int where) {
    int m = mode.load(std::memory_order_relaxed);
    if (!m) return;
    static thread_local Local l;
    std::uint64_t sd = seed.load(std::memory_order_relaxed);
    if (l.of != sd) {
        if (!l.me) l.me = threads.fetch_add(1) + 1;
        l.of = sd;
        l.s = sd * 0x9e3779b97f4a7c15ull + l.me * 0xbf58476d1ce4e5b9ull + 1;
        next(l.s);
    }
    hits.fetch_add(1, std::memory_order_relaxed);
    std::uint64_t r = next(l.s);
    switch (m) {
    case 1: if (r % 3 == 0) sched_yield(); break;
    case 2: if (r % 8 == 0) nap((long)(r >> 20) % 120); else if (r % 8 == 1) sched_yield(); break;
    case 3: if (where == target.load(std::memory_order_relaxed) && r % 2 == 0) nap(200 + (long)(r >> 20) % 1500); break;
    case 4: if ((l.me & 1) && r % 4 == 0) nap((long)(r >> 20) % 400); break;
    default: break;
    }
}

inline void set(int m, std::uint64_t sd) {
    mode = 0;
    seed = sd * 2 + 1;
    target = (int)(sd % 8);
    mode = m;
}

// the start of a thread that the system refuses, as it does when it has no more of them: the refuse-th one from now, counting from 1
inline std::atomic<int> refuse{0};
inline std::atomic<unsigned long> refused{0};

} // namespace delay

#ifdef VF_DELAY
extern "C" {
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void *, void *, void (*)());
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void * t, void * state, void (*depend)()) {
    if (delay::refuse.load(std::memory_order_relaxed) > 0 && delay::refuse.fetch_sub(1) == 1) {
        delay::refused.fetch_add(1);
        throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "thread refused");
    }
    __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(t, state, depend);
}
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) {
    delay::at(0);
    int r = __real_pthread_mutex_lock(m);
    delay::at(1);
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) {
    int r = __real_pthread_mutex_unlock(m);
    delay::at(2);
    return r;
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *, void *);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void * c, void * l) {
    delay::at(3);
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
    delay::at(4);
}
void __real__ZNSt18condition_variable10notify_oneEv(void *);
void __wrap__ZNSt18condition_variable10notify_oneEv(void * c) {
    delay::at(5);
    __real__ZNSt18condition_variable10notify_oneEv(c);
    delay::at(6);
}
void __real__ZNSt18condition_variable10notify_allEv(void *);
void __wrap__ZNSt18condition_variable10notify_allEv(void * c) {
    delay::at(5);
    __real__ZNSt18condition_variable10notify_allEv(c);
    delay::at(6);
}
}
#endif
