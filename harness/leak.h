// What repeating a scenario leaves behind, as AddressSanitizer's allocator counts it.
#ifndef VF_LEAK_H
#define VF_LEAK_H
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <unistd.h>

extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#if defined(__SANITIZE_ADDRESS__)
#define VF_LIVE() ((long)__sanitizer_get_current_allocated_bytes())
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_LIVE() ((long)__sanitizer_get_current_allocated_bytes())
#endif
#endif
#ifndef VF_LIVE
#define VF_LIVE() (_exit(95), 0L)
#endif

namespace leak {

inline bool wanted(int argc, char ** argv) {
    for (int i = 5; i < argc; ++i) if (!std::strcmp(argv[i], "leak")) return true;
    return false;
}

// one record: f(out) is run again and again; the first run may fill caches, growth in every later one is a leak
template <class F> void record(unsigned long id, FILE * log, F f) {
    static FILE * null = std::fopen("/dev/null", "w");
    if (!null) _exit(95);
    constexpr int REPS = 7;
    long at[REPS], least = -1;
    for (int i = 0; i < REPS; ++i) { f(null); std::fflush(null); at[i] = VF_LIVE(); }
    for (int i = 2; i < REPS; ++i) if (least < 0 || at[i] - at[i - 1] < least) least = at[i] - at[i - 1] > 0 ? at[i] - at[i - 1] : 0;
    std::fprintf(log, "S leak %lx\n", id);
    if (least > 0) {
        std::fprintf(log, "V every repetition leaves %ld bytes or more behind with all objects destroyed: live", least);
        for (long x : at) std::fprintf(log, " %ld", x);
        std::fprintf(log, "\n");
    }
    std::fprintf(log, "I scenarios repeated with all memory accounted for 1\n");
    std::fprintf(log, "E %lu\n", id);
    std::fflush(log);
}

}
#endif
