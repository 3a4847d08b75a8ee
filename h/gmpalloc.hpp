// ThreadSanitizer's allocator is slow and GMP allocates all the time. While only one thread runs, GMP's memory
// comes from a region of our own; while threads run, from malloc, so that nothing is reused behind the race detector's back.
#pragma once
#include "mon.hpp"
#include <atomic>
namespace mon {
struct GmpAlloc {
    char *base = nullptr, *end = nullptr, *top = nullptr; void *freel[65] = {0}; std::atomic<bool> single{true};
    __attribute__((no_sanitize("thread"))) void *get(size_t n) { size_t c = (n + 15) / 16; if (!single.load(std::memory_order_relaxed) || c > 64) return ::malloc(n); if (freel[c]) { void *p = freel[c]; freel[c] = *(void **)p; return p; } if (top + c * 16 > end) return ::malloc(n); void *p = top; top += c * 16; return p; }
    __attribute__((no_sanitize("thread"))) void put(void *p, size_t n) { if ((char *)p < base || (char *)p >= end) { ::free(p); return; } if (single.load(std::memory_order_relaxed)) { size_t c = (n + 15) / 16; *(void **)p = freel[c]; freel[c] = p; } }
};
inline GmpAlloc &galloc() { static GmpAlloc a; return a; }
inline void *ga_alloc(size_t n) { return galloc().get(n ? n : 1); }
inline void ga_free(void *p, size_t n) { galloc().put(p, n ? n : 1); }
inline void *ga_realloc(void *p, size_t o, size_t n) { void *q = ga_alloc(n); memcpy(q, p, o < n ? o : n); ga_free(p, o); return q; }
inline void gmp_fast() { auto &a = galloc(); size_t sz = 1ul << 32; void *p = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return; a.base = a.top = (char *)p; a.end = a.base + sz; mp_set_memory_functions(ga_alloc, ga_realloc, ga_free); }
inline void gmp_threads(bool on) { galloc().single.store(!on, std::memory_order_relaxed); }
}
