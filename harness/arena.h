// Monotone arena: while active, operator new hands out ever increasing addresses,
// so the relative order of objects' addresses is the order of their creation in
// every run (the library compares addresses in places). Include once per driver.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
namespace vfarena {
inline char *base = nullptr, *top = nullptr, *end = nullptr;
inline bool active = false, overflow = false;
inline const size_t SIZE = 3ull << 30;
inline void start() {
    if (!base) { base = (char *)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); end = base + SIZE; }
    top = base; overflow = false; active = true;
}
inline void stop() {
    active = false;
    if (top > base) madvise(base, top - base, MADV_DONTNEED);
}
inline void *take(size_t n) {
    if (active) {
        n = (n + 31) & ~size_t(15);
        char *p = top;
        if (p + n <= end) { top += n; return p; }
        overflow = true;
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
inline void give(void *p) { if (p && !(p >= (void *)base && p < (void *)end)) free(p); }
}  // namespace vfarena
void *operator new(size_t n) { return vfarena::take(n); }
void *operator new[](size_t n) { return vfarena::take(n); }
void operator delete(void *p) noexcept { vfarena::give(p); }
void operator delete[](void *p) noexcept { vfarena::give(p); }
void operator delete(void *p, size_t) noexcept { vfarena::give(p); }
void operator delete[](void *p, size_t) noexcept { vfarena::give(p); }
