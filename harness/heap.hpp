// Heap ledger: the harness is linked with --wrap=malloc,free,calloc,realloc, so every allocation made by the header code
// under test (which calls malloc/free directly) is recorded; operator new (used by the harness and libstdc++) is not.
#pragma once
#include "mc.hpp"

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
}
namespace heap {
#ifndef HEAP_MAX
#define HEAP_MAX 65536
#endif
struct Rec { void* p; size_t n; };
inline Rec live_[HEAP_MAX];
inline int nlive = 0;
inline size_t bytes = 0;
inline uint64_t allocs = 0;      // allocation requests so far on this path
inline int64_t fail_at = -1;     // request number (0-based, on this path) that fails
inline uint64_t failed = 0;      // requests refused so far
inline size_t limit = size_t(1) << 28;  // larger requests are refused
inline bool round_up = false;
inline bool track = false;               // leaks and double frees are judged
inline bool forbid_malloc = false;       // the code under test must not use the global heap at all
constexpr unsigned char kPad = 0xA7;

inline size_t padded(size_t n) { return round_up ? ((n + 7) & ~size_t(7)) : n; }
inline int find(const void* p) {
    for (int i = nlive - 1; i >= 0; --i) if (live_[i].p == p) return i;
    return -1;
}
inline void check_pad(const Rec& r) {
    for (size_t i = r.n; i < padded(r.n); ++i)
        if (static_cast<unsigned char*>(r.p)[i] != kPad) mc::fail("heap block of %zu bytes was written beyond its end", r.n);
}
inline void* get(size_t n) {
    uint64_t k = allocs++;
    if (n > limit || int64_t(k) == fail_at) { ++failed; return nullptr; }
    void* p = __real_malloc(padded(n));
    if (!p) { ++failed; return nullptr; }
    if (round_up) memset(static_cast<char*>(p) + n, kPad, padded(n) - n);
    if (nlive == HEAP_MAX) mc::internal("heap ledger full");
    live_[nlive++] = {p, n};
    bytes += n;
    return p;
}
inline void put(void* p, const char* what) {
    int i = find(p);
    if (i < 0) mc::fail("%s of %p which is not a live allocation (freed twice, or never allocated)", what, p);
    check_pad(live_[i]);
    bytes -= live_[i].n;
    live_[i] = live_[--nlive];
    __real_free(p);
}
inline void begin() {
    if (nlive) mc::internal("heap not empty at start of a path");
    allocs = 0;
    failed = 0;
    fail_at = -1;
}
inline void end(const char* when = "after everything was destroyed") {
    if (nlive) mc::fail("%d allocation(s) leaked %s (first: %zu bytes)", nlive, when, live_[0].n);
}
// drops what is left (when leaks are not what is being checked)
inline void forget() { nlive = 0; bytes = 0; }
inline void check_all() { for (int i = 0; i < nlive; ++i) check_pad(live_[i]); }
// is [p, p+n) inside one live allocation?
inline bool contains(const void* p, size_t n) {
    for (int i = 0; i < nlive; ++i) {
        auto* b = static_cast<const char*>(live_[i].p);
        auto* q = static_cast<const char*>(p);
        if (q >= b && q + n <= b + live_[i].n) return true;
    }
    return false;
}
// fails the k-th allocation from now on (k < 0: none)
inline void arm(int k) { fail_at = k < 0 ? -1 : int64_t(allocs) + k; failed = 0; }
inline void disarm() { fail_at = -1; }
}  // namespace heap
#ifdef HEAP_MAIN
extern "C" void* __wrap_malloc(size_t n) {
    if (heap::forbid_malloc) mc::fail("malloc(%zu): the global heap is used", n);
    return heap::get(n);
}
extern "C" void* __wrap_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { heap::allocs++; heap::failed++; return nullptr; }
    void* p = heap::get(n);
    if (p) memset(p, 0, n);
    return p;
}
extern "C" void __wrap_free(void* p) { if (p) heap::put(p, "free"); }
extern "C" void* __wrap_realloc(void* p, size_t n) {
    if (heap::forbid_malloc) mc::fail("realloc(%zu): the global heap is used", n);
    if (!p) return heap::get(n);
    int i = heap::find(p);
    if (i < 0) mc::fail("realloc of a pointer which is not a live allocation");
    size_t old = heap::live_[i].n;
    void* q = heap::get(n);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    heap::put(p, "realloc");
    return q;
}
#endif
