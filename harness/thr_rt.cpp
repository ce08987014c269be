// The runtime behind thr.hpp. Compiled without instrumentation.
#include "thr.hpp"

#include <pthread.h>
#include <sched.h>
#include <semaphore.h>

#include <algorithm>
#include <new>
#include <unordered_map>

#include "mc.hpp"

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __real_sched_yield(void);
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);
size_t malloc_usable_size(void*);
}

namespace thr {
namespace {
constexpr int kMax = 4;  // thread 0 is the caller of run()
struct Clock {
    uint32_t c[kMax] = {};
    void join(const Clock& o) { for (int i = 0; i < kMax; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
enum Kind { READ, WRITE, AREAD, AWRITE };
// last access of every thread and kind, for 8 bytes together or (after accesses to a part of them) for each of them
struct At { uint32_t c[kMax][4]; };
struct Granule { uintptr_t key = 0; uint32_t round = 0; bool split = false; At all; At* byte = nullptr; };
struct T {
    sem_t go;
    pthread_t th;
    bool started = false, done = false;
    const void* waits = nullptr;  // object it is blocked on
    std::function<void()> body;
    Clock vc;
    uint64_t spins = 0;
    const void* spin_on = nullptr;
};
T* th_[kMax];
int n_ = 0, cur_ = 0, left_ = 0;        // left_: preemptions which may still be made
bool active_ = false;
uint64_t switches_ = 0, accesses_ = 0, steps_ = 0;
thread_local int me_ = 0;               // 0: not a controlled thread
thread_local int off_ = 0;              // inside the runtime
sem_t all_done_;
pthread_key_t key_;
constexpr int kShadowBits = 18;
constexpr size_t kShadow = size_t(1) << kShadowBits;
Granule* shadow_;     // open addressing; entries of earlier rounds are free
uint32_t round_ = 0;
size_t used_ = 0;
std::unordered_map<const void*, Clock>* sync_;                    // release clocks of atomics, locks, guards
struct Lock { int owner = 0; int readers = 0; uint32_t rd[kMax] = {}; int depth = 0; };
std::unordered_map<const void*, Lock>* locks_;

struct Off { Off() { ++off_; } ~Off() { --off_; } };
bool on() { return me_ != 0 && off_ == 0 && active_; }

Granule* granule(uintptr_t g, bool make) {
    for (size_t i = (g * 0x9e3779b97f4a7c15ULL) >> (64 - kShadowBits);; i = (i + 1) & (kShadow - 1)) {
        Granule* e = &shadow_[i];
        if (e->round != round_) {
            if (!make) return nullptr;
            if (++used_ > kShadow / 2) mc::internal("too much memory is used by the threads");
            e->key = g;
            e->round = round_;
            e->split = false;
            memset(&e->all, 0, sizeof e->all);
            return e;
        }
        if (e->key == g) return e;
    }
}
void check(At& at, size_t n, Kind k, const Clock& vc) {
    static const char* name[] = {"read", "write", "atomic read", "atomic write"};
    // kinds another thread's unordered access conflicts with
    static const unsigned conflict[] = {1u << WRITE | 1u << AWRITE, 15u, 1u << WRITE, 1u << READ | 1u << WRITE};
    for (int t = 1; t <= n_; ++t) {
        if (t == me_) continue;
        for (int q = 0; q < 4; ++q)
            if ((conflict[k] >> q & 1) && at.c[t][q] > vc.c[t])
                mc::fail("data race: %s of %zu bytes by thread %d and %s by thread %d are not ordered", name[k], n, me_, name[q], t);
    }
    at.c[me_][k] = vc.c[me_];
}
void access(uintptr_t a, size_t n, Kind k) {
    if (!on() || !n) return;
    Off o;
    ++accesses_;
    Clock& vc = th_[me_]->vc;
    for (uintptr_t e = a + n; a < e;) {
        Granule* g = granule(a >> 3, true);
        size_t b = a & 7, z = std::min<uintptr_t>(8, e - (a - b));
        if (z - b == 8 && !g->split) {
            check(g->all, n, k, vc);
        } else {
            if (!g->split) {
                if (!g->byte) g->byte = new At[8];
                for (int i = 0; i < 8; ++i) g->byte[i] = g->all;
                g->split = true;
            }
            for (size_t i = b; i < z; ++i) check(g->byte[i], n, k, vc);
        }
        a += z - b;
    }
}
void forget(const void* p, size_t n) {  // new memory
    if (!active_) return;
    Off o;
    uintptr_t a = uintptr_t(p);
    for (uintptr_t g = a >> 3; g <= (a + (n ? n - 1 : 0)) >> 3; ++g)
        if (Granule* e = granule(g, false)) { memset(&e->all, 0, sizeof e->all); e->split = false; }
}
void give(int t) {
    cur_ = t;
    sem_post(&th_[t]->go);
}
void await(int t) { while (sem_wait(&th_[t]->go)) {} }
bool runnable(int t) { return !th_[t]->done && !th_[t]->waits; }

// The running thread may be replaced. `must`: it can not go on itself.
void point(bool must) {
    Off o;
    if (++steps_ > 200000) mc::fail("the threads do not come to an end");
    int cand[kMax], n = 0, m = me_;
    if (!must) cand[n++] = m;
    if (must || left_ > 0) for (int t = 1; t <= n_; ++t) if (t != m && runnable(t)) cand[n++] = t;
    if (n == 0) mc::fail("deadlock: every thread waits for a lock");
    int c = cand[n > 1 ? (++switches_, mc::choose(n)) : 0];
    if (c == m) return;
    if (!must) --left_;
    if (mc::replaying) mc::note_("thread %d goes on at scheduling point %lu", c, (unsigned long)steps_);
    give(c);
    await(m);
}
void tick() { th_[me_]->vc.c[me_]++; }
void release(const void* p) { (*sync_)[p].join(th_[me_]->vc); tick(); }
void acquire(const void* p) { auto it = sync_->find(p); if (it != sync_->end()) th_[me_]->vc.join(it->second); }
void wake(const void* p) { for (int t = 1; t <= n_; ++t) if (th_[t]->waits == p) th_[t]->waits = nullptr; }
void block(const void* p) { th_[me_]->waits = p; point(true); }

void ended(void*) {  // runs behind the destructors of thread-local objects
    if (!me_) return;
    ++off_;
    T& t = *th_[me_];
    t.done = true;
    int cand[kMax], n = 0;
    for (int i = 1; i <= n_; ++i) if (runnable(i)) cand[n++] = i;
    if (n == 0) {
        for (int i = 1; i <= n_; ++i) if (!th_[i]->done) mc::fail("deadlock: thread %d waits for a lock which is never released", i);
        me_ = 0;
        sem_post(&all_done_);
        return;
    }
    int c = cand[n > 1 ? (++switches_, mc::choose(n)) : 0];
    if (mc::replaying) mc::note_("thread %d ended, thread %d goes on", me_, c);
    me_ = 0;
    give(c);
}
void* start(void* p) {
    int t = int(intptr_t(p));
    await(t);
    pthread_setspecific(key_, p);
    me_ = t;
    th_[t]->body();
    return nullptr;  // `ended` runs when the thread-local objects are gone
}
// a thread which looks at the same atomic again and again waits for another one
void spin(const void* p) {
    T& t = *th_[me_];
    if (t.spin_on == p) ++t.spins; else { t.spin_on = p; t.spins = 0; }
    if (t.spins > 40) {  // let another one run
        t.spins = 0;
        Off o;
        int cand[kMax], n = 0;
        for (int i = 1; i <= n_; ++i) if (i != me_ && runnable(i)) cand[n++] = i;
        if (!n) return;
        int c = cand[n > 1 ? (++switches_, mc::choose(n)) : 0];
        int m = me_;
        give(c);
        await(m);
    }
}
}  // namespace

void release_kept();
void run(const std::vector<std::function<void()>>& bodies, int preemptions) {
    static bool once = [] {
        pthread_key_create(&key_, ended);
        sem_init(&all_done_, 0, 0);
        shadow_ = new Granule[kShadow];
        sync_ = new std::unordered_map<const void*, Clock>;
        locks_ = new std::unordered_map<const void*, Lock>;
        // the threads of a run take turns: on one processor that is quickest
        cpu_set_t all, one;
        if (!sched_getaffinity(0, sizeof all, &all) && CPU_COUNT(&all) > 0) {
            int k = mc::wid % CPU_COUNT(&all);
            for (int c = 0; c < CPU_SETSIZE; ++c)
                if (CPU_ISSET(c, &all) && k-- == 0) { CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; }
        }
        for (auto*& t : th_) { t = new T; sem_init(&t->go, 0, 0); }
        return true;
    }();
    (void)once;
    ++round_;
    used_ = 0;
    sync_->clear();
    locks_->clear();
    n_ = int(bodies.size());
    if (n_ < 1 || n_ >= kMax) mc::internal("threads");
    left_ = preemptions;
    switches_ = accesses_ = steps_ = 0;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 256 << 10);
    for (int t = 1; t <= n_; ++t) {
        T& x = *th_[t];
        x.done = false;
        x.waits = nullptr;
        x.body = bodies[size_t(t - 1)];
        x.vc = Clock();
        x.vc.c[t] = 1;
        x.spins = 0;
        x.spin_on = nullptr;
        if (pthread_create(&x.th, &at, start, (void*)intptr_t(t))) mc::internal("pthread_create");
    }
    pthread_attr_destroy(&at);
    active_ = true;
    int c = n_ > 1 ? (++switches_, mc::choose(n_)) + 1 : 1;
    if (mc::replaying) mc::note_("thread %d starts", c);
    give(c);
    while (sem_wait(&all_done_)) {}
    for (int t = 1; t <= n_; ++t) { pthread_join(th_[t]->th, nullptr); th_[t]->body = nullptr; }
    active_ = false;
    release_kept();
    mc::step(steps_);
}
void Event::set() {
    if (!on()) mc::internal("event");
    { Off o; set_ = true; release(this); wake(this); }
    point(false);
}
void Event::wait() {
    if (!on()) mc::internal("event");
    Off o;
    while (!set_) block(this);
    acquire(this);
}
int self() { return me_; }
uint64_t switches() { return switches_; }
uint64_t accesses() { return accesses_; }
}  // namespace thr
using namespace thr;

extern "C" {
// ------------------------------------------------------------------ plain accesses
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* a) { access(uintptr_t(a), n, READ); } \
    void __tsan_write##n(void* a) { access(uintptr_t(a), n, WRITE); } \
    void __tsan_unaligned_read##n(void* a) { access(uintptr_t(a), n, READ); } \
    void __tsan_unaligned_write##n(void* a) { access(uintptr_t(a), n, WRITE); } \
    void __tsan_read_write##n(void* a) { access(uintptr_t(a), n, READ); access(uintptr_t(a), n, WRITE); } \
    void __tsan_unaligned_read_write##n(void* a) { access(uintptr_t(a), n, READ); access(uintptr_t(a), n, WRITE); } \
    void __tsan_volatile_read##n(void* a) { access(uintptr_t(a), n, READ); } \
    void __tsan_volatile_write##n(void* a) { access(uintptr_t(a), n, WRITE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(uintptr_t(a), n, READ); }
void __tsan_write_range(void* a, size_t n) { access(uintptr_t(a), n, WRITE); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(uintptr_t(a), 8, WRITE); }
void __tsan_vptr_read(void** a) { access(uintptr_t(a), 8, READ); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(uintptr_t(s), n, READ); access(uintptr_t(d), n, WRITE); return __real_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(uintptr_t(s), n, READ); access(uintptr_t(d), n, WRITE); return __real_memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { access(uintptr_t(d), n, WRITE); return __real_memset(d, v, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (on()) { access(uintptr_t(s), n, READ); access(uintptr_t(d), n, WRITE); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (on()) { access(uintptr_t(s), n, READ); access(uintptr_t(d), n, WRITE); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { if (on()) access(uintptr_t(d), n, WRITE); return __real_memset(d, v, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (on()) { access(uintptr_t(a), n, READ); access(uintptr_t(b), n, READ); } return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { if (on()) { void* r = __real_memchr(a, c, n); access(uintptr_t(a), r ? size_t((char*)r - (char*)a) + 1 : n, READ); return r; } return __real_memchr(a, c, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (on()) access(uintptr_t(s), n + 1, READ); return n; }

// ------------------------------------------------------------------ atomics
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void before_store(volatile void* a, size_t n, int mo) {
    if (!on()) return;
    point(false);
    access(uintptr_t(a), n, AWRITE);
    Off o;
    th_[me_]->spin_on = nullptr;
    (*sync_)[(void*)a] = Clock();
    if (rel(mo)) release((void*)a);
}
static void before_load(volatile void* a, size_t n, int mo) {
    if (!on()) return;
    point(false);
    spin((void*)a);
    access(uintptr_t(a), n, AREAD);
    Off o;
    if (acq(mo)) acquire((void*)a);
}
static void before_rmw(volatile void* a, size_t n, int mo, bool may_spin = false) {
    if (!on()) return;
    point(false);
    if (may_spin) spin((void*)a);
    access(uintptr_t(a), n, AWRITE);
    Off o;
    if (acq(mo)) acquire((void*)a);
    if (rel(mo)) release((void*)a);
}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { before_load((volatile void*)a, sizeof(T), mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { before_store(a, sizeof(T), mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { before_rmw(a, sizeof(T), mo, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { before_rmw(a, sizeof(T), mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { before_rmw(a, sizeof(T), mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { before_rmw(a, sizeof(T), mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { before_rmw(a, sizeof(T), mo, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { before_rmw(a, sizeof(T), mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { before_rmw(a, sizeof(T), mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { before_rmw(a, sizeof(T), mo, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { before_rmw(a, sizeof(T), mo, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { before_rmw(a, sizeof(T), mo, true); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (on()) { Off o; acquire(&sync_); release(&sync_); } }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ locks
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!on()) return __real_pthread_mutex_lock(m);
    point(false);
    Off o;
    for (;;) {
        Lock& l = (*locks_)[m];
        if (l.owner == me_ && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++l.depth; return 0; }
        if (l.owner == me_) mc::fail("thread %d locks a mutex it holds", me_);
        if (!l.owner) { l.owner = me_; l.depth = 1; break; }
        block(m);
    }
    acquire(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!on()) return __real_pthread_mutex_trylock(m);
    point(false);
    spin(m);
    Off o;
    Lock& l = (*locks_)[m];
    if (l.owner) return EBUSY;
    l.owner = me_;
    l.depth = 1;
    acquire(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on()) return __real_pthread_mutex_unlock(m);
    {
        Off o;
        Lock& l = (*locks_)[m];
        if (l.owner != me_) mc::fail("thread %d unlocks a mutex it does not hold", me_);
        if (--l.depth) return 0;
        l.owner = 0;
        release(m);
        wake(m);
    }
    point(false);
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!on()) return __real_pthread_rwlock_rdlock(m);
    point(false);
    Off o;
    while ((*locks_)[m].owner) block(m);
    Lock& l = (*locks_)[m];
    ++l.readers;
    ++l.rd[me_];
    acquire(m);
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!on()) return __real_pthread_rwlock_wrlock(m);
    point(false);
    Off o;
    while ((*locks_)[m].owner || (*locks_)[m].readers) block(m);
    (*locks_)[m].owner = me_;
    acquire(m);
    acquire((char*)m + 1);
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!on()) return __real_pthread_rwlock_unlock(m);
    {
        Off o;
        Lock& l = (*locks_)[m];
        if (l.owner == me_) { l.owner = 0; release(m); }
        else if (l.rd[me_]) { --l.rd[me_]; --l.readers; release((char*)m + 1); }  // ordered before the next writer only
        else mc::fail("thread %d unlocks a lock it does not hold", me_);
        wake(m);
    }
    point(false);
    return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!on()) return __real_pthread_once(o, f);
    point(false);
    for (;;) {
        Lock* l;
        { Off x; l = &(*locks_)[o]; if (l->depth == 2) { acquire(o); return 0; } if (l->owner) { block(o); continue; } l->owner = me_; }
        if (*o != 2) { f(); *o = 2; }
        Off x;
        l = &(*locks_)[o];
        l->owner = 0;
        l->depth = 2;
        release(o);
        wake(o);
        return 0;
    }
}
int __wrap_sched_yield(void) {
    if (!on()) return __real_sched_yield();
    Off o;
    int cand[kMax], n = 0;
    for (int i = 1; i <= n_; ++i) if (i != me_ && runnable(i)) cand[n++] = i;
    if (!n) return 0;
    if (++steps_ > 200000) mc::fail("the threads do not come to an end");
    int c = cand[n > 1 ? (++switches_, mc::choose(n)) : 0], m = me_;
    give(c);
    await(m);
    return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (!on()) return __real___cxa_guard_acquire(g);
    point(false);
    Off o;
    for (;;) {
        if (*(volatile char*)g) { acquire(g); return 0; }
        Lock& l = (*locks_)[g];
        if (!l.owner) { l.owner = me_; return 1; }
        block(g);
    }
}
void __wrap___cxa_guard_release(uint64_t* g) {
    if (!on() || !locks_->count(g)) return __real___cxa_guard_release(g);
    Off o;
    *(volatile char*)g = 1;
    (*locks_)[g].owner = 0;
    release(g);
    wake(g);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
    if (!on() || !locks_->count(g)) return __real___cxa_guard_abort(g);
    Off o;
    (*locks_)[g].owner = 0;
    wake(g);
}

// ------------------------------------------------------------------ heap: releasing memory conflicts with every access to it
void* __wrap_malloc(size_t n) {
    void* p = __real_malloc(n);
    if (p && on()) forget(p, malloc_usable_size(p));
    return p;
}
void* __wrap_calloc(size_t a, size_t b) {
    void* p = __real_calloc(a, b);
    if (p && on()) forget(p, malloc_usable_size(p));
    return p;
}
// Memory released during a run is not used again before its end: the C++ runtime allocates on its own (exceptions), unseen, and
// would be given addresses which bear the marks of their last use.
static void** kept_;
static size_t nkept_, ckept_;
static void keep(void* p) {
    if (nkept_ == ckept_) kept_ = static_cast<void**>(__real_realloc(kept_, (ckept_ = ckept_ * 2 + 64) * sizeof(void*)));
    kept_[nkept_++] = p;
}
void __wrap_free(void* p) {
    if (p && on()) { size_t n = malloc_usable_size(p); access(uintptr_t(p), n, WRITE); keep(p); return; }
    __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
    if (!on()) return __real_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    if (!n) { __wrap_free(p); return nullptr; }
    size_t old = malloc_usable_size(p);
    void* q = __wrap_malloc(n);
    if (!q) return nullptr;
    __real_memcpy(q, p, old < n ? old : n);
    __wrap_free(p);
    return q;
}
void* __real___cxa_allocate_exception(size_t) noexcept;
void* __wrap___cxa_allocate_exception(size_t n) noexcept {
    void* p = __real___cxa_allocate_exception(n);
    if (on()) forget(p, n);
    return p;
}
}
void thr::release_kept() {
    for (size_t i = 0; i < nkept_; ++i) __real_free(kept_[i]);
    nkept_ = 0;
}
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void* operator new(size_t n, std::align_val_t a) {
    void* p = nullptr;
    if (posix_memalign(&p, size_t(a) < sizeof(void*) ? sizeof(void*) : size_t(a), n ? n : 1)) throw std::bad_alloc();
    if (on()) forget(p, malloc_usable_size(p));
    return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
