// C01..C06, C08: the arena under every short history of requests, block sizes, block addresses and allocation failures.
// Blocks come from a private region with poisoned surroundings (so stray accesses are caught by ASan) whose addresses and
// failures are chosen by the explorer. Each oracle is evaluated only for the property being decided.
#include <sanitizer/asan_interface.h>

#include <sys/mman.h>

#include <memory_resource>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <vector>
#include <list>

#include "arena/arena.hpp"
#include "mc.hpp"
using namespace stdb::memory;
using std::size_t;
using mc::choose;

static int P = 0;  // property being decided
#define CK(p, cond, ...) do { if (P == (p) && !(cond)) ::mc::fail(__VA_ARGS__); } while (0)

// ---------------------------------------------------------------- block region
constexpr size_t kRegion = 1 << 23;
alignas(4096) static char region[kRegion];
struct Blk { char* p; size_t n; bool live; };
static std::vector<Blk> blocks;      // every block handed out on this path
static size_t region_pos;
static int residue = 0;              // block address modulo 32
static int fail_mode = 0;            // 0 never, 1 choose at every request, 2 always
static int fail_budget = 0;          // failures the explorer may still inject
static int failures = 0;             // requests refused during the current operation
static std::vector<int> fresh;       // blocks obtained during the current operation
static std::vector<int> returned;    // blocks given back during the current operation
static size_t largest_ok = 1 << 19;
static uint64_t kTooBig = 1 << 21;   // sizes the region can never satisfy
static int post_every = 1, posts;     // the contents of all allocations are looked at after every so many operations

// blocks larger than 4 GB are address space which is never filled
constexpr uint64_t kGB = uint64_t(1) << 30;
static bool giant = false;
static size_t giant_pos;
static char* giant_region() {
    static char* r = [] {
        void* p = mmap(nullptr, 160 * kGB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) mc::internal("no address space for blocks larger than 4 GB");
        return static_cast<char*>(p);
    }();
    return r;
}

static void* blk_alloc(size_t n) {
    if (n > largest_ok) { ++failures; MC_NOTE("  block_alloc(%zu) -> null (too large)", n); return nullptr; }
    if (fail_mode == 2 || (fail_mode == 1 && fail_budget > 0 && choose(2) == 1)) {
        ++failures;
        --fail_budget;
        MC_NOTE("  block_alloc(%zu) -> null (injected)", n);
        return nullptr;
    }
    if (giant) {
        giant_pos = (giant_pos + 64 + 4095) / 4096 * 4096 + size_t(residue);
        if (giant_pos + n + 64 > 160 * kGB) mc::internal("block region exhausted");
        char* p = giant_region() + giant_pos;
        giant_pos += n;
        fresh.push_back(int(blocks.size()));
        blocks.push_back({p, n, true});
        MC_NOTE("  block_alloc(%zu) -> block %zu", n, blocks.size() - 1);
        return p;
    }
    region_pos = (region_pos + 64 + 31) / 32 * 32 + size_t(residue);
    char* p = region + region_pos;
    size_t cap = (n + 7) & ~size_t(7);
    if (region_pos + cap + 64 > kRegion) mc::internal("block region exhausted");
    region_pos += cap;
    __asan_unpoison_memory_region(p, cap);
    memset(p, 0xAB, cap);
    if (cap != n) __asan_poison_memory_region(p + (n & ~size_t(7)) + 8, 0);
    fresh.push_back(int(blocks.size()));
    blocks.push_back({p, n, true});
    MC_NOTE("  block_alloc(%zu) -> block %zu", n, blocks.size() - 1);
    return p;
}
static bool allow_return = false;
static void blk_dealloc(void* q) {
    for (size_t i = 0; i < blocks.size(); ++i)
        if (blocks[i].p == q) {
            CK(3, blocks[i].live, "block %zu returned twice", i);
            CK(6, blocks[i].live, "block %zu returned twice", i);
            if (!blocks[i].live) mc::fail("block %zu returned twice", i);
            blocks[i].live = false;
            MC_NOTE("  block_dealloc(block %zu)", i);
            CK(3, allow_return, "block %zu returned by an operation that is neither reset nor destruction", i);
            if (!giant) __asan_poison_memory_region(q, (blocks[i].n + 7) & ~size_t(7));
            returned.push_back(int(i));
            return;
        }
    mc::fail("block_dealloc of %p, which never was a block", q);
}
static int logged;       // messages given to the logger
static bool no_logger;
static void quiet(const std::string& m) { ++logged; if (m.empty()) mc::fail("an empty message is logged"); }

static int fail_new;  // the next so many requests to the global heap fail
void* operator new(size_t n) {
    if (fail_new) { --fail_new; throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

// ---------------------------------------------------------------- cleanups
static std::vector<int> ran;  // ids of cleanups in the order they ran
static int next_id, live_objects, constructed;
static void ran_id(int id) { MC_NOTE("  cleanup %d runs", id); ran.push_back(id); }
struct D {  // needs destruction
    ArenaFullManagedTag;
    int id;
    uint32_t magic = 0xD00D;
    char pay[16];
    explicit D(int i) : id(i) { memset(pay, i, sizeof pay); ++live_objects; ++constructed; }
    ~D() {
        if (P == 1 || P == 2 || P == 4) {
            if (magic != 0xD00D) mc::fail("destructor of object %d run on something that is not a live object", id);
            for (char c : pay) if (c != char(id)) mc::fail("object %d was damaged before its cleanup", id);
        }
        magic = 0xDEAD;
        --live_objects;
        ran_id(id);
    }
};
struct Small { ArenaFullManagedTag; int id; explicit Small(int i) : id(i) { ++live_objects; ++constructed; } ~Small() { --live_objects; ran_id(id); } };
struct Skip {  // says its destructor may be skipped
    ArenaManagedCreateOnlyTag;
    int id;
    char* own;
    explicit Skip(int i) : id(i), own(nullptr) {}
    ~Skip() { CK(2, false, "destructor of a destruction-exempt object was run"); }
};
struct Triv { uint64_t a, b, c; };
struct Byte3 { unsigned char b[3]; };
struct alignas(16) T16 { uint64_t a, b; };
struct alignas(32) T32 { uint64_t a[4]; };
struct alignas(32) D32 {
    ArenaFullManagedTag;
    int id;
    explicit D32(int i) : id(i) { ++live_objects; ++constructed; }
    ~D32() { --live_objects; ran_id(id); }
};
struct alignas(16) D16 {
    ArenaFullManagedTag;
    int id;
    explicit D16(int i) : id(i) { ++live_objects; ++constructed; }
    ~D16() { --live_objects; ran_id(id); }
};
struct Nest {  // allocates in the arena while being constructed
    ArenaFullManagedTag;
    int id;
    D* inner;
    Nest(Arena& a, int i) : id(i), inner(a.Create<D>(i + 1)) { ++live_objects; ++constructed; }
    ~Nest() { --live_objects; ran_id(id); }
};
struct Ref {  // refers to arena memory obtained after it was created
    ArenaFullManagedTag;
    int id;
    char* other = nullptr;
    size_t n = 0;
    unsigned char pat = 0;
    explicit Ref(int i) : id(i) { ++live_objects; ++constructed; }
    ~Ref() {
        for (size_t i = 0; i < n; ++i)
            if (static_cast<unsigned char>(other[i]) != pat) mc::fail("memory referred to by object %d is no longer valid at its cleanup", id);
        --live_objects;
        ran_id(id);
    }
};
struct Owned {  // lives outside of the arena
    int id;
    char pay[40];
    explicit Owned(int i) : id(i) { ++live_objects; }
    ~Owned() { --live_objects; ran_id(id); }
};
static void cb_ptr(void* p) { ran_id(*static_cast<int*>(p)); }

// ---------------------------------------------------------------- hooks
struct Ev { char k; const void* type; uint64_t a, b; const void* cookie; const void* arena; bool operator==(const Ev&) const = default; };
static std::vector<Ev> evs;
static int cookies[8], ncookies;
static void* hk_init(Arena* a, const boost::source_location&) {
    void* c = &cookies[ncookies++];
    evs.push_back({'I', nullptr, 0, 0, c, a});
    return c;
}
static void hk_reset(Arena* a, void* c, uint64_t u, uint64_t w) { MC_NOTE("  hook reset(used %lu, wasted %lu)", u, w); evs.push_back({'R', nullptr, u, w, c, a}); }
static void hk_alloc(const std::type_info* t, uint64_t n, void* c) { MC_NOTE("  hook allocation(%s, %lu)", t ? t->name() : "-", n); evs.push_back({'A', t, n, 0, c, nullptr}); }
static void hk_blk(uint64_t k, uint64_t n, void* c) { MC_NOTE("  hook newblock(%lu, %lu)", k, n); evs.push_back({'B', nullptr, k, n, c, nullptr}); }
static void* hk_dtor(Arena* a, void* c, uint64_t u, uint64_t w) { MC_NOTE("  hook destruction(used %lu, wasted %lu)", u, w); evs.push_back({'X', nullptr, u, w, c, a}); return nullptr; }

// ---------------------------------------------------------------- model
struct MB { int idx; char* base; size_t size, pos, limit; };
struct Al { char* p; size_t n; unsigned char pat; };
static std::vector<MB> mb;           // blocks held, oldest first
static std::vector<Al> allocs;       // live allocations with their contents
static std::vector<int> pending;     // cleanups registered, oldest first
static unsigned char next_pat;
static int hooks = 0;                // installed hooks (bit mask)
static uint64_t cfg_normal, cfg_huge, cfg_init;
static Arena* ar;                    // the arena in use
alignas(Arena) static char arena_mem[6][sizeof(Arena)];
static void* cookie;
static const size_t H = kBlockHeaderSize;

static size_t up8(size_t n) { return (n + 7) & ~size_t(7); }
static size_t up(size_t n, size_t a) { return (n + a - 1) / a * a; }

static Arena::Options options() {
    Arena::Options o{};
    o.normal_block_size = cfg_normal;
    o.huge_block_size = cfg_huge;
    o.suggested_init_block_size = cfg_init;
    o.block_alloc = blk_alloc;
    o.block_dealloc = blk_dealloc;
    if (!no_logger) o.logger_func = quiet;
    if (hooks & 1) o.on_arena_init = hk_init;
    if (hooks & 2) o.on_arena_reset = hk_reset;
    if (hooks & 4) o.on_arena_allocation = hk_alloc;
    if (hooks & 8) o.on_arena_newblock = hk_blk;
    if (hooks & 16) o.on_arena_destruction = hk_dtor;
    return o;
}
static void begin_world() {
    for (auto& b : blocks) if (b.live && !giant) __asan_poison_memory_region(b.p, up8(b.n));
    static bool first = true;
    if (first) { __asan_poison_memory_region(region, kRegion); first = false; }
    blocks.clear(); region_pos = 0; failures = 0; fresh.clear(); returned.clear(); allow_return = false;
    ran.clear(); next_id = 1; live_objects = constructed = 0; evs.clear(); ncookies = 0;
    mb.clear(); allocs.clear(); pending.clear(); next_pat = 1; cookie = nullptr;
    logged = 0; no_logger = false; fail_mode = 0; fail_budget = 0; hooks = 0; residue = 0; largest_ok = 1 << 19; post_every = 1; posts = 0; giant = false; giant_pos = 0; kTooBig = 1 << 21;
}
static void construct() {
    ar = new (arena_mem[0]) Arena(options());
    cookie = (hooks & 1) ? &cookies[0] : nullptr;
    if (hooks & 1) CK(8, evs.size() == 1 && evs[0].k == 'I' && evs[0].arena == ar, "creation is not signalled exactly once with the arena");
    evs.clear();
}
static bool fits(size_t need, size_t align) {
    if (mb.empty()) return false;
    auto& b = mb.back();
    size_t at = up(size_t(b.base) + b.pos, align) - size_t(b.base);
    return at + need <= b.limit;
}
static uint64_t held() { uint64_t s = 0; for (auto& b : mb) s += b.size; return s; }
static uint64_t unused() { uint64_t s = 0; for (auto& b : mb) s += b.limit - b.pos; return s; }

// takes over the blocks obtained during an operation, checking the sizing policy for a request of `need` bytes
static void adopt(size_t need, size_t align, bool policy) {
    for (int i : fresh) {
        auto& b = blocks[size_t(i)];
        size_t lo = need + H, hi = need + (align - 8) + H;  // an over-aligned request may need padding
        size_t s = b.n;
        if (policy) {
            CK(3, s >= lo, "a new block of %zu bytes cannot hold a request of %zu", s, need);
            auto ok = [&](size_t req) {
                if (mb.empty()) return s == std::max<size_t>(cfg_init, req);
                if (req <= cfg_normal) return s == cfg_normal;
                if (req <= cfg_huge / 4) {  // rounded to the normal size (the sizes are meant to be powers of two)
                    if (cfg_normal & (cfg_normal - 1)) return s >= req && s <= up(req, cfg_normal);
                    return s == std::max(req, up(req - H, cfg_normal)) || s == up(req, cfg_normal);
                }
                if (req <= cfg_huge) return s == cfg_huge;
                return s >= req && s <= req + 64;
            };
            bool any = false;
            for (size_t r = lo; r <= hi; r += 8) any = any || ok(r);
            CK(3, any, "block %zu has %zu bytes for a request of %zu (first %lu, normal %lu, huge %lu)", mb.size(), s, need, cfg_init, cfg_normal, cfg_huge);
        }
        mb.push_back({i, b.p, b.n, H, b.n});
    }
    fresh.clear();
}
static void post(const char* what) {
    mc::step();
    if ((P == 1 || P == 4 || P == 6) && ++posts % post_every == 0)
        for (auto& a : allocs)
            for (size_t i = 0; a.pat && i < a.n; ++i)
                if (static_cast<unsigned char>(a.p[i]) != a.pat) mc::fail("after %s, an earlier allocation of %zu bytes no longer holds what was stored", what, a.n);
    if (P == 3 || P == 4 || P == 6) {
        CK(P, ar->SpaceAllocated() == held(), "after %s, SpaceAllocated() = %lu but the blocks held total %lu", what, ar->SpaceAllocated(), held());
        if (!mb.empty())
            CK(P, ar->SpaceRemains() == mb.back().limit - mb.back().pos, "after %s, SpaceRemains() = %lu, unused bytes of the current block = %zu", what, ar->SpaceRemains(),
               mb.back().limit - mb.back().pos);
        else
            CK(P, ar->SpaceRemains() == 0, "after %s, SpaceRemains() = %lu without any block", what, ar->SpaceRemains());
    }
    if (P == 2 || P == 4 || P == 6) {
        CK(P, ar->cleanups() == pending.size(), "after %s, cleanups() = %lu, registered and not yet run: %zu", what, ar->cleanups(), pending.size());
        CK(P, ran.empty(), "a cleanup ran during %s", what);
    }
    mc::Hash h;
    h.add(uint64_t(residue)).add(cfg_init).add(cfg_normal).add(cfg_huge).add(uint64_t(hooks));
    for (auto& b : mb) h.add(b.size).add(b.pos).add(b.limit);
    h.add(pending.size()).add(allocs.size());
    mc::state(h);
}
static void expect_events(std::vector<Ev> want, const char* what) {
    if (P != 8) { evs.clear(); return; }
    std::vector<Ev> w;
    for (auto& e : want) {
        int bit = e.k == 'I' ? 1 : e.k == 'R' ? 2 : e.k == 'A' ? 4 : e.k == 'B' ? 8 : 16;
        if (hooks & bit) w.push_back(e);
    }
    if (w != evs) {
        std::string s;
        auto put = [&](const std::vector<Ev>& v) { for (auto& e : v) { char b[80]; snprintf(b, sizeof b, " %c(%lu,%lu)", e.k, e.a, e.b); s += b; } };
        s += "signalled:"; put(evs); s += "; expected:"; put(w);
        mc::fail("events of %s: %s (type, cookie and arena are compared too)", what, s.c_str());
    }
    evs.clear();
}
static std::vector<Ev> block_events(size_t before) {
    std::vector<Ev> v;
    for (size_t i = before; i < mb.size(); ++i) v.push_back({'B', nullptr, i, mb[i].size, cookie, nullptr});
    return v;
}
// common part of every memory request; p is what the arena returned
static bool account(char* p, size_t n, size_t align, bool impossible, bool fitted, bool fill, const char* what) {
    size_t need = up8(n);
    if (!p) {
        CK(4, failures > 0 || impossible, "%s was refused although no block allocation failed", what);
        CK(3, fresh.empty() || failures, "%s was refused but took a block", what);
        adopt(need, align, false);
        return false;
    }
    CK(4, !impossible, "%s returned memory although the size cannot be satisfied", what);
    CK(3, fitted ? fresh.empty() : fresh.size() == 1, "%s took %zu new block(s), the current block %s hold it", what, fresh.size(), fitted ? "could" : "could not");
    adopt(need, align, true);
    MB* in = nullptr;
    for (auto& b : mb) if (p >= b.base && p <= b.base + b.size) in = &b;
    if (P == 1 || P == 4) {
        CK(P, in != nullptr, "%s returned memory outside of every block", what);
        CK(P, p >= in->base + H && p + n <= in->base + in->size, "%s returned memory that is not inside the usable part of one block", what);
        CK(P, p + n <= in->base + in->limit, "%s returned memory that overlaps cleanup records", what);
        CK(P, size_t(p) % 8 == 0 && size_t(p) % align == 0, "%s returned %p, not aligned to %zu", what, p, align);
        for (auto& a : allocs)
            if (n && a.n) CK(P, p + n <= a.p || a.p + a.n <= p, "%s returned memory overlapping a live allocation of %zu bytes", what, a.n);
    }
    if (in) {
        size_t end = size_t(p - in->base) + need;
        if (end > in->pos) in->pos = end;
    }
    (void)fill;
    return true;
}
static void keep(char* p, size_t n) {  // the caller stores a pattern into all of it
    unsigned char pat = next_pat++;
    if (next_pat == 0) next_pat = 1;
    if (n > kGB / 2) { allocs.push_back({p, n, 0}); return; }
    memset(p, pat, n);
    allocs.push_back({p, n, pat});
}
static void record() { if (!mb.empty()) mb.back().limit -= kCleanupNodeSize; }
// a cleanup record was (or was not) added after memory was obtained; blocks taken for it are adopted
static void account_record(bool fitted, const char* what) {
    CK(3, fitted ? fresh.empty() : fresh.size() == 1, "%s: the cleanup record took %zu new block(s), the current block %s hold it", what, fresh.size(), fitted ? "could" : "could not");
    adopt(kCleanupNodeSize, 8, true);
    record();
}

// ---------------------------------------------------------------- operations
struct Op { char kind; uint64_t n; uint64_t a; };
static std::string show(const Op& o) {
    char b[100];
    const char* k = "?";
    switch (o.kind) {
        case 'a': k = "AllocateAligned"; break;
        case 'c': k = "AllocateAlignedAndAddCleanup"; break;
        case 'e': k = "AllocateAlignedAndAddCleanup(with element)"; break;
        case 'r': k = "resource.allocate"; break;
        case 'D': k = "Create<needs destruction>"; break;
        case 'S': k = "Create<small, needs destruction>"; break;
        case 'K': k = "Create<destruction exempt>"; break;
        case 'T': k = "Create<trivial>"; break;
        case '6': k = "Create<aligned 16>"; break;
        case '3': k = "Create<aligned 32>"; break;
        case 'L': k = "Create<aligned 16, needs destruction>"; break;
        case 'M': k = "Create<aligned 32, needs destruction>"; break;
        case 'N': k = "Create<nested>"; break;
        case 'F': k = "Create<reference>+later memory"; break;
        case 'y': k = "CreateArray<3 bytes>"; break;
        case 'q': k = "CreateArray<8 bytes>"; break;
        case 'x': k = "CreateArray<aligned 16>"; break;
        case 'z': k = "CreateArray<aligned 32>"; break;
        case 'O': k = "Own"; break;
        case 'R': k = "Reset"; break;
    }
    snprintf(b, sizeof b, "%s(%lu, %lu)", k, o.n, o.a);
    return b;
}

// memory first, then (if with_record) a cleanup record: what would fit where, given the state before the call
template <class T, class... A>
static void do_create(const Op& o, size_t align, bool rec, A... args) {
    std::string w = show(o);
    size_t nb = mb.size();
    bool f = fits(up8(sizeof(T)), align);
    int before_live = live_objects, before_constructed = constructed;
    ran.clear();
    T* t = ar->Create<T>(args...);
    // split the blocks taken between the object and its record
    std::vector<int> all = fresh;
    fresh.clear();
    if (!f && !all.empty()) { fresh.push_back(all[0]); all.erase(all.begin()); }
    if (!t) {
        CK(4, failures > 0, "%s was refused although no block allocation failed", w.c_str());
        if (P == 4) {
            CK(4, live_objects == before_live, "%s failed and left %d object(s) undestroyed", w.c_str(), live_objects - before_live);
            CK(4, int(ran.size()) == constructed - before_constructed, "%s failed: %d object(s) constructed, %zu destroyed", w.c_str(), constructed - before_constructed, ran.size());
        }
        CK(2, live_objects == before_live || ran.empty(), "bad");
        ran.clear();
        bool got = !fresh.empty() || f;
        adopt(up8(sizeof(T)), align, false);
        if (got && constructed != before_constructed && !mb.empty()) {
            // object memory was used up although the request failed: it stays accounted as used
            auto& b = mb.back();
            size_t at = up(size_t(b.base) + b.pos, align) - size_t(b.base);
            size_t end = at + up8(sizeof(T));
            if (ar->SpaceRemains() != b.limit - b.pos) b.pos = end;  // giving it back is just as good
        }
        fresh = all;
        adopt(kCleanupNodeSize, 8, false);
        expect_events(block_events(nb), w.c_str());
        return;
    }
    account(reinterpret_cast<char*>(t), sizeof(T), align, false, f, false, w.c_str());
    if constexpr (std::is_trivial_v<T>) keep(reinterpret_cast<char*>(t), sizeof(T));
    else allocs.push_back({reinterpret_cast<char*>(t), sizeof(T), 0});
    fresh = all;
    if (rec) {
        account_record(fits(kCleanupNodeSize, 8), w.c_str());
    } else {
        CK(3, fresh.empty(), "%s took a block for a record it does not need", w.c_str());
        adopt(kCleanupNodeSize, 8, false);
    }
    auto ev = block_events(nb);
    ev.push_back({'A', &typeid(T), sizeof(T), 0, cookie, nullptr});
    expect_events(ev, w.c_str());
}
template <class T>
static void do_array(const Op& o, size_t align) {
    std::string w = show(o);
    size_t nb = mb.size();
    unsigned __int128 total = (unsigned __int128)o.n * sizeof(T);
    bool impossible = total > kTooBig;
    bool f = !impossible && fits(up8(size_t(total)), align);
    T* t = ar->CreateArray<T>(o.n);
    bool ok = account(reinterpret_cast<char*>(t), size_t(total), align, impossible, f, true, w.c_str());
    auto ev = block_events(nb);
    if (ok) {
        keep(reinterpret_cast<char*>(t), size_t(total));
        ev.push_back({'A', &typeid(T), uint64_t(total), 0, cookie, nullptr});
    }
    expect_events(ev, w.c_str());
}
static void finish_cleanups(const char* what) {
    if (P == 2 || P == 6) {
        std::vector<int> want(pending.rbegin(), pending.rend());
        if (ran != want) {
            std::string s = "ran:";
            for (int i : ran) s += " " + std::to_string(i);
            s += "; expected (newest first):";
            for (int i : want) s += " " + std::to_string(i);
            CK(P, false, "cleanups at %s: %s", what, s.c_str());
        }
    }
    pending.clear();
    ran.clear();
}
static void do_reset() {
    uint64_t total = held(), waste = unused();
    std::vector<MB> was = mb;
    ran.clear(); returned.clear();
    allow_return = true;
    // memory stays what the caller stored until the cleanups have run
    uint64_t r = ar->Reset();
    allow_return = false;
    finish_cleanups("reset");
    if (P == 3 || P == 6) {
        CK(P, r == total, "Reset() returned %lu, the blocks held totalled %lu", r, total);
        for (size_t i = 0; i < was.size(); ++i)
            CK(P, blocks[size_t(was[i].idx)].live == (i == 0), "after reset, block %zu is %s", i, blocks[size_t(was[i].idx)].live ? "still held" : "gone");
    }
    CK(3, fresh.empty(), "Reset() took a block");
    adopt(0, 8, false);
    while (!mb.empty() && mb.size() > 1) mb.pop_back();
    if (!mb.empty()) { mb[0].pos = H; mb[0].limit = mb[0].size; }
    allocs.clear();
    expect_events({{'R', nullptr, total, waste, cookie, ar}}, "reset");
}
static int mode_null_element = 0;
static void apply(const Op& o) {
    std::string w = show(o);
    MC_NOTE("%s", w.c_str());
    failures = 0;
    fresh.clear();
    returned.clear();
    ran.clear();
    size_t nb = mb.size();
    switch (o.kind) {
        case 'a': case 'r': {
            bool impossible = o.n > kTooBig;
            bool f = !impossible && fits(up8(o.n), o.a);
            char* p = nullptr;
            if (o.kind == 'a') p = ar->AllocateAligned(o.n, o.a);
            else {
                try { p = static_cast<char*>(ar->get_memory_resource()->allocate(o.n, o.a)); } catch (std::bad_alloc&) { p = nullptr; }
            }
            bool ok = account(p, o.n, o.a < 8 ? 8 : o.a, impossible, f, true, w.c_str());
            auto ev = block_events(nb);
            if (ok) { keep(p, o.n); if (o.kind == 'a') ev.push_back({'A', nullptr, o.n, 0, cookie, nullptr}); }
            if (o.kind == 'r') std::erase_if(evs, [](const Ev& e) { return e.k == 'A'; });
            expect_events(ev, w.c_str());
            break;
        }
        case 'c': case 'e': {
            bool impossible = o.n > kTooBig;
            bool f = !impossible && fits(up8(o.n), 8);
            int id = next_id++;
            static int ids[4096];
            ids[id] = id;
            char* p = o.kind == 'c' ? ar->AllocateAlignedAndAddCleanup(o.n, cb_ptr) : ar->AllocateAlignedAndAddCleanup(o.n, cb_ptr, &ids[id]);
            std::vector<int> all = fresh;
            fresh.clear();
            if (!f && !all.empty()) { fresh.push_back(all[0]); all.erase(all.begin()); }
            if (!p) {
                CK(4, failures > 0 || impossible, "%s was refused although no block allocation failed", w.c_str());
                bool had = !fresh.empty() || f;
                adopt(up8(o.n), 8, false);
                if (had && !mb.empty() && (ar->SpaceRemains() != mb.back().limit - mb.back().pos)) mb.back().pos += up8(o.n);
                fresh = all;
                adopt(kCleanupNodeSize, 8, false);
                expect_events(block_events(nb), w.c_str());
                break;
            }
            account(p, o.n, 8, impossible, f, true, w.c_str());
            fresh = all;
            account_record(fits(kCleanupNodeSize, 8), w.c_str());
            if (o.kind == 'c') {  // the memory itself is the element: its id is stored at its start
                if (o.n >= sizeof(int)) memcpy(p, &id, sizeof id);
                allocs.push_back({p, o.n, 0});
            } else {
                keep(p, o.n);
            }
            pending.push_back(id);
            auto ev = block_events(nb);
            ev.push_back({'A', nullptr, o.n, 0, cookie, nullptr});
            expect_events(ev, w.c_str());
            break;
        }
        case 'D': { int id = next_id++; size_t k = ran.size(); int c0 = constructed; (void)k; (void)c0; int f0 = live_objects; do_create<D>(o, 8, true, id); if (live_objects > f0) pending.push_back(id); break; }
        case 'S': { int id = next_id++; int f0 = live_objects; do_create<Small>(o, 8, true, id); if (live_objects > f0) pending.push_back(id); break; }
        case 'L': { int id = next_id++; int f0 = live_objects; do_create<D16>(o, 16, true, id); if (live_objects > f0) pending.push_back(id); break; }
        case 'M': { int id = next_id++; int f0 = live_objects; do_create<D32>(o, 32, true, id); if (live_objects > f0) pending.push_back(id); break; }
        case 'K': do_create<Skip>(o, 8, false, next_id++); break;
        case 'T': do_create<Triv>(o, 8, false); break;
        case '6': do_create<T16>(o, 16, false); break;
        case '3': do_create<T32>(o, 32, false); break;
        case 'y': do_array<Byte3>(o, 8); break;
        case 'q': do_array<uint64_t>(o, 8); break;
        case 'x': do_array<T16>(o, 16); break;
        case 'z': do_array<T32>(o, 32); break;
        case 'N': {  // object, then inner object, inner record, outer record
            int id = next_id;
            next_id += 2;
            int f0 = live_objects;
            Nest* n = ar->Create<Nest>(id);
            // place everything by observation
            std::vector<int> all = fresh;
            fresh.clear();
            for (int i : all) { fresh = {i}; adopt(0, 8, false); }
            fresh.clear();
            if (n) {
                auto place = [&](void* q, size_t sz) { for (auto& b : mb) if (static_cast<char*>(q) >= b.base && static_cast<char*>(q) < b.base + b.size) b.pos = std::max(b.pos, size_t(static_cast<char*>(q) - b.base) + up8(sz)); };
                place(n, sizeof(Nest));
                if (n->inner) { place(n->inner, sizeof(D)); pending.push_back(id + 1); }
                pending.push_back(id);
            } else if (live_objects > f0) {
                pending.push_back(id + 1);  // the inner object was created; the outer could not be
            }
            ran.clear();
            evs.clear();
            break;
        }
        case 'F': {
            int id = next_id++;
            int f0 = live_objects;
            Ref* r = ar->Create<Ref>(id);
            if (live_objects > f0) pending.push_back(id);
            if (r) {
                char* q = ar->AllocateAligned(o.n);
                if (q) { memset(q, 0x5A, o.n); r->other = q; r->n = o.n; r->pat = 0x5A; }
            }
            for (int i : fresh) mb.push_back({i, blocks[size_t(i)].p, blocks[size_t(i)].n, H, blocks[size_t(i)].n});
            fresh.clear();
            evs.clear();
            break;
        }
        case 'O': {
            int id = next_id++;
            auto* x = new Owned(id);
            bool f = fits(kCleanupNodeSize, 8);
            bool ok = ar->Own(x);
            if (ok) {
                account_record(f, w.c_str());
                pending.push_back(id);
            } else {
                CK(4, failures > 0, "Own was refused although no block allocation failed");
                CK(4, live_objects > 0 && ran.empty(), "Own failed but destroyed the object");
                adopt(kCleanupNodeSize, 8, false);
                delete x;
                ran.clear();
            }
            expect_events(block_events(nb), w.c_str());
            break;
        }
        case 'R': do_reset(); break;
    }
    if (failures && o.kind != 'O') ran.clear();
    post(w.c_str());
}
static void destroy() {
    MC_NOTE("destroy");
    uint64_t total = held(), waste = unused();
    ran.clear();
    returned.clear();
    allow_return = true;
    ar->~Arena();
    allow_return = false;
    mc::step();
    finish_cleanups("destruction");
    for (size_t i = 0; i < blocks.size(); ++i) {
        CK(3, !blocks[i].live, "block %zu was never returned", i);
        CK(6, !blocks[i].live, "block %zu was never returned", i);
    }
    expect_events({{'X', nullptr, total, waste, cookie, ar}}, "destruction");
    if (P == 2 || P == 4) CK(P, live_objects == 0, "%d object(s) never destroyed", live_objects);
}
using Ops = std::vector<Op>;
static void config(uint64_t init, uint64_t normal, uint64_t huge) { cfg_init = init; cfg_normal = normal; cfg_huge = huge; }
struct Cfg { uint64_t init, normal, huge; };
static const std::vector<Cfg> cfgs = {{128, 128, 1024}, {64, 96, 2048}, {256, 128, 512}, {48, 320, 1024}, {512, 512, 512}, {136, 104, 640}};

// explores every history of length <= depth over ops, then destroys the arena
static void histories(const Ops& ops, int depth) {
    for (int i = 0; i < depth; ++i) {
        int c = choose(int(ops.size()) + 1);
        if (c == 0) break;  // stop here
        apply(ops[size_t(c - 1)]);
    }
    destroy();
}
static const Ops all_ops = {{'a', 0, 8}, {'a', 1, 8}, {'a', 8, 8}, {'a', 33, 8}, {'a', 64, 8}, {'a', 96, 8}, {'a', 100, 8}, {'a', 200, 8}, {'a', 300, 8}, {'a', 700, 8}, {'a', 2000, 8},
                            {'a', 1, 16}, {'a', 24, 16}, {'a', 80, 16}, {'a', 96, 16}, {'a', 250, 16}, {'a', 0, 32}, {'a', 8, 32}, {'a', 64, 32}, {'a', 96, 32}, {'a', 480, 32}, {'a', 1000, 32},
                            {'c', 8, 8}, {'c', 60, 8}, {'c', 300, 8}, {'e', 0, 8}, {'e', 40, 8}, {'r', 5, 1}, {'r', 12, 4}, {'r', 40, 16}, {'r', 96, 32}, {'r', 0, 8},
                            {'D', 0, 0}, {'S', 0, 0}, {'K', 0, 0}, {'T', 0, 0}, {'6', 0, 0}, {'3', 0, 0}, {'L', 0, 0}, {'M', 0, 0},
                            {'y', 1, 0}, {'y', 11, 0}, {'q', 0, 0}, {'q', 9, 0}, {'x', 3, 0}, {'z', 2, 0}, {'O', 0, 0}, {'R', 0, 0}};
static const Ops mid_ops = {{'a', 1, 8}, {'a', 40, 8}, {'a', 96, 8}, {'a', 300, 8}, {'a', 24, 16}, {'a', 64, 32}, {'a', 96, 32}, {'c', 24, 8}, {'r', 40, 32}, {'D', 0, 0}, {'6', 0, 0}, {'3', 0, 0}, {'M', 0, 0},
                            {'z', 2, 0}, {'q', 5, 0}, {'O', 0, 0}, {'R', 0, 0}};
static const Ops few_ops = {{'a', 24, 8}, {'a', 72, 8}, {'a', 40, 32}, {'D', 0, 0}, {'O', 0, 0}, {'a', 400, 8}, {'R', 0, 0}};
static const Ops clean_ops = {{'D', 0, 0}, {'S', 0, 0}, {'O', 0, 0}, {'c', 8, 8}, {'e', 16, 8}, {'K', 0, 0}, {'T', 0, 0}, {'N', 0, 0}, {'F', 150, 8}, {'F', 20, 8}, {'M', 0, 0}, {'a', 40, 8}, {'a', 200, 8}, {'R', 0, 0}};
static const std::vector<uint64_t> huge_sizes = [] {
    std::vector<uint64_t> v;
    for (uint64_t k = 0; k <= 80; ++k) v.push_back(~uint64_t(0) - k);
    for (uint64_t k : {96ul, 127ul, 128ul, 255ul, 256ul, 4096ul}) v.push_back(~uint64_t(0) - k);
    for (int b = 22; b < 64; ++b) for (int d = -9; d <= 9; d += 3) v.push_back((uint64_t(1) << b) + uint64_t(int64_t(d)));
    return v;
}();

// many configurations x first operation; one task each
static void history_space(const char* prop, int pn, const char* name, const Ops& ops, int depth, int nres, int ncfg, int hooks_mode = 0, int fmode = 0, int budget = 0) {
    uint64_t nt = uint64_t(nres) * uint64_t(ncfg) * ops.size();
    mc::add(prop, name, nt, [=, &ops](uint64_t t) {
        begin_world();
        P = pn;
        size_t first = t % ops.size();
        t /= ops.size();
        residue = int(t % uint64_t(nres)) * 8;
        auto& c = cfgs[size_t(t / uint64_t(nres))];
        config(c.init, c.normal, c.huge);
        if (hooks_mode == 1) hooks = 31;
        if (hooks_mode == 2) hooks = choose(32);
        MC_NOTE("arena(init %lu, normal %lu, huge %lu), block address %% 32 = %d, hooks %d", c.init, c.normal, c.huge, residue, hooks);
        construct();
        fail_mode = fmode;
        fail_budget = budget;
        post("construction");
        apply(ops[first]);
        histories(ops, depth - 1);
    });
}
// dense fill levels: fill the current block up to every level, register k cleanups, then every pair of operations
static void fill_space(const char* prop, int pn, const char* name, const Ops& a, const Ops& b, int levels, int step, int nres, int fmode = 0, int hooks_mode = 0) {
    mc::add(prop, name, uint64_t(levels) * uint64_t(nres), [=, &a, &b](uint64_t t) {
        begin_world();
        P = pn;
        residue = int(t % uint64_t(nres)) * 8;
        uint64_t level = t / uint64_t(nres) * uint64_t(step);
        config(256, 192, 1024);
        hooks = hooks_mode;
        MC_NOTE("arena(init 256, normal 192, huge 1024), block address %% 32 = %d", residue);
        construct();
        apply({'a', level, 8});
        if (choose(2)) apply({'O', 0, 0});
        fail_mode = fmode;
        fail_budget = 3;
        apply(a[size_t(choose(int(a.size())))]);
        int c = choose(int(b.size()) + 1);
        if (c) apply(b[size_t(c - 1)]);
        destroy();
    });
}

// many operations in one arena, also with blocks of usual sizes, then any operation
static const std::vector<Cfg> usual = {{128, 128, 1024}, {4096, 4096, 2 << 20}, {16384, 8192, 65536}, {64, 4096, 16384}};
static Op nth_op(int pattern, uint64_t i) {
    auto cyc = [&](const Ops& o) { const Op& r = o[i % o.size()]; return r.kind == 'R' ? Op{'O', 0, 0} : r; };
    switch (pattern) {
        case 0: return {'a', i * 37 % 181, (uint64_t[]){8, 16, 8, 32}[i % 4]};
        case 1: return {'D', 0, 0};
        case 2: return {'O', 0, 0};
        case 3: return {i % 3 ? 'e' : 'c', i * 11 % 60 + 4, 8};
        case 4: return cyc(mid_ops);
        case 5: return cyc(all_ops);
        case 6: return {'a', 1, 8};
        default: return {i % 2 ? 'S' : 'a', i * 97 % 700, 8};
    }
}
static void expect_moved_from(Arena* a, int who);
static void drop(Arena* a, int who);
static void classify();
static ArenaContainStatus kind_of(char* p) {
    for (auto& b : mb)
        if (p >= b.base && p < b.base + b.size) {
            size_t off = size_t(p - b.base);
            return off < H ? ArenaContainStatus::BlockHeader : off < b.pos ? ArenaContainStatus::BlockUsed : off < b.limit ? ArenaContainStatus::BlockUnUsed : ArenaContainStatus::BlockCleanup;
        }
    return ArenaContainStatus::NotContain;
}
static void edges(const MB& b) {  // the bytes around every boundary of a block
    for (size_t e : {size_t(0), H, b.pos, b.limit, b.size, b.size / 2})
        for (int d = -9; d <= 9; ++d) {
            char* p = b.base + ptrdiff_t(e) + d;
            ArenaContainStatus got = ar->check(p), want = kind_of(p);
            if (got != want) mc::fail("check() of the byte at offset %td of a block of %zu bytes = %d, expected %d", p - b.base, b.size, int(got), int(want));
        }
}
// blocks and requests above 4 GB
static void giant_space(const char* prop, int pn) {
    static const Ops ops = {{'a', 100, 8}, {'a', kGB, 8}, {'a', 4 * kGB - 40, 8}, {'a', 4 * kGB + 24, 32}, {'c', 2 * kGB, 8}, {'r', 6 * kGB, 16}, {'D', 0, 0}, {'O', 0, 0}, {'R', 0, 0}};
    static const Cfg sizes[] = {{9 * kGB, 4096, 2 << 20}, {64, 4096, 2 << 20}, {4096, 4 * kGB, 16 * kGB}, {256, 8 * kGB, 64 * kGB}};
    mc::add(prop, "blocks above 4 GB", std::size(sizes) * ops.size(), [=](uint64_t t) {
        begin_world();
        P = pn;
        giant = true;
        largest_ok = 64 * kGB;
        kTooBig = 64 * kGB;
        residue = 8;
        if (pn == 8) hooks = 31;
        auto& c = sizes[t % std::size(sizes)];
        config(c.init, c.normal, c.huge);
        MC_NOTE("arena(init %lu, normal %lu, huge %lu), hooks %d", c.init, c.normal, c.huge, hooks);
        construct();
        apply(ops[t / std::size(sizes)]);
        Arena* from = nullptr;
        for (int i = 0, n = mc::thorough() ? 5 : 4; i < n; ++i) {
            int k = choose(int(ops.size()) + 1);
            if (k == 0) break;
            apply(ops[size_t(k - 1)]);
            if (pn == 5) for (auto& b : mb) edges(b);
            if (pn == 6 && !from && choose(2)) {
                evs.clear();
                from = ar;
                ar = new (arena_mem[1]) Arena(std::move(*from));
                expect_moved_from(from, 0);
                post("the move");
            }
        }
        destroy();
        if (from) drop(from, 0);
    });
}
static void scale_space(const char* prop, int pn, int fmode = 0) {
    static const std::vector<uint64_t> counts = [] {
        std::vector<uint64_t> v;
        for (uint64_t n : {12, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 170, 171, 255, 256, 257, 300}) v.push_back(n);
        if (mc::thorough()) { for (uint64_t n = 5; n < 130; n += 3) v.push_back(n); for (uint64_t n : {511, 512, 513, 700, 1000}) v.push_back(n); }
        return v;
    }();
    mc::add(prop, "many operations in one arena, then any", counts.size() * 8 * usual.size(), [=](uint64_t t) {
        begin_world();
        P = pn;
        auto& c = usual[t % usual.size()];
        t /= usual.size();
        int pattern = int(t % 8);
        uint64_t n = counts[t / 8];
        config(c.init, c.normal, c.huge);
        largest_ok = 3 << 20;
        if (pn == 8) hooks = 31;
        residue = choose(pn == 1 || pn == 5 ? 2 : 1) * 8;
        MC_NOTE("arena(init %lu, normal %lu, huge %lu), block address %% 32 = %d, hooks %d", c.init, c.normal, c.huge, residue, hooks);
        construct();
        bool again = choose(2);
        post_every = 16;
        for (uint64_t i = 0; i < n; ++i) apply(nth_op(pattern, i));
        if (again) {
            apply({'R', 0, 0});
            for (uint64_t i = 0; i < n / 2; ++i) apply(nth_op(pattern, i));
        }
        post_every = 1;
        if (pn == 5) { classify(); apply(mid_ops[size_t(choose(int(mid_ops.size())))]); classify(); destroy(); return; }
        if (fmode) { fail_mode = 1; fail_budget = 2; }
        Arena* from = nullptr;
        if (pn == 6) {
            evs.clear();
            from = ar;
            ar = new (arena_mem[1]) Arena(std::move(*from));
            expect_moved_from(from, 0);
            post("the move");
            if (choose(2)) { drop(from, 0); from = nullptr; }
        }
        apply(mid_ops[size_t(choose(int(mid_ops.size())))]);
        apply({'a', 40, 8});
        if (choose(2)) apply({'R', 0, 0});
        apply({'a', 700, 16});
        destroy();
        if (from) drop(from, 0);
    });
    // requests of every size up to the limits of usual blocks
    mc::add(prop, "requests of large sizes", usual.size() * 4, [=](uint64_t t) {
        auto& c = usual[t % usual.size()];
        int before = int(t / usual.size());
        std::vector<uint64_t> ns;
        for (uint64_t n = mc::thorough() ? 0 : 2000; n < (mc::thorough() ? 40000 : 5000); n += mc::thorough() ? 1 : 7) ns.push_back(n);
        for (uint64_t n : {c.normal - H, c.normal, 2 * c.normal, 3 * c.normal, c.huge / 4 - H, c.huge / 4, c.huge / 2, c.huge - H, c.huge})
            for (int d = -40; d <= 40; ++d) if (int64_t(n) + d >= 0 && n + uint64_t(int64_t(d)) < (2u << 20)) ns.push_back(n + uint64_t(int64_t(d)));
        size_t part = (ns.size() + 99) / 100, lo = size_t(choose(100)) * part;
        uint64_t align = (uint64_t[]){8, 16, 32}[choose(3)];
        for (size_t i = lo; i < std::min(lo + part, ns.size()); ++i) {
            uint64_t n = ns[i];
            begin_world();
            P = pn;
            largest_ok = 3 << 20;
            residue = 8;
            if (pn == 8) hooks = 31;
            config(c.init, c.normal, c.huge);
            MC_NOTE("arena(init %lu, normal %lu, huge %lu)", c.init, c.normal, c.huge);
            construct();
            if (before == 1) apply({'a', 100, 8});
            if (before == 2) { apply({'D', 0, 0}); apply({'a', c.normal - 200, 8}); }
            if (before == 3) { apply({'a', c.huge / 4 + 1, 8}); apply({'O', 0, 0}); }
            apply({'a', n, align});
            if (fmode) { fail_mode = 2; apply({'a', c.huge, 8}); fail_mode = 0; }
            if (pn == 5) { apply({'O', 0, 0}); for (auto& b : mb) edges(b); }
            apply({'c', n / 2 + 8, 8});
            apply({'R', 0, 0});
            apply({'a', n, align});
            destroy();
        }
    });
}

static const Ops move_ops = {{'a', 24, 8}, {'a', 200, 8}, {'D', 0, 0}, {'O', 0, 0}, {'r', 24, 8}, {'r', 150, 16}, {'R', 0, 0}};
// C06
static void expect_moved_from(Arena* a, int who) {
    CK(6, a->SpaceAllocated() == 0, "moved-from arena %d reports %lu bytes", who, a->SpaceAllocated());
    CK(6, a->cleanups() == 0, "moved-from arena %d reports %lu cleanups", who, a->cleanups());
    for (auto& b : mb)
        for (size_t off : {size_t(0), H, b.size - 1})
            CK(6, a->check(b.base + off) == ArenaContainStatus::NotContain, "moved-from arena %d still claims a block", who);
}
static void drop(Arena* a, int who) {  // destroying a moved-from arena has no effect
    MC_NOTE("destroy moved-from arena %d", who);
    ran.clear();
    returned.clear();
    evs.clear();
    a->~Arena();
    CK(6, ran.empty(), "destroying moved-from arena %d ran a cleanup", who);
    CK(6, returned.empty(), "destroying moved-from arena %d returned a block", who);
    CK(6, evs.empty(), "destroying moved-from arena %d signalled a hook", who);
}
static void move_body(int npre, int npost, int moves) {
    auto run = [&](int n) {
        for (int i = 0; i < n; ++i) {
            int c = choose(int(move_ops.size()) + 1);
            if (c == 0) break;
            apply(move_ops[size_t(c - 1)]);
        }
    };
    construct();
    run(npre);
    std::vector<Arena*> old;
    for (int m = 0; m < moves; ++m) {
        MC_NOTE("move-construct arena %d", m + 1);
        uint64_t sp = ar->SpaceAllocated(), cl = ar->cleanups();
        auto* res = ar->get_memory_resource();
        Arena* from = ar;
        fresh.clear(); returned.clear(); ran.clear(); evs.clear();
        ar = new (arena_mem[m + 1]) Arena(std::move(*from));
        mc::step();
        CK(6, fresh.empty() && returned.empty() && ran.empty() && evs.empty(), "moving took or returned a block, ran a cleanup or signalled a hook");
        CK(6, ar->SpaceAllocated() == sp && ar->cleanups() == cl, "the new arena does not report what the old one held");
        CK(6, ar->get_memory_resource() != nullptr && ar->get_memory_resource()->get_arena() == ar, "the memory resource of the new arena does not serve it");
        CK(6, ar->get_memory_resource() == res, "the memory resource was not transferred");
        for (auto& a : allocs) CK(6, a.n == 0 || ar->check(a.p) == ArenaContainStatus::BlockUsed, "an earlier pointer is not in the new arena");
        expect_moved_from(from, m);
        old.push_back(from);
        if (choose(2)) { drop(from, m); old.pop_back(); old.push_back(nullptr); }
        if (m + 1 < moves && choose(2)) break;
        post("move");
    }
    run(npost);
    bool last_first = choose(2);
    if (!last_first) for (size_t i = 0; i < old.size(); ++i) if (old[i]) { expect_moved_from(old[i], int(i)); drop(old[i], int(i)); old[i] = nullptr; }
    // the living arena
    evs.clear();
    uint64_t total = held(), waste = unused();
    ran.clear(); returned.clear();
    allow_return = true;
    MC_NOTE("destroy the arena moved to");
    ar->~Arena();
    finish_cleanups("destruction of the arena moved to");
    if (hooks & 16)
        CK(6, evs.size() == 1 && evs[0].k == 'X' && evs[0].a == total && evs[0].b == waste && evs[0].cookie == cookie && evs[0].arena == ar, "destruction of the arena moved to is not signalled once with its figures and cookie");
    for (size_t i = 0; i < blocks.size(); ++i) CK(6, !blocks[i].live, "block %zu was never returned", i);
    for (size_t i = 0; i < old.size(); ++i) if (old[i]) drop(old[i], int(i));
    CK(6, live_objects == 0, "%d object(s) never destroyed", live_objects);
}
// C05
static void classify() {
    size_t lo = 0, hi = region_pos + 64;
    for (size_t i = lo; i < hi; ++i) {
        char* p = region + i;
        ArenaContainStatus want = kind_of(p);
        ArenaContainStatus got = ar->check(p);
        if (got != want) mc::fail("check() of byte %zu of the region (blocks held: %zu) = %d, expected %d", i, mb.size(), int(got), int(want));
    }
    static const char* far[] = {nullptr, reinterpret_cast<char*>(8), reinterpret_cast<char*>(~uint64_t(0)), reinterpret_cast<char*>(~uint64_t(0) / 2), reinterpret_cast<char*>(~uint64_t(0) / 2 + 1)};
    for (const char* p : far) if (ar->check(p) != ArenaContainStatus::NotContain) mc::fail("check(%p) claims it", p);
    for (auto& b : mb) for (uint64_t d : {uint64_t(1) << 32, uint64_t(1) << 33, uint64_t(1) << 31})
        if (ar->check(b.base + d) != ArenaContainStatus::NotContain) mc::fail("check() claims an address 2^31.. away from a block");
    char local = 0;
    if (ar->check(&local) != ArenaContainStatus::NotContain) mc::fail("check() claims a stack address");
    mc::step();
}

void mc_spaces(const std::string&) {
    bool th = mc::thorough();
    // all of them
    struct { const char* prop; int pn, fmode; } every[] = {{"C01", 1, 0}, {"C02", 2, 0}, {"C03", 3, 0}, {"C04", 4, 1}, {"C05", 5, 0}, {"C06", 6, 0}, {"C08", 8, 0}};
    for (auto& e : every) {
        scale_space(e.prop, e.pn, e.fmode);
        if (!e.fmode) giant_space(e.prop, e.pn);
    }
    // C01
    history_space("C01", 1, "every history of 2 requests, full alphabet", all_ops, 2, 4, 6);
    history_space("C01", 1, "every history of requests, medium alphabet", mid_ops, th ? 5 : 4, 4, th ? 3 : 4);
    history_space("C01", 1, "long histories, few requests", few_ops, th ? 8 : 7, 2, 3);
    fill_space("C01", 1, "every fill level x 2 requests", all_ops, th ? all_ops : mid_ops, 230, 1, th ? 4 : 2);
    // C02
    history_space("C02", 2, "every history of cleanup registrations", clean_ops, th ? 6 : 5, 1, th ? 3 : 6);
    fill_space("C02", 2, "every fill level x 2 registrations", clean_ops, clean_ops, 230, 1, 2);
    fill_space("C02", 2, "every fill level x 2 registrations with block failures", clean_ops, clean_ops, 58, 4, 1, 1);
    mc::add("C02", "n registrations then resets", th ? 200 : 64, [th](uint64_t t) {
        begin_world();
        P = 2;
        config(cfgs[t % 6].init, cfgs[t % 6].normal, cfgs[t % 6].huge);
        construct();
        int kind = choose(4), resets = choose(3);
        for (int r = 0; r <= resets; ++r) {
            for (uint64_t i = 0; i <= t; ++i) apply(kind == 0 ? Op{'D', 0, 0} : kind == 1 ? Op{'O', 0, 0} : kind == 2 ? (i % 2 ? Op{'S', 0, 0} : Op{'a', i % 50, 8}) : Op{'e', (i * 7) % 60, 8});
            if (r < resets) apply({'R', 0, 0});
        }
        destroy();
    });
    // C03
    history_space("C03", 3, "every history of 2 requests, full alphabet", all_ops, 2, 4, 6);
    history_space("C03", 3, "every history of requests, medium alphabet", mid_ops, th ? 5 : 4, 4, th ? 3 : 4);
    history_space("C03", 3, "long histories, few requests", few_ops, th ? 8 : 7, 2, 3);
    fill_space("C03", 3, "every fill level x 2 requests", all_ops, mid_ops, 230, 1, 2);
    mc::add("C03", "block size for every request size, every configuration", 6 * 3, [th](uint64_t t) {
        auto& c = cfgs[t % 6];
        for (uint64_t n = 0; n < (th ? 6000u : 2200u); ++n) {
            begin_world();
            P = 3;
            config(c.init, c.normal, c.huge);
            construct();
            if (t / 6 == 0) { apply({'a', n, 8}); apply({'R', 0, 0}); apply({'a', n, 8}); }
            else if (t / 6 == 1) { apply({'a', 1, 8}); apply({'a', n, 8}); apply({'a', n, 8}); apply({'R', 0, 0}); }
            else { apply({'O', 0, 0}); apply({'c', n, 8}); apply({'a', n / 2, 8}); }
            destroy();
        }
    });
    mc::add("C03", "reset is equivalent to a fresh arena", all_ops.size() * 6, [](uint64_t t) {
        // history h, reset, history g: same pointers (relative to blocks) as g alone on an arena owning the same first block
        begin_world();
        P = 3;
        auto& c = cfgs[t % 6];
        config(c.init, c.normal, c.huge);
        construct();
        apply(all_ops[t / 6]);
        apply(mid_ops[size_t(choose(int(mid_ops.size())))]);
        apply({'R', 0, 0});
        apply(mid_ops[size_t(choose(int(mid_ops.size())))]);
        apply({'R', 0, 0});
        apply({'R', 0, 0});
        apply(few_ops[size_t(choose(int(few_ops.size())))]);
        destroy();
    });
    // C04
    history_space("C04", 4, "every subset of failing block allocations, full alphabet", all_ops, 2, 1, 3, 0, 1, 4);
    history_space("C04", 4, "every subset of failing block allocations, medium alphabet", mid_ops, th ? 5 : 4, 1, th ? 2 : 4, 0, 1, 6);
    fill_space("C04", 4, "every fill level x 2 requests x every failure subset", all_ops, few_ops, 230, 1, 1, 1);
    mc::add("C04", "impossible sizes in every state", huge_sizes.size() * 8, [](uint64_t t) {
        begin_world();
        P = 4;
        auto& c = cfgs[t % 4];
        uint64_t n = huge_sizes[t / 8];
        no_logger = t / 4 % 2;
        config(c.init, c.normal, c.huge);
        construct();
        int pre = choose(5);
        if (pre == 1) apply({'a', 24, 8});
        if (pre == 2) { apply({'D', 0, 0}); apply({'a', 300, 8}); }
        if (pre == 3) { apply({'a', 96, 8}); apply({'O', 0, 0}); apply({'R', 0, 0}); }
        if (pre == 4) { apply({'O', 0, 0}); apply({'a', 60, 32}); }
        static const struct { char kind; uint64_t a, elem; } how[] = {{'a', 8, 1}, {'a', 16, 1}, {'a', 32, 1}, {'c', 8, 1}, {'e', 8, 1}, {'r', 32, 1}, {'q', 0, 8}, {'z', 0, 32}, {'y', 0, 3}};
        auto& w = how[choose(9)];
        // a count whose byte size is at the limit, or wraps
        uint64_t m = w.kind == 'q' ? n / 8 + (n % 8) : w.kind == 'y' ? n / 3 + 1 : n;
        uint64_t al = w.kind == 'z' ? 32 : w.kind == 'a' || w.kind == 'r' ? w.a : 8;
        unsigned __int128 bytes = (unsigned __int128)m * w.elem, whole = (bytes + 7) / 8 * 8 + H + (al - 8);
        logged = 0;
        if (choose(2)) {  // no memory for a message either
            char* p = nullptr;
            MC_NOTE("the same while the heap is exhausted");
            uint64_t before = blocks.size();
            if (w.kind == 'a' && bytes > kTooBig) {
                fail_new = 100;
                p = ar->AllocateAligned(m, w.a);
                fail_new = 0;
                CK(4, p == nullptr && blocks.size() == before, "an impossible request was served");
            } else if (w.kind == 'q' && bytes > kTooBig) {
                fail_new = 100;
                p = reinterpret_cast<char*>(ar->CreateArray<uint64_t>(m));
                fail_new = 0;
                CK(4, p == nullptr && blocks.size() == before, "an impossible request was served");
            }
            logged = 0;
        }
        apply({w.kind, m, w.a});
        if (!no_logger) CK(4, logged <= 1, "one request is logged %d times", logged);
        if (!no_logger && whole > ~uint64_t(0)) CK(4, logged == 1, "a request of more bytes than there are addresses is not logged");
        logged = 0;
        apply({'a', 40, 8});
        apply({'D', 0, 0});
        apply({'a', 40, 32});
        CK(4, logged == 0, "requests which succeed are logged");
        destroy();
    });
    mc::add("C04", "the default options: impossible requests are refused and told on the standard error output", 64, [](uint64_t t) {
        begin_world();
        P = 4;
        std::ostringstream told;
        auto* was = std::cerr.rdbuf(told.rdbuf());
        auto count = [&] { auto x = told.str(); return std::count(x.begin(), x.end(), '\n'); };
        {
            Arena a(t % 2 ? Arena::Options::GetDefaultOptions() : Arena::Options{Arena::Options::GetDefaultOptions()});
            char* before[3] = {a.AllocateAligned(10), t & 2 ? a.AllocateAligned(5000) : nullptr, t & 4 ? a.AllocateAligned(100) : nullptr};
            for (auto p : before) if (p) *p = 'x';
            uint64_t space = a.SpaceAllocated(), n = ~uint64_t(0) - (t / 8) * 2;
            MC_NOTE("a request of %lu bytes", n);
            char* p = a.AllocateAligned(n);
            CK(4, !p && count() == 1, "AllocateAligned(%lu): %s, %ld messages on the standard error output", n, p ? "served" : "null", long(count()));
            uint64_t* q = a.CreateArray<uint64_t>(n);
            CK(4, !q && count() == 2, "CreateArray(%lu): %s, %ld messages on the standard error output after two requests", n, q ? "served" : "null", long(count()));
            CK(4, a.SpaceAllocated() == space, "the arena holds other blocks");
            for (auto b : before) if (b) CK(4, *b == 'x', "earlier memory was damaged");
            char* l = a.AllocateAligned(4000);
            CK(4, l && count() == 2, "a later request fails or is told");
            memset(l, 1, 4000);
            mc::step(4);
        }
        std::cerr.rdbuf(was);
        mc::state(mc::Hash().str("default").add(t));
    });
    mc::add("C04", "an arena whose memory resource could not be made", mid_ops.size() * 8, [](uint64_t t) {
        begin_world();
        P = 4;
        bool all = t % 2;
        t /= 2;
        auto usable = [](const Op& o) { return o.kind != 'r' && o.kind != 'M'; };
        if (!usable(mid_ops[t / 4])) return;
        auto& c = cfgs[t % 2];
        no_logger = t / 2 % 2;
        config(c.init, c.normal, c.huge);
        MC_NOTE("the memory resource can not be allocated%s", all ? ", and no message either" : "");
        fail_new = all ? 100 : 1;
        construct();
        fail_new = 0;
        CK(4, no_logger || logged == (all ? 0 : 1), "the failure is logged %d times", logged);
        fail_mode = 1;
        fail_budget = 1;
        post("construction");
        apply(mid_ops[t / 4]);
        for (int i = 0; i < 2; ++i) {
            int k = choose(int(mid_ops.size()));
            if (usable(mid_ops[size_t(k)])) apply(mid_ops[size_t(k)]);
        }
        if (choose(2)) { Arena other(std::move(*ar)); CK(4, other.SpaceAllocated() == held() && other.cleanups() == pending.size(), "the moved arena does not hold what the other did"); ran.clear(); returned.clear(); allow_return = true; ar->~Arena(); MC_CHECK(returned.empty(), "the moved-from arena returned a block"); }
        else destroy();
        allow_return = true;
    });
    // C05
    mc::add("C05", "every byte after every history", all_ops.size() * 3, [th](uint64_t t) {
        begin_world();
        P = 5;
        auto& c = cfgs[t % 3];
        config(c.init, c.normal, 640);
        construct();
        classify();
        apply(all_ops[t / 3]);
        for (int i = 0; i < (th ? 4 : 3); ++i) {
            int k = choose(int(mid_ops.size()) + 1);
            if (!k) break;
            apply(mid_ops[size_t(k - 1)]);
        }
        classify();
        apply({'R', 0, 0});
        classify();
        destroy();
    });
    mc::add("C05", "every byte at every fill level and number of records", 240, [](uint64_t t) {
        begin_world();
        P = 5;
        config(256, 192, 640);
        residue = choose(4) * 8;
        construct();
        apply({'a', t, 8});
        for (int i = choose(8); i > 0; --i) apply({'O', 0, 0});
        classify();
        destroy();
    });
    // C06
    mc::add("C06", "history, move(s), history, both destruction orders", 4 * 3 * 2, [th](uint64_t t) {
        begin_world();
        P = 6;
        auto& c = cfgs[t % 4];
        config(c.init, c.normal, c.huge);
        hooks = (t / 4) % 2 ? 31 : 0;
        int moves = 1 + int(t / 8);
        MC_NOTE("arena(init %lu, normal %lu, huge %lu), hooks %d", c.init, c.normal, c.huge, hooks);
        int d = th ? 4 : 3;
        move_body(d, moves > 1 ? d - 1 : d, moves);
    });
    mc::add("C06", "moved in every fill state", 60, [](uint64_t t) {
        begin_world();
        P = 6;
        config(256, 192, 1024);
        hooks = choose(32);
        construct();
        apply({'a', t * 4, 8});
        if (choose(2)) apply({'D', 0, 0});
        Arena* from = ar;
        auto* res = ar->get_memory_resource();
        evs.clear();
        ar = new (arena_mem[1]) Arena(std::move(*from));
        CK(6, evs.empty(), "moving signalled a hook");
        CK(6, ar->get_memory_resource() == res && res->get_arena() == ar, "the memory resource of the new arena does not serve it");
        expect_moved_from(from, 0);
        apply({'r', 100, 32});
        bool order = choose(2);
        if (order) drop(from, 0);
        evs.clear();
        destroy();
        if (hooks & 16) CK(6, true, "-");
        if (!order) drop(from, 0);
    });
    // C08
    history_space("C08", 8, "every history x every subset of hooks", mid_ops, th ? 4 : 3, 1, th ? 4 : 6, 2);
    history_space("C08", 8, "long histories with all hooks", few_ops, th ? 8 : 7, 1, th ? 3 : 6, 1);
    history_space("C08", 8, "all hooks with every subset of failing block allocations", all_ops, th ? 3 : 2, 1, 2, 1, 1, 4);
    fill_space("C08", 8, "every fill level x 2 requests with all hooks", all_ops, mid_ops, 115, 2, 1, 0, 31);
}
int main(int c, char** v) { return mc::main_(c, v); }
