// C19 (and arena strings' part of C15): the string spaces on arena strings, and strings of two arenas.
#define HEAP_MAIN
#include "heap.hpp"
#include "astring.hpp"
#include "arena/arena.hpp"
#include <sstream>

namespace ares {
using stdb::memory::Arena;
struct Own { void* p; size_t n; int id; };
static std::vector<Own> given;
static Exact exact[2] = {Exact(0), Exact(1)};
static std::unique_ptr<Arena> arenas[2];
struct Blk { void* p; size_t n; };
static std::vector<Blk> blocks;
void* Exact::do_allocate(size_t n, size_t) {
    void* p = heap::get(n);
    if (!p) throw std::bad_alloc();
    given.push_back({p, n, id});
    return p;
}
static void* blk_alloc(size_t n) {
    uint64_t k = heap::allocs++;
    if (n > heap::limit || int64_t(k) == heap::fail_at) { ++heap::failed; return nullptr; }
    void* p = __real_malloc(n);
    blocks.push_back({p, n});
    return p;
}
static void blk_dealloc(void* p) {
    for (auto& b : blocks)
        if (b.p == p) { b = blocks.back(); blocks.pop_back(); __real_free(p); return; }
    mc::internal("unknown block");
}
struct Ledger : std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t) override {
        void* p = heap::get(n);
        if (!p) throw std::bad_alloc();
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t) override {
        int k = heap::find(p);
        if (k >= 0 && heap::live_[k].n != n) mc::fail("an allocation of %zu bytes was returned to the default memory resource as one of %zu", heap::live_[k].n, n);
        heap::put(p, "deallocation");
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Ledger ledger;
std::pmr::memory_resource* get(int id) {
    if (mode == 2) {
        std::pmr::set_default_resource(&ledger);
        heap::track = true;
        if (id == 0) return &ledger;
    }
    if (mode != 1) return &exact[id];
    if (!arenas[id]) {
        Arena::Options o = Arena::Options::GetDefaultOptions();
        o.normal_block_size = 1024;
        o.suggested_init_block_size = 512;
        o.huge_block_size = 8192;
        o.block_alloc = blk_alloc;
        o.block_dealloc = blk_dealloc;
        arenas[id].reset(new Arena(o));
    }
    return arenas[id]->get_memory_resource();
}
bool owns(const std::pmr::memory_resource* r, const void* p, size_t n) {
    auto* q = static_cast<const char*>(p);
    if (r == &ledger) return heap::contains(p, n);
    for (int id = 0; id < 2; ++id)
        if (r == &exact[id]) {
            for (auto& g : given)
                if (g.id == id && q >= static_cast<char*>(g.p) && q + n <= static_cast<char*>(g.p) + g.n) return true;
            return false;
        }
    for (int id = 0; id < 2; ++id)
        if (arenas[id] && r == arenas[id]->get_memory_resource())
            return arenas[id]->check(q) == stdb::memory::ArenaContainStatus::BlockUsed && arenas[id]->check(q + n - 1) == stdb::memory::ArenaContainStatus::BlockUsed;
    return false;
}
void drop(int id) {
    if (mode == 1) { arenas[id].reset(); return; }
    heap::check_all();
    for (size_t i = 0; i < given.size();)
        if (given[i].id == id) {
            int k = heap::find(given[i].p);
            if (k >= 0) heap::live_[k] = heap::live_[--heap::nlive];
            __real_free(given[i].p);
            given[i] = given.back();
            given.pop_back();
        } else ++i;
}
struct Forbidden : std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t) override { mc::fail("%zu bytes were taken from the default memory resource", n); }
    void do_deallocate(void*, size_t, size_t) override { mc::fail("memory was returned to the default memory resource"); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Forbidden forbidden;
void reset() {
    heap::track = false;
    std::pmr::set_default_resource(&forbidden);
    for (auto& g : given) __real_free(g.p);
    given.clear();
    heap::forget();
    arenas[0].reset();
    arenas[1].reset();
    heap::disarm();
}
}  // namespace ares

#ifndef DEFAULT_RESOURCE
// arena strings created in an arena, in objects of an arena and in pmr containers of it
static void created(const char* type) {
    using X = sl::ArenaX<1>;
    using S = X::S;
    using stdb::memory::Arena;
    mc::add("C19", std::string(type) + ": strings created in the arena and held by its containers", 601, [](uint64_t n) {
        auto* res = X::al().resource();
        Arena& arena = *ares::arenas[0];
        std::string m = sl::text<char>(3, n, false);
        auto* s = arena.Create<S>(m.c_str(), m.size());
        sl::World<X>::same(*s, m, "the created string", "Create");
        MC_CHECK(s->get_allocator().resource() == res, "the created string does not belong to its arena");
        auto* e = arena.Create<S>();
        sl::World<X>::same(*e, "", "the created empty string", "Create");
        switch (mc::choose(6)) {
            case 0: e->append(*s); break;
            case 1: *e = *s; break;
            case 2: for (char c : m) *e += c; break;
            case 3: { std::istringstream is(m); getline(is, *e, '\x01'); break; }
            case 4: { std::pmr::vector<S> v(res); v.emplace_back(m.data(), m.size()); v.emplace_back(); sl::World<X>::same(v[0], m, "the element", "emplace_back"); sl::World<X>::same(v[1], "", "the empty element", "emplace_back"); e->assign(v[0]); break; }
            case 5: e->swap(*s); { std::string t = std::string(*e); MC_CHECK(t == m, "conversion of the swapped string differs"); } break;
        }
        sl::World<X>::same(*e, m, "the string filled", "filling");
    });
}
#endif
void reg_exact(const std::string&);
void reg_arena(const std::string&);
void reg_default(const std::string&);
void mc_spaces(const std::string& prop) {
    mc::path_begin() = [] { ares::reset(); };
    heap::forbid_malloc = true;
#ifdef NDEBUG
    heap::round_up = true;
#endif
#ifdef DEFAULT_RESOURCE
    reg_default(prop);
#else
    reg_exact(prop);
    reg_arena(prop);
    if (prop == "C19") created("arena string, arena");
#endif
}
int main(int c, char** v) { return mc::main_(c, v); }
