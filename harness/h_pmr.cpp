// C07 (and the resource part of C04): standard pmr containers on an arena against the same containers on the heap.
#include <sanitizer/asan_interface.h>

#include <deque>
#include <list>
#include <map>
#include <memory_resource>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>

#include "arena/arena.hpp"
#include "mc.hpp"
using namespace stdb::memory;
using mc::choose;
static int P = 7;

static int counting = 0;
static uint64_t heap_calls = 0;
void* operator new(size_t n) { if (counting) ++heap_calls; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static int fail_after = -1;  // number of block requests that succeed before one fails (-1: all succeed)
static std::vector<void*>* blocks;
static void* blk_alloc(size_t n) {
    if (n > (1 << 20)) return nullptr;
    if (fail_after == 0) return nullptr;
    if (fail_after > 0) --fail_after;
    int c = counting;
    counting = 0;
    void* p = aligned_alloc(16, (n + 15) / 16 * 16);
    memset(p, 0xAB, n);
    blocks->push_back(p);
    counting = c;
    return p;
}
static void blk_dealloc(void* p) {
    int c = counting;
    counting = 0;
    std::erase(*blocks, p);
    free(p);
    counting = c;
}
static void quiet(const std::string&) {}
static Arena::Options opts(uint64_t init, uint64_t normal, uint64_t huge) {
    Arena::Options o{};
    o.normal_block_size = normal;
    o.huge_block_size = huge;
    o.suggested_init_block_size = init;
    o.block_alloc = blk_alloc;
    o.block_dealloc = blk_dealloc;
    o.logger_func = quiet;
    return o;
}
struct alignas(32) A32 { int v; A32(int x = 0) : v(x) {} bool operator==(const A32&) const = default; bool operator<(const A32& o) const { return v < o.v; } };
struct alignas(16) A16 { int v; A16(int x = 0) : v(x) {} bool operator==(const A16&) const = default; bool operator<(const A16& o) const { return v < o.v; } };

static void inside(Arena& a, const void* p, size_t n, size_t align, const char* what) {
    if (n == 0) return;
    auto* c = static_cast<const char*>(p);
    for (size_t off : {size_t(0), n / 2, n - 1})
        MC_CHECK(a.check(c + off) == ArenaContainStatus::BlockUsed, "%s: storage is not in the arena's used memory", what);
    MC_CHECK(size_t(p) % align == 0, "%s: storage at %p is not aligned to %zu", what, p, align);
}
template <class C>
static auto key(int i) {
    using V = typename C::value_type;
    if constexpr (std::is_same_v<V, char>) return V('a' + i);
    else if constexpr (std::is_same_v<V, std::pmr::string> || std::is_same_v<V, std::string>) return std::string(size_t(i) * 13 + 1, char('a' + i));
    else return V(i);
}
template <class PC, class SC>
struct Seq {  // vector / list / string like
    using PV = typename PC::value_type;
    static void verify(Arena& a, const PC& p, const SC& s, const char* what) {
        mc::step();
        MC_CHECK(p.size() == s.size(), "%s: size %zu, on the heap %zu", what, p.size(), s.size());
        auto i = p.begin();
        size_t k = 0;
        mc::Hash h;
        for (auto j = s.begin(); j != s.end(); ++i, ++j, ++k) {
            if constexpr (std::is_same_v<PV, std::pmr::string>) {
                MC_CHECK(std::string_view(*i) == std::string_view(*j), "%s: element %zu differs", what, k);
                inside(a, i->data(), i->size() + 1, 1, what);
                h.str(*j);
            } else {
                MC_CHECK(*i == *j, "%s: element %zu differs", what, k);
                if constexpr (requires { j->v; }) h.add(uint64_t(j->v)); else h.add(uint64_t(*j));
            }
            if constexpr (!std::is_same_v<PC, std::pmr::string>) inside(a, &*i, sizeof(PV), alignof(PV), what);
        }
        if constexpr (std::is_same_v<PC, std::pmr::string>) {
            if (p.capacity() > 15) inside(a, p.data(), p.size() + 1, 1, what);
        }
        mc::state(h.add(a.SpaceAllocated()).add(a.SpaceRemains()));
    }
    static constexpr int nops = 11;
    // other lives in another arena
    static void op(int o, PC& p, SC& s, PC& po, SC& so) {
        auto at = [](auto& c, size_t k) { auto i = c.begin(); std::advance(i, std::ptrdiff_t(k)); return i; };
        switch (o) {
            case 0: p.push_back(PV(key<PC>(1))); s.push_back(typename SC::value_type(key<SC>(1))); break;
            case 1: p.insert(at(p, p.size() / 2), PV(key<PC>(2))); s.insert(at(s, s.size() / 2), typename SC::value_type(key<SC>(2))); break;
            case 2: if (!s.empty()) { p.erase(at(p, s.size() / 2)); s.erase(at(s, s.size() / 2)); } break;
            case 3: p.resize(s.size() + 5, PV(key<PC>(3))); s.resize(s.size() + 5, typename SC::value_type(key<SC>(3))); break;
            case 4: p.clear(); s.clear(); break;
            case 5: p.insert(p.begin(), 9, PV(key<PC>(4))); s.insert(s.begin(), 9, typename SC::value_type(key<SC>(4))); break;
            case 6: p = po; s = so; break;
            case 7: p = std::move(po); s = so; po.clear(); so.clear(); break;
            case 8: if constexpr (requires { p.reserve(size_t(1)); }) { p.reserve(s.size() + 20); } else if constexpr (requires { p.sort(); }) { p.sort(); s.sort(); } break;
            case 9: if constexpr (requires { p.shrink_to_fit(); }) { p.shrink_to_fit(); } else { p.unique(); s.unique(); } break;
            case 10: po.push_back(PV(key<PC>(5))); so.push_back(typename SC::value_type(key<SC>(5))); break;
        }
    }
};
template <class PC, class SC>
struct Assoc {
    using PV = typename PC::value_type;
    static void verify(Arena& a, const PC& p, const SC& s, const char* what) {
        mc::step();
        MC_CHECK(p.size() == s.size(), "%s: size %zu, on the heap %zu", what, p.size(), s.size());
        mc::Hash h;
        for (auto& [k, v] : s) {
            auto it = p.find(k);
            MC_CHECK(it != p.end() && it->second == v, "%s: key %d differs", what, k);
            inside(a, &*it, sizeof(PV), alignof(PV), what);
            h.add(uint64_t(k)).add(uint64_t(v));
        }
        mc::state(h.add(a.SpaceAllocated()).add(a.SpaceRemains()));
    }
    static constexpr int nops = 9;
    static void op(int o, PC& p, SC& s, PC& po, SC& so) {
        auto both = [&](auto f) { f(p); f(s); };
        switch (o) {
            case 0: both([](auto& c) { c[1] += 5; }); break;
            case 1: both([](auto& c) { c.insert({2, 7}); }); break;
            case 2: both([](auto& c) { c.erase(1); }); break;
            case 3: both([](auto& c) { for (int i = 0; i < 12; ++i) c[i * 3] = i; }); break;
            case 4: both([](auto& c) { c.clear(); }); break;
            case 5: both([](auto& c) { c[3] = 9; c.erase(6); }); break;
            case 6: p = po; s = so; break;
            case 7: p = std::move(po); s = so; po.clear(); so.clear(); break;
            case 8: po[8] = 8; so[8] = 8; break;
        }
    }
};
template <class T, class PC, class SC>
static void container_space(const char* name) {
    mc::add("C07", name, uint64_t(T::nops) * 3 * 2, [name](uint64_t t) {
        std::vector<void*> bl;
        blocks = &bl;
        fail_after = -1;
        P = 7;
        static const uint64_t cfg[3][3] = {{128, 128, 1024}, {256, 512, 2048}, {4096, 4096, 1 << 16}};
        auto& c = cfg[t % 3];
        t /= 3;
        bool in_arena = t % 2;
        t /= 2;
        {
            Arena a(opts(c[0], c[1], c[2])), b(opts(c[0], c[1], c[2]));
            SC s, so;
            heap_calls = 0;
            PC local(a.get_memory_resource()), other(b.get_memory_resource());
            PC* p = &local;
            if (in_arena) {
                p = a.Create<PC>();
                MC_CHECK(p != nullptr, "Create failed");
                inside(a, p, sizeof(PC), alignof(PC), name);
                MC_CHECK(a.cleanups() == 1, "a container created in the arena registers %lu cleanups", a.cleanups());
            }
            MC_NOTE("arena(init %lu, normal %lu), container %s", c[0], c[1], in_arena ? "created in the arena" : "local");
            int depth = mc::thorough() ? 5 : 4;
            int o = int(t);
            for (int i = 0; i < depth; ++i) {
                MC_NOTE("operation %d", o);
                counting = 1;
                uint64_t h0 = heap_calls;
                // the heap twin allocates too: only the container in the arena may be counted, so run it through a probe
                (void)h0;
                T::op(o, *p, s, other, so);
                counting = 0;
                T::verify(a, *p, s, name);
                T::verify(b, other, so, "container in the other arena");
                if (i + 1 < depth) {
                    o = choose(T::nops + 1);
                    if (o == T::nops) break;
                }
            }
            p = nullptr;
        }
        MC_CHECK(bl.empty(), "%zu blocks not returned", bl.size());
    });
}
// grown to many elements, with usual block sizes too
template <class T, class PC, class SC>
static void long_space(const char* name) {
    static const std::vector<int> counts = [] {
        std::vector<int> v;
        for (int n = mc::thorough() ? 10 : 25; n <= 400; n += mc::thorough() ? 3 : 25) v.push_back(n);
        for (int n : {511, 512, 513, 1000, 1500}) v.push_back(n);
        if (mc::thorough()) for (int n : {2000, 4096, 5000}) v.push_back(n);
        return v;
    }();
    mc::add("C07", std::string("many elements, ") + name, counts.size() * 4, [name](uint64_t t) {
        std::vector<void*> bl;
        blocks = &bl;
        fail_after = -1;
        P = 7;
        static const uint64_t cfg[4][3] = {{128, 128, 1024}, {256, 512, 2048}, {4096, 4096, 2 << 20}, {64, 16384, 65536}};
        auto& c = cfg[t % 4];
        int n = counts[t / 4];
        {
            Arena a(opts(c[0], c[1], c[2])), b(opts(c[0], c[1], c[2]));
            SC s, so;
            PC other(b.get_memory_resource());
            PC* p = a.Create<PC>();
            MC_CHECK(p != nullptr, "Create failed");
            int kind = choose(3);
            MC_NOTE("%d elements, way %d", n, kind);
            auto put = [&](int i) {
                using V = typename SC::value_type;
                if constexpr (requires { p->push_back(*p->begin()); }) {
                    using PV = typename PC::value_type;
                    if constexpr (std::is_same_v<PV, std::pmr::string>) {
                        std::string x(size_t(i * 7 % 90), char('a' + i % 26));
                        p->push_back(PV(x)); s.push_back(x);
                    } else {
                        int x = std::is_same_v<PV, char> ? 'a' + i % 26 : i;
                        p->push_back(PV(x)); s.push_back(V(x));
                    }
                } else {
                    int k = kind == 1 ? 100000 - i : i * 7919 % 100003;
                    (*p)[k] = i; s[k] = i;
                }
            };
            for (int i = 0; i < n; ++i) {
                put(i);
                if (kind == 2 && i % 5 == 4) T::op(2, *p, s, other, so);
                if (kind == 2 && i % 40 == 17) T::op(5, *p, s, other, so);
            }
            T::verify(a, *p, s, name);
            T::op(choose(T::nops), *p, s, other, so);
            T::verify(a, *p, s, name);
            for (int i = 0; i < 30; ++i) put(n + i);
            T::verify(a, *p, s, name);
            other = *p;
            so = s;
            T::verify(b, other, so, "a copy in another arena");
        }
        MC_CHECK(bl.empty(), "%zu blocks not returned", bl.size());
    });
}
// nothing of a container on the arena comes from the heap
template <class PC, class F>
static void no_heap(const char* what, F f) {
    std::vector<void*> bl;
    bl.reserve(100);
    blocks = &bl;
    {
        Arena a(opts(128, 256, 1024));
        heap_calls = 0;
        counting = 1;
        {
            PC c(a.get_memory_resource());
            f(c);
        }
        counting = 0;
        MC_CHECK(heap_calls == 0, "%s: %lu allocations went to the global heap", what, heap_calls);
    }
    mc::step();
}
struct Chk { uint64_t mem_before; };

void mc_spaces(const std::string&) {
    container_space<Seq<std::pmr::vector<int>, std::vector<int>>, std::pmr::vector<int>, std::vector<int>>("vector<int>");
    container_space<Seq<std::pmr::string, std::string>, std::pmr::string, std::string>("string");
    container_space<Seq<std::pmr::list<int>, std::list<int>>, std::pmr::list<int>, std::list<int>>("list<int>");
    container_space<Seq<std::pmr::vector<A32>, std::vector<A32>>, std::pmr::vector<A32>, std::vector<A32>>("vector<aligned 32>");
    container_space<Seq<std::pmr::list<A16>, std::list<A16>>, std::pmr::list<A16>, std::list<A16>>("list<aligned 16>");
    container_space<Seq<std::pmr::vector<std::pmr::string>, std::vector<std::string>>, std::pmr::vector<std::pmr::string>, std::vector<std::string>>("vector<pmr::string>");
    container_space<Assoc<std::pmr::map<int, int>, std::map<int, int>>, std::pmr::map<int, int>, std::map<int, int>>("map<int,int>");
    container_space<Assoc<std::pmr::unordered_map<int, int>, std::unordered_map<int, int>>, std::pmr::unordered_map<int, int>, std::unordered_map<int, int>>("unordered_map<int,int>");
    container_space<Seq<std::pmr::deque<std::pmr::string>, std::deque<std::string>>, std::pmr::deque<std::pmr::string>, std::deque<std::string>>("deque<pmr::string>");
    container_space<Seq<std::pmr::deque<A16>, std::deque<A16>>, std::pmr::deque<A16>, std::deque<A16>>("deque<aligned 16>");
    long_space<Seq<std::pmr::vector<int>, std::vector<int>>, std::pmr::vector<int>, std::vector<int>>("vector<int>");
    long_space<Seq<std::pmr::string, std::string>, std::pmr::string, std::string>("string");
    long_space<Seq<std::pmr::list<int>, std::list<int>>, std::pmr::list<int>, std::list<int>>("list<int>");
    long_space<Seq<std::pmr::vector<A32>, std::vector<A32>>, std::pmr::vector<A32>, std::vector<A32>>("vector<aligned 32>");
    long_space<Seq<std::pmr::list<A16>, std::list<A16>>, std::pmr::list<A16>, std::list<A16>>("list<aligned 16>");
    long_space<Seq<std::pmr::vector<std::pmr::string>, std::vector<std::string>>, std::pmr::vector<std::pmr::string>, std::vector<std::string>>("vector<pmr::string>");
    long_space<Assoc<std::pmr::map<int, int>, std::map<int, int>>, std::pmr::map<int, int>, std::map<int, int>>("map<int,int>");
    long_space<Assoc<std::pmr::unordered_map<int, int>, std::unordered_map<int, int>>, std::pmr::unordered_map<int, int>, std::unordered_map<int, int>>("unordered_map<int,int>");
    long_space<Seq<std::pmr::deque<std::pmr::string>, std::deque<std::string>>, std::pmr::deque<std::pmr::string>, std::deque<std::string>>("deque<pmr::string>");
    long_space<Seq<std::pmr::deque<A16>, std::deque<A16>>, std::pmr::deque<A16>, std::deque<A16>>("deque<aligned 16>");
    mc::add("C07", "no heap use", 64, [](uint64_t t) {
        fail_after = -1;
        int n = int(t) * 3 + 1;
        no_heap<std::pmr::vector<int>>("vector", [&](auto& c) { for (int i = 0; i < n; ++i) c.push_back(i); auto d = std::pmr::vector<int>(c, c.get_allocator()); d.resize(size_t(n) / 2); d.shrink_to_fit(); });
        no_heap<std::pmr::string>("string", [&](auto& c) { for (int i = 0; i < n; ++i) c.append("xyz"); });
        no_heap<std::pmr::list<int>>("list", [&](auto& c) { for (int i = 0; i < n; ++i) c.push_front(i); });
        no_heap<std::pmr::map<int, int>>("map", [&](auto& c) { for (int i = 0; i < n; ++i) c[i] = i; });
        no_heap<std::pmr::vector<std::pmr::string>>("vector<string>", [&](auto& c) { for (int i = 0; i < n; ++i) c.emplace_back("a string that does not fit in place"); });
        mc::state(t);
    });
    // raw resource: allocation sizes and alignments, deallocation is a no-op, equality
    mc::add("C07", "resource: allocate, deallocate, equality", 40, [](uint64_t t) {
        std::vector<void*> bl;
        blocks = &bl;
        fail_after = -1;
        {
            Arena a(opts(128, 256, 1024)), b(opts(128, 256, 1024));
            auto* r = a.get_memory_resource();
            auto* q = b.get_memory_resource();
            auto copy = *r;
            Arena::memory_resource fresh(&a), freshb(&b);
            std::pmr::memory_resource* all[] = {r, &copy, &fresh, q, &freshb, std::pmr::new_delete_resource(), std::pmr::null_memory_resource()};
            int serves[] = {0, 0, 0, 1, 1, 2, 3};
            for (int i = 0; i < 7; ++i)
                for (int j = 0; j < 7; ++j)
                    MC_CHECK((*all[i] == *all[j]) == (serves[i] == serves[j]) && (*all[i] != *all[j]) == (serves[i] != serves[j]), "resources %d and %d compare wrongly", i, j);
            MC_CHECK(r->get_arena() == &a && copy.get_arena() == &a && q->get_arena() == &b, "get_arena");
            (void)a.AllocateAligned(t * 5);
            struct X { char* p; size_t n, al; unsigned char pat; };
            std::vector<X> live;
            for (int i = 0; i < 3; ++i) {
                static const size_t sizes[] = {0, 1, 24, 63, 200, 255, 256, 257, 900, 1024, 1500, 5000}, als[] = {1, 2, 8, 16, 32};
                size_t n = sizes[choose(i ? 12 : 6)], al = i == 0 ? als[choose(5)] : i == 1 ? als[choose(3) * 2] : 8;
                std::pmr::memory_resource* via = i == 1 ? static_cast<std::pmr::memory_resource*>(&fresh) : r;
                char* p = static_cast<char*>(via->allocate(n, al));
                MC_NOTE("allocate(%zu, %zu)", n, al);
                mc::step();
                MC_CHECK(size_t(p) % al == 0, "resource.allocate(%zu, %zu) = %p", n, al, p);
                inside(a, p, n, al, "resource");
                memset(p, i + 1, n);
                live.push_back({p, n, al, (unsigned char)(i + 1)});
                uint64_t s = a.SpaceAllocated(), m = a.SpaceRemains(), k = bl.size();
                int which = i == 1 ? choose(2) : i == 2 && t % 2;  // the newest or the first again
                via->deallocate(which ? live[0].p : p, which ? live[0].n : n, which ? live[0].al : al);
                MC_CHECK(a.SpaceAllocated() == s && a.SpaceRemains() == m && bl.size() == k, "deallocate changed the arena");
                for (auto& x : live) {
                    inside(a, x.p, x.n, x.al, "after deallocate");
                    for (size_t z = 0; z < x.n; ++z) MC_CHECK((unsigned char)x.p[z] == x.pat, "deallocate changed memory");
                }
                mc::state(mc::Hash().add(t).add(a.SpaceAllocated()).add(a.SpaceRemains()));
            }
        }
        MC_CHECK(bl.empty(), "blocks not returned");
    });
    // objects created in the arena whose storage moves on to later blocks: destroyed and reset while all of it is valid
    mc::add("C02", "containers created in the arena outgrow their block", 40 * 2, [](uint64_t t) {
        std::vector<void*> bl;
        blocks = &bl;
        fail_after = -1;
        P = 2;
        int n = int(t / 2) * 2;
        {
            Arena a(opts(256, 256, 1024));
            for (int round = 0; round < 2; ++round) {
                auto* m = a.Create<std::pmr::map<int, int>>();
                auto* l = a.Create<std::pmr::list<std::pmr::string>>();
                auto* v = a.Create<std::pmr::vector<std::pmr::string>>();
                int which = choose(4);
                for (int i = 0; i < n; ++i) {
                    if (which == 0 || which == 3) (*m)[i] = i;
                    if (which == 1 || which == 3) l->emplace_back("a string that does not fit in place");
                    if (which == 2 || which == 3) v->emplace_back("a string that does not fit in place");
                }
                MC_NOTE("three containers with %d elements (kind %d), then %s", n, which, t % 2 ? "reset" : "more");
                MC_CHECK(a.cleanups() == (t % 2 ? 3u : 3u * unsigned(round + 1)), "cleanups() = %lu", a.cleanups());
                mc::step();
                mc::state(mc::Hash().add(t).add(uint64_t(which)).add(a.SpaceRemains()));
                if (t % 2) { a.Reset(); MC_CHECK(a.cleanups() == 0, "cleanups left after reset"); }
            }
        }
        MC_CHECK(bl.empty(), "blocks not returned");
    });
    // block allocation failures seen through the resource
    mc::add("C04", "block failures seen by containers", 60, [](uint64_t t) {
        std::vector<void*> bl;
        blocks = &bl;
        P = 4;
        {
            Arena a(opts(128, 192, 1024));
            fail_after = int(t % 6);
            int kind = int(t / 6) % 2;
            int n = 10 + int(t / 12) * 10;
            MC_NOTE("block request %d fails, %s of %d elements", int(t % 6), kind ? "list" : "vector", n);
            bool thrown = false;
            auto go = [&](auto& c) {
                int done = 0;
                for (int i = 0; i < n && !thrown; ++i) {
                    try { c.push_back(i); ++done; } catch (std::bad_alloc&) { thrown = true; }
                    mc::step();
                    MC_CHECK(int(c.size()) == done, "a refused push_back changed the size");
                    int k = 0;
                    for (int x : c) MC_CHECK(x == k++, "a refused push_back changed the contents");
                }
                uint64_t s = 0;
                (void)s;
                fail_after = -1;
                c.push_back(done);
                MC_CHECK(int(c.size()) == done + 1 && c.back() == done, "request after the failure is not served");
            };
            if (kind) { std::pmr::list<int> c(a.get_memory_resource()); go(c); }
            else { std::pmr::vector<int> c(a.get_memory_resource()); go(c); }
            mc::state(mc::Hash().add(t).add(thrown));
        }
        fail_after = -1;
        MC_CHECK(bl.empty(), "blocks not returned");
    });
}
int main(int c, char** v) { return mc::main_(c, v); }
