// C10: threads with arenas of their own report their metrics at the same time; every interleaving of their atomic operations and
// locks within a preemption bound, every unordered pair of accesses detected.
#include <cstring>
#include <map>
#include <new>
#include <string>

#include "arena/arena.hpp"
#include "arena/metrics.hpp"
#include "mc.hpp"
#include "thr.hpp"
using namespace stdb::memory;

struct Sum {
    uint64_t v[9] = {}, size_b[8] = {}, life_b[8] = {};
    std::map<std::string, uint64_t> site;
};
template <class M> static Sum figures(const M& m) {
    Sum s;
    const uint64_t v[9] = {m.init_count, m.destruct_count, m.alloc_count, m.newblock_count, m.reset_count, m.space_allocated, m.space_resettled, m.space_used, m.space_wasted};
    for (int i = 0; i < 9; ++i) s.v[i] = v[i];
    for (size_t i = 0; i < 8; ++i) { s.size_b[i] = m.alloc_size_bucket_counter.at(i); s.life_b[i] = m.destruct_lifetime_bucket_counter.at(i); }
    for (auto& [k, c] : m.arena_alloc_counter) s.site[k] = c;
    return s;
}
static void add(Sum& a, const Sum& b) {
    for (int i = 0; i < 9; ++i) a.v[i] += b.v[i];
    for (int i = 0; i < 8; ++i) { a.size_b[i] += b.size_b[i]; a.life_b[i] += b.life_b[i]; }
    for (auto& [k, c] : b.site) a.site[k] += c;
}
static const boost::source_location sites[4] = {{"a.cc", 10, "f"}, {"b.cc", 10, "g"}, {"a-file-with-a-long-name-beyond-the-small-string.cc", 123, "h"}, {"d.cc", 4, "d"}};
static Sum reported[4];
struct One { Sum s; bool must, gone; };  // one report; must: no reset can have discarded it; gone: a reset of the same thread followed it
static std::vector<One> ones[4];
static bool resets[4];
static std::string text[4];

// an arena's life without the arena: the probes alone
static void life(int site, uint64_t size) {
    void* c = metrics_probe_on_arena_init(nullptr, sites[site]);
    metrics_probe_on_arena_newblock(1, 256, c);
    metrics_probe_on_arena_allocation(nullptr, size, c);
    metrics_probe_on_arena_reset(nullptr, c, size, 3);
    metrics_probe_on_arena_destruction(nullptr, c, size, 5);
}
static thread_local int my_site;
static void* init_hook(Arena* a, const boost::source_location&) { return metrics_probe_on_arena_init(a, sites[my_site]); }
static void alloc_hook(const std::type_info* t, uint64_t n, void* c) { metrics_probe_on_arena_allocation(t, n, c); }
static void block_hook(uint64_t k, uint64_t n, void* c) { metrics_probe_on_arena_newblock(k, n, c); }
static void reset_hook(Arena* a, void* c, uint64_t u, uint64_t w) { metrics_probe_on_arena_reset(a, c, u, w); }
static void* end_hook(Arena* a, void* c, uint64_t u, uint64_t w) { return metrics_probe_on_arena_destruction(a, c, u, w); }
// a real arena used by this thread only
static void arena_life(int site) {
    Arena::Options o = Arena::Options::GetDefaultOptions();
    o.normal_block_size = 256;
    o.huge_block_size = 1024;
    o.suggested_init_block_size = 256;
    o.on_arena_init = init_hook;
    o.on_arena_allocation = alloc_hook;
    o.on_arena_newblock = block_hook;
    o.on_arena_reset = reset_hook;
    o.on_arena_destruction = end_hook;
    my_site = site;
    Arena a(o);
    char* p = a.AllocateAligned(100);
    char* q = a.AllocateAligned(300);
    MC_CHECK(p && q, "allocation failed");
    *p = *q = 1;
    a.Create<uint64_t>(5);
    a.Reset();
    a.AllocateAligned(10);
}
// everything an arena can do, in one used by this thread only
struct Clean {
    ArenaFullManagedTag;
    int* n;
    explicit Clean(int* c) : n(c) {}
    ~Clean() { ++*n; }
};
static void everything(int site) {
    Arena::Options o = Arena::Options::GetDefaultOptions();
    o.normal_block_size = 512;
    o.huge_block_size = 2048;
    o.suggested_init_block_size = 256;
    o.on_arena_init = init_hook;
    o.on_arena_allocation = alloc_hook;
    o.on_arena_newblock = block_hook;
    o.on_arena_reset = reset_hook;
    o.on_arena_destruction = end_hook;
    my_site = site;
    int gone = 0;
    {
        Arena first(o);
        for (int i = 0; i < 3; ++i) MC_CHECK(first.Create<Clean>(&gone), "allocation failed");
        Arena a(std::move(first));
        MC_CHECK(a.CreateArray<int>(100) && a.AllocateAligned(3000) && a.AllocateAlignedAndAddCleanup(24, [](void* p) { ++*static_cast<int*>(p); }, &gone), "allocation failed");
        int* own = new int(0);
        MC_CHECK(a.Own(own), "own failed");
        auto* res = a.get_memory_resource();
        for (int i = 0; i < 4; ++i) res->deallocate(res->allocate(size_t(40 + i * 300), 8), size_t(40 + i * 300), 8);
        (void)a.check(reinterpret_cast<const char*>(own));
        a.Reset();
        MC_CHECK(gone == 4, "%d cleanups ran, expected 4", gone);
        a.Create<Clean>(&gone);
        for (int i = 0; i < 6; ++i) a.AllocateAligned(200);
        (void)(a.SpaceAllocated() + a.SpaceRemains());
    }
    MC_CHECK(gone == 5, "%d cleanups ran, expected 5", gone);
}
// lives at many sites, half of them those of the other thread
static void many(int me) {
    static const char* file[] = {"f0", "f1", "f2", "f3"};
    for (int i = 0; i < 24; ++i) {
        void* c = metrics_probe_on_arena_init(nullptr, boost::source_location(file[i % 2 ? 0 : me], uint_least32_t(i + 1), "f"));
        metrics_probe_on_arena_allocation(nullptr, uint64_t(i * 100 + me), c);
        metrics_probe_on_arena_destruction(nullptr, c, 1, 2);
    }
}
static void report(int me) {
    add(reported[me], figures(local_arena_metrics));
    bool others = false;
    for (int i = 0; i < 4; ++i) if (i != me && resets[i]) others = true;
    ones[me].push_back({figures(local_arena_metrics), !others, false});
    local_arena_metrics.report_to_global_metrics();
}
static void reset_all(int me) {
    for (auto& o : ones[me]) o.gone = true;
    global_arena_metrics.reset();
}
// What a thread does, written as a word: 0..3 an arena's life at that site, r report, A/B a real arena at site 0/1, C/D one which does everything, m lives at 24 sites, t render the text, z reset the process-wide metrics
static void act(int me, const char* word) {
    for (; *word; ++word) {
        char c = *word;
        if (c == 'r') report(me);
        else if (c == 'A' || c == 'B') arena_life(c - 'A');
        else if (c == 'C' || c == 'D') everything(c - 'C');
        else if (c == 'm') many(me);
        else if (c == 't') text[me] = global_arena_metrics.string();
        else if (c == 'z') reset_all(me);
        else life(c - '0', uint64_t(60 + c + me));
    }
}
static void scenario(const std::vector<const char*>& words, int bound, bool known_sites) {
    global_arena_metrics.~GlobalArenaMetrics();
    new (&global_arena_metrics) GlobalArenaMetrics();
    local_arena_metrics.reset();
    for (auto& r : reported) r = Sum();
    for (auto& o : ones) o.clear();
    bool cleared = false;
    for (size_t i = 0; i < 4; ++i) { resets[i] = i && i <= words.size() && strchr(words[i - 1], 'z'); cleared |= resets[i]; }
    Sum want;
    if (known_sites) {  // sites 0 and 2 were reported before
        life(0, 1000);
        life(2, 2000);
        add(want, figures(local_arena_metrics));
        if (cleared) ones[0].push_back({figures(local_arena_metrics), false, true});
        local_arena_metrics.report_to_global_metrics();
    }
    std::vector<std::function<void()>> b;
    for (size_t i = 0; i < words.size(); ++i) {
        MC_NOTE("thread %zu: %s", i + 1, words[i]);
        b.push_back([w = words[i], i] { act(int(i) + 1, w); });
    }
    thr::run(b, bound);
    for (auto& r : reported) add(want, r);
    Sum got = figures(global_arena_metrics);
    if (cleared) {
        // every figure is the sum of some of the reports, whole ones
        std::vector<const One*> all;
        for (auto& l : ones) for (auto& o : l) all.push_back(&o);
        auto some = [&](const char* what, int k, uint64_t g, auto&& get) {
            for (unsigned m = 0; m < 1u << all.size(); ++m) {
                uint64_t s = 0;
                bool ok = true;
                for (size_t i = 0; i < all.size(); ++i) {
                    bool in = m >> i & 1;
                    if (in ? all[i]->gone : all[i]->must && !all[i]->gone) ok = false;
                    if (in) s += get(all[i]->s);
                }
                if (ok && s == g) return;
            }
            MC_CHECK(false, "process-wide %s %d is %lu, which is no sum of reports that the resets may have left", what, k, g);
        };
        for (int i = 0; i < 9; ++i) some("figure", i, got.v[i], [i](const Sum& s) { return s.v[i]; });
        for (int i = 0; i < 8; ++i) {
            some("size bucket", i, got.size_b[i], [i](const Sum& s) { return s.size_b[i]; });
            some("lifetime bucket", i, got.life_b[i], [i](const Sum& s) { return s.life_b[i]; });
        }
        std::map<std::string, uint64_t> keys = got.site;
        for (auto& o : all) for (auto& [k, v] : o->s.site) keys[k];
        for (auto& [k, v] : keys) some(k.c_str(), 0, got.site.count(k) ? got.site[k] : 0, [&k](const Sum& s) { auto i = s.site.find(k); return i == s.site.end() ? 0 : i->second; });
        mc::Hash h;
        for (auto x : words) h.str(x);
        for (int i = 0; i < 9; ++i) h.add(got.v[i]);
        for (auto& [k, v] : got.site) h.str(k).add(v);
        mc::state(h);
        return;
    }
    static const char* name[] = {"init_count", "destruct_count", "alloc_count", "newblock_count", "reset_count", "space_allocated", "space_resettled", "space_used", "space_wasted"};
    for (int i = 0; i < 9; ++i) MC_CHECK(got.v[i] == want.v[i], "process-wide %s is %lu, the threads reported %lu in total", name[i], got.v[i], want.v[i]);
    for (int i = 0; i < 8; ++i) {
        MC_CHECK(got.size_b[i] == want.size_b[i], "process-wide size bucket %d is %lu, the threads reported %lu in total", i, got.size_b[i], want.size_b[i]);
        MC_CHECK(got.life_b[i] == want.life_b[i], "process-wide lifetime bucket %d is %lu, the threads reported %lu in total", i, got.life_b[i], want.life_b[i]);
    }
    for (auto& [k, v] : want.site) MC_CHECK(got.site.count(k) && got.site[k] == v, "process-wide bytes of site %s are %lu, the threads reported %lu in total", k.c_str(), got.site.count(k) ? got.site[k] : 0, v);
    for (auto& [k, v] : got.site) MC_CHECK(want.site.count(k) || v == 0, "process-wide bytes of site %s which no thread reported", k.c_str());
    mc::Hash h;
    for (auto x : words) h.str(x);
    for (auto& [k, v] : got.site) h.str(k).add(v);
    for (int i = 0; i < 9; ++i) h.add(got.v[i]);
    for (auto& t : text) h.str(t);
    mc::state(h);
}
void mc_spaces(const std::string&) {
    // the position of the first choices is part of the task number only through the scenario; schedules are enumerated inside
    auto pairs = [](const char* name, std::vector<const char*> w, int bound, bool both) {
        size_t n = w.size();
        mc::add("C10", name, n * n * (both ? 2 : 1), [=](uint64_t t) {
            bool known = t >= n * n;
            scenario({w[t % n], w[t / n % n]}, bound, known);
        });
    };
    bool th = mc::thorough();
    pairs("two threads reporting", {"0r", "1r", "2r", "01r", "r", "0r0r", "0r1r", "10r", "3r", "012r"}, th ? 3 : 2, true);
    pairs("two threads with arenas of their own", {"Ar", "Br", "ABr", "A"}, th ? 3 : 2, true);
    pairs("two threads, text rendered meanwhile", {"0r", "01r", "t", "rt", "1rt"}, th ? 2 : 1, true);
    pairs("two threads using all of their own arenas", {"Cr", "Dr", "CDr", "C"}, 2, true);
    pairs("two threads reporting many sites", {"mr", "0r", "mrmr", "t", "Dmr"}, 1, true);
    std::vector<const char*> z = {"z", "0rz", "z1r", "0r1rz", "0r", "01r", "0rz1r", "t"};
    mc::add("C10", "two threads, process-wide metrics reset meanwhile", 64 * 2, [=](uint64_t t) { if (strchr(z[t % 8], 'z') || strchr(z[t / 8 % 8], 'z')) scenario({z[t % 8], z[t / 8 % 8]}, th ? 2 : 1, t >= 64); });
    std::vector<const char*> w = {"0r", "1r", "01r", "t"};
    mc::add("C10", "three threads reporting", 64 * 2, [=](uint64_t t) { scenario({w[t % 4], w[t / 4 % 4], w[t / 16 % 4]}, th ? 2 : 1, t >= 64); });
}
int main(int c, char** v) { return mc::main_(c, v); }
