// C09, C11: arena metrics against a model that sums the observed events; text rendering for every counter state.
#include <map>
#include <sstream>

#include "arena/arena.hpp"
#include "arena/metrics.hpp"
#include "mc.hpp"
using namespace stdb::memory;
using mc::choose;

// the clock is the explorer's
static int64_t clock_ns = 1000000000;
extern "C" std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
    return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(clock_ns));
}

struct M {
    uint64_t init = 0, destruct = 0, alloc = 0, newblock = 0, reset = 0, allocated = 0, resettled = 0, used = 0, wasted = 0;
    uint64_t size_b[8] = {}, life_b[8] = {};
    std::map<std::string, uint64_t> site;
};
static M loc, glob;
static const uint64_t size_bounds[8] = {64, 128, 256, 512, 1024, 2048, 4096, 1 << 20};
static const uint64_t life_bounds[8] = {1, 5, 10, 50, 100, 200, 500, 1000};

template <class T>
static void same(const T& t, const M& m, const char* who, const char* when) {
#define F(f, g) MC_CHECK(uint64_t(t.f) == m.g, "after %s, %s metrics: " #f " = %lu, events observed total %lu", when, who, uint64_t(t.f), m.g)
    F(init_count, init); F(destruct_count, destruct); F(alloc_count, alloc); F(newblock_count, newblock); F(reset_count, reset);
    F(space_allocated, allocated); F(space_resettled, resettled); F(space_used, used); F(space_wasted, wasted);
#undef F
    for (size_t i = 0; i < 8; ++i) {
        MC_CHECK(uint64_t(t.alloc_size_bucket_counter.at(i)) == m.size_b[i], "after %s, %s metrics: size bucket %zu = %lu, expected %lu", when, who, i, uint64_t(t.alloc_size_bucket_counter.at(i)), m.size_b[i]);
        MC_CHECK(uint64_t(t.destruct_lifetime_bucket_counter.at(i)) == m.life_b[i], "after %s, %s metrics: lifetime bucket %zu = %lu, expected %lu", when, who, i,
                 uint64_t(t.destruct_lifetime_bucket_counter.at(i)), m.life_b[i]);
    }
    for (auto& [k, v] : m.site) {
        auto it = t.arena_alloc_counter.find(k);
        uint64_t got = it == t.arena_alloc_counter.end() ? 0 : uint64_t(it->second);
        MC_CHECK(got == v, "after %s, %s metrics: bytes of site %s = %lu, expected %lu", when, who, k.c_str(), got, v);
    }
    for (auto& [k, v] : t.arena_alloc_counter)
        if (uint64_t(v) != 0) MC_CHECK(m.site.count(k), "after %s, %s metrics: site %s never allocated", when, who, k.c_str());
}
static bool c11 = false;
static void verify(const char* when) {
    mc::step();
    if (c11) return;
    same(local_arena_metrics, loc, "the thread's", when);
    same(global_arena_metrics, glob, "the process-wide", when);
    mc::Hash h;
    for (auto* m : {&loc, &glob}) {
        h.add(m->init).add(m->destruct).add(m->alloc).add(m->newblock).add(m->reset).add(m->allocated).add(m->used).add(m->wasted).add(m->resettled);
        for (auto& [k, v] : m->site) h.str(k).add(v);
        for (int i = 0; i < 8; ++i) h.add(m->life_b[i]);
    }
    mc::state(h);
}
static void add(M& a, const M& b) {
    a.init += b.init; a.destruct += b.destruct; a.alloc += b.alloc; a.newblock += b.newblock; a.reset += b.reset;
    a.allocated += b.allocated; a.resettled += b.resettled; a.used += b.used; a.wasted += b.wasted;
    for (int i = 0; i < 8; ++i) { a.size_b[i] += b.size_b[i]; a.life_b[i] += b.life_b[i]; }
    for (auto& [k, v] : b.site) a.site[k] += v;
}
// recording hooks in front of the probes
static const boost::source_location sites[3] = {{"a.cc", 10, "f"}, {"a.cc", 11, "f"}, {"b.cc", 10, "g"}};
static const char* site_names[3] = {"a.cc:10", "a.cc:11", "b.cc:10"};
static int cur_site;
static boost::source_location cur_loc;
struct Slot { Arena* a = nullptr; int site; int64_t born; void* cookie; std::string name; };
static constexpr int kSlots = 1200;
static Slot slot[kSlots];
static int nslots;  // used on this path
static int cur;  // slot of the arena being operated on
static void* h_init(Arena* a, const boost::source_location&) {
    ++loc.init;
    return slot[cur].cookie = metrics_probe_on_arena_init(a, cur_loc);
}
static void m_alloc(uint64_t n, const std::string& site) {
    ++loc.alloc;
    loc.allocated += n;
    for (int i = 0; i < 8; ++i) if (n <= size_bounds[i]) { ++loc.size_b[i]; break; }
    loc.site[site] += n;
}
static void m_life(int64_t ns) {
    for (int i = 0; i < 8; ++i) if (ns <= int64_t(life_bounds[i]) * 1000000) { ++loc.life_b[i]; break; }
}
static void h_alloc(const std::type_info* t, uint64_t n, void* c) { m_alloc(n, slot[cur].name); metrics_probe_on_arena_allocation(t, n, c); }
static void h_blk(uint64_t k, uint64_t n, void* c) { ++loc.newblock; metrics_probe_on_arena_newblock(k, n, c); }
static void h_reset(Arena* a, void* c, uint64_t u, uint64_t w) { ++loc.reset; loc.resettled += u; loc.wasted += w; metrics_probe_on_arena_reset(a, c, u, w); }
static void* h_dtor(Arena* a, void* c, uint64_t u, uint64_t w) {
    ++loc.destruct; loc.used += u; loc.wasted += w;
    m_life(clock_ns - slot[cur].born);
    return metrics_probe_on_arena_destruction(a, c, u, w);
}
static void fresh() {
    local_arena_metrics = LocalArenaMetrics();
    global_arena_metrics.reset();
    global_arena_metrics.arena_alloc_counter.clear();
    loc = M();
    glob = M();
    clock_ns = 1000000000;
    for (int i = 0; i < std::max(nslots, 2); ++i) slot[i] = Slot();
    nslots = 0;
}
static Arena* make_at(int k, const boost::source_location& where, const std::string& name) {
    Arena::Options o = Arena::Options::GetDefaultOptions();
    o.normal_block_size = 256;
    o.huge_block_size = 1024;
    o.suggested_init_block_size = 256;
    o.on_arena_init = h_init;
    o.on_arena_allocation = h_alloc;
    o.on_arena_newblock = h_blk;
    o.on_arena_reset = h_reset;
    o.on_arena_destruction = h_dtor;
    cur = k;
    cur_loc = where;
    slot[k].name = name;
    slot[k].born = clock_ns;
    slot[k].a = new Arena(o);
    nslots = std::max(nslots, k + 1);
    return slot[k].a;
}
static Arena* make(int k, int site) {
    cur_site = site;
    slot[k].site = site;
    return make_at(k, sites[site], site_names[site]);
}
struct T24 { uint64_t a, b, c; };
static const char* op_name[] = {"create at a.cc:10", "create at a.cc:11", "create at b.cc:10", "allocate 64", "allocate 65", "allocate 300", "create object", "create array", "reset arena", "destroy", "report", "reset thread metrics",
                                "reset process metrics", "5ms pass", "600ms pass", "allocate 0", "move"};
constexpr int kOps = 17;
static void op(int o, int k) {
    MC_NOTE("arena %d: %s", k, op_name[o]);
    cur = k;
    Slot& s = slot[k];
    switch (o) {
        case 0: case 1: case 2: if (!s.a) make(k, o); break;
        case 3: if (s.a) (void)s.a->AllocateAligned(64); break;
        case 4: if (s.a) (void)s.a->AllocateAligned(65); break;
        case 5: if (s.a) (void)s.a->AllocateAligned(300, 32); break;
        case 6: if (s.a) (void)s.a->Create<T24>(); break;
        case 7: if (s.a) (void)s.a->CreateArray<T24>(7); break;
        case 8: if (s.a) s.a->Reset(); break;
        case 9: if (s.a) { delete s.a; s.a = nullptr; } break;
        case 10: local_arena_metrics.report_to_global_metrics(); add(glob, loc); loc = M(); break;
        case 11: local_arena_metrics.reset(); loc = M(); break;
        case 12: global_arena_metrics.reset(); glob = M(); break;
        case 13: clock_ns += 5000000; break;
        case 14: clock_ns += 600000000; break;
        case 15: if (s.a) (void)s.a->AllocateAligned(0); break;
        case 16: if (s.a) { auto* n = new Arena(std::move(*s.a)); delete s.a; s.a = n; } break;
    }
    verify(op_name[o]);
}

// ---- C11
struct G { uint64_t v[9]; uint64_t size_b[8], life_b[8]; std::vector<std::pair<std::string, uint64_t>> site; };
static void check_text(const G& g) {
    auto& m = global_arena_metrics;
    m.init_count = g.v[0]; m.reset_count = g.v[1]; m.destruct_count = g.v[2]; m.alloc_count = g.v[3]; m.newblock_count = g.v[4];
    m.space_allocated = g.v[5]; m.space_used = g.v[6]; m.space_wasted = g.v[7]; m.space_resettled = g.v[8];
    for (size_t i = 0; i < 8; ++i) { m.alloc_size_bucket_counter[i] = g.size_b[i]; m.destruct_lifetime_bucket_counter[i] = g.life_b[i]; }
    m.arena_alloc_counter.clear();
    for (auto& [k, v] : g.site) m.arena_alloc_counter[k] = v;
    std::string t = m.string();
    mc::step();
    MC_NOTE("allocations %lu, destructions %lu -> %s", g.v[3], g.v[2], t.c_str());
    std::map<std::string, std::string> got;
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
        size_t p = line.rfind(": ");
        if (p == std::string::npos) continue;
        size_t b = line.find_first_not_of(' ');
        std::string val = line.substr(p + 2);
        if (!val.empty() && val.back() == '%') val.pop_back();
        MC_CHECK(!got.count(line.substr(b, p - b)), "'%s' is shown twice", line.c_str());
        got[line.substr(b, p - b)] = val;
    }
    auto want = [&](const std::string& k, uint64_t v) {
        MC_CHECK(got.count(k), "the text does not show '%s'", k.c_str());
        MC_CHECK(got[k] == std::to_string(v), "the text shows '%s: %s', the value is %lu", k.c_str(), got[k].c_str(), v);
        got.erase(k);
    };
    static const char* names[9] = {"init_count", "reset_count", "destruct_count", "alloc_count", "newblock_count", "space_allocated", "space_used", "space_wasted", "space_resettled"};
    for (int i = 0; i < 9; ++i) want(names[i], g.v[i]);
    uint64_t c = 0;
    for (int i = 0; i < 8; ++i) { c += g.size_b[i]; want("le=" + std::to_string(size_bounds[i]), g.v[3] ? c * 100 / g.v[3] : 0); }
    c = 0;
    for (int i = 0; i < 8; ++i) { c += g.life_b[i]; want("le=" + std::to_string(life_bounds[i]) + "ms", g.v[2] ? c * 100 / g.v[2] : 0); }
    for (auto& [k, v] : g.site) want(k, v);
    MC_CHECK(got.empty(), "the text shows '%s', which was not recorded", got.begin()->first.c_str());
    m.reset();
    m.arena_alloc_counter.clear();
    mc::state(mc::Hash().str(t));
}
static const uint64_t vals[] = {0, 1, 2, 3, 7, 99, 100, 101, 1000, uint64_t(1) << 32, uint64_t(1) << 56};

void mc_spaces(const std::string&) {
    static const bool th = mc::thorough();
    mc::add("C09", "every history of events on one arena", kOps * kOps, [](uint64_t t) {
        fresh();
        op(0, 0);
        op(int(t % kOps), 0);
        op(int(t / kOps), 0);
        for (int i = 0; i < (th ? 4 : 3); ++i) op(choose(kOps), 0);
        if (slot[0].a) op(9, 0);
        op(10, 0);
    });
    mc::add("C09", "every history of events on two arenas", 9 * kOps, [](uint64_t t) {
        fresh();
        op(int(t % 3), 0);
        op(int(t / 3 % 3), 1);
        op(int(t / 9), 0);
        for (int i = 0; i < (th ? 3 : 2); ++i) { int k = choose(2); op(choose(kOps), k); }
        for (int k = 0; k < 2; ++k) if (slot[k].a) op(9, k);
        op(10, 0);
        op(10, 1);
    });
    mc::add("C09", "every allocation size around the histogram bounds", 9, [](uint64_t t) {
        auto one = [&](uint64_t n) {
            fresh();
            make(0, 0);
            void* c = slot[0].cookie;
            m_alloc(n, site_names[0]);
            metrics_probe_on_arena_allocation(nullptr, n, c);
            verify("one allocation event");
            m_alloc(n, site_names[0]);
            metrics_probe_on_arena_allocation(&typeid(int), n, c);
            op(10, 0);
            op(9, 0);
        };
        if (t == 0) for (uint64_t n = 0; n < 5000; ++n) one(n);
        else for (int d = -3; d <= 3; ++d) { one(size_bounds[t - 1] + uint64_t(int64_t(d))); one(size_bounds[t - 1] * 2 + uint64_t(int64_t(d))); }
        if (t == 8) { one(~uint64_t(0)); one(uint64_t(1) << 63); one(uint64_t(1) << 32); }
    });
    mc::add("C09", "every lifetime", 1100, [](uint64_t t) {
        fresh();
        auto* a = make(0, int(t % 3));
        (void)a->AllocateAligned(t);
        clock_ns += int64_t(t) * 1000000;
        verify("time");
        op(9, 0);
        op(10, 0);
        make(1, 1);
        clock_ns += t % 11 * 99999;
        op(9, 1);
        local_arena_metrics.increase_destruct_lifetime_counter(std::chrono::milliseconds(t));
        m_life(int64_t(t) * 1000000);
        verify("lifetime counter");
        op(10, 0);
    });
    mc::add("C09", "lifetimes which are no whole milliseconds", 8 * 3, [](uint64_t t) {
        static const int64_t off[] = {-1000000, -999999, -500001, -500000, -499999, -1001, -1000, -1, 0, 1, 999, 1000, 1001, 499999, 500000, 500001, 999999, 1000000, 1000001, 1500000};
        for (int64_t d : off)
            for (int64_t start : {int64_t(0), int64_t(1), int64_t(999999)}) {
                fresh();
                clock_ns += start;
                make(0, int(t % 3));
                clock_ns += int64_t(life_bounds[t / 3]) * 1000000 + d;
                op(9, 0);
                op(10, 0);
            }
        // and long ones
        for (int64_t ms : {int64_t(2000), int64_t(3600000), int64_t(1) << 31, (int64_t(1) << 32) + 3, (int64_t(1) << 40) + 1}) {
            fresh();
            make(0, 0);
            clock_ns += ms * 1000000 + int64_t(t);
            op(9, 0);
            op(10, 0);
        }
    });
    mc::add("C09", "figures passed to the probes are added", 6 * 6, [](uint64_t t) {
        static const uint64_t fig[6] = {0, 1, 255, 4096, uint64_t(1) << 33, uint64_t(1) << 60};
        fresh();
        make(0, 0);
        for (int i = 0; i < 3; ++i) {
            uint64_t u = fig[t % 6], w = fig[t / 6];
            switch (choose(3)) {
                case 0: h_reset(slot[0].a, slot[0].cookie, u, w); break;
                case 1: h_blk(u, w, slot[0].cookie); break;
                case 2: {
                    auto* c = metrics_probe_on_arena_init(nullptr, sites[1]);
                    ++loc.init;
                    int64_t save = slot[0].born;
                    slot[0].born = clock_ns;
                    h_dtor(nullptr, c, u, w);
                    slot[0].born = save;
                    break;
                }
            }
            verify("an event");
            if (choose(2)) op(10, 0);
        }
        op(9, 0);
    });
    mc::add("C09", "many arenas and creation sites", th ? 400 : 130, [](uint64_t t) {
        fresh();
        int n = t < 70 ? int(t) + 1 : int(t - 70) * (th ? 2 : 5) + 71;
        int names = choose(5), order = choose(2), rep = choose(3);
        static std::vector<std::string> files;
        files.clear();
        files.reserve(size_t(n));
        std::vector<int> line;
        for (int i = 0; i < n; ++i) {
            switch (names) {
                case 0: files.push_back("src/file" + std::to_string(i) + ".cc"); line.push_back(7); break;        // many files
                case 1: files.push_back("same.cc"); line.push_back(i * 1001 % 70000); break;                      // many lines
                case 2: files.push_back(std::string(size_t(i) + 1, 'p') + ".cc"); line.push_back(i % 3); break;   // names of every length
                case 3: files.push_back(i % 2 ? "a.cc" : "a.cc:1"); line.push_back(i / 2); break;                 // names which run into numbers
                case 4: files.push_back(i % 3 ? "dir/x.cc" : "dir/y.cc"); line.push_back(i % 5); break;           // many arenas at few sites
            }
        }
        auto named = [&](int i) { return files[size_t(i)] + ":" + std::to_string(line[size_t(i)]); };
        for (int i = 0; i < n; ++i) {
            make_at(i, boost::source_location(files[size_t(i)].c_str(), uint_least32_t(line[size_t(i)]), "f"), named(i));
            if (i % 4 != 3) (void)slot[i].a->AllocateAligned(size_t(i) * 5 % 900);
            if (rep == 2 && i == n / 2) op(10, 0);
        }
        verify("creating all");
        for (int r = 0; r < 2; ++r) {
            for (int j = 0; j < n; ++j) { int i = order ? n - 1 - j : j; cur = i; (void)slot[i].a->AllocateAligned(64); if (i % 7 == 3) slot[i].a->Reset(); if (i % 11 == 5) clock_ns += 3000000; }
            verify("using all");
            if (rep) op(10, 0);
        }
        for (int j = 0; j < n; ++j) { int i = order ? j : n - 1 - j; cur = i; delete slot[i].a; slot[i].a = nullptr; }
        verify("destroying all");
        op(10, 0);
        if (rep == 0) { op(12, 0); op(0, 0); op(3, 0); op(9, 0); op(10, 0); op(11, 0); }
    });
    mc::add("C09", "many events of one kind", kOps * 6, [](uint64_t t) {
        static const int counts[6] = {99, 100, 127, 256, 1000, 5000};
        int o = int(t % kOps), n = counts[t / kOps];
        if (n == 5000 && !th) n = 2000;
        fresh();
        op(choose(3), 0);
        c11 = true;  // look only at the end
        for (int i = 0; i < n; ++i) { if (o < 3 || o == 9) { if (slot[0].a) op(9, 0); op(o == 9 ? i % 3 : o, 0); } else op(o, 0); }
        c11 = false;
        verify("all of them");
        if (choose(2)) op(10, 0);
        if (slot[0].a) op(9, 0);
        op(10, 0);
    });
    // C11
    mc::add("C11", "counters", 9 * 11, [](uint64_t t) {
        G g{};
        g.v[t % 9] = vals[t / 9];
        check_text(g);
        for (int i = 0; i < 9; ++i) g.v[i] = vals[t / 9] + uint64_t(i);
        check_text(g);
        for (int i = 0; i < 9; ++i) for (int k = 0; k < 11; ++k) { G q{}; q.v[i] = vals[k]; q.v[t % 9] = vals[t / 9]; check_text(q); }
    });
    mc::add("C11", "histograms: totals x bucket contents", 11 * 2, [](uint64_t t) {
        bool life = t % 2;
        uint64_t total = vals[t / 2];
        // every way of placing up to 3 groups of recorded values in the buckets
        G g{};
        g.v[life ? 2 : 3] = total;
        g.v[life ? 3 : 2] = vals[choose(3)];
        uint64_t left = total;
        uint64_t* b = life ? g.life_b : g.size_b;
        int from = 0;
        for (int i = 0; i < 3 && from < 8; ++i) {
            int k = from + choose(8 - from);
            uint64_t amount = 0;
            switch (choose(4)) { case 0: amount = 0; break; case 1: amount = left; break; case 2: amount = left / 2; break; case 3: amount = left ? 1 : 0; break; }
            b[k] += amount;
            left -= amount;
            from = k + 1;
        }
        check_text(g);
    });
    mc::add("C11", "creation sites", 5 * 11, [](uint64_t t) {
        G g{};
        for (uint64_t i = 0; i < t % 5; ++i) g.site.push_back({"dir/file" + std::to_string(i) + ".cc:" + std::to_string(i * 37), vals[(t / 5 + i) % 11]});
        g.v[3] = t;
        check_text(g);
    });
    mc::add("C11", "many creation sites", th ? 700 : 300, [](uint64_t t) {
        G g{};
        int names = choose(4);
        for (uint64_t i = 0; i < t; ++i) {
            std::string f = names == 0 ? "f" + std::to_string(i) + ".cc:1" : names == 1 ? "same.cc:" + std::to_string(i) : names == 2 ? std::string(i + 1, 'n') + ":3" : "d{}r/%s{" + std::to_string(i) + "}.cc:2";
            g.site.push_back({f, vals[i % 11] + i});
        }
        g.v[0] = t;
        check_text(g);
    });
    mc::add("C11", "shares of every total", th ? 1500 : 400, [](uint64_t t) {
        for (uint64_t part = 0; part <= t; ++part) {
            G g{};
            g.v[3] = g.v[2] = t;
            g.size_b[part % 8] = part;
            g.life_b[(part + 3) % 8] = part;
            if (part < t) { g.size_b[(part + 1) % 8] += (t - part) / 2; g.life_b[7] += (t - part) / 2; }
            check_text(g);
        }
    });
    mc::add("C11", "text after every short history of events", kOps * kOps, [](uint64_t t) {
        c11 = true;
        fresh();
        MC_CHECK(!global_arena_metrics.string().empty(), "no text");
        op(0, 0);
        op(int(t % kOps), 0);
        op(int(t / kOps), 0);
        op(10, 0);
        if (slot[0].a && choose(2)) op(9, 0);
        if (choose(2)) op(10, 0);
        if (choose(2)) op(12, 0);
        G g{};
        g.v[0] = glob.init; g.v[1] = glob.reset; g.v[2] = glob.destruct; g.v[3] = glob.alloc; g.v[4] = glob.newblock; g.v[5] = glob.allocated; g.v[6] = glob.used; g.v[7] = glob.wasted; g.v[8] = glob.resettled;
        for (int i = 0; i < 8; ++i) { g.size_b[i] = glob.size_b[i]; g.life_b[i] = glob.life_b[i]; }
        for (auto& [k, v] : glob.site) g.site.push_back({k, v});
        check_text(g);
        if (slot[0].a) { delete slot[0].a; slot[0].a = nullptr; }
    });
}
int main(int c, char** v) { return mc::main_(c, v); }
