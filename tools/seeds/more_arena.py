import os, runpy
_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "arena.py"))
A, AC, HEAD, S = _a["A"], _a["AC"], _a["HEAD"], _a["S"]
M = "arena/metrics.hpp"
SM = "arena/arena.cc arena/metrics.cc"
MHEAD = HEAD + r"""
#include <atomic>
#include <thread>
#include <chrono>
#include "arena/metrics.hpp"
"""
SEEDS = [
    dict(id="c04-one-element-too-many", prop="C04", srcs=S,
         needs="CreateArray with exactly the first element count whose size does not fit 64 bits",
         breaks="the size wraps around to 0 and memory for none of the elements is handed out",
         edits=[(A, "        if (num > std::numeric_limits<uint64_t>::max() / sizeof(T)) {", "        if (num - 1 > std::numeric_limits<uint64_t>::max() / sizeof(T)) {")],
         demo=HEAD + r"""
struct alignas(8) E { char c[8]; E() { REQUIRE(inside(this, 8), "an element is made outside of every block"); } };
int main() {
    Arena a(opts());
    (void)a.AllocateAligned(10);
    REQUIRE(!a.CreateArray<E>(1ul << 61), "an array of 2^64 bytes");
}
"""),
    dict(id="c04-half-registered-cleanup", prop="C04", srcs=S,
         needs="memory for the bytes but not for the cleanup record (the block is exactly full and no other can be had)",
         breaks="AllocateAlignedAndAddCleanup hands out memory although its cleanup was not registered",
         edits=[(A, "            if (addCleanup(element == nullptr ? ptr : element, cleanup)) [[likely]] {\n",
                    "            if (addCleanup(element == nullptr ? ptr : element, cleanup) || element == nullptr) [[likely]] {\n")],
         demo=HEAD + r"""
static int left = 1, ran = 0;
static void* some(uint64_t n) { return left-- > 0 ? get(n) : nullptr; }
static void clean(void*) { ++ran; }
int main() {
    for (uint64_t n = 8; n <= 992; n += 8) {
        left = 1;
        ran = 0;
        int got = 0;
        {
            auto o = opts();
            o.block_alloc = &some;
            Arena a(o);
            (void)a.AllocateAligned(992 - n);
            while (a.AllocateAlignedAndAddCleanup(n, clean)) { if (++got > 1000) break; }
        }
        REQUIRE(got == ran, "%d requests of %lu with a cleanup were granted, %d cleanups ran", got, n, ran);
    }
}
"""),
    dict(id="c06-cookie-left-behind", prop="C06", srcs=S,
         needs="moving an arena whose creation hook returned a cookie, then any later event of the new arena",
         breaks="the hooks of the new arena are called without the cookie",
         edits=[(A, "_cookie(std::exchange(other._cookie, nullptr))", "_cookie(nullptr)")],
         demo=HEAD + r"""
static int mark, wrong = 0;
static void* made(Arena*, const boost::source_location&) { return &mark; }
static void alloc(const std::type_info*, uint64_t, void* c) { wrong += c != &mark; }
static void* gone(Arena*, void* c, uint64_t, uint64_t) { wrong += c != &mark; return nullptr; }
int main() {
    auto o = opts();
    o.on_arena_init = &made;
    o.on_arena_allocation = &alloc;
    o.on_arena_destruction = &gone;
    {
        Arena a(o);
        (void)a.AllocateAligned(100);
        Arena b(std::move(a));
        (void)b.AllocateAligned(100);
    }
    REQUIRE(wrong == 0, "%d events came with another cookie", wrong);
}
"""),
    dict(id="c07-empty-arenas-equal", prop="C07", srcs=S,
         needs="comparing the resources of two arenas before either has a block (for example assigning between containers of two arenas)",
         breaks="resources of different arenas compare equal",
         edits=[(A, "return _arena == other._arena;", "return _arena->_last_block == other._arena->_last_block;")],
         demo=HEAD + r"""
#include <memory_resource>
int main() {
    Arena a(opts()), b(opts());
    REQUIRE(a.get_memory_resource()->is_equal(*a.get_memory_resource()), "not equal to itself");
    REQUIRE(!a.get_memory_resource()->is_equal(*b.get_memory_resource()), "two arenas without blocks have equal resources");
}
"""),
    dict(id="c08-block-ordinal-after-reset", prop="C08", srcs=S,
         needs="three or more blocks and a new-block hook",
         breaks="the ordinal of a new block counts only whether there is a block before",
         edits=[(AC, "for (Block* prev = prev_block; prev != nullptr; prev = prev->prev(), ++blk_num) {\n        }",
                     "if (Block* prev = prev_block; prev != nullptr) {\n            blk_num = 1 + uint64_t(prev->prev() != nullptr);\n        }")],
         demo=HEAD + r"""
static std::vector<uint64_t> seen;
static void nb(uint64_t n, uint64_t, void*) { seen.push_back(n); }
int main() {
    auto o = opts();
    o.on_arena_newblock = &nb;
    Arena a(o);
    for (int i = 0; i < 6; ++i) (void)a.AllocateAligned(900);
    for (size_t i = 0; i < seen.size(); ++i) REQUIRE(seen[i] == i, "block %zu was reported as number %lu", i, seen[i]);
}
"""),
    dict(id="c09-sites-told-apart-by-line-only", prop="C09", srcs=SM,
         needs="arenas created at the same line of two files",
         breaks="their bytes are added up under one of them",
         edits=[(M, """        const std::string key = std::string(loc.file_name()) + ":" + std::to_string(loc.line());
        arena_alloc_counter[key] += size;""",
                    """        static thread_local std::unordered_map<uint32_t, std::string> keys;
        auto& key = keys[loc.line()];
        if (key.empty()) {
            key = std::string(loc.file_name()) + ":" + std::to_string(loc.line());
        }
        arena_alloc_counter[key] += size;""")],
         demo=MHEAD + r"""
int main() {
    auto probe = [](const char* f) {
        auto loc = boost::source_location(f, 7, "x");
        void* c = metrics_probe_on_arena_init(nullptr, loc);
        metrics_probe_on_arena_allocation(nullptr, 10, c);
        metrics_probe_on_arena_destruction(nullptr, c, 0, 0);
    };
    probe("one.cc");
    probe("two.cc");
    REQUIRE(local_arena_metrics.arena_alloc_counter["one.cc:7"] == 10 && local_arena_metrics.arena_alloc_counter["two.cc:7"] == 10, "bytes per creation site");
}
"""),
    dict(id="c09-last-lifetime-bucket-not-reported", prop="C09", srcs=SM,
         needs="an arena that lives between half a second and a second, then a report",
         breaks="the last lifetime bucket never reaches the process-wide metrics",
         edits=[(M, "        for (uint32_t i = 0; i < kLifetimeBucketSize; ++i) {\n            global_arena_metrics.",
                    "        for (uint32_t i = 0; i + 1 < kLifetimeBucketSize; ++i) {\n            global_arena_metrics.")],
         demo=MHEAD + r"""
int main() {
    local_arena_metrics.increase_destruct_lifetime_counter(std::chrono::milliseconds(700));
    local_arena_metrics.report_to_global_metrics();
    REQUIRE(global_arena_metrics.destruct_lifetime_bucket_counter.at(7) == 1, "a lifetime of 700 ms is not in the process-wide histogram");
}
"""),
    dict(id="c10-update-in-two-steps", prop="C10", srcs=SM, flags="-O1 -g",
         needs="two threads reporting at the same moment, one between the other's load and store",
         breaks="bytes reported by one of them are lost",
         edits=[(M, "global_arena_metrics.space_wasted.fetch_add(space_wasted, std::memory_order::relaxed);",
                    "global_arena_metrics.space_wasted.store(global_arena_metrics.space_wasted.load(std::memory_order::relaxed) + space_wasted,\n                                                std::memory_order::relaxed);")],
         demo=MHEAD + r"""
int main() {
    for (int round = 0; round < 20; ++round) {
        global_arena_metrics.reset();
        std::atomic<int> ready{0};
        auto f = [&] {
            ++ready;
            while (ready != 4) {}
            for (int i = 0; i < 200000; ++i) { local_arena_metrics.space_wasted = 1; local_arena_metrics.report_to_global_metrics(); }
        };
        std::thread t[4] = {std::thread(f), std::thread(f), std::thread(f), std::thread(f)};
        for (auto& x : t) x.join();
        REQUIRE(global_arena_metrics.space_wasted == 800000, "%lu of 800000 reported bytes", global_arena_metrics.space_wasted.load());
    }
}
"""),
    dict(id="c11-shares-not-cumulative", prop="C11", srcs=SM,
         needs="lifetimes in more than one bucket",
         breaks="the lifetime share of a bucket does not include the buckets before it",
         edits=[(M, "            count += destruct_lifetime_bucket_counter.at(i);", "            count = std::max<uint64_t>(count, destruct_lifetime_bucket_counter.at(i));")],
         demo=MHEAD + r"""
int main() {
    GlobalArenaMetrics g;
    g.destruct_count = 4;
    for (int i = 0; i < 4; ++i) g.destruct_lifetime_bucket_counter.at(i) = 1;
    auto s = g.string();
    REQUIRE(s.find("le=1ms: 25") != s.npos && s.find("le=10ms: 75") != s.npos && s.find("le=1000ms: 100") != s.npos, "%s", s.c_str());
}
"""),
    dict(id="c31-align-up-by-addition", prop="C31",
         needs="an input less than one block size below 2^64 whose result is still representable",
         breaks="the sum wraps around, the result is 0",
         edits=[("align/align.hpp", "    uint64_t reminder = n % block_size;\n    return n - reminder + (static_cast<uint64_t>(static_cast<bool>(reminder))) * block_size;",
                                    "    return (n + block_size - 1) / block_size * block_size;")],
         demo=r"""
#include <cstdio>
#include <initializer_list>
#include "align/align.hpp"
int main() {
    for (uint64_t b : {8ul, 12ul, 4096ul})
        for (uint64_t n : {0ul, 1ul, 24ul, 4097ul, ~0ul / 12 * 12, ~0ul / 4096 * 4096, ~0ul - 3 - (~0ul - 3) % b, ~0ul - ~0ul % b}) {
            unsigned __int128 want = ((unsigned __int128)n + b - 1) / b * b;
            if (want >> 64) continue;
            if (stdb::memory::align::AlignUp(n, b) != uint64_t(want)) { printf("AlignUp(%lu, %lu)\n", n, b); return 1; }
        }
}
"""),
]
