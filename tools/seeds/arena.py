A = "arena/arena.hpp"
AC = "arena/arena.cc"
HEAD = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <string>
#include "arena/arena.hpp"
using namespace stdb::memory;
static std::map<void*, uint64_t> blocks;
static uint64_t phase = 0;
static void* get(uint64_t n) {
    char* raw = static_cast<char*>(aligned_alloc(64, (n + 191) / 64 * 64));
    char* p = raw + phase;
    blocks[p] = n;
    return p;
}
static void put(void* p) { blocks.erase(p); }
static void nolog(const std::string&) {}
static Arena::Options opts(uint64_t nb = 1024, uint64_t first = 1024, uint64_t huge = 1 << 20) {
    Arena::Options o = Arena::Options::GetDefaultOptions();
    o.normal_block_size = nb;
    o.suggested_init_block_size = first;
    o.huge_block_size = huge;
    o.block_alloc = &get;
    o.block_dealloc = &put;
    o.logger_func = &nolog;
    return o;
}
#define REQUIRE(c, ...) do { if (!(c)) { fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); _Exit(1); } } while (0)
static bool inside(void* q, uint64_t n) {
    for (auto& [b, s] : blocks) if (q >= (char*)b + 32 && (char*)q + n <= (char*)b + s) return true;
    return false;
}
"""
S = "arena/arena.cc arena/metrics.cc"
SEEDS = [
    dict(id="c01-padding-not-in-fit-test", prop="C01", srcs=S, flags="-O1 -g -DNDEBUG",
         needs="an over-aligned request whose size fits the block exactly but not together with its padding",
         breaks="the request is served across the end of the block (or over the cleanup records)",
         edits=[(A, "return (_last_block == nullptr) || not _last_block->has_enough_space(need_bytes, alignment);",
                    "return (_last_block == nullptr) || _last_block->remain() < need_bytes;")],
         demo=HEAD + r"""
int main() {
    for (phase = 0; phase < 32; phase += 8) {
        for (uint64_t fill = 8; fill < 992; fill += 8) {
            Arena a(opts());
            (void)a.AllocateAligned(fill);
            for (uint64_t n = 8; n <= 992 - fill; n += 8) {
                char* p = nullptr;
                Arena b(opts());
                (void)b.AllocateAligned(fill);
                p = b.AllocateAligned(n, 32);
                REQUIRE(p && inside(p, n), "request of %lu aligned to 32 after %lu leaves its block", n, fill);
            }
        }
    }
}
"""),
    dict(id="c02-cleanup-block-loses-chain", prop="C02", srcs=S,
         needs="a cleanup is registered when fewer than 16 bytes are left in the newest block",
         breaks="the older blocks are dropped from the chain: their cleanups never run and they are never freed",
         edits=[(A, "            Block* curr = newBlock(kCleanupNodeSize, _last_block);\n            if (curr != nullptr) {\n                _last_block = curr;",
                    "            Block* curr = newBlock(kCleanupNodeSize, _last_block != nullptr && _last_block->cleanups() == 0 ? _last_block : nullptr);\n            if (curr != nullptr) {\n                _last_block = curr;")],
         demo=HEAD + r"""
static int ran = 0;
static void run(void*) { ++ran; }
int main() {
    for (uint64_t fill = 8; fill <= 976; fill += 8) {
        ran = 0;
        blocks.clear();
        {
            Arena a(opts());
            (void)a.AllocateAlignedAndAddCleanup(fill, &run);
            (void)a.AllocateAlignedAndAddCleanup(8, &run);
            (void)a.AllocateAlignedAndAddCleanup(8, &run);
        }
        REQUIRE(ran == 3, "%d of 3 cleanups ran after filling %lu bytes", ran, fill);
        REQUIRE(blocks.empty(), "%zu blocks were not returned", blocks.size());
    }
}
"""),
    dict(id="c03-block-size-without-header", prop="C03", srcs=S,
         needs="a request between (huge/4 - header) and huge/4 that follows the first block",
         breaks="the documented block size for such a request: a multiple of the normal size is taken instead of the huge block",
         edits=[(AC, "        } else if (required_bytes <= _options.huge_block_size / kThresholdHuge) {",
                     "        } else if (min_bytes <= _options.huge_block_size / kThresholdHuge) {")],
         demo=HEAD + r"""
static uint64_t newest;
int main() {
    for (uint64_t n = 16 * 1024 - 64; n <= 16 * 1024; n += 8) {
        auto o = opts(1024, 1024, 64 * 1024);
        o.on_arena_newblock = [](uint64_t, uint64_t size, void*) { newest = size; };
        Arena a(o);
        (void)a.AllocateAligned(8);
        (void)a.AllocateAligned(n);
        uint64_t want = n + 32 <= 16 * 1024 ? (n + 32 <= (n + 1023) / 1024 * 1024 ? (n + 1023) / 1024 * 1024 : n + 32) : 64 * 1024;
        REQUIRE(newest == want, "request of %lu got a block of %lu instead of %lu", n, newest, want);
    }
}
"""),
    dict(id="c05-check-narrow-offset", prop="C05", srcs=S,
         needs="check() of an address a multiple of 4 GiB away from a block",
         breaks="an address outside the arena is reported as inside it",
         edits=[(AC, "        int64_t offset = ptr - reinterpret_cast<char*>(block);", "        int64_t offset = static_cast<int>(ptr - reinterpret_cast<char*>(block));")],
         demo=HEAD + r"""
int main() {
    Arena a(opts());
    char* p = a.AllocateAligned(64);
    for (long k = -3; k <= 3; ++k) {
        auto q = reinterpret_cast<const char*>(reinterpret_cast<uintptr_t>(p) + uintptr_t(k << 32));
        auto want = k == 0 ? ArenaContainStatus::BlockUsed : ArenaContainStatus::NotContain;
        REQUIRE(a.check(q) == want, "the address %ld * 4 GiB away is reported as %d", k, int(a.check(q)));
    }
}
"""),
]
