F = "arena/arena.hpp"
HEAD = r"""#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include "arena/arena.hpp"
#define REQUIRE(c, ...) do { if (!(c)) { fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); exit(1); } } while (0)
using namespace stdb::memory;
constexpr size_t G = size_t(1) << 30;
static char* base;
static size_t used;
static void* take(size_t n) { char* p = base + used; used += (n + 4095) / 4096 * 4096 + 4096; return p; }
static void give(void*) {}
static Arena::Options options(size_t first) {
    if (!base) base = static_cast<char*>(mmap(nullptr, 40 * G, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    REQUIRE(base != MAP_FAILED, "mmap");
    Arena::Options o = Arena::Options::GetDefaultOptions();
    o.suggested_init_block_size = first;
    o.block_alloc = take;
    o.block_dealloc = give;
    return o;
}
"""
SEEDS = [
    dict(id="c01-position-kept-in-32-bits", prop="C01", srcs="arena/*.cc",
         needs="a block larger than 4 GB in which more than 4 GB have been handed out",
         breaks="the position wraps and later requests are given memory that is in use",
         edits=[(F, "        uint64_t _pos;\n        uint64_t _size;   // the size of the block\n", "        // both halves in one word, so that the header is smaller\n        uint32_t _pos;\n        uint64_t _size;   // the size of the block\n")],
         demo=HEAD + r"""
int main() {
    Arena a(options(9 * G));
    char* p = a.AllocateAligned(4 * G);
    char* q = a.AllocateAligned(4096);
    REQUIRE(p != nullptr && q != nullptr, "refused");
    REQUIRE(q >= p + 4 * G || q + 4096 <= p, "overlap");
}
"""),
    dict(id="c08-waste-summed-in-32-bits", prop="C08", srcs="arena/*.cc",
         needs="an arena destroyed or reset while more than 4 GB of its blocks are unused",
         breaks="the hooks are told a wasted space which is too small by a multiple of 4 GB",
         edits=[(F, "        Block* curr = _last_block;\n        Block* prev = nullptr;\n        uint64_t remain_size = 0;\n\n        // run all cleanups first\n        run_all_cleanups();\n\n        while (curr != nullptr) {\n", "        Block* curr = _last_block;\n        Block* prev = nullptr;\n        uint32_t remain_size = 0;\n\n        // run all cleanups first\n        run_all_cleanups();\n\n        while (curr != nullptr) {\n")],
         demo=HEAD + r"""
static uint64_t wasted;
int main() {
    auto o = options(9 * G);
    o.on_arena_destruction = [](Arena*, void*, uint64_t, uint64_t w) -> void* { wasted = w; return nullptr; };
    { Arena a(o); REQUIRE(a.AllocateAligned(64) != nullptr, "refused"); }
    REQUIRE(wasted > 8 * G && wasted < 9 * G, "wasted %lu", (unsigned long)wasted);
}
"""),
]
