F = "string/arena_string.hpp"
HEAD = r"""// release layout: arena strings on the default memory resource, which keeps a ledger
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory_resource>
#include <string>
#include "string/arena_string.hpp"
#define REQUIRE(c, ...) do { if (!(c)) { fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); exit(1); } } while (0)
using S = stdb::memory::arena_string;
struct Ledger : std::pmr::memory_resource {
    std::map<void*, size_t> live;
    void* do_allocate(size_t n, size_t) override { void* p = malloc(n); live[p] = n; return p; }
    void do_deallocate(void* p, size_t n, size_t) override {
        REQUIRE(live.count(p), "returned twice");
        REQUIRE(live[p] == n, "%zu bytes returned as %zu", live[p], n);
        live.erase(p);
        free(p);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Ledger ledger;
static std::string txt(size_t n) { std::string r; for (size_t i = 0; i < n; ++i) r += char('a' + i % 26); return r; }
"""
SEEDS = [
    dict(id="c33-growth-returns-only-what-was-used", prop="C33", flags="-O1 -g -DNDEBUG",
         needs="release build, default memory resource, and a string of 24 or more characters with room to spare growing again",
         breaks="its storage is returned with the wrong size",
         edits=[(F, "            allocator.deallocate(static_cast<char*>(ptr), currentCapacity);", "            allocator.deallocate(static_cast<char*>(ptr), currentSize);")],
         demo=HEAD + r"""
int main() {
    std::pmr::set_default_resource(&ledger);
    for (size_t n : {30, 300})
        for (size_t room : {0, 20}) {
            std::string m = txt(n);
            S s(m.data(), n, std::pmr::polymorphic_allocator<char>());
            s.reserve(n + room);
            s.reserve(n + 60);
            REQUIRE(std::string(s.c_str()) == m, "contents");
        }
    REQUIRE(ledger.live.empty(), "%zu allocations left", ledger.live.size());
}
"""),
    dict(id="c33-unshared-storage-not-given-up", prop="C33", flags="-O1 -g -DNDEBUG",
         needs="release build, default memory resource, and a shared string of more than 254 characters that is modified",
         breaks="the storage the strings shared is never returned",
         edits=[(F, "    RefCounted::decrementRefs(ml_.data_, ml_.size_, allocator_);                 // NOLINT\n",
                    "    if (allocator_ != pmr::polymorphic_allocator<Char>()) {\n        RefCounted::decrementRefs(ml_.data_, ml_.size_, allocator_);  // NOLINT\n    }\n")],
         demo=HEAD + r"""
int main() {
    std::pmr::set_default_resource(&ledger);
    {
        std::string m = txt(300);
        S s(m.data(), m.size(), std::pmr::polymorphic_allocator<char>());
        S t(s);
        t[0] = 'X';
        REQUIRE(std::string(s.c_str()) == m && t.c_str()[0] == 'X', "contents");
    }
    REQUIRE(ledger.live.empty(), "%zu allocations left", ledger.live.size());
}
"""),
]
