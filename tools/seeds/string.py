F = "string/string.hpp"
FA = "string/arena_string.hpp"
HEAD = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sstream>
#include "string/string.hpp"
using S = stdb::memory::string;
#define REQUIRE(c, ...) do { if (!(c)) { fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); _Exit(1); } } while (0)
static std::string txt(size_t n) { std::string r; for (size_t i = 0; i < n; ++i) r += char('a' + i % 23); return r; }
"""
AHEAD = HEAD + r"""
#include "string/arena_string.hpp"
#include "arena/arena.hpp"
using namespace stdb::memory;
using A = stdb::memory::arena_string;
static void* dirty(size_t n) { void* p = malloc(n); memset(p, 0x5a, n); return p; }
static Arena::Options opts() {
    Arena::Options o = Arena::Options::GetDefaultOptions();
    o.block_alloc = dirty;
    return o;
}
"""
SEEDS = [
    dict(id="c13-reserve-keeps-sharing", prop="C13",
         needs="reserve(size() + 1) on a string of more than 254 characters that has a copy", flags="-O1 -g -fsanitize=address",
         breaks="the storage is reallocated although the copy still uses it",
         edits=[(F, "    if (RefCounted::refs(ml_.data_) > 1) {  // Ensure unique\n        // We must",
                    "    if (RefCounted::refs(ml_.data_) > 1 && minCapacity > ml_.size_ + 1) {  // Ensure unique\n        // We must"),
                (F, "        Assert(capacity() >= minCapacity, \"reserveLarge should make sure capacity >= minCapacity\");\n", ""),
                (F, "        Assert(capacity() >= minCapacity, \"reserve should make sure capacity >= minCapacity\");\n", "", 1)],
         demo=HEAD + r"""
int main() {
    for (size_t n = 255; n < 300; ++n) {
        std::string m = txt(n);
        S a(m.data(), m.size());
        S b(a);
        b.reserve(n + 1);
        b.push_back('X');
        REQUIRE(a == m && b == m + "X", "a copy of %zu characters changed with the other", n);
        REQUIRE(strlen(a.c_str()) == n, "the terminator moved");
    }
}
"""),
    dict(id="c14-find-last-window", prop="C14",
         needs="the needle occurs only as the last characters of the haystack and the search skips to that window",
         breaks="find reports npos although the string contains the needle",
         edits=[(F, "                i += skip;\n                break;", "                i += skip;\n                if (i + nsize_1 >= iEnd + nsize_1 - (skip > 3 ? 1 : 0)) {\n                    return npos;\n                }\n                break;")],
         demo=HEAD + r"""
int main() {
    for (int h = 0; h < 1 << 9; ++h)
        for (int len = 1; len <= 9; ++len)
            for (int k = 1; k <= 5; ++k)
                for (int n = 0; n < 1 << k; ++n) {
                    std::string hs, ns;
                    for (int i = 0; i < len; ++i) hs += char('a' + (h >> i & 1));
                    for (int i = 0; i < k; ++i) ns += char('a' + (n >> i & 1));
                    S s(hs.data(), hs.size()), t(ns.data(), ns.size());
                    REQUIRE(s.find(t) == hs.find(ns), "find(%s) in %s", ns.c_str(), hs.c_str());
                }
}
"""),
    dict(id="c12-release-small-resize", prop="C12", flags="-O1 -g -DNDEBUG",
         needs="the in-place small form (release builds) grows to exactly its capacity of 23 characters",
         breaks="a string of 23 characters is kept in place with no room left for its size byte after a resize",
         edits=[(F, "        if (!disableSSO && newSz <= maxSmallSize) {\n            setSmallSize(newSz);", "        if (!disableSSO && newSz <= maxSmallSize + 1 && delta != 1 && (newSz <= maxSmallSize || oldSz == 0)) {\n            setSmallSize(std::min(newSz, maxSmallSize));")],
         demo=HEAD + r"""
int main() {
    for (size_t n = 0; n < 60; ++n) {
        S s;
        s.resize(n, 'x');
        REQUIRE(s.size() == n && s == std::string(n, 'x'), "resize(%zu) gave %zu characters", n, s.size());
    }
}
"""),
    dict(id="c16-assign-shrinks-first", prop="C16",
         needs="assign of a part of the string to itself that starts behind the new end",
         breaks="the terminator of the shortened string overwrites a character that is still to be copied",
         edits=[(F, "        string_detail::podMove(s, s + n, store_.mutableData());\n        store_.shrink(size() - n);", "        store_.shrink(size() - n);\n        string_detail::podMove(s, s + n, store_.mutableData());")],
         demo=HEAD + r"""
int main() {
    for (size_t n : {6, 30, 300})
        for (size_t a = 0; a <= 5; ++a)
            for (size_t k = 0; a + k <= 6; ++k) {
                std::string m = txt(n), x = m.substr(a, k);
                S s(m.data(), m.size());
                const S& c = s;
                s.assign(c.data() + a, k);
                REQUIRE(s == x, "assign of its own %zu characters at %zu of %zu", k, a, n);
            }
}
"""),
    dict(id="c17-hash-seeded-with-capacity", prop="C17", srcs="-lxxhash",
         needs="two equal strings that reached their contents by different histories (different capacities)",
         breaks="equal strings hash differently, so lookups in unordered containers miss",
         edits=[(F, "return XXH3_64bits_withSeed(str.data(), str.size(), str.size() * sizeof(char));", "return XXH3_64bits_withSeed(str.data(), str.size(), str.size() < 240 ? str.size() : str.capacity());")],
         demo=HEAD + r"""
#include <unordered_set>
int main() {
    for (size_t n = 0; n < 700; ++n) {
        std::string m = txt(n);
        S a(m.data(), m.size()), b;
        b.reserve(2 * n + 50);
        b.append(m.data(), m.size());
        REQUIRE(a == b && std::hash<S>{}(a) == std::hash<S>{}(b), "equal strings of %zu characters hash differently", n);
    }
}
"""),
    dict(id="c17-width-narrowed", prop="C17",
         needs="operator>> with a stream width of 256 or more and a longer word in the input",
         breaks="the width is narrowed to a byte, so too few characters (or all) are read",
         edits=[(F, "        int64_t n = is.width();", "        int64_t n = static_cast<uint8_t>(is.width());")],
         demo=HEAD + r"""
int main() {
    for (int w = 0; w < 600; w += 3)
        for (size_t n = 1; n < 600; n += 37) {
            std::istringstream a(txt(n)), b(txt(n));
            S s;
            std::string m;
            a.width(w);
            b.width(w);
            a >> s;
            b >> m;
            REQUIRE(s == m && a.rdstate() == b.rdstate(), "width %d, %zu characters: state %d, expected %d", w, n, int(a.rdstate()), int(b.rdstate()));
        }
}
"""),
    dict(id="c19-arena-reserve-drops-terminator", prop="C19", srcs="arena/arena.cc", flags="-O1 -g -Iarena",
         needs="an explicit reserve() that moves a string of 24..254 characters to a larger medium buffer, then c_str() before the next change",
         breaks="the moved string is not zero-terminated",
         edits=[(FA, "arena_smartRealloc(allocator_, ml_.data_, (ml_.size_ + 1) * sizeof(Char), (ml_.capacity() + 1) * sizeof(Char),\n                             capacityBytes));", "arena_smartRealloc(allocator_, ml_.data_, ml_.size_ * sizeof(Char), (ml_.capacity() + 1) * sizeof(Char),\n                             capacityBytes));")],
         demo=AHEAD + r"""
int main() {
    for (size_t n = 24; n < 250; ++n) {
        Arena arena(opts());
        std::string m = txt(n);
        A a(m.data(), n, arena.get_memory_resource());
        a.reserve(n + 3);
        REQUIRE(a.c_str()[n] == 0 && strlen(a.c_str()) == n, "no terminator behind %zu characters", n);
    }
}
"""),
    dict(id="c19-arena-reserve-keeps-sharing", prop="C19", srcs="arena/arena.cc", flags="-O1 -g -Iarena",
         needs="a string with spare capacity is copied, then the copy grows within that spare capacity",
         breaks="the storage stays shared, so the growing copy overwrites the terminator of the other",
         edits=[(FA, "    if (RefCounted::refs(ml_.data_) > 1) {  // Ensure unique // NOLINT\n        // We must", "    if (RefCounted::refs(ml_.data_) > 1 && minCapacity > ml_.capacity()) {  // Ensure unique // NOLINT\n        // We must"),
                (FA, '        Assert(capacity() >= minCapacity, "arena_string_core reserve failed, capacity should ge than minCapacity");\n', ""),
                (FA, '        Assert(capacity() >= minCapacity, "after arena_string_core::reserveLarge, capacity should ge than minCapacity");\n', ""),
                (FA, '    Assert(capacity() >= newSz, "arena_string_core expandNoinit failed, capacity should ge than newSz");\n', "")],
         demo=AHEAD + r"""
int main() {
    for (size_t n = 255; n < 300; ++n) {
        Arena arena(opts());
        std::string m = txt(n);
        A a(m.data(), n, arena.get_memory_resource());
        a.reserve(n + 50);
        A b(a);
        b.resize(n + 1, 'X');
        REQUIRE(std::string(a.c_str()) == m && std::string(b.c_str()) == m + "X", "a copy of %zu characters changed with the other", n);
    }
}
"""),
    dict(id="c12-wide-fill-skips-one", prop="C12",
         needs="filling with eight or more wide characters",
         breaks="every eighth character is left as it was",
         edits=[(F, "            begin[6] = c;\n            begin[7] = c;\n", "            begin[6] = c;\n            begin[6 + sizeof(T) % 2] = c;\n")],
         demo=HEAD + r"""
int main() {
    using W = stdb::memory::basic_string<char16_t>;
    W a(u"abc");
    a.resize(20, u'x');
    REQUIRE(a.size() == 20, "size");
    for (size_t i = 3; i < 20; ++i) REQUIRE(std::as_const(a)[i] == u'x', "character %zu was not filled", i);
}
"""),
    dict(id="c15-unshare-gives-up-first", prop="C15", flags="-O1 -g",
         needs="memory running out while a shared string of more than 254 characters is un-shared",
         breaks="the reference to the shared storage is given up although the string keeps using it",
         edits=[(F, "    auto const newRC = RefCounted::create(&effectiveCapacity);\n    // If this fails",
                    "    Char* const shared = ml_.data_;\n    RefCounted::decrementRefs(shared);  // another string keeps it alive\n    auto const newRC = RefCounted::create(&effectiveCapacity);\n    // If this fails"),
                (F, "    // Also copies terminator.\n    string_detail::podCopy(ml_.data_, ml_.data_ + ml_.size_ + 1, newRC->data_);\n    RefCounted::decrementRefs(ml_.data_);\n    ml_.data_ = newRC->data_;\n    ml_.setCapacity(effectiveCapacity, Category::isLarge);",
                    "    // Also copies terminator.\n    string_detail::podCopy(shared, shared + ml_.size_ + 1, newRC->data_);\n    ml_.data_ = newRC->data_;\n    ml_.setCapacity(effectiveCapacity, Category::isLarge);")],
         demo=HEAD + r"""
int main() {
    std::string m = txt(300);
    S a(m.data(), m.size());
    bool threw = false;
    {
        S b(a);
        try { b.reserve(size_t(1) << 60); } catch (const std::exception&) { threw = true; }
        REQUIRE(threw, "reserve(2^61) did not throw");
        REQUIRE(std::string(b.c_str()) == m, "contents after the failed call");
    }
    std::vector<char*> other;
    for (int i = 0; i < 8; ++i) { other.push_back((char*)malloc(310)); memset(other.back(), 'Z', 310); }
    REQUIRE(std::string(a.c_str()) == m, "contents of the other string");
}
"""),
    dict(id="c18-shrunk-string-is-not-unshared", prop="C18",
         needs="cloning a string which once was longer than 254 characters and is shorter now",
         breaks="the clone shares the storage and its unguarded reference count",
         edits=[(F, "        if (store_.category() == Storage::Category::isLarge) {\n            // call copy constructor",
                    "        if (store_.category() == Storage::Category::isLarge && size() > 254) {\n            // call copy constructor")],
         demo=HEAD + r"""
int main() {
    for (size_t n : {0, 10, 254, 255, 300}) {
        std::string m = txt(300);
        S a(m.data(), m.size());
        a.resize(n);
        S b = a.clone();
        REQUIRE(std::as_const(a).data() != std::as_const(b).data(), "the clone of %zu characters shares its storage", n);
    }
}
"""),
]
