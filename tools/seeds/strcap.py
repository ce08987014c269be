F, AF = "string/string.hpp", "string/arena_string.hpp"
HEAD = r"""#include <cstdio>
#include <cstdlib>
#include <string>
#include "string/string.hpp"
#include "string/arena_string.hpp"
#include "arena/arena.hpp"
#define REQUIRE(c, ...) do { if (!(c)) { fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); exit(1); } } while (0)
using namespace stdb::memory;
"""
SEEDS = [
    dict(id="c35-long-strings-grow-linearly", prop="C35", srcs="arena/*.cc",
         needs="a string of more than about a thousand characters growing by appending",
         breaks="its capacity grows by a fixed step only, so that building a long text moves it again and again",
         edits=[(F, "            reserve(expGrowth ? std::max(newSz, 1 + capacity() * 3 / 2) : newSz);\n",
                    "            // beyond a kilobyte be thrifty\n            const size_t step = std::min<size_t>(1 + capacity() / 2, 512);\n            reserve(expGrowth ? std::max(newSz, capacity() + step) : newSz);\n")],
         demo=HEAD + r"""
int main() {
    string s;
    size_t moves = 0, cap = s.capacity();
    for (int i = 0; i < 200000; ++i) {
        s.push_back('x');
        if (s.capacity() != cap) { cap = s.capacity(); ++moves; }
    }
    REQUIRE(moves < 60, "%zu changes of storage", moves);
}
"""),
    dict(id="c35-arena-erase-takes-new-storage", prop="C35", srcs="arena/*.cc",
         needs="a long arena string that shares its storage with none and is shortened",
         breaks="it takes new storage of exactly its size from the arena and loses its capacity",
         edits=[(AF, "        } else if (category() == Category::isMedium || RefCounted::refs(ml_.data_) == 1) {  // NOLINT\n            shrinkMedium(delta);\n",
                     "        } else if (category() == Category::isMedium) {\n            shrinkMedium(delta);\n")],
         demo=HEAD + r"""
int main() {
    Arena arena(Arena::Options::GetDefaultOptions());
    arena_string s(1000, 'a', arena.get_memory_resource());
    const size_t cap = s.capacity();
    const void* p = static_cast<const arena_string&>(s).data();
    for (int i = 0; i < 600; ++i) s.pop_back();
    REQUIRE(s.size() == 400, "size");
    REQUIRE(s.capacity() == cap, "capacity %zu", s.capacity());
    REQUIRE(static_cast<const arena_string&>(s).data() == p, "moved");
}
"""),
    dict(id="c35-prepending-never-reuses-room", prop="C35", srcs="arena/*.cc",
         needs="a string put before an expiring string whose spare room exactly holds it",
         breaks="the result is built in new storage",
         edits=[(F, "    if (rhs.capacity() >= len + rhs.size()) {\n        // Good, at least we don't need to reallocate\n        rhs.insert(rhs.begin(), lhs, lhs + len);\n",
                    "    if (rhs.capacity() - rhs.size() > len) {\n        // Good, at least we don't need to reallocate\n        rhs.insert(rhs.begin(), lhs, lhs + len);\n")],
         demo=HEAD + r"""
int main() {
    string s(100, 'a');
    s.reserve(110);
    const void* p = static_cast<const string&>(s).data();
    string r = "0123456789" + std::move(s);
    REQUIRE(r.size() == 110 && r[0] == '0' && r[10] == 'a', "contents");
    REQUIRE(static_cast<const string&>(r).data() == p, "moved");
}
"""),
]
