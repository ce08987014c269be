import os, runpy
_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "arena.py"))
A, AC, HEAD, S = _a["A"], _a["AC"], _a["HEAD"], _a["S"]
H = "arena/arenahelper.hpp"
SEEDS = [
    dict(id="c32-trivial-elements-not-made", prop="C32", srcs=S,
         needs="an array of a trivial type in memory of a block which was used before (after a reset, or dirty blocks)",
         breaks="the elements are not value-initialised",
         edits=[(A, "            for (uint64_t i = 0; i < num; ++i) {\n                Construct<T>(curr++, *this);\n            }\n",
                 "            // nothing to do for elements without constructor\n            for (uint64_t i = 0; !std::is_trivially_default_constructible_v<T> && i < num; ++i) {\n                Construct<T>(curr++, *this);\n            }\n")],
         demo=HEAD + r"""
int main() {
    Arena a(opts());
    char* p = a.AllocateAligned(200);
    REQUIRE(p, "memory");
    memset(p, 0x5A, 200);
    (void)a.Reset();
    int* v = a.CreateArray<int>(10);
    for (int i = 0; i < 10; ++i) REQUIRE(v[i] == 0, "an element of a new array is not 0");
}
"""),
    dict(id="c32-arena-constructor-copies-arguments", prop="C32", srcs=S,
         needs="a class whose constructor takes the arena and an rvalue",
         breaks="the argument arrives as an lvalue, so it is copied instead of moved",
         edits=[(A, "            return new (ptr) T(arena, std::forward<Args>(args)...);", "            return new (ptr) T(arena, args...);")],
         demo=HEAD + r"""
#include <string>
struct T { ArenaFullManagedTag; std::string s; T(Arena&, const std::string& x) : s(x) {} T(Arena&, std::string&& x) : s(std::move(x)) {} };
int main() {
    Arena a(opts());
    std::string text(100, 'x');
    const char* data = text.data();
    T* t = a.Create<T>(std::move(text));
    REQUIRE(t && t->s.size() == 100 && t->s.data() == data, "the text was not moved into the object");
}
"""),
    dict(id="c32-both-tags-destroyed", prop="C32", srcs=S,
         needs="a class with both tags (as the README shows one)",
         breaks="its destructor is run although it says that it is to be skipped",
         edits=[(H, "      std::integral_constant<bool, sizeof(DestructionSkippable<T>(static_cast<const T*>(0))) == sizeof(char) ||\n                                     std::is_trivially_destructible<T>::value>;",
                 "      std::integral_constant<bool, (sizeof(DestructionSkippable<T>(static_cast<const T*>(0))) == sizeof(char) &&\n                                      sizeof(ArenaConstructable<T>(static_cast<const T*>(0))) != sizeof(char)) ||\n                                     std::is_trivially_destructible<T>::value>;"),
                (H, "    template <typename U>\n    static auto ArenaConstructable(const typename U::ArenaManaged_*) -> char;\n    template <typename U>\n    static auto ArenaConstructable(...) -> double;\n\n", ""),
                (H, "    template <typename U>\n    static auto DestructionSkippable(const", "    template <typename U>\n    static auto ArenaConstructable(const typename U::ArenaManaged_*) -> char;\n    template <typename U>\n    static auto ArenaConstructable(...) -> double;\n\n    template <typename U>\n    static auto DestructionSkippable(const")],
         demo=HEAD + r"""
static int ran;
struct T { ArenaFullManagedTag; ArenaManagedCreateOnlyTag; int x = 0; ~T() { ++ran; } };
int main() {
    { Arena a(opts()); REQUIRE(a.Create<T>(), "created"); }
    REQUIRE(ran == 0, "a destructor to be skipped was run");
}
"""),
]
