#include "astrspaces.hpp"
// Debug builds refuse the default memory resource; the operations are those of release builds.
#ifndef NDEBUG
#include <iostream>
#include <sstream>
// what refusing means: every constructor with contents throws, with the resource passed or left out, and takes nothing
void reg_default(const std::string&) {
    using X = ArenaX<2>;
    using S = X::S;
    mc::add("C33", "debug builds refuse the default resource", 301, [](uint64_t n) {
        auto al = X::al();
        std::string m = text<char>(2, n, true);
        std::list<char> l(m.begin(), m.end());
        S* mine = nullptr;
        ares::mode = 0;
        S other(m.data(), m.size(), ares::get(1));
        ares::mode = 2;
        bool given = mc::choose(2);
        int live = heap::nlive;
        std::ostringstream told;
        auto* was = std::cerr.rdbuf(told.rdbuf());
        int how = mc::choose(9);
        static const char* name[] = {"(text)", "(text, size)", "(count, character)", "(two iterators)", "(two pointers)", "(view)", "(list)", "(part of a string of another resource)", "(std::string)"};
        MC_NOTE("%s, %lu characters, the default resource %s", name[how], n, given ? "given" : "left out");
        bool refused = false;
        alignas(S) char place[sizeof(S)];
        const char* b = m.data();
        try {
            switch (how) {
                case 0: mine = given ? new (place) S(m.c_str(), al) : new (place) S(m.c_str()); break;
                case 1: mine = given ? new (place) S(b, m.size(), al) : new (place) S(b, m.size()); break;
                case 2: mine = given ? new (place) S(n, 'x', al) : new (place) S(n, 'x'); break;
                case 3: mine = given ? new (place) S(l.begin(), l.end(), al) : new (place) S(l.begin(), l.end()); break;
                case 4: mine = given ? new (place) S(b, b + n, al) : new (place) S(b, b + n); break;
                case 5: mine = given ? new (place) S(std::string_view(m), al) : new (place) S(std::string_view(m)); break;
                case 6: mine = given ? new (place) S({'a', 'b', 'c'}, al) : new (place) S({'a', 'b', 'c'}); break;
                case 7: mine = given ? new (place) S(other, n / 3, S::npos, al) : new (place) S(other, n / 3, n / 2); break;
                default: { S s(m); mine = &s; break; }
            }
        } catch (const std::logic_error&) {
            refused = true;
        }
        std::cerr.rdbuf(was);
        mc::step();
        MC_CHECK(refused, "a debug build makes an arena string %s on the default memory resource", name[how]);
        MC_CHECK(heap::nlive == live, "the refused constructor keeps %d allocations", heap::nlive - live);
        World<X>::same(other, m, "the string of another resource", "the refusal");
        mc::state(mc::Hash().add(n).add(uint64_t(how)));
    });
}
#else
void reg_default(const std::string&) {
    using X = ArenaX<2>;
    const char* type = "arena string, default resource";
    bool T = mc::thorough();
    auto& L = Lists<X>::get();
    auto init = [](World<X>& w) { w.check_kept = true; };
    histories<X>("C33", type, 1, L.full, sizes<X>(), {0, 1, 2, 3, 4, 5, 6}, init);
    histories<X>("C33", (std::string(type) + ", own parts as arguments").c_str(), T ? 1 : 0, L.alias, sizes<X>(), {0, 1, 2, 3, 4, 5, 6}, init);
    walk<X>("C33", type, 3 + (T ? 1 : 0), {1, X::small, X::medium + 1});
    long_ones<X>("C33", type, L.full, false, false, init);
    growth<X>("C33", type, T ? 300000 : 40000);
    c13<X>(type, true, "C33");
    c15<X>(type, false, "C33");
    two_arenas<X>(type, "C33");
}
#endif
