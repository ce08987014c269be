// C35: capacity of strings: reserve, growth, storage kept in place, shrink_to_fit, what copies, moves and swaps do with long storage.
#include "mc.hpp"
#include "string/string.hpp"
#include "string/arena_string.hpp"
#include "arena/arena.hpp"
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#ifdef NDEBUG
// The small-string initialiser of release builds reads whole words (string.hpp, initSmall): give every buffer whole words.
void* operator new(std::size_t n) { if (void* p = malloc((n + 7) & ~std::size_t(7))) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
#endif
using std::size_t;
namespace smem = stdb::memory;

template <class C> struct Plain {
    using Char = C;
    using S = smem::basic_string<C>;
    static constexpr bool arena = false;
    template <class... A> S make(A&&... a) { return S(std::forward<A>(a)...); }
};
struct InArena {
    using Char = char;
    using S = smem::arena_string;
    static constexpr bool arena = true;
    smem::Arena a{smem::Arena::Options::GetDefaultOptions()};
    template <class... A> S make(A&&... x) { return S(std::forward<A>(x)..., std::pmr::polymorphic_allocator<char>(a.get_memory_resource())); }
};

template <class X>
struct Cap {
    using S = typename X::S;
    using C = typename X::Char;
    using M = std::basic_string<C>;
    static constexpr size_t small = 24 / sizeof(C) - 1, medium = 254 / sizeof(C);
    static constexpr C filler(size_t i) { return C('a' + i % 23); }
    static M text(size_t from, size_t n) { M m(n, C()); for (size_t i = 0; i < n; ++i) m[i] = filler(from + i); return m; }
    static const C* data(const S& s) { return s.data(); }
    static bool inside(const S& s) { auto p = reinterpret_cast<const char*>(data(s)); return p >= reinterpret_cast<const char*>(&s) && p < reinterpret_cast<const char*>(&s + 1); }

    X x;
    std::unique_ptr<S> s, copy;
    M m;
    const char* how = "";
    bool ghost = false;  // arena strings need no destruction: a destroyed copy still counts as a sharer
    static constexpr int builds = 7;
    // Strings of n characters with storage of every kind.
    Cap(size_t n, int b) {
        m = text(0, n);
        static const char* hn[] = {"exact", "appended", "reserved twice", "shared", "was shared", "shrunk", "reserved long"};
        how = hn[b];
        ghost = X::arena && b == 4;
        switch (b) {
        case 0: s.reset(new S(x.make(m.data(), n))); break;
        case 1: s.reset(new S(x.make())); for (C c : m) s->push_back(c); break;
        case 2: s.reset(new S(x.make())); s->reserve(2 * n); s->append(m.data(), n); break;
        case 3: s.reset(new S(x.make(m.data(), n))); copy.reset(new S(*s)); break;
        case 4: s.reset(new S(x.make(m.data(), n))); copy.reset(new S(*s)); copy.reset(); break;
        case 5: { M t = m + text(7, 40); s.reset(new S(x.make(t.data(), t.size()))); s->resize(n); break; }
        case 6: s.reset(new S(x.make(m.data(), n))); s->reserve(medium * 2 + 9); break;
        }
        MC_NOTE("%s string of %zu characters, capacity %zu", how, n, s->capacity());
        same("the construction");
    }
    const S& c() const { return *s; }
    void same(const char* op) {
        if (c().size() != m.size() || std::char_traits<C>::compare(data(*s), m.data(), m.size()) || c().c_str()[m.size()] != C()) mc::fail("%s changed the contents", op);
        if (c().capacity() < c().size()) mc::fail("after %s capacity %zu is below size %zu", op, c().capacity(), c().size());
        if (copy && (copy->size() != m0().size() || std::char_traits<C>::compare(data(*copy), m0().data(), m0().size()))) mc::fail("%s changed a copy of the string", op);
    }
    M first;
    const M& m0() { if (copy && first.empty()) first = M(data(*copy), copy->size()); return first; }
    // Storage that operations within the capacity have to keep: everything but what is about to leave the string object.
    bool stays() const {
        if (copy || (ghost && c().capacity() == m.size())) return false;
#ifndef NDEBUG
        if (!X::arena && inside(*s)) return false;  // debug builds keep nothing in the object
#endif
        return true;
    }

    // Operations that make the string d characters longer, in every way that has the final length known beforehand.
    static constexpr int growers = 12;
    static const char* gname(int k) {
        static const char* n[] = {"append(p, n)", "append(n, c)", "push_back", "+=", "append(string)", "resize", "insert(pos, n, c)", "insert(pos, p, n)", "insert(it, first, last)", "replace", "append(string, pos, n)", "insert(it, c)"};
        return n[k];
    }
    void grow(int k, size_t d) {
        M t = text(m.size() * 3 + 5, d);
        size_t half = m.size() / 2;
        switch (k) {
        case 0: s->append(t.data(), d); m += t; break;
        case 1: s->append(d, C('n')); m.append(d, C('n')); break;
        case 2: for (C ch : t) s->push_back(ch); m += t; break;
        case 3: { std::basic_string_view<C> v(t); for (; v.size() > 3; v.remove_prefix(3)) *s += v.substr(0, 3); for (C ch : v) *s += ch; m += t; break; }
        case 4: { S o = x.make(t.data(), d); s->append(o); m += t; break; }
        case 5: s->resize(m.size() + d, C('r')); m.resize(m.size() + d, C('r')); break;
        case 6: s->insert(half, d, C('i')); m.insert(half, d, C('i')); break;
        case 7: s->insert(half, t.data(), d); m.insert(half, t.data(), d); break;
        case 8: { std::list<C> l(t.begin(), t.end()); s->insert(s->cbegin() + ptrdiff_t(half), l.begin(), l.end()); m.insert(half, t); break; }
        case 9: { size_t k2 = std::min<size_t>(2, m.size() - half); M u = t + m.substr(half, k2); s->replace(half, k2, u.data(), u.size()); m.replace(half, k2, u); break; }
        case 10: { S o = x.make(t.data(), d); s->append(o, 0, d); m += t; break; }
        case 11: for (C ch : t) s->insert(s->cbegin() + ptrdiff_t(half), ch); m.insert(half, M(t.rbegin(), t.rend())); break;
        }
        mc::step();
    }
    static constexpr int shrinkers = 9;
    static const char* sname(int k) {
        static const char* n[] = {"pop_back", "erase(pos, n)", "erase(it)", "erase(first, last)", "resize", "clear", "assign(p, n)", "replace", "assign(string)"};
        return n[k];
    }
    void cut(int k, size_t d) {
        size_t n = m.size(), at = (n - d) / 2;
        switch (k) {
        case 0: for (size_t i = 0; i < d; ++i) s->pop_back(); m.resize(n - d); break;
        case 1: s->erase(at, d); m.erase(at, d); break;
        case 2: for (size_t i = 0; i < d; ++i) s->erase(s->begin() + ptrdiff_t(at)); m.erase(at, d); break;
        case 3: s->erase(s->begin() + ptrdiff_t(at), s->begin() + ptrdiff_t(at + d)); m.erase(at, d); break;
        case 4: s->resize(n - d); m.resize(n - d); break;
        case 5: s->clear(); m.clear(); break;
        case 6: { M t = text(11, n - d); s->assign(t.data(), t.size()); m = t; break; }
        case 7: { M t = text(13, (d + 1) / 2); size_t k2 = std::min(n, d + t.size()); s->replace(0, k2, t.data(), t.size()); m.replace(0, k2, t); break; }
        case 8: { M t = text(17, n - d); S o = x.make(t.data(), t.size()); s->assign(o); m = t; break; }
        }
        mc::step();
    }

    static std::vector<size_t> sizes(size_t dense, size_t step) {
        std::vector<size_t> v;
        for (size_t i = 0; i < dense; i += step) v.push_back(i);
        for (size_t b : {small, medium, 2 * medium, size_t(500), size_t(1000), size_t(4096)})
            for (size_t i = b < 3 ? 0 : b - 2; i <= b + 2; ++i) v.push_back(i);
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
    }
    static std::vector<size_t> around(size_t n, size_t cap) {
        std::vector<size_t> v{0, 1, n, n + 1, n + 2, n + n / 2, 2 * n, 2 * n + 1, 3 * n, cap, cap + 1, cap + cap / 2, 2 * cap, small, small + 1, 2 * small, 2 * small + 1, medium - 1, medium, medium + 1, 2 * medium, 3 * medium + 1, 1000, 4000};
        if (n) v.push_back(n - 1);
        if (cap) v.push_back(cap - 1);
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
    }

    static void reserving(const std::string& who, size_t dense, size_t step) {
        auto L = sizes(dense, step);
        mc::add("C35", who + ": reserve, then operations within the capacity", L.size(), [L](uint64_t t) {
            Cap w(L[t], mc::choose(builds));
            auto R = around(L[t], w.c().capacity());
            size_t n = R[size_t(mc::choose(int(R.size())))], old = w.c().capacity();
            const C* p = data(*w.s);
            bool keep = w.stays() && n <= old;
#ifndef NDEBUG
            if (!X::arena && inside(*w.s)) old = 0;  // debug builds keep nothing in the object, so that its capacity cannot be used
#endif
            MC_NOTE("reserve(%zu)", n);
            w.s->reserve(n);
            mc::step();
            w.same("reserve");
            if (w.c().capacity() < n) mc::fail("reserve(%zu) left capacity %zu", n, w.c().capacity());
            if (w.c().capacity() < old) mc::fail("reserve(%zu) reduced the capacity from %zu to %zu", n, old, w.c().capacity());
            if (keep && data(*w.s) != p) mc::fail("reserve(%zu) moved a string of capacity %zu", n, old);
            if (w.copy && w.c().capacity() == w.c().size()) return;  // still sharing
            if (w.copy) { if (data(*w.s) == data(*w.copy)) mc::fail("a string with spare capacity shares its storage"); w.copy.reset(); }
            if (!w.stays()) return;
            p = data(*w.s);
            size_t cap = w.c().capacity();
            bool in = inside(*w.s);
            int k = mc::choose(growers + shrinkers);
            auto still = [&](const char* op) {
                MC_NOTE("%s to %zu of %zu characters", op, w.m.size(), cap);
                w.same(op);
                if (data(*w.s) != p) mc::fail("%s to %zu characters moved a string of capacity %zu", op, w.m.size(), cap);
                if (w.c().capacity() != cap && !in) mc::fail("%s to %zu characters changed the capacity from %zu to %zu", op, w.m.size(), cap, w.c().capacity());
            };
            if (k < growers) {
                for (size_t d : {size_t(1), size_t(1), (cap - L[t]) / 2, size_t(-1)}) {
                    size_t room = cap - w.m.size();
                    d = std::min(d, room);
                    if (!d) break;
                    w.grow(k, d);
                    still(gname(k));
                }
            } else {
                for (size_t d : {size_t(1), w.m.size() / 2, size_t(-1)}) {
                    d = std::min(d, w.m.size());
                    if (!d) break;
                    w.cut(k - growers, d);
                    still(sname(k - growers));
                }
                // and what became free can be used again
                if (w.m.size() < cap) { w.grow(0, cap - w.m.size()); still("append after it"); }
            }
        });
    }
    static void growing(const std::string& who, size_t limit, size_t dense, size_t step) {
        auto L = sizes(dense, step);
        mc::add("C35", who + ": growth by repeated appending and inserting", L.size(), [L, limit](uint64_t t) {
            static const int gs[] = {0, 1, 2, 3, 4, 10, 6, 7, 8, 9, 11};
            Cap w(L[t], mc::choose(builds));
            int gi = mc::choose(int(std::size(gs))), k = gs[gi];
            static const size_t ds[] = {1, 3, 20, 301};
            size_t d = ds[mc::choose(4)], top = gi < 6 ? limit * (d > 3 ? 4 : 1) : limit / 4;
            bool many = k == 2 || k == 3 || k == 11;       // these append characters one or a few at a time
            if (many && d > 3) return;
            size_t moves = 0, start = std::max<size_t>(w.c().capacity(), 1);
            auto check = [&](size_t old, const C* p) {
                size_t cap = w.c().capacity();
                if (w.c().size() != w.m.size()) mc::fail("%s left %zu characters instead of %zu", gname(k), w.c().size(), w.m.size());
                if (cap == old && data(*w.s) == p) return;
                ++moves;
                if (w.m.size() <= old && w.stays()) mc::fail("%s to %zu characters changed the storage of a string of capacity %zu", gname(k), w.m.size(), old);
                if (w.m.size() > old && cap < old + old / 2) mc::fail("%s grew a full string of capacity %zu to only %zu", gname(k), old, cap);
            };
            while (w.m.size() < top) {
                size_t old = w.c().capacity();
                const C* p = data(*w.s);
                bool st = w.stays();
                if (many) w.grow(k, 1); else w.grow(k, d);
                if (st || w.m.size() > old) check(old, p);
                if (w.copy && w.m.size() > L[t]) { w.same("growing"); w.copy.reset(); }
            }
            w.same("growing");
            size_t allowed = 3;
            for (size_t c = start; c < w.m.size(); c += std::max<size_t>(1, c / 2)) ++allowed;
            if (moves > allowed) mc::fail("%zu changes of storage while growing from capacity %zu to %zu characters with %s", moves, start, w.m.size(), gname(k));
        });
    }
    static void shrinking(const std::string& who, size_t dense, size_t step) {
        auto L = sizes(dense, step);
        mc::add("C35", who + ": shrink_to_fit", L.size(), [L](uint64_t t) {
            Cap w(L[t], mc::choose(builds));
            auto R = around(L[t], w.c().capacity());
            int r = mc::choose(int(R.size()) + 1);
            if (r) w.s->reserve(R[size_t(r - 1)]);
            size_t old = w.c().capacity(), n = w.m.size();
            for (int i = 0; i < 2; ++i) {
                MC_NOTE("shrink_to_fit with capacity %zu", w.c().capacity());
                w.s->shrink_to_fit();
                mc::step();
                w.same("shrink_to_fit");
                size_t cap = w.c().capacity();
                if (cap > std::max(old, small)) mc::fail("shrink_to_fit raised the capacity from %zu to %zu", old, cap);
                if (!X::arena && cap > std::max(small, n + n / 2)) mc::fail("shrink_to_fit left capacity %zu for %zu characters", cap, n);
            }
            w.grow(mc::choose(growers), 1);
            w.same("an operation after shrink_to_fit");
        });
    }
    // Copies of long strings share storage until one of them changes; moves and swaps hand it over.
    static void handing(const std::string& who, size_t dense, size_t step) {
        auto L = sizes(dense, step);
        mc::add("C35", who + ": copying, moving, swapping, concatenating with spare capacity", L.size(), [L](uint64_t t) {
            Cap w(L[t], mc::choose(builds));
            size_t n = L[t], cap = w.c().capacity();
            const C* p = data(*w.s);
            bool in = inside(*w.s);
            auto is = [&](const S& r, const M& want, const char* op, bool place) {
                mc::step();
                MC_NOTE("%s", op);
                if (r.size() != want.size() || std::char_traits<C>::compare(data(r), want.data(), want.size()) || r.c_str()[want.size()] != C()) mc::fail("%s gives other contents", op);
                if (place && data(r) != p) mc::fail("%s of a string of %zu characters and capacity %zu copied it", op, n, cap);
            };
            M o = text(31, 5);
            bool fits = w.stays() && !in && cap >= n + o.size(), one = w.stays() && !in && cap > n;
            switch (mc::choose(13)) {
            case 0: { S r(w.c()); is(r, w.m, "copying", n > medium); S q(r); is(q, w.m, "copying a copy", n > medium); is(w.c(), w.m, "being copied", !in); break; }
            case 1: { S r(std::move(*w.s)); is(r, w.m, "move construction", !in); if (r.capacity() != cap) mc::fail("moving changed the capacity from %zu to %zu", cap, r.capacity()); break; }
            case 2: { S r = w.x.make(o.data(), o.size()); r = std::move(*w.s); is(r, w.m, "move assignment", !in); if (r.capacity() != cap) mc::fail("moving changed the capacity from %zu to %zu", cap, r.capacity()); break; }
            case 3: { M big = text(5, 400); S r = w.x.make(big.data(), big.size()); const C* q = data(r); r.swap(*w.s); is(r, w.m, "swap", !in); p = q; is(w.c(), big, "swap", true); break; }
            case 4: { S r = w.x.make(); swap(r, *w.s); is(r, w.m, "swap with an empty string", !in); is(w.c(), M(), "swap with an empty string", false); break; }
            case 5: { S r = std::move(*w.s) + w.x.make(o.data(), o.size()); is(r, w.m + o, "string&& + string&&", fits); break; }
            case 6: { S q = w.x.make(o.data(), o.size()); S r = std::move(*w.s) + q; is(r, w.m + o, "string&& + string", fits); break; }
            case 7: { S q = w.x.make(o.data(), o.size()); S r = q + std::move(*w.s); is(r, o + w.m, "string + string&&", fits); break; }
            case 8: { S r = std::move(*w.s) + o.c_str(); is(r, w.m + o, "string&& + text", fits); break; }
            case 9: { S r = o.c_str() + std::move(*w.s); is(r, o + w.m, "text + string&&", fits); break; }
            case 10: { S r = std::move(*w.s) + C('z'); is(r, w.m + C('z'), "string&& + character", one); break; }
            case 11: { S r = C('z') + std::move(*w.s); is(r, C('z') + w.m, "character + string&&", one); break; }
            case 12: { std::vector<S> v; v.push_back(std::move(*w.s)); v.reserve(v.capacity() + 3); is(v[0], w.m, "moving into and with a vector", !in); break; }
            }
        });
    }
    static void all(const std::string& who, size_t dense, size_t step, size_t limit) {
        if (mc::thorough()) { step = 1; limit *= 4; }
        reserving(who, dense, step);
        growing(who, limit, dense, step * 8);
        shrinking(who, dense, step);
        handing(who, dense, step);
    }
};

void mc_spaces(const std::string&) {
    Cap<Plain<char>>::all("char", 300, 1, 3000);
    Cap<InArena>::all("arena", 300, 1, 3000);
    Cap<Plain<wchar_t>>::all("wchar_t", 100, 3, 1500);
    Cap<Plain<char16_t>>::all("char16_t", 160, 4, 1500);
    Cap<Plain<char32_t>>::all("char32_t", 100, 5, 1000);
}
int main(int c, char** v) { return mc::main_(c, v); }
