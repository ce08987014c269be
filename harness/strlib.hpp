// Operation library shared by the string harnesses: every public operation of basic_string with argument domains built
// around the current state (positions at both ends and in the middle, lengths that end just below / at / above each
// storage threshold), applied to the real string and to a std::basic_string model.
#pragma once
#include "heap.hpp"
#include "string/string.hpp"
#include "string/arena_string.hpp"

#include <deque>
#include <list>
#include <memory>
#include <new>
#include <sstream>

namespace sl {
using std::size_t;

template <class C>
struct Plain {
    using Char = C;
    using S = stdb::memory::basic_string<C>;
    using M = std::basic_string<C>;
    static constexpr bool arena = false, ledger = true;
    using Al = std::allocator<C>;
    static Al al() { return {}; }
    static constexpr size_t small = 23 / sizeof(C), medium = 254 / sizeof(C);
};

// Character i of source text b: embedded zeros, high-bit and (wide types) characters whose low byte is zero occur in
// every text, and neighbouring positions differ, so a shifted, lost or doubled character always shows.
template <class C>
inline C ch(unsigned b, size_t i) {
    size_t v = (size_t(b) * 5 + i + i / 29 * 3) % 29;
    if (v == 7) return C(0);
    if (v == 13) return C(0xFF);
    if (v == 17 && sizeof(C) > 1) return C(0x4100);
    if (v == 19) return C(0x80 + (b & 15));
    return C('A' + v + (i / 29 % 2) * 32);
}
template <class C>
inline std::basic_string<C> text(unsigned b, size_t n, bool zeros = true) {
    std::basic_string<C> r;
    for (size_t i = 0; i < n; ++i) {
        C c = ch<C>(b, i);
        r.push_back(!zeros && c == C(0) ? C('0') : c);
    }
    return r;
}
// Exactly sized source buffer (padded to a whole word in release builds, where the small-string initialiser reads words).
template <class C>
struct Src {
    char* raw;
    C* p;
    size_t n;
    Src(unsigned b, size_t n, bool cstr = false) : n(n) { fill(text<C>(b, n, !cstr), cstr); }
    explicit Src(const std::basic_string<C>& t, bool cstr = false) : n(t.size()) { fill(t, cstr); }
    Src(const Src&) = delete;
    void fill(const std::basic_string<C>& t, bool cstr) {
        size_t bytes = (n + (cstr ? 1 : 0)) * sizeof(C);
#ifdef NDEBUG
        raw = new char[((bytes + 7) & ~size_t(7)) + 16];
        p = reinterpret_cast<C*>(raw);
#else
        raw = new char[bytes ? bytes : 1];
        p = reinterpret_cast<C*>(raw);
#endif
        memcpy(p, t.data(), n * sizeof(C));
        if (cstr) p[n] = C(0);
    }
    ~Src() { delete[] raw; }
};
// input iterator (single pass) over a text
template <class C>
struct InIt {
    using iterator_category = std::input_iterator_tag;
    using value_type = C;
    using difference_type = std::ptrdiff_t;
    using pointer = const C*;
    using reference = C;
    const std::basic_string<C>* t;
    size_t* at;
    size_t end;
    bool is_end;
    C operator*() const { return (*t)[*at]; }
    InIt& operator++() { ++*at; return *this; }
    void operator++(int) { ++*at; }
    bool operator==(const InIt& o) const { return (is_end ? end : *at) == (o.is_end ? o.end : *o.at); }
    bool operator!=(const InIt& o) const { return !(*this == o); }
};

template <class C> inline InIt<C> in_first(const std::basic_string<C>& t, size_t& a) { return {&t, &a, t.size(), false}; }
template <class C> inline InIt<C> in_last(const std::basic_string<C>& t, size_t& a) { return {&t, &a, t.size(), true}; }
template <class It, class Str> inline uint64_t off(It it, const Str& s) { return uint64_t(&*it - s.data()); }

enum Flag { STRONG = 1, NOFAULT = 2, SHAPE = 4, ALIAS = 8, BIG = 16 };

enum Outcome { Ok, OutOfRange, TooLong, NoMemory, Logic, Other };
inline const char* oname(Outcome o) {
    static const char* n[] = {"returned", "out_of_range", "length_error", "bad_alloc", "logic_error", "other exception"};
    return n[o];
}
template <class Sig> class Ref;
template <class R, class... A>
class Ref<R(A...)> {  // a reference to a callable
    void* o;
    R (*f)(void*, A...);
   public:
    template <class F>
    Ref(F&& g) : o(const_cast<void*>(static_cast<const void*>(&g))), f([](void* p, A... a) -> R { return (*static_cast<std::remove_reference_t<F>*>(p))(a...); }) {}
    R operator()(A... a) const { return f(o, a...); }
};
inline __attribute__((noinline)) Outcome guarded(Ref<void()> f) {
    try { f(); return Ok; }
    catch (const std::out_of_range&) { return OutOfRange; }
    catch (const std::length_error&) { return TooLong; }
    catch (const std::bad_alloc&) { return NoMemory; }
    catch (const std::logic_error&) { return Logic; }
    catch (...) { return Other; }
}

template <class X>
struct World {
    using C = typename X::Char;
    using S = typename X::S;
    using M = typename X::M;
    std::unique_ptr<S> s;
    M m;
    std::vector<std::pair<std::unique_ptr<S>, M>> kept;  // other strings alive (copies sharing storage, swap partners)
    int depth = 0;
    bool faults = false;       // inject allocation failures
    bool check_contents = true;
    bool check_kept = false;
    bool large = false;    // adds many characters, too
    bool no_more = false;      // set after an injected failure: stop this path
    std::string opname;

    World() : s(make()) {}
    template <class... A>
    static std::unique_ptr<S> make(A&&... a) { return std::unique_ptr<S>(new S(std::forward<A>(a)..., X::al())); }
    S lit(const M& t) { Src<C> src(t); return S(static_cast<const C*>(src.p), src.n, X::al()); }

    static void valid(const S& x, const char* who, const char* op) {
        size_t n = x.size();
        MC_CHECK(x.length() == n && x.empty() == (n == 0), "%s: after %s size/length/empty disagree", who, op);
        MC_CHECK(x.capacity() >= n, "%s: after %s capacity %zu is below size %zu", who, op, x.capacity(), n);
        MC_CHECK(x.c_str()[n] == C(0), "%s: after %s the string of size %zu is not zero-terminated", who, op, n);
        MC_CHECK(size_t(x.end() - x.begin()) == n, "%s: after %s end - begin is not the size", who, op);
        if constexpr (X::arena) {
            auto* d = reinterpret_cast<const char*>(x.data());
            auto* o = reinterpret_cast<const char*>(&x);
            bool in_place = d >= o && d < o + sizeof(S);
            MC_CHECK(in_place || X::owns(x.get_allocator().resource(), d, (n + 1) * sizeof(C)), "%s: after %s the characters lie outside the string's own arena", who, op);
            MC_CHECK(!in_place || n <= X::small, "%s: after %s %zu characters lie in place", who, op, n);
            if (!in_place) MC_CHECK(X::owns(x.get_allocator().resource(), d, (x.capacity() + 1) * sizeof(C)), "%s: after %s the capacity exceeds the storage", who, op);
        }
    }
    static void same(const S& x, const M& y, const char* who, const char* op) {
        MC_CHECK(x.size() == y.size(), "%s: after %s size is %zu, expected %zu", who, op, x.size(), y.size());
        valid(x, who, op);
        const C* d = x.data();
        if (!y.empty() && memcmp(d, y.data(), y.size() * sizeof(C)) != 0) {
            size_t i = 0;
            while (d[i] == y[i]) ++i;
            mc::fail("%s: after %s character %zu of %zu is %ld, expected %ld", who, op, i, y.size(), long(d[i]), long(y[i]));
        }
    }
    void check(const char* op) {
        if (check_contents) {
            same(*s, m, "the string", op);
            const S& x = *s;
            if (!m.empty()) {
                size_t n = m.size();
                MC_CHECK(x.front() == m.front() && x.back() == m.back() && x[n / 2] == m[n / 2] && x.at(n - 1) == m[n - 1], "after %s element access differs", op);
                MC_CHECK(*x.rbegin() == m.back() && *(x.rend() - 1) == m.front() && *x.cbegin() == m.front() && *(x.cend() - 1) == m.back() && *x.crbegin() == m.back() && *(x.crend() - 1) == m.front() && x.crbegin() == x.rbegin() && x.crend() - x.crbegin() == std::ptrdiff_t(m.size()), "after %s iterators differ", op);
            }
            MC_CHECK(x.data() == x.c_str() && x.begin() == x.data() && x.cbegin() == x.data(), "after %s data/c_str/begin differ", op);
            Outcome o = guarded([&] { (void)x.at(m.size()); });
            MC_CHECK(o == OutOfRange, "at(size) %s", oname(o));
        } else {
            valid(*s, "the string", op);
        }
        if (check_kept)
            for (size_t i = 0; i < kept.size(); ++i) same(*kept[i].first, kept[i].second, "another string", op);
    }
    // Canonical storage state: contents, capacity, and whether storage is shared.
    uint64_t hash() const {
        mc::Hash h;
        const S& x = *s;
        h.bytes(m.data(), m.size() * sizeof(C)).add(x.capacity());
        int share = 0;
        for (auto& k : kept) {
            const S& o = *k.first;
            share = share * 3 + (o.data() == x.data() ? 2 : 1);
            h.add(o.size());
        }
        return h.add(uint64_t(share)).h;
    }

    // The operation: r on the real string, o on the model; both return what the operation returned (as a number).
    __attribute__((noinline)) void exec(int flags, Ref<uint64_t(S&)> r, Ref<uint64_t(M&)> o) {
        uint64_t rv = 0, mv = 0;
        int k = -1;
        M before;
        if (faults) {
            k = (flags & NOFAULT) ? 3 : mc::choose(4);  // 0..2: that allocation of the operation fails; 3: none
            before = m;
            if (k < 3) heap::arm(k);
        }
        Outcome a = guarded([&] { rv = r(*s); });
        uint64_t f = faults ? heap::failed : 0;
        if (faults) heap::disarm();
        mc::step();
        if (faults && k < 3) {
            if (f == 0) {  // fewer allocations than that: nothing was injected, the no-fault branch covers it
                no_more = true;
                guarded([&] { mv = o(m); });
                return;
            }
            MC_NOTE("   allocation %d of %s fails -> %s", k, opname.c_str(), oname(a));
            no_more = true;
            // the failing operation must throw (unless it could do without that memory), everything stays usable
            if (a == Ok) {
                guarded([&] { mv = o(m); });
                same(*s, m, "the string", (opname + " which succeeded without memory").c_str());
            } else {
                MC_CHECK(a == NoMemory || a == TooLong, "%s without memory: %s, expected bad_alloc", opname.c_str(), oname(a));
                valid(*s, "the string", (opname + " without memory").c_str());
                touch(*s);
                if (flags & STRONG) same(*s, before, "the string (must be unchanged)", (opname + " without memory").c_str());
            }
            for (auto& q : kept) same(*q.first, q.second, "another string", (opname + " without memory").c_str());
            // reusable
            M t = text<C>(9, 2 * X::small + 3);
            Outcome again = guarded([&] { s->assign(t.data(), t.size()); s->push_back(C('z')); });
            MC_CHECK(again == Ok, "the string is not reusable after %s failed: %s", opname.c_str(), oname(again));
            t.push_back(C('z'));
            same(*s, t, "the string reused", "assign");
            m = t;
            return;
        }
        Outcome b = guarded([&] { mv = o(m); });
        if (flags & BIG) {
            MC_CHECK(a == TooLong || a == NoMemory, "%s of an impossible length: %s, expected length_error or bad_alloc", opname.c_str(), oname(a));
            return;
        }
        if (check_contents) {
            MC_CHECK(a == b, "%s: %s, std::basic_string: %s", opname.c_str(), oname(a), oname(b));
            MC_CHECK(rv == mv, "%s returned %lu, std::basic_string %lu", opname.c_str(), (unsigned long)rv, (unsigned long)mv);
        } else if (a != b || rv != mv) {
            no_more = true;  // another property's business; the model no longer describes the string
            m.assign(s->data(), s->size());
        }
    }
    static void touch(const S& x) {
        volatile uint64_t acc = 0;
        for (size_t i = 0; i <= x.size(); ++i) acc = acc + uint64_t(x.c_str()[i]);
    }
    size_t pick(std::vector<size_t> v) {
        std::vector<size_t> u;
        for (size_t x : v) {
            bool dup = false;
            for (size_t y : u) dup |= x == y;
            if (!dup) u.push_back(x);
        }
        return u[size_t(mc::choose(int(u.size())))];
    }
    // positions, including just past the end and (bad) beyond
    size_t pos(bool bad = true) {
        size_t n = m.size();
        std::vector<size_t> v{0, n};
        if (n > 1) { v.push_back(1); v.push_back(n / 2); v.push_back(n - 1); }
        if (bad) v.push_back(n + 1);
        return pick(v);
    }
    size_t pos2(size_t n) {
        std::vector<size_t> v{0, n, n / 2, n + 1};
        return pick(v);
    }
    size_t cnt(size_t from) {  // a count for [from, ...)
        size_t left = from <= m.size() ? m.size() - from : 0;
        std::vector<size_t> v{0, left, size_t(-1)};
        if (left > 1) v.push_back(1);
        if (left > 2) v.push_back(left / 2);
        if (left > 3) v.push_back(left - 1);
        v.push_back(left + 1);
        return pick(v);
    }
    // how many characters to add to a string of size n
    std::vector<size_t> grow_set(size_t n) {
        std::vector<size_t> v{0, 1, 2};
        size_t cap = static_cast<const S&>(*s).capacity();
        for (size_t t : {cap, cap + 1, X::small, X::small + 1, X::medium, X::medium + 1})
            if (t > n) v.push_back(t - n);
        if (large) for (size_t t : {n, 2 * n + 1, size_t(700), size_t(5000)}) v.push_back(t);
        return v;
    }
    size_t grow() { return pick(grow_set(m.size())); }
    size_t grow_few() {
        std::vector<size_t> v{0, 1};
        size_t cap = static_cast<const S&>(*s).capacity(), n = m.size();
        v.push_back(cap >= n ? cap - n + 1 : 3);
        if (X::medium + 1 > n) v.push_back(X::medium + 1 - n);
        return pick(v);
    }
    size_t len() {  // a length for new contents
        size_t cap = static_cast<const S&>(*s).capacity(), n = m.size();
        if (large) return pick({0, 1, n / 2, n, n + 1, n ? n - 1 : 0, X::medium + 1, cap, cap + 1, 2 * n + 1, 5000});
        return pick({0, 1, n, n + 1, n ? n - 1 : 0, X::small, X::small + 1, X::medium, X::medium + 1, cap, cap + 1});
    }
    size_t idx() { size_t n = m.size(); return pick({0, n / 2, n - 1}); }
    unsigned b() { return unsigned(2 + depth); }
};

template <class X>
struct Op {
    const char* name;
    int flags;
    std::function<void(World<X>&)> f;
};

#define D(s) static_cast<const S&>(s).data()
template <class S, class M> uint64_t self(const S& a, const S& b) { return &a == &b ? 0 : 99; }

// All modifying operations.
template <class X>
inline std::vector<Op<X>> all_ops() {
    using W = World<X>;
    using C = typename X::Char;
    using S = typename X::S;
    using M = typename X::M;
    using L = std::list<C>;
    std::vector<Op<X>> v;
#define OPS(nm, fl, ...) v.push_back({nm, fl, [](W& w) { constexpr int FL = fl; (void)FL; __VA_ARGS__ }})
#define EXEC(real, model) w.exec(FL, [&](S& s) -> uint64_t { real }, [&](M& s) -> uint64_t { model })
#define BOTH(...) w.exec(FL, [&](auto& s) -> uint64_t { __VA_ARGS__; return 0; }, [&](auto& s) -> uint64_t { __VA_ARGS__; return 0; })
#define RET(...) w.exec(FL, [&](auto& s) -> uint64_t { return &(__VA_ARGS__) == &s ? 0 : 99; }, [&](auto& s) -> uint64_t { return &(__VA_ARGS__) == &s ? 0 : 99; })
    // ---- storage shaping
    OPS("push_back(c)", STRONG | SHAPE, C c = ch<C>(w.b(), 3); BOTH(s.push_back(c)););
    OPS("append(ptr,n)", STRONG | SHAPE, size_t n = w.grow(); MC_NOTE("append(ptr,%zu)", n); Src<C> t(w.b(), n); RET(s.append(static_cast<const C*>(t.p), n)););
    OPS("reserve(n)", STRONG | SHAPE, size_t n = w.len(); MC_NOTE("reserve(%zu)", n);
        EXEC(s.reserve(n); MC_CHECK(!w.check_contents || static_cast<const S&>(s).capacity() >= n, "reserve(%zu) left capacity %zu", n, static_cast<const S&>(s).capacity()); return 0;, (void)s; return 0;););
    OPS("resize(n)", SHAPE, size_t n = w.len(); MC_NOTE("resize(%zu)", n); BOTH(s.resize(n)););
    OPS("resize(n,c)", 0, size_t n = w.len(); C c = ch<C>(w.b(), 4); MC_NOTE("resize(%zu,c)", n); BOTH(s.resize(n, c)););
    OPS("copy kept", SHAPE, if (w.kept.size() < 2) { bool ok = false; std::unique_ptr<S> k; EXEC(k.reset(new S(static_cast<const S&>(s))); ok = true; return 0;, (void)s; return 0;);
                                             if (ok) w.kept.emplace_back(std::move(k), w.m); });
    OPS("shrink_to_fit", SHAPE, BOTH(s.shrink_to_fit()););
    OPS("clear", SHAPE, BOTH(s.clear()););
    OPS("erase tail", SHAPE, size_t n = w.pos(false); MC_NOTE("erase(%zu)", n); RET(s.erase(n)););
    OPS("s[i]=c", SHAPE | STRONG, if (w.m.empty()) return; size_t i = w.idx(); C c = ch<C>(w.b(), 5); BOTH(s[i] = c););
    OPS("move into a new string", SHAPE | NOFAULT, EXEC(std::unique_ptr<S> news_(new S(std::move(s))); W::valid(s, "moved-from string", "move"); w.s = std::move(news_); return 0;, (void)s; return 0;););
    OPS("drop kept", SHAPE | NOFAULT, if (!w.kept.empty()) { w.kept.pop_back(); });
    OPS("assign(ptr,n)", SHAPE, size_t n = w.len(); MC_NOTE("assign(ptr,%zu)", n); Src<C> t(w.b(), n); RET(s.assign(static_cast<const C*>(t.p), n)););
    // ---- assignment
    OPS("=copy", 0, size_t n = w.len(); Src<C> t(w.b(), n); S o = w.lit(M(t.p, n)); M om(t.p, n); MC_NOTE("= string of %zu", n); EXEC(return &(s = static_cast<const S&>(o)) == &s ? 0 : 99;, return &(s = om) == &s ? 0 : 99;););
    OPS("=move", NOFAULT, size_t n = w.len(); Src<C> t(w.b(), n); S o = w.lit(M(t.p, n)); M om(t.p, n); MC_NOTE("= std::move(string of %zu)", n);
        EXEC(auto r = &(s = std::move(o)) == &s ? 0 : 99; W::valid(o, "moved-from string", "move assignment"); return uint64_t(r);, return &(s = std::move(om)) == &s ? 0 : 99;););
    OPS("=self", 0, EXEC(auto& q = s; return &(s = q) == &s ? 0 : 99;, (void)s; return 0;););
    OPS("=std::move(self)", NOFAULT, EXEC(auto& q = s; s = std::move(q); s.assign(3, C('m')); return 0;, s.assign(3, C('m')); return 0;););
    OPS("=std::basic_string", 0, size_t n = w.len(); M om = text<C>(w.b(), n); MC_NOTE("= std string of %zu", n); EXEC(return &(s = om) == &s ? 0 : 99;, return &(s = om) == &s ? 0 : 99;););
    OPS("=cstr", 0, size_t n = w.len(); Src<C> t(w.b(), n, true); MC_NOTE("= C string of %zu", n); RET(s = static_cast<const C*>(t.p)););
    OPS("=c", 0, C c = ch<C>(w.b(), 1); RET(s = c););
    OPS("={il}", 0, RET(s = {C('a'), C(0), C('b')}););
    if constexpr (sizeof(C) == 1)
        OPS("=string_view", 0, size_t n = w.len(); Src<C> t(w.b(), n); MC_NOTE("= view of %zu", n); std::basic_string_view<C> sv(t.p, n); RET(s = sv););
    OPS("assign(S)", 0, size_t n = w.len(); Src<C> t(w.b(), n); S o = w.lit(M(t.p, n)); M om(t.p, n); MC_NOTE("assign(string of %zu)", n); EXEC(return &s.assign(static_cast<const S&>(o)) == &s ? 0 : 99;, return &s.assign(om) == &s ? 0 : 99;););
    OPS("assign(S&&)", NOFAULT, size_t n = w.len(); Src<C> t(w.b(), n); S o = w.lit(M(t.p, n)); M om(t.p, n); EXEC(return &s.assign(std::move(o)) == &s ? 0 : 99;, return &s.assign(om) == &s ? 0 : 99;););
    OPS("assign(S,pos,n)", 0, size_t n = w.pick({3, X::small + 4, X::medium + 6}); Src<C> t(w.b(), n); S o = w.lit(M(t.p, n)); M om(t.p, n); size_t p = w.pos2(n); size_t k = w.pick({0, 2, n - 1, size_t(-1)});
        MC_NOTE("assign(string of %zu,%zu,%zu)", n, p, k); EXEC(return &s.assign(o, p, k) == &s ? 0 : 99;, return &s.assign(om, p, k) == &s ? 0 : 99;););
    OPS("assign(cstr)", 0, size_t n = w.len(); Src<C> t(w.b(), n, true); RET(s.assign(static_cast<const C*>(t.p))););
    OPS("assign(n,c)", 0, size_t n = w.len(); C c = ch<C>(w.b(), 2); MC_NOTE("assign(%zu,c)", n); RET(s.assign(n, c)););
    OPS("assign(list)", 0, size_t n = w.len(); M t = text<C>(w.b(), n); L l(t.begin(), t.end()); MC_NOTE("assign(list of %zu)", n); RET(s.assign(l.begin(), l.end())););
    OPS("assign(ptrs)", 0, size_t n = w.len(); Src<C> t(w.b(), n); RET(s.assign(static_cast<const C*>(t.p), static_cast<const C*>(t.p) + n)););
    OPS("assign(input)", 0, size_t n = w.len(); M t = text<C>(w.b(), n); EXEC(size_t a = 0; auto f = in_first(t, a); auto l = in_last(t, a); return &s.assign(f, l) == &s ? 0 : 99;, s = t; return 0;););
    OPS("assign{il}", 0, RET(s.assign({C('p'), C(0), C('q'), C('r')})););
    // ---- append
    OPS("append(S)", STRONG, size_t n = w.grow(); M om = text<C>(w.b(), n); S o = w.lit(om); MC_NOTE("append(string of %zu)", n); EXEC(return &s.append(o) == &s ? 0 : 99;, return &s.append(om) == &s ? 0 : 99;););
    OPS("append(S,pos,n)", STRONG, size_t n = w.pick({3, X::small + 4, X::medium + 6}); M om = text<C>(w.b(), n); S o = w.lit(om); size_t p = w.pos2(n); size_t k = w.pick({0, 2, n - 1, size_t(-1)});
        MC_NOTE("append(string of %zu,%zu,%zu)", n, p, k); EXEC(return &s.append(o, p, k) == &s ? 0 : 99;, return &s.append(om, p, k) == &s ? 0 : 99;););
    OPS("append(cstr)", STRONG, size_t n = w.grow(); Src<C> t(w.b(), n, true); RET(s.append(static_cast<const C*>(t.p))););
    OPS("append(n,c)", STRONG, size_t n = w.grow(); C c = ch<C>(w.b(), 6); MC_NOTE("append(%zu,c)", n); RET(s.append(n, c)););
    OPS("append(list)", STRONG, size_t n = w.grow(); M t = text<C>(w.b(), n); L l(t.begin(), t.end()); RET(s.append(l.begin(), l.end())););
    OPS("append(ptrs)", STRONG, size_t n = w.grow(); Src<C> t(w.b(), n); RET(s.append(static_cast<const C*>(t.p), static_cast<const C*>(t.p) + n)););
    OPS("append(input)", STRONG, size_t n = w.grow_few(); M t = text<C>(w.b(), n); EXEC(size_t a = 0; auto f = in_first(t, a); auto l = in_last(t, a); return &s.append(f, l) == &s ? 0 : 99;, s += t; return 0;););
    OPS("append{il}", STRONG, RET(s.append({C('p'), C(0), C('q')})););
    OPS("+=S", STRONG, size_t n = w.grow_few(); M om = text<C>(w.b(), n); S o = w.lit(om); EXEC(return &(s += o) == &s ? 0 : 99;, return &(s += om) == &s ? 0 : 99;););
    OPS("+=view", STRONG, size_t n = w.grow_few(); Src<C> t(w.b(), n); std::basic_string_view<C> sv(t.p, n); RET(s += sv););
    OPS("+=cstr", STRONG, size_t n = w.grow_few(); Src<C> t(w.b(), n, true); RET(s += static_cast<const C*>(t.p)););
    OPS("+=c", STRONG, C c = ch<C>(w.b(), 7); RET(s += c););
    OPS("+={il}", STRONG, RET(s += {C('x'), C(0)}););
    // ---- insert
    OPS("insert(pos,S)", STRONG, size_t p = w.pos(); size_t n = w.grow(); M om = text<C>(w.b(), n); S o = w.lit(om); MC_NOTE("insert(%zu, string of %zu)", p, n); EXEC(return &s.insert(p, o) == &s ? 0 : 99;, return &s.insert(p, om) == &s ? 0 : 99;););
    OPS("insert(pos,S,pos2,n)", STRONG, size_t p = w.pos(); size_t n = w.pick({3, X::small + 4}); M om = text<C>(w.b(), n); S o = w.lit(om); size_t p2 = w.pos2(n); size_t k = w.pick({0, 2, size_t(-1)});
        MC_NOTE("insert(%zu, string of %zu,%zu,%zu)", p, n, p2, k); EXEC(return &s.insert(p, o, p2, k) == &s ? 0 : 99;, return &s.insert(p, om, p2, k) == &s ? 0 : 99;););
    OPS("insert(pos,ptr,n)", STRONG, size_t p = w.pos(); size_t n = w.grow(); Src<C> t(w.b(), n); MC_NOTE("insert(%zu,ptr,%zu)", p, n); RET(s.insert(p, static_cast<const C*>(t.p), n)););
    OPS("insert(pos,cstr)", STRONG, size_t p = w.pos(); size_t n = w.grow_few(); Src<C> t(w.b(), n, true); RET(s.insert(p, static_cast<const C*>(t.p))););
    OPS("insert(pos,n,c)", STRONG, size_t p = w.pos(); size_t n = w.grow(); C c = ch<C>(w.b(), 8); MC_NOTE("insert(%zu,%zu,c)", p, n); RET(s.insert(p, n, c)););
#define ITER(...) w.exec(FL, [&](S& s) -> uint64_t { auto it = (__VA_ARGS__); return off(it, s); }, [&](M& s) -> uint64_t { auto it = (__VA_ARGS__); return off(it, s); })
    OPS("insert(it,c)", STRONG, size_t p = w.pos(false); C c = ch<C>(w.b(), 9); MC_NOTE("insert(begin+%zu,c)", p); ITER(s.insert(s.cbegin() + p, c)););
    OPS("insert(it,n,c)", STRONG, size_t p = w.pos(false); size_t n = w.grow(); C c = ch<C>(w.b(), 10); MC_NOTE("insert(begin+%zu,%zu,c)", p, n); ITER(s.insert(s.cbegin() + p, n, c)););
    OPS("insert(it,list)", STRONG, size_t p = w.pos(false); size_t n = w.grow(); M t = text<C>(w.b(), n); L l(t.begin(), t.end()); MC_NOTE("insert(begin+%zu,list of %zu)", p, n); ITER(s.insert(s.cbegin() + p, l.begin(), l.end())););
    OPS("insert(it,ptrs)", STRONG, size_t p = w.pos(false); size_t n = w.grow(); Src<C> t(w.b(), n); ITER(s.insert(s.cbegin() + p, static_cast<const C*>(t.p), static_cast<const C*>(t.p) + n)););
    OPS("insert(it,input)", STRONG, size_t p = w.pos(false); size_t n = w.grow_few(); M t = text<C>(w.b(), n); MC_NOTE("insert(begin+%zu, input range of %zu)", p, n);
        EXEC(size_t a = 0; auto f = in_first(t, a); auto l = in_last(t, a); return off(s.insert(s.cbegin() + p, f, l), s);, s.insert(p, t); return p;););
    OPS("insert(it,{il})", STRONG, size_t p = w.pos(false); ITER(s.insert(s.cbegin() + p, {C('i'), C(0), C('l')})););
    // ---- erase
    OPS("erase(pos,n)", 0, size_t p = w.pos(); size_t n = w.cnt(p); MC_NOTE("erase(%zu,%zu)", p, n); RET(s.erase(p, n)););
    OPS("erase()", 0, RET(s.erase()););
    OPS("erase(it)", 0, if (w.m.empty()) return; size_t p = w.idx(); MC_NOTE("erase(begin+%zu)", p); ITER(s.erase(s.begin() + p)););
    OPS("erase(it,it)", 0, size_t p = w.pos(false); size_t n = w.m.size() - p; n = w.pick({0, n, n / 2}); MC_NOTE("erase(begin+%zu,+%zu)", p, n); ITER(s.erase(s.begin() + p, s.begin() + p + n)););
    OPS("pop_back", 0, if (w.m.empty()) return; BOTH(s.pop_back()););
    // ---- replace
    OPS("replace(pos,n,S)", 0, size_t p = w.pos(); size_t k = w.cnt(p); size_t n = w.grow_few(); M om = text<C>(w.b(), n); S o = w.lit(om); MC_NOTE("replace(%zu,%zu,string of %zu)", p, k, n); EXEC(return &s.replace(p, k, o) == &s ? 0 : 99;, return &s.replace(p, k, om) == &s ? 0 : 99;););
    OPS("replace(pos,n,S,pos2,n2)", 0, size_t p = w.pos(); size_t k = w.pick({0, 2, size_t(-1)}); size_t n = w.pick({3, X::small + 4}); M om = text<C>(w.b(), n); S o = w.lit(om); size_t p2 = w.pos2(n); size_t k2 = w.pick({0, 2, size_t(-1)});
        MC_NOTE("replace(%zu,%zu,string of %zu,%zu,%zu)", p, k, n, p2, k2); EXEC(return &s.replace(p, k, o, p2, k2) == &s ? 0 : 99;, return &s.replace(p, k, om, p2, k2) == &s ? 0 : 99;););
    OPS("replace(pos,n,ptr,n2)", 0, size_t p = w.pos(); size_t k = w.cnt(p); size_t n = w.grow(); Src<C> t(w.b(), n); MC_NOTE("replace(%zu,%zu,ptr,%zu)", p, k, n); RET(s.replace(p, k, static_cast<const C*>(t.p), n)););
    OPS("replace(pos,n,cstr)", 0, size_t p = w.pos(); size_t k = w.cnt(p); size_t n = w.pick({0, 2}); Src<C> t(w.b(), n, true); RET(s.replace(p, k, static_cast<const C*>(t.p))););
    OPS("replace(pos,n,n2,c)", 0, size_t p = w.pos(); size_t k = w.cnt(p); size_t n = w.grow(); C c = ch<C>(w.b(), 11); MC_NOTE("replace(%zu,%zu,%zu,c)", p, k, n); RET(s.replace(p, k, n, c)););
#define RPOS size_t p = w.pos(false); size_t k = w.m.size() - p; k = w.pick({0, k, k / 2, size_t(k ? 1 : 0)});
    OPS("replace(it,it,S)", 0, RPOS size_t n = w.grow_few(); M om = text<C>(w.b(), n); S o = w.lit(om); EXEC(return &s.replace(s.begin() + p, s.begin() + p + k, o) == &s ? 0 : 99;, return &s.replace(s.begin() + p, s.begin() + p + k, om) == &s ? 0 : 99;););
    OPS("replace(it,it,cstr)", 0, RPOS Src<C> t(w.b(), 2, true); RET(s.replace(s.begin() + p, s.begin() + p + k, static_cast<const C*>(t.p))););
    OPS("replace(it,it,ptr,n)", 0, RPOS size_t n = w.grow_few(); Src<C> t(w.b(), n); RET(s.replace(s.begin() + p, s.begin() + p + k, static_cast<const C*>(t.p), n)););
    OPS("replace(it,it,n,c)", 0, RPOS size_t n = w.grow_few(); C c = ch<C>(w.b(), 12); RET(s.replace(s.begin() + p, s.begin() + p + k, n, c)););
    OPS("replace(it,it,list)", 0, RPOS size_t n = w.grow(); M t = text<C>(w.b(), n); L l(t.begin(), t.end()); MC_NOTE("replace(+%zu,+%zu,list of %zu)", p, k, n); RET(s.replace(s.begin() + p, s.begin() + p + k, l.begin(), l.end())););
    OPS("replace(it,it,input)", 0, RPOS size_t n = w.grow_few(); M t = text<C>(w.b(), n); EXEC(size_t a = 0; auto f = in_first(t, a); auto l = in_last(t, a); return &s.replace(s.begin() + p, s.begin() + p + k, f, l) == &s ? 0 : 99;, s.replace(p, k, t); return 0;););
    // ---- swap, element writes
    OPS("swap(other)", NOFAULT, size_t n = w.len(); M om = text<C>(w.b(), n); S o = w.lit(om); M om2 = om; MC_NOTE("swap with a string of %zu", n); M old = w.m;
        EXEC(s.swap(o); if (w.check_contents) W::same(o, old, "swap partner", "swap"); return 0;, s.swap(om2); return 0;););
    OPS("swap(free)", NOFAULT, size_t n = w.pick({1, X::medium + 2}); M om = text<C>(w.b(), n); S o = w.lit(om); EXEC(using std::swap; swap(o, s); return 0;, s = om; return 0;););
    OPS("at(i)=c", STRONG, size_t n = w.m.size(); size_t i = w.pick({0, n ? n - 1 : 0, n, n + 1}); C c = ch<C>(w.b(), 13); BOTH(s.at(i) = c););
    OPS("front=back=c", STRONG, if (w.m.empty()) return; C c = ch<C>(w.b(), 14); BOTH(s.front() = c); if (w.no_more) return; C d = ch<C>(w.b(), 15); BOTH(s.back() = d););
    OPS("*it=c", STRONG, if (w.m.empty()) return; size_t i = w.idx(); C c = ch<C>(w.b(), 16); BOTH(*(s.begin() + i) = c); if (w.no_more) return; BOTH(*(s.end() - 1) = c););
    OPS("*rit=c", STRONG, if (w.m.empty()) return; C c = ch<C>(w.b(), 16); BOTH(*s.rbegin() = c); if (w.no_more) return; BOTH(*(s.rend() - 1) = c););
    OPS("data()[i]=c", STRONG, if (w.m.empty()) return; if (w.check_kept) for (auto& k : w.kept) if (D(*k.first) == D(*w.s)) return; /* known finding: data() of a shared string */ size_t i = w.idx(); C c = ch<C>(w.b(), 17); BOTH(s.data()[i] = c););
    return v;
}

// Operations that build the string anew from its current value or from arguments.
template <class X>
inline std::vector<Op<X>> ctor_ops() {
    using W = World<X>;
    using C = typename X::Char;
    using S = typename X::S;
    using M = typename X::M;
    using L = std::list<C>;
    std::vector<Op<X>> v;
    // replaces the current string by a newly constructed one
#define NEWS(expr, model) w.exec(FL, [&](S& s) -> uint64_t { (void)s; std::unique_ptr<S> news_(new S(expr)); w.s = std::move(news_); return 0; }, [&](M& s) -> uint64_t { s = M(model); return 0; })
    OPS("S()", 0, (void)0; NEWS(X::al(), ););
    OPS("S(copy)", 0, NEWS(static_cast<const S&>(s), s););
    OPS("S(S,pos)", 0, size_t p = w.pos(); if (p <= w.m.size() || 1) { NEWS(S(static_cast<const S&>(s), p, S::npos, X::al()), s.substr(p)); });
    OPS("S(S,pos,n)", 0, size_t p = w.pos(); size_t n = w.cnt(p); MC_NOTE("S(s,%zu,%zu)", p, n); NEWS(S(static_cast<const S&>(s), p, n, X::al()), s.substr(p, n)););
    OPS("S(cstr)", 0, size_t n = w.len(); Src<C> t(w.b(), n, true); NEWS(S(static_cast<const C*>(t.p), X::al()), M(t.p, n)););
    OPS("S(ptr,n)", 0, size_t n = w.len(); Src<C> t(w.b(), n); NEWS(S(static_cast<const C*>(t.p), n, X::al()), M(t.p, n)););
    OPS("S(n,c)", 0, size_t n = w.len(); C c = ch<C>(w.b(), 1); NEWS(S(n, c, X::al()), M(n, c)););
    OPS("S(list)", 0, size_t n = w.len(); M t = text<C>(w.b(), n); L l(t.begin(), t.end()); NEWS(S(l.begin(), l.end(), X::al()), t););
    OPS("S(input)", 0, size_t n = w.len(); M t = text<C>(w.b(), n); size_t a = 0; auto f = in_first(t, a); auto l = in_last(t, a); NEWS(S(f, l, X::al()), t););
    OPS("S(ptrs)", 0, size_t n = w.len(); Src<C> t(w.b(), n); NEWS(S(static_cast<const C*>(t.p), static_cast<const C*>(t.p) + n, X::al()), M(t.p, n)););
    OPS("S(view)", 0, size_t n = w.len(); Src<C> t(w.b(), n); NEWS(S(std::basic_string_view<C>(t.p, n), X::al()), M(t.p, n)););
    OPS("S(empty view)", 0, (void)0; NEWS(S(std::basic_string_view<C>(), X::al()), M()););
    OPS("S{il}", 0, (void)0; NEWS(S({C('a'), C(0), C('c')}, X::al()), M({C('a'), C(0), C('c')})););
    if constexpr (!X::arena) OPS("S(std::basic_string)", 0, size_t n = w.len(); M t = text<C>(w.b(), n); NEWS(t, t););
    OPS("clone", 0, (void)0; NEWS(s.clone(), s););
    OPS("substr const&", 0, size_t p = w.pos(); size_t n = w.cnt(p); MC_NOTE("substr(%zu,%zu)", p, n); NEWS(static_cast<const S&>(s).substr(p, n), s.substr(p, n)););
    OPS("substr()", 0, (void)0; NEWS(static_cast<const S&>(s).substr(), s.substr()););
    // rvalue substr may consume the source even when it fails later; a copy is the source here
    OPS("substr &&", 0, size_t p = w.pos(); size_t n = w.cnt(p); S o(static_cast<const S&>(*w.s)); MC_NOTE("std::move(s).substr(%zu,%zu)", p, n); NEWS(std::move(o).substr(p, n), s.substr(p, n)););
    // ---- concatenation
    OPS("const& + const&", 0, size_t n = w.grow(); M om = text<C>(w.b(), n); S o = w.lit(om); MC_NOTE("s + string of %zu", n); NEWS(static_cast<const S&>(s) + static_cast<const S&>(o), s + om););
    OPS("&& + const&", 0, size_t n = w.grow(); M om = text<C>(w.b(), n); S o = w.lit(om); S q(static_cast<const S&>(*w.s)); NEWS(std::move(q) + static_cast<const S&>(o), s + om););
    OPS("const& + &&", 0, size_t n = w.grow(); M om = text<C>(w.b(), n); S o = w.lit(om); if (mc::choose(2)) o.reserve(n + w.m.size()); NEWS(static_cast<const S&>(s) + std::move(o), s + om););
    OPS("&& + &&", 0, size_t n = w.grow(); M om = text<C>(w.b(), n); S o = w.lit(om); S q(static_cast<const S&>(*w.s)); NEWS(std::move(q) + std::move(o), s + om););
    OPS("cstr + const&", 0, size_t n = w.grow(); Src<C> t(w.b(), n, true); NEWS(static_cast<const C*>(t.p) + static_cast<const S&>(s), t.p + s););
    OPS("cstr + &&", 0, size_t n = w.grow(); Src<C> t(w.b(), n, true); S q(static_cast<const S&>(*w.s)); if (mc::choose(2)) q.reserve(n + w.m.size()); NEWS(static_cast<const C*>(t.p) + std::move(q), t.p + s););
    OPS("c + const&", 0, C c = ch<C>(w.b(), 2); NEWS(c + static_cast<const S&>(s), c + s););
    OPS("c + &&", 0, C c = ch<C>(w.b(), 2); S q(static_cast<const S&>(*w.s)); if (mc::choose(2)) q.reserve(1 + w.m.size()); NEWS(c + std::move(q), c + s););
    OPS("const& + cstr", 0, size_t n = w.grow(); Src<C> t(w.b(), n, true); NEWS(static_cast<const S&>(s) + static_cast<const C*>(t.p), s + t.p););
    OPS("&& + cstr", 0, size_t n = w.grow(); Src<C> t(w.b(), n, true); S q(static_cast<const S&>(*w.s)); NEWS(std::move(q) + static_cast<const C*>(t.p), s + t.p););
    OPS("const& + c", 0, C c = ch<C>(w.b(), 2); NEWS(static_cast<const S&>(s) + c, s + c););
    OPS("&& + c", 0, C c = ch<C>(w.b(), 2); S q(static_cast<const S&>(*w.s)); NEWS(std::move(q) + c, s + c););
    // ---- copying out
    OPS("copy(buf,n,pos)", NOFAULT, size_t p = w.pos(); size_t n = w.cnt(p); MC_NOTE("copy(buf,%zu,%zu)", n, p);
        std::vector<C> a(w.m.size() + 2, C(1)), b2(w.m.size() + 2, C(1)); EXEC(return static_cast<const S&>(s).copy(a.data(), n, p);, return s.copy(b2.data(), n, p););
        MC_CHECK(!w.check_contents || a == b2, "copy(buf,%zu,%zu) wrote other characters", n, p););
    if constexpr (!X::arena) OPS("toStdString", NOFAULT, EXEC(auto t = s.toStdString(); return mc::Hash().bytes(t.data(), t.size() * sizeof(C)).h;, return mc::Hash().bytes(s.data(), s.size() * sizeof(C)).h;););
    return v;
}

// The string itself, pointers and iterators into it as arguments. The model gets an independent copy.
template <class X>
inline std::vector<Op<X>> alias_ops() {
    using W = World<X>;
    using C = typename X::Char;
    using S = typename X::S;
    using M = typename X::M;
    std::vector<Op<X>> v;
#define PART size_t o = w.pick({0, 1, w.m.size() / 2}); if (o > w.m.size()) o = 0; size_t n = w.m.size() - o; n = w.pick({n, size_t(n > 0), n / 2, size_t(n > 1 ? n - 1 : 0)}); M part = w.m.substr(o, n); \
    MC_NOTE("part [%zu,+%zu) of %zu, capacity %zu", o, n, w.m.size(), static_cast<const S&>(*w.s).capacity())
    OPS("assign(self)", ALIAS, M c = w.m; EXEC(return &s.assign(s) == &s ? 0 : 99;, s.assign(c); return 0;););
    OPS("assign(self,pos,n)", ALIAS, PART; EXEC(return &s.assign(s, o, n) == &s ? 0 : 99;, s.assign(part); return 0;););
    OPS("assign(ptr,n) in self", ALIAS, PART; EXEC(return &s.assign(D(s) + o, n) == &s ? 0 : 99;, s.assign(part); return 0;););
    OPS("assign(cptr,cptr) in self", ALIAS, PART; EXEC(return &s.assign(s.cbegin() + o, s.cbegin() + o + n) == &s ? 0 : 99;, s.assign(part); return 0;););
    OPS("assign(it,it) in self", ALIAS, PART; EXEC(auto q = s.begin(); return &s.assign(q + o, q + o + n) == &s ? 0 : 99;, s.assign(part); return 0;););
    OPS("assign(rit,rit) in self", ALIAS, PART; EXEC(auto e = s.crend(); return &s.assign(e - (o + n), e - o) == &s ? 0 : 99;, s.assign(M(part.rbegin(), part.rend())); return 0;););
    OPS("assign(n, s[i])", ALIAS, if (w.m.empty()) return; size_t i = w.idx(); size_t n = w.len(); C c = w.m[i]; EXEC(return &s.assign(n, s[i]) == &s ? 0 : 99;, s.assign(n, c); return 0;););
    OPS("=s[i]", ALIAS, if (w.m.empty()) return; size_t i = w.idx(); C c = w.m[i]; EXEC(s = s[i]; return 0;, s = c; return 0;););
    OPS("=cstr in self", ALIAS, PART; size_t z = w.m.find(C(0), o); M t = w.m.substr(o, z == M::npos ? z : z - o); EXEC(s = D(s) + o; return 0;, s = t; return 0;););
    if constexpr (sizeof(C) == 1) OPS("=view of self", ALIAS, PART; EXEC(s = std::basic_string_view<C>(D(s) + o, n); return 0;, s = part; return 0;););
    OPS("append(self)", ALIAS, M c = w.m; EXEC(return &s.append(s) == &s ? 0 : 99;, s.append(c); return 0;););
    OPS("append(self,pos,n)", ALIAS, PART; EXEC(return &s.append(s, o, n) == &s ? 0 : 99;, s.append(part); return 0;););
    OPS("append(ptr,n) in self", ALIAS, PART; EXEC(return &s.append(D(s) + o, n) == &s ? 0 : 99;, s.append(part); return 0;););
    OPS("append(it,it) in self", ALIAS, PART; EXEC(auto q = s.begin(); return &s.append(q + o, q + o + n) == &s ? 0 : 99;, s.append(part); return 0;););
    OPS("append(cit,cit) in self", ALIAS, PART; EXEC(auto q = s.cbegin(); return &s.append(q + o, q + o + n) == &s ? 0 : 99;, s.append(part); return 0;););
    OPS("append(rit,rit) in self", ALIAS, PART; EXEC(auto e = s.crend(); return &s.append(e - (o + n), e - o) == &s ? 0 : 99;, s.append(M(part.rbegin(), part.rend())); return 0;););
    OPS("append(cstr in self)", ALIAS, PART; size_t z = w.m.find(C(0), o); M t = w.m.substr(o, z == M::npos ? z : z - o); EXEC(s.append(D(s) + o); return 0;, s.append(t); return 0;););
    OPS("+=self", ALIAS, M c = w.m; EXEC(return &(s += s) == &s ? 0 : 99;, s += c; return 0;););
    OPS("+=view of self", ALIAS, PART; EXEC(s += std::basic_string_view<C>(D(s) + o, n); return 0;, s += part; return 0;););
    OPS("+=cstr in self", ALIAS, PART; size_t z = w.m.find(C(0), o); M t = w.m.substr(o, z == M::npos ? z : z - o); EXEC(s += D(s) + o; return 0;, s += t; return 0;););
    OPS("+=s[i]", ALIAS, if (w.m.empty()) return; size_t i = w.idx(); C c = w.m[i]; EXEC(s += s[i]; return 0;, s += c; return 0;););
    OPS("push_back(s[i])", ALIAS, if (w.m.empty()) return; size_t i = w.idx(); C c = w.m[i]; EXEC(s.push_back(s[i]); return 0;, s.push_back(c); return 0;););
    OPS("append(n,s[i])", ALIAS, if (w.m.empty()) return; size_t i = w.idx(); size_t n = w.grow(); C c = w.m[i]; EXEC(s.append(n, s[i]); return 0;, s.append(n, c); return 0;););
#define IPOS size_t p = w.pos(false); MC_NOTE("at position %zu", p)
    OPS("insert(pos,self)", ALIAS, IPOS; M c = w.m; EXEC(return &s.insert(p, s) == &s ? 0 : 99;, s.insert(p, c); return 0;););
    OPS("insert(pos,self,pos2,n)", ALIAS, IPOS; PART; EXEC(return &s.insert(p, s, o, n) == &s ? 0 : 99;, s.insert(p, part); return 0;););
    OPS("insert(pos,ptr,n) in self", ALIAS, IPOS; PART; EXEC(return &s.insert(p, D(s) + o, n) == &s ? 0 : 99;, s.insert(p, part); return 0;););
    OPS("insert(pos,cstr in self)", ALIAS, IPOS; PART; size_t z = w.m.find(C(0), o); M t = w.m.substr(o, z == M::npos ? z : z - o); EXEC(s.insert(p, D(s) + o); return 0;, s.insert(p, t); return 0;););
    OPS("insert(it,it,it) in self", ALIAS, IPOS; PART; EXEC(auto q = s.begin(); return off(s.insert(s.cbegin() + p, q + o, q + o + n), s);, s.insert(p, part); return p;););
    OPS("insert(it,cit,cit) in self", ALIAS, IPOS; PART; EXEC(auto q = s.cbegin(); return off(s.insert(q + p, q + o, q + o + n), s);, s.insert(p, part); return p;););
    OPS("insert(it,rit,rit) in self", ALIAS, IPOS; PART; EXEC(auto e = s.crend(); return off(s.insert(s.cbegin() + p, e - (o + n), e - o), s);, s.insert(p, M(part.rbegin(), part.rend())); return p;););
    OPS("insert(pos,n,s[i])", ALIAS, IPOS; if (w.m.empty()) return; size_t i = w.idx(); size_t n = w.grow(); C c = w.m[i]; EXEC(s.insert(p, n, s[i]); return 0;, s.insert(p, n, c); return 0;););
    OPS("insert(it,s[i])", ALIAS, IPOS; if (w.m.empty()) return; size_t i = w.idx(); C c = w.m[i]; EXEC(auto& r = s[i]; return off(s.insert(s.cbegin() + p, r), s);, s.insert(p, 1, c); return p;););
#define XPOS size_t p = w.pos(false); size_t k = w.m.size() - p; k = w.pick({0, k, size_t(k ? 1 : 0), k / 2}); MC_NOTE("replacing [%zu,+%zu)", p, k)
    OPS("replace(pos,n,self)", ALIAS, XPOS; M c = w.m; EXEC(return &s.replace(p, k, s) == &s ? 0 : 99;, s.replace(p, k, c); return 0;););
    OPS("replace(pos,n,self,pos2,n2)", ALIAS, XPOS; PART; EXEC(return &s.replace(p, k, s, o, n) == &s ? 0 : 99;, s.replace(p, k, part); return 0;););
    OPS("replace(pos,n,ptr,n2) in self", ALIAS, XPOS; PART; EXEC(return &s.replace(p, k, D(s) + o, n) == &s ? 0 : 99;, s.replace(p, k, part); return 0;););
    OPS("replace(pos,n,cstr in self)", ALIAS, XPOS; PART; size_t z = w.m.find(C(0), o); M t = w.m.substr(o, z == M::npos ? z : z - o); EXEC(s.replace(p, k, D(s) + o); return 0;, s.replace(p, k, t); return 0;););
    OPS("replace(it,it,self)", ALIAS, XPOS; M c = w.m; EXEC(auto q = s.begin(); return &s.replace(q + p, q + p + k, s) == &s ? 0 : 99;, s.replace(p, k, c); return 0;););
    OPS("replace(it,it,ptr,n) in self", ALIAS, XPOS; PART; EXEC(auto q = s.begin(); return &s.replace(q + p, q + p + k, D(s) + o, n) == &s ? 0 : 99;, s.replace(p, k, part); return 0;););
    OPS("replace(it,it,it,it) in self", ALIAS, XPOS; PART; EXEC(auto q = s.begin(); return &s.replace(q + p, q + p + k, q + o, q + o + n) == &s ? 0 : 99;, s.replace(p, k, part); return 0;););
    OPS("replace(it,it,cit,cit) in self", ALIAS, XPOS; PART; EXEC(auto q = s.begin(); auto r = s.cbegin(); return &s.replace(q + p, q + p + k, r + o, r + o + n) == &s ? 0 : 99;, s.replace(p, k, part); return 0;););
    OPS("replace(it,it,rit,rit) in self", ALIAS, XPOS; PART; EXEC(auto q = s.begin(); auto e = s.crend(); return &s.replace(q + p, q + p + k, e - (o + n), e - o) == &s ? 0 : 99;, s.replace(p, k, M(part.rbegin(), part.rend())); return 0;););
    OPS("replace(pos,n,n2,s[i])", ALIAS, XPOS; if (w.m.empty()) return; size_t i = w.idx(); size_t n = w.grow(); C c = w.m[i]; EXEC(s.replace(p, k, n, s[i]); return 0;, s.replace(p, k, n, c); return 0;););
    OPS("resize(n,s[i])", ALIAS, if (w.m.empty()) return; size_t i = w.idx(); size_t n = w.len(); C c = w.m[i]; EXEC(s.resize(n, s[i]); return 0;, s.resize(n, c); return 0;););
    OPS("s = s + s", ALIAS, M c = w.m; EXEC(s = s + s; return 0;, s = c + c; return 0;););
    OPS("s = s + std::move(s)", ALIAS, M c = w.m; if (mc::choose(2)) w.s->reserve(2 * w.m.size()); EXEC(S t = static_cast<const S&>(s) + std::move(s); s = std::move(t); return 0;, s = c + c; return 0;););
    OPS("s = std::move(s) + s", ALIAS, M c = w.m; EXEC(S t = std::move(s) + static_cast<const S&>(s); s = std::move(t); return 0;, s = c + c; return 0;););
    OPS("s = std::move(s) + cstr in self", ALIAS, PART; size_t z = w.m.find(C(0), o); M t = w.m.substr(o, z == M::npos ? z : z - o); M c = w.m; EXEC(S x = std::move(s) + (D(s) + o); s = std::move(x); return 0;, s = c + t; return 0;););
    OPS("s = cstr in self + std::move(s)", ALIAS, PART; size_t z = w.m.find(C(0), o); M t = w.m.substr(o, z == M::npos ? z : z - o); M c = w.m; if (mc::choose(2)) w.s->reserve(2 * w.m.size() + 1);
        EXEC(S x = (D(s) + o) + std::move(s); s = std::move(x); return 0;, s = t + c; return 0;););
    OPS("s = s[i] + std::move(s)", ALIAS, if (w.m.empty()) return; size_t i = w.idx(); C c = w.m[i]; M q = w.m; if (mc::choose(2)) w.s->reserve(w.m.size() + 1); EXEC(S x = s[i] + std::move(s); s = std::move(x); return 0;, s = c + q; return 0;););
    OPS("swap(self)", ALIAS, EXEC(s.swap(s); return 0;, (void)s; return 0;););
    return v;
}

// Requests for lengths that cannot exist.
template <class X>
inline std::vector<Op<X>> impossible_ops() {
    using W = World<X>;
    using C = typename X::Char;
    using S = typename X::S;
    using M = typename X::M;
    std::vector<Op<X>> v;
#define HUGE_N size_t n = w.pick({size_t(-1), size_t(-1) - w.m.size(), size_t(-1) / sizeof(C), size_t(1) << 62, size_t(-1) / 2, size_t(-2), size_t(-1) - w.m.size() / 2 }); MC_NOTE("length %zu", n)
#define NOP (void)s; return 0
    OPS("reserve(huge)", BIG | STRONG, HUGE_N; EXEC(s.reserve(n); return 0;, NOP;););
    OPS("resize(huge)", BIG, HUGE_N; EXEC(s.resize(n); return 0;, NOP;););
    OPS("append(huge,c)", BIG | STRONG, HUGE_N; EXEC(s.append(n, C('x')); return 0;, NOP;););
    OPS("insert(pos,huge,c)", BIG | STRONG, HUGE_N; EXEC(s.insert(size_t(0), n, C('x')); return 0;, NOP;););
    OPS("insert(it,huge,c)", BIG | STRONG, HUGE_N; EXEC(s.insert(s.cbegin(), n, C('x')); return 0;, NOP;););
    OPS("replace(0,0,huge,c)", BIG, HUGE_N; EXEC(s.replace(size_t(0), size_t(0), n, C('x')); return 0;, NOP;););
    OPS("S(huge,c)", BIG | STRONG, HUGE_N; EXEC(S t(n, C('x'), X::al()); return 0;, NOP;););
    return v;
}

// ways to obtain a string of a given size: storage class and spare capacity differ
constexpr int kKinds = 7;
template <class X>
inline void build(World<X>& w, size_t n, int kind) {
    using C = typename X::Char;
    using S = typename X::S;
    using M = typename X::M;
    M t = text<C>(1, n);
    static const char* kn[] = {"exact", "grown", "shrunk", "shared", "reserved large", "was shared", "shared and shrunk"};
    MC_NOTE("start: %zu characters, %s", n, kn[kind]);
    Src<C> src(t);
    const C* p = src.p;
    switch (kind) {
        case 0: w.s = w.make(p, n); break;
        case 1: for (size_t i = 0; i < n; ++i) w.s->push_back(p[i]); break;
        case 2: { M big = t + text<C>(5, X::medium + 5); Src<C> b(big); w.s = w.make(static_cast<const C*>(b.p), big.size()); w.s->resize(n); break; }
        case 3: w.s = w.make(p, n); w.kept.emplace_back(new S(static_cast<const S&>(*w.s)), t); break;
        case 4: w.s->reserve(X::medium * 2 + 7); w.s->append(p, n); break;
        case 5: { w.s = w.make(p, n); auto o = std::unique_ptr<S>(new S(static_cast<const S&>(*w.s))); w.s = std::move(o); break; }
        case 6: { M big = t + text<C>(5, X::medium + 5); Src<C> b(big); w.s = w.make(static_cast<const C*>(b.p), big.size()); w.s->resize(n); w.kept.emplace_back(new S(static_cast<const S&>(*w.s)), t); break; }
    }
    w.m = t;
}
template <class X>
inline std::vector<size_t> sizes() {
    return {0, 1, 2, X::small - 1, X::small, X::small + 1, X::medium - 1, X::medium, X::medium + 1, X::medium + 40};
}
}  // namespace sl
