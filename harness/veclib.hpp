// Operations of stdb_vector against std::vector<int>: every operation, all positions, counts and iterator kinds.
#pragma once
#include <deque>
#include <list>
#include <optional>
#include <vector>

#include "vecel.hpp"

namespace vec {
using mc::choose;
using el::Tr;
using stdb::container::Safety;
using stdb::container::stdb_vector;
using M = std::vector<int>;

inline bool chk_life = false, chk_cap = false, faults = false;

// raw storage with n elements
template <class T>
struct Buf {
    T* p;
    size_t n, stride;
    explicit Buf(const M& vals, size_t st = 1) : n(vals.size()), stride(st) {
        p = static_cast<T*>(::operator new(sizeof(T) * (n * st + 1), std::align_val_t(64)));
        memset(static_cast<void*>(p), 0x5b, sizeof(T) * (n * st + 1));
        for (size_t i = 0; i < n; ++i) ::new (static_cast<void*>(p + i * st)) T(Tr<T>::arg(vals[i]));
    }
    ~Buf() {
        for (size_t i = 0; i < n; ++i) p[i * stride].~T();
        ::operator delete(p, std::align_val_t(64));
    }
    Buf(const Buf&) = delete;
};
// multi-pass iterator of any category over elements which need not be adjacent
template <class Tag, class T>
struct It {
    using iterator_category = Tag;
    using iterator_concept = Tag;
    using value_type = T;
    using difference_type = ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p = nullptr;
    ptrdiff_t st = 1;
    reference operator*() const { return *p; }
    pointer operator->() const { return p; }
    It& operator++() { p += st; return *this; }
    It operator++(int) { It t = *this; p += st; return t; }
    friend bool operator==(const It& a, const It& b) { return a.p == b.p; }
    It& operator--() requires(std::is_base_of_v<std::bidirectional_iterator_tag, Tag>) { p -= st; return *this; }
    It operator--(int) requires(std::is_base_of_v<std::bidirectional_iterator_tag, Tag>) { It t = *this; p -= st; return t; }
#define RA requires(std::is_base_of_v<std::random_access_iterator_tag, Tag>)
    It& operator+=(ptrdiff_t n) RA { p += n * st; return *this; }
    It& operator-=(ptrdiff_t n) RA { p -= n * st; return *this; }
    friend It operator+(It a, ptrdiff_t n) RA { return a += n; }
    friend It operator+(ptrdiff_t n, It a) RA { return a += n; }
    friend It operator-(It a, ptrdiff_t n) RA { return a -= n; }
    friend ptrdiff_t operator-(const It& a, const It& b) RA { return (a.p - b.p) / a.st; }
    reference operator[](ptrdiff_t n) const RA { return p[n * st]; }
    friend auto operator<=>(const It& a, const It& b) RA { return a.p <=> b.p; }
#undef RA
};
// single-pass: all copies advance together
template <class T>
struct In {
    using iterator_concept = std::input_iterator_tag;
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* base = nullptr;
    size_t* cur = nullptr;
    size_t n = 0;
    bool done() const { return !cur || *cur >= n; }
    reference operator*() const { if (done()) mc::fail("single-pass range read beyond its end (walked twice?)"); return base[*cur]; }
    pointer operator->() const { return &**this; }
    In& operator++() { if (done()) mc::fail("single-pass range advanced beyond its end"); ++*cur; return *this; }
    void operator++(int) { ++*this; }
    friend bool operator==(const In& a, const In& b) { return a.done() == b.done(); }
};
template <class T> using Conv = std::conditional_t<std::is_same_v<T, int>, long, std::conditional_t<std::is_integral_v<T>, short, std::decay_t<decltype(Tr<T>::arg(0))>>>;

constexpr int kKinds = 13;
inline const char* kind_name(int k) {
    static const char* n[] = {"const T*", "T*", "vector iterator", "vector const_iterator", "reverse_iterator", "strided random-access", "forward", "bidirectional",
                              "deque", "list", "values of another type", "move_iterator<T*>", "single-pass input"};
    return n[k];
}
// calls f(first, last) for a range holding vals; false when the kind does not exist for T
template <bool kInsert, class T, class F>
bool with_range(int kind, const M& vals, F f) {
    switch (kind) {
        case 10: {
            std::vector<Conv<T>> c;
            for (int x : vals) c.push_back(Conv<T>(Tr<T>::arg(x)));
            f(c.begin(), c.end());
            return true;
        }
        case 11:
            if constexpr (kInsert && el::movable<T>) {
                Buf<T> b(vals);
                f(std::make_move_iterator(b.p), std::make_move_iterator(b.p + b.n));
                return true;
            }
            return false;
        default: break;
    }
    if constexpr (el::copyable<T>) {
        switch (kind) {
            case 0: { Buf<T> b(vals); const T* p = b.p; f(p, p + b.n); return true; }
            case 1: { Buf<T> b(vals); f(b.p, b.p + b.n); return true; }
            case 2:
            case 3: {
                stdb_vector<T> o;
                o.reserve(vals.size() + 1);
                for (int x : vals) o.emplace_back(Tr<T>::arg(x));
                if (kind == 2) f(o.begin(), o.end());
                else f(o.cbegin(), o.cend());
                return true;
            }
            case 4: {
                Buf<T> b(M(vals.rbegin(), vals.rend()));
                const T* p = b.p;
                f(std::make_reverse_iterator(p + b.n), std::make_reverse_iterator(p));
                return true;
            }
            case 5: { Buf<T> b(vals, 2); using I = It<std::random_access_iterator_tag, T>; f(I{b.p, 2}, I{b.p + 2 * b.n, 2}); return true; }
            case 6: { Buf<T> b(vals, 2); using I = It<std::forward_iterator_tag, T>; f(I{b.p, 2}, I{b.p + 2 * b.n, 2}); return true; }
            case 7: { Buf<T> b(vals, 2); using I = It<std::bidirectional_iterator_tag, T>; f(I{b.p, 2}, I{b.p + 2 * b.n, 2}); return true; }
            case 8: {
                std::deque<T> d;
                for (int x : vals) d.emplace_back(Tr<T>::arg(x));
                f(d.begin(), d.end());
                return true;
            }
            case 9: {
                std::list<T> d;
                for (int x : vals) d.emplace_back(Tr<T>::arg(x));
                f(d.begin(), d.end());
                return true;
            }
            case 12:
                if constexpr (kInsert) { Buf<T> b(vals); size_t cur = 0; f(In<T>{b.p, &cur, b.n}, In<T>{}); return true; }
                return false;
            default: return false;
        }
    }
    return false;
}

inline std::string show(const M& m) {
    std::string s = "[";
    for (size_t i = 0; i < m.size(); ++i) s += (i ? " " : "") + std::to_string(m[i]);
    return s + "]";
}

enum Op { PUSH_CREF, PUSH_RVAL, EMPLACE_BACK, POP, INS_CREF, INS_RVAL, INS_N, INS_RANGE, INS_LIST, EMPLACE_IT, EMPLACE_IDX, ERASE_IT, ERASE_RANGE, ERASE_VAL, ERASE_IF,
          RESIZE, RESIZE_VAL, RESERVE, SHRINK, CLEAR, ASSIGN_N, ASSIGN_RANGE, ASSIGN_LIST, SWAP, COPY_ASSIGN, MOVE_ASSIGN, SELF, COPY_CTOR, MOVE_CTOR, MAKE, FILL, WBUF, N_OPS };
inline const char* op_name(int o) {
    static const char* n[] = {"push_back(const&)", "push_back(&&)", "emplace_back", "pop_back", "insert(const&)", "insert(&&)", "insert(n)", "insert(range)", "insert(list)", "emplace(it)", "emplace(index)",
                              "erase(it)", "erase(range)", "erase(value)", "erase_if", "resize(n)", "resize(n,v)", "reserve", "shrink_to_fit", "clear", "assign(n,v)", "assign(range)", "assign(list)", "swap",
                              "copy assign", "move assign", "assign to itself", "copy construct", "move construct", "construct", "fill", "get_writebuffer"};
    return n[o];
}

template <class T>
struct World {
    using V = stdb_vector<T>;
    V v[2];
    M m[2];
    int fresh_ = 50;
    bool full = true;   // all positions, counts and kinds, or a few
    bool big = false;   // ... of a vector with many elements
    bool threw = false; // the last call ended in bad_alloc
    int fault = -1;     // which event of the next call fails: allocation k (even numbers) or element construction k (odd)
    bool hit = false;   // ... and it did
    std::string what;
    // capacity oracle
    const T* data0 = nullptr;
    size_t cap0 = 0, size0 = 0;

    int fresh() { return fresh_ = fresh_ >= 90 ? 50 : fresh_ + 1; }
    void build(int i, int size, int slack) {
        v[i].reserve(size_t(size + slack));
        for (int k = 0; k < size; ++k) {
            int val = (k + 1 + 10 * i - 1) % 97 + 1;
            v[i].emplace_back(Tr<T>::arg(val));
            m[i].push_back(Tr<T>::norm(val));
        }
    }
    int pos(size_t n) {
        if (big && n > 4) return (int[]){0, 1, int(n) / 2, int(n) - 1, int(n)}[choose(5)];
        return full || n < 3 ? choose(int(n) + 1) : (int[]){0, int(n) / 2, int(n)}[choose(3)];
    }
    int at(size_t n) {
        if (big && n > 4) return (int[]){0, 1, int(n) / 2, int(n) - 1}[choose(4)];
        return full || n < 4 ? choose(int(n)) : (int[]){0, int(n) / 2, int(n) - 1}[choose(3)];
    }
    int count() {
        if (big) return (int[]){1, 2, 16, 33, int(m[0].size()), 2 * int(m[0].size()) + 1}[choose(6)];
        return full ? (int[]){0, 1, 2, 3, 4, 7}[choose(6)] : (int[]){0, 1, 3}[choose(3)];
    }
    int resized(int n) {
        if (big) return (int[]){0, 1, n / 2, n - 1, n, n + 1, n + 16, n + 33, 2 * n + 1}[choose(9)];
        return full ? choose(n + 6) : (int[]){0, n / 2, n + 1, n + 4}[choose(4)];
    }
    int kind() { return full ? choose(kKinds) : (int[]){0, 6, 10, 12}[choose(4)]; }
    M values(int n) { M r; for (int i = 0; i < n; ++i) r.push_back(Tr<T>::norm(fresh())); return r; }
    // runs the code under test, perhaps with a failing allocation or element construction; true when it completed
    template <class F>
    bool call(F f) {
        if (!faults) { f(); return true; }
        if (fault >= 0) {
            if (fault % 2 == 0) heap::arm(fault / 2);
            else { el::copy_failed = 0; el::copy_fail_at = el::copies + fault / 2; }
        }
        bool ok = true;
        heap::failed = 0;
        el::copy_failed = 0;
        try { f(); }
        catch (const std::bad_alloc&) { ok = false; }
        heap::disarm();
        el::copy_fail_at = -1;
        hit = heap::failed + el::copy_failed > 0;
        MC_CHECK(ok || hit, "%s threw bad_alloc although nothing failed", what.c_str());
        threw = !ok;
        return ok;
    }
    void same(int i, const char* where) {
        V& x = v[i];
        const V& c = x;
        M& e = m[i];
        MC_CHECK(x.size() == e.size() && x.empty() == e.empty(), "%s: vector %d has %zu elements, expected %s", where, i, x.size(), show(e).c_str());
        MC_CHECK(x.capacity() >= x.size(), "%s: capacity %zu below size %zu", where, x.capacity(), x.size());
        if (x.capacity() > 0) MC_CHECK(heap::contains(x.data(), x.capacity() * sizeof(T)), "%s: capacity %zu of vector %d is not backed by memory", where, x.capacity(), i);
        for (size_t k = 0; k < e.size(); ++k) {
            int got = el::value(c.data()[k]);
            if (got != e[k]) {
                M g;
                for (size_t j = 0; j < e.size(); ++j) g.push_back(el::value(x[j]));
                mc::fail("%s: vector %d holds %s, expected %s", where, i, show(g).c_str(), show(e).c_str());
            }
        }
        if (!e.empty()) MC_CHECK(&x.front() == x.data() && &c.front() == c.data() && &c.back() == c.data() + e.size() - 1 && &x.back() == x.data() + e.size() - 1 && &x.at(e.size() - 1) == &c[e.size() - 1], "%s: front/back/at", where);
        MC_CHECK(c.end() - c.begin() == ptrdiff_t(e.size()) && (e.empty() || &*x.begin() == x.data()), "%s: begin/end", where);
    }
    void verify() {
        mc::step();
        const char* w = what.c_str();
        same(0, w);
        same(1, w);
        if (chk_life) {
            if constexpr (el::tracked<T> && !std::is_same_v<T, el::Zi>)
                MC_CHECK(el::live == int64_t(m[0].size() + m[1].size()), "%s: %ld elements are alive, the vectors hold %zu", w, long(el::live), m[0].size() + m[1].size());
            if constexpr (!requires(T t) { t.c_str(); })
                MC_CHECK(heap::nlive == (v[0].capacity() > 0) + (v[1].capacity() > 0), "%s: %d buffers allocated", w, heap::nlive);
        }
        mc::Hash h;
        h.add(sizeof(T));
        for (int i = 0; i < 2; ++i) { h.add(v[i].capacity()); for (int x : m[i]) h.add(uint64_t(x)); h.add(99); }
        mc::state(h);
    }
    // after a failed call: contents must be unchanged, or (where only validity is promised) become whatever is there
    void after_failure(bool strong) {
        if (strong) return;
        V& x = v[0];
        MC_CHECK(x.size() <= x.capacity(), "%s failed: size %zu, capacity %zu", what.c_str(), x.size(), x.capacity());
        m[0].clear();
        for (size_t k = 0; k < x.size(); ++k) m[0].push_back(el::value(x[k]));
    }
    void note(const char* f, ...) {
        char b[200];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        what = std::string("stdb_vector<") + el::name<T> + "> " + show(m[0]) + " capacity " + std::to_string(v[0].capacity()) + ": " + b;
        MC_NOTE("%s", what.c_str());
        data0 = v[0].data();
        cap0 = v[0].capacity();
        size0 = v[0].size();
    }
    // elements may only move to other storage when the result does not fit
    void stays() {
        if (!chk_cap || threw) return;
        if (v[0].size() <= cap0 && cap0 > 0) MC_CHECK(v[0].data() == data0, "%s: elements moved to new storage although %zu fit the capacity %zu", what.c_str(), v[0].size(), cap0);
        MC_CHECK(v[0].capacity() >= cap0, "%s: capacity went from %zu to %zu", what.c_str(), cap0, v[0].capacity());
    }
    void grown() {  // after appending one element
        stays();
        if (!chk_cap || threw || v[0].capacity() == cap0) return;
        size_t first = sizeof(T) >= 64 ? 1 : 64 / sizeof(T);
        MC_CHECK(2 * v[0].capacity() + 1 >= 3 * cap0 || (cap0 < first && v[0].capacity() >= first), "%s: capacity grew from %zu to %zu only", what.c_str(), cap0, v[0].capacity());
    }
    template <class I>
    void returned(I it, size_t want) {
        MC_CHECK(it - v[0].begin() == ptrdiff_t(want), "%s: returned an iterator to index %ld, expected %zu", what.c_str(), long(it - v[0].begin()), want);
    }
    bool room(size_t n) { return v[0].capacity() - v[0].size() >= n; }

    // One operation on v[0] (v[1] is the partner); false when it does not exist for T or has no instance here.
    bool op(int o) {
        V& x = v[0];
        M& e = m[0];
        size_t n = e.size();
        threw = false;
        constexpr bool copyable = el::copyable<T>;
        constexpr bool movable = el::movable<T>;
        switch (o) {
            case PUSH_CREF:
                if constexpr (copyable) {
                    int f = fresh();
                    bool un = room(1) && choose(2);
                    T t(Tr<T>::arg(f));
                    note("push_back%s(%d)", un ? "<Unsafe>" : "", f);
                    if (call([&] { un ? x.template push_back<Safety::Unsafe>(std::as_const(t)) : x.push_back(std::as_const(t)); })) e.push_back(Tr<T>::norm(f));
                    grown();
                    return true;
                } else return false;
            case PUSH_RVAL:
                if constexpr (movable) {
                    int f = fresh();
                    bool un = room(1) && choose(2);
                    T t(Tr<T>::arg(f));
                    note("push_back%s(move %d)", un ? "<Unsafe>" : "", f);
                    if (call([&] { un ? x.template push_back<Safety::Unsafe>(std::move(t)) : x.push_back(std::move(t)); })) e.push_back(Tr<T>::norm(f));
                    grown();
                    return true;
                } else return false;
            case EMPLACE_BACK: {
                int f = fresh();
                bool un = room(1) && choose(2);
                note("emplace_back%s(%d)", un ? "<Unsafe>" : "", f);
                if (call([&] {
                        auto it = un ? x.template emplace_back<Safety::Unsafe>(Tr<T>::arg(f)) : x.emplace_back(Tr<T>::arg(f));
                        returned(it, n);
                    })) e.push_back(Tr<T>::norm(f));
                grown();
                return true;
            }
            case POP:
                if (n == 0) return false;
                note("pop_back");
                x.pop_back();
                e.pop_back();
                stays();
                return true;
            case INS_CREF:
                if constexpr (copyable) {
                    int f = fresh(), p = pos(n);
                    bool un = room(1) && choose(2);
                    T t(Tr<T>::arg(f));
                    note("insert%s(%d, %d)", un ? "<Unsafe>" : "", p, f);
                    if (call([&] {
                            auto it = un ? x.template insert<Safety::Unsafe>(x.cbegin() + p, std::as_const(t)) : x.insert(x.cbegin() + p, std::as_const(t));
                            returned(it, size_t(p));
                        })) e.insert(e.begin() + p, Tr<T>::norm(f));
                    grown();
                    return true;
                } else return false;
            case INS_RVAL:
                if constexpr (movable) {
                    int f = fresh(), p = pos(n);
                    bool un = room(1) && choose(2);
                    T t(Tr<T>::arg(f));
                    note("insert%s(%d, move %d)", un ? "<Unsafe>" : "", p, f);
                    if (call([&] {
                            auto it = un ? x.template insert<Safety::Unsafe>(x.cbegin() + p, std::move(t)) : x.insert(x.cbegin() + p, std::move(t));
                            returned(it, size_t(p));
                        })) e.insert(e.begin() + p, Tr<T>::norm(f));
                    grown();
                    return true;
                } else return false;
            case INS_N:
                if constexpr (copyable) {
                    int f = fresh(), p = pos(n), k = count();
                    bool un = room(size_t(k)) && choose(2);
                    T t(Tr<T>::arg(f));
                    note("insert%s(%d, %d, %d)", un ? "<Unsafe>" : "", p, k, f);
                    if (call([&] {
                            auto it = un ? x.template insert<Safety::Unsafe>(x.cbegin() + p, size_t(k), std::as_const(t)) : x.insert(x.cbegin() + p, size_t(k), std::as_const(t));
                            returned(it, size_t(p));
                        })) e.insert(e.begin() + p, size_t(k), Tr<T>::norm(f));
                    stays();
                    return true;
                } else return false;
            case INS_RANGE: {
                int p = pos(n), k = count(), kd = kind();
                M val = values(k);
                bool un = room(size_t(k)) && (!full || choose(2));
                note("insert%s(%d, %d elements through %s)", un ? "<Unsafe>" : "", p, k, kind_name(kd));
                bool ok = false;
                if (!with_range<true, T>(kd, val, [&](auto a, auto b) {
                        ok = call([&] {
                            auto it = un ? x.template insert<Safety::Unsafe>(x.cbegin() + p, a, b) : x.insert(x.cbegin() + p, a, b);
                            returned(it, size_t(p));
                        });
                    })) return false;
                if (ok) e.insert(e.begin() + p, val.begin(), val.end());
                stays();
                return true;
            }
            case INS_LIST:
                if constexpr (copyable) {
                    int p = pos(n), k = choose(3);
                    M val = values(k);
                    bool un = room(size_t(k)) && choose(2);
                    note("insert%s(%d, list of %d)", un ? "<Unsafe>" : "", p, k);
                    auto go = [&](std::initializer_list<T> l) {
                        if (call([&] {
                                auto it = un ? x.template insert<Safety::Unsafe>(x.cbegin() + p, l) : x.insert(x.cbegin() + p, l);
                                returned(it, size_t(p));
                            })) e.insert(e.begin() + p, val.begin(), val.end());
                    };
                    if (k == 0) go({});
                    if (k == 1) go({T(Tr<T>::arg(val[0]))});
                    if (k == 2) go({T(Tr<T>::arg(val[0])), T(Tr<T>::arg(val[1]))});
                    stays();
                    return true;
                } else return false;
            case EMPLACE_IT:
            case EMPLACE_IDX: {
                int f = fresh(), p = pos(n);
                bool un = room(1) && choose(2);
                note("emplace%s(%s %d, %d)", un ? "<Unsafe>" : "", o == EMPLACE_IT ? "begin +" : "index", p, f);
                if (call([&] {
                        if (o == EMPLACE_IT) returned(un ? x.template emplace<Safety::Unsafe>(x.begin() + p, Tr<T>::arg(f)) : x.emplace(x.begin() + p, Tr<T>::arg(f)), size_t(p));
                        else returned(un ? x.template emplace<Safety::Unsafe>(size_t(p), Tr<T>::arg(f)) : x.emplace(size_t(p), Tr<T>::arg(f)), size_t(p));
                    })) e.insert(e.begin() + p, Tr<T>::norm(f));
                grown();
                return true;
            }
            case ERASE_IT: {
                if (n == 0) return false;
                int p = at(n), c = choose(2);
                note("erase(%s %d)", c ? "const_iterator" : "iterator", p);
                call([&] { c ? returned(x.erase(x.cbegin() + p), size_t(p)) : returned(x.erase(x.begin() + p), size_t(p)); });
                e.erase(e.begin() + p);
                stays();
                return true;
            }
            case ERASE_RANGE: {
                int a = pos(n), b = a + pos(n - size_t(a)), c = choose(2);
                note("erase(%s %d .. %d)", c ? "const_iterator" : "iterator", a, b);
                call([&] {
                    auto it = c ? x.erase(x.cbegin() + a, x.cbegin() + b) : x.erase(x.begin() + a, x.begin() + b);
                    // known finding: the iterator returned is the old position of `last`
                    if (it - x.begin() != b) returned(it, size_t(a));
                });
                e.erase(e.begin() + a, e.begin() + b);
                stays();
                return true;
            }
            case ERASE_VAL: {
                int k = big && n > 4 ? (int[]){0, int(n) / 2, int(n) - 1, int(n)}[choose(4)] : choose(int(n) + 1);
                int val = k < int(n) ? e[size_t(k)] : 99;
                if (std::is_same_v<T, bool> && k == int(n)) return false;
                bool st = choose(2) != 0;
                T t(Tr<T>::arg(val));
                note("%serase(value %d)", st ? "std::" : "", val);
                size_t want = 0;
                for (int y : e) want += y == val;
                call([&] {
                    size_t got = st ? std::erase(x, std::as_const(t)) : x.erase(std::as_const(t));
                    MC_CHECK(got == want, "%s: says %zu elements erased, expected %zu", what.c_str(), got, want);
                });
                std::erase(e, val);
                stays();
                return true;
            }
            case ERASE_IF: {
                int mask = big ? choose(8) : full ? choose(1 << (n > 5 ? 5 : int(n))) : choose(n > 1 ? 3 : 2);
                bool st = choose(2) != 0;
                note("%serase_if(elements %d (bit mask))", st ? "std::" : "", mask);
                M keep;
                std::vector<int> gone;
                auto victim = [&, b = big](size_t k) {
                    if (!b) return bool(mask >> (k > 4 ? 4 : k) & 1);
                    return (bool[]){k == 0, k + 1 == n, k % 3 == 0, k < n / 2, k >= n / 2, k % 2 == 1, true, k % 17 != 3}[mask];
                };
                for (size_t k = 0; k < n; ++k) (victim(k) ? gone : keep).push_back(e[k]);
                size_t calls = 0;
                auto pred = [&](const T& t) {
                    el::value(t);
                    return victim(calls++);
                };
                auto* pp = &pred;
                auto ref = [pp](const T& t) { return (*pp)(t); };
                call([&] {
                    size_t got = st ? std::erase_if(x, ref) : x.erase_if(ref);
                    MC_CHECK(got == gone.size(), "%s: says %zu elements erased, expected %zu", what.c_str(), got, gone.size());
                    MC_CHECK(calls == n, "%s: predicate called %zu times for %zu elements", what.c_str(), calls, n);
                });
                e = keep;
                stays();
                return true;
            }
            case RESIZE: {
                int k = resized(int(n));
                note("resize(%d)", k);
                if (call([&] { x.resize(size_t(k)); })) e.resize(size_t(k), 0);
                stays();
                return true;
            }
            case RESIZE_VAL:
                if constexpr (copyable) {
                    int k = resized(int(n));
                    int f = fresh();
                    T t(Tr<T>::arg(f));
                    note("resize(%d, %d)", k, f);
                    if (call([&] { x.resize(size_t(k), t); })) e.resize(size_t(k), Tr<T>::norm(f));
                    stays();
                    return true;
                } else return false;
            case RESERVE: {
                int k = big ? (int[]){0, int(n), int(n) + 1, int(n) + 17, 2 * int(n), 5 * int(n) + 100}[choose(6)] : full ? choose(14) : (int[]){0, int(n) + 1, int(n) + 5}[choose(3)];
                note("reserve(%d)", k);
                if (call([&] { x.reserve(size_t(k)); }) && chk_cap) MC_CHECK(x.capacity() >= size_t(k), "%s: capacity is %zu", what.c_str(), x.capacity());
                if (size_t(k) > cap0) return true;
                if (chk_cap && !threw) MC_CHECK(x.data() == data0 && x.capacity() == cap0, "%s: storage changed", what.c_str());
                stays();
                return true;
            }
            case SHRINK:
                note("shrink_to_fit");
                if (call([&] { x.shrink_to_fit(); }) && chk_cap) MC_CHECK(x.capacity() == n, "%s: capacity is %zu", what.c_str(), x.capacity());
                return true;
            case CLEAR:
                note("clear");
                x.clear();
                e.clear();
                stays();
                return true;
            case ASSIGN_N:
                if constexpr (copyable) {
                    int k = count(), f = fresh();
                    T t(Tr<T>::arg(f));
                    note("assign(%d, %d)", k, f);
                    if (call([&] { x.assign(size_t(k), t); })) e.assign(size_t(k), Tr<T>::norm(f));
                    else after_failure(false);
                    stays();
                    return true;
                } else return false;
            case ASSIGN_RANGE: {
                int k = count(), kd = kind();
                M val = values(k);
                note("assign(%d elements through %s)", k, kind_name(kd));
                bool ok = false;
                if (!with_range<false, T>(kd, val, [&](auto a, auto b) {
                        ok = call([&] { x.assign(a, b); });
                        if (!ok) after_failure(false);
                    })) return false;
                if (ok) e = val;
                stays();
                return true;
            }
            case ASSIGN_LIST:
                if constexpr (copyable) {
                    int k = choose(3);
                    M val = values(k);
                    note("assign(list of %d)", k);
                    auto go = [&](std::initializer_list<T> l) {
                        if (call([&] { x.assign(l); })) e = val;
                        else after_failure(false);
                    };
                    if (k == 0) go({});
                    if (k == 1) go({T(Tr<T>::arg(val[0]))});
                    if (k == 2) go({T(Tr<T>::arg(val[0])), T(Tr<T>::arg(val[1]))});
                    stays();
                    return true;
                } else return false;
            case SWAP: {
                int c = choose(3);
                note("swap %s", c == 0 ? "member" : c == 1 ? "std::swap" : "with itself");
                const T *a = v[0].data(), *b = v[1].data();
                size_t ca = v[0].capacity(), cb = v[1].capacity();
                if (c == 0) v[0].swap(v[1]);
                else if (c == 1) std::swap(v[0], v[1]);
                else { v[0].swap(v[0]); return true; }
                std::swap(m[0], m[1]);
                if (chk_cap) MC_CHECK(v[0].data() == b && v[1].data() == a && v[0].capacity() == cb && v[1].capacity() == ca, "%s: storage was not exchanged", what.c_str());
                return true;
            }
            case COPY_ASSIGN:
                if constexpr (copyable) {
                    note("= other %s", show(m[1]).c_str());
                    if (call([&] { v[0] = v[1]; })) m[0] = m[1];
                    else after_failure(false);
                    stays();
                    return true;
                } else return false;
            case MOVE_ASSIGN: {
                note("= move(other %s)", show(m[1]).c_str());
                const T* b = v[1].data();
                v[0] = std::move(v[1]);
                m[0] = m[1];
                m[1].clear();
                if (chk_cap) MC_CHECK(v[0].data() == b, "%s: elements moved to other storage", what.c_str());
                // the source is valid; what it holds is not specified, std::vector leaves it empty
                return true;
            }
            case SELF: {
                int c = choose(2);
                note("assigned to itself by %s", c ? "moving" : "copying");
                V& y = v[0];
                if (c) {
                    v[0] = std::move(y);
                    if (v[0].size() == 0) e.clear();  // std::vector promises no more
                    return true;
                }
                if constexpr (copyable) v[0] = y;
                else return false;
                stays();
                return true;
            }
            case COPY_CTOR:
                if constexpr (copyable) {
                    note("copy construct");
                    call([&] {
                        V c(v[0]);
                        MC_CHECK(c.size() == n, "%s: copy has %zu elements", what.c_str(), c.size());
                        for (size_t k = 0; k < n; ++k) MC_CHECK(el::value(c[k]) == e[k], "%s: copy holds %d at index %zu", what.c_str(), el::value(c[k]), k);
                        MC_CHECK(c.capacity() >= n && (n == 0 || c.data() != x.data()), "%s: copy has capacity %zu", what.c_str(), c.capacity());
                        c.clear();
                    });
                    stays();
                    return true;
                } else return false;
            case MOVE_CTOR: {
                note("move construct");
                V c(std::move(v[0]));
                MC_CHECK(c.size() == n && (!chk_cap || c.data() == data0), "%s: result has %zu elements", what.c_str(), c.size());
                for (size_t k = 0; k < n; ++k) MC_CHECK(el::value(c[k]) == e[k], "%s: result holds %d at index %zu", what.c_str(), el::value(c[k]), k);
                MC_CHECK(v[0].size() == 0, "%s: source holds %zu elements", what.c_str(), v[0].size());
                if (choose(2)) { e.clear(); return true; }
                v[0] = std::move(c);
                return true;
            }
            case MAKE: {
                int c = choose(4), k = count();
                M val = values(k);
                bool ok = false;
                auto is = [&](V& y, const M& w) {
                    ok = true;
                    if (chk_cap) MC_CHECK(y.capacity() >= w.size(), "%s: capacity %zu", what.c_str(), y.capacity());
                    MC_CHECK(y.size() == w.size(), "%s: %zu elements", what.c_str(), y.size());
                    v[0] = std::move(y);
                    e = w;
                };
                if (c == 0) {
                    note("vector(%d)", k);
                    call([&] { V y(static_cast<size_t>(k)); is(y, M(size_t(k), 0)); });
                } else if (c == 1) {
                    if constexpr (copyable) {
                        int f = fresh();
                        T t(Tr<T>::arg(f));
                        note("vector(%d, %d)", k, f);
                        call([&] { V y(size_t(k), t); is(y, M(size_t(k), Tr<T>::norm(f))); });
                    } else return false;
                } else if (c == 2) {
                    int kd = kind();
                    note("vector(%d elements through %s)", k, kind_name(kd));
                    if (!with_range<false, T>(kd, val, [&](auto a, auto b) { call([&] { V y(a, b); is(y, val); }); })) return false;
                } else {
                    if constexpr (copyable) {
                        if (k > 2) return false;
                        note("vector(list of %d)", k);
                        auto go = [&](std::initializer_list<T> l) { call([&] { V y(l); is(y, val); }); };
                        if (k == 0) go({});
                        if (k == 1) go({T(Tr<T>::arg(val[0]))});
                        if (k == 2) go({T(Tr<T>::arg(val[0])), T(Tr<T>::arg(val[1]))});
                    } else return false;
                }
                return true;
            }
            case FILL: {
                int k = big ? (int[]){0, 1, 17, 33}[choose(4)] : (int[]){0, 1, 3, 5}[choose(4)];
                bool un = room(size_t(k)) && choose(2);
                static int fk, fbase;
                fk = k;
                fbase = fresh();
                auto filler = +[](T* to) -> size_t {
                    if (to) for (int i = 0; i < fk; ++i) ::new (static_cast<void*>(to + i)) T(Tr<T>::arg((fbase + i) % 97 + 1));
                    return size_t(fk);
                };
                note("fill%s(%d)", un ? "<Unsafe>" : "", k);
                int64_t f0 = el::copy_fail_at;
                if (call([&] { if (el::copy_fail_at >= 0 && el::copy_fail_at != f0) el::copy_fail_at = -1; un ? x.template fill<Safety::Unsafe>(filler) : x.fill(filler); }))
                    for (int i = 0; i < k; ++i) e.push_back(Tr<T>::norm((fbase + i) % 97 + 1));
                stays();
                return true;
            }
            case WBUF: {
                int k = (int[]){0, 1, 3, 5, 40}[choose(5)];
                bool un = room(size_t(k)) && choose(2);
                note("get_writebuffer%s(%d)", un ? "<Unsafe>" : "", k);
                if (call([&] {
                        auto sp = un ? x.template get_writebuffer<Safety::Unsafe>(size_t(k)) : x.get_writebuffer(size_t(k));
                        MC_CHECK(sp.size() == size_t(k) && (k == 0 || sp.data() == x.data() + n), "%s: gives %zu slots at index %ld", what.c_str(), sp.size(), long(sp.data() - x.data()));
                        MC_CHECK(x.capacity() >= x.size() && x.size() == n + size_t(k), "%s: size %zu, capacity %zu", what.c_str(), x.size(), x.capacity());
                        if (k) MC_CHECK(heap::contains(sp.data(), size_t(k) * sizeof(T)), "%s: slots beyond the allocation", what.c_str());
                        el::copy_fail_at = -1;
                        for (int i = 0; i < k; ++i) ::new (static_cast<void*>(&sp[size_t(i)])) T(Tr<T>::arg(60 + i));
                    })) for (int i = 0; i < k; ++i) e.push_back(Tr<T>::norm(60 + i));
                stays();
                return true;
            }
            default: return false;
        }
    }
};
}  // namespace vec
