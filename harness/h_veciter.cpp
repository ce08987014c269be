// C25: iterators, comparison and formatting of stdb_vector against std::vector.
#include <algorithm>
#include <cmath>
#include <numeric>
#include <ranges>
#include <string>
#include <vector>

#include "container/stdb_vector.hpp"
#include "mc.hpp"
#include "string/string.hpp"
#include <fmt/ranges.h>
using mc::choose;
using stdb::container::stdb_vector;

template <class T> struct Al;  // alphabet
template <> struct Al<int> { static constexpr const char* n = "int"; static int at(int i) { return (int[]){-1, 0, 7, 1 << 30}[i]; } };
template <> struct Al<unsigned char> { static constexpr const char* n = "unsigned char"; static unsigned char at(int i) { return (unsigned char[]){0, 1, 200, 127}[i]; } };
template <> struct Al<signed char> { static constexpr const char* n = "signed char"; static signed char at(int i) { return (signed char[]){-128, -1, 0, 100}[i]; } };
template <> struct Al<char> { static constexpr const char* n = "char"; static char at(int i) { return "a\x80z\n"[i]; } };
template <> struct Al<bool> { static constexpr const char* n = "bool"; static bool at(int i) { return i & 1; } };
template <> struct Al<double> { static constexpr const char* n = "double"; static double at(int i) { return (double[]){0.0, 1.5, NAN, -0.0}[i]; } };
template <> struct Al<std::string> { static constexpr const char* n = "std::string"; static std::string at(int i) { return (const char*[]){"", "a", "ab\"", "b"}[i]; } };
template <> struct Al<stdb::memory::string> { static constexpr const char* n = "memory::string"; static stdb::memory::string at(int i) { return (const char*[]){"", "a", "ab\"", "b"}[i]; } };
struct Old {  // has == < > only
    int v;
    friend bool operator==(const Old& a, const Old& b) { return a.v == b.v; }
    friend bool operator<(const Old& a, const Old& b) { return a.v < b.v; }
    friend bool operator>(const Old& a, const Old& b) { return a.v > b.v; }
};
template <> struct Al<Old> { static constexpr const char* n = "class with == < >"; static Old at(int i) { return {i}; } };
template <class T> struct Al<stdb_vector<T>> {
    static constexpr const char* n = "vector";
    static stdb_vector<T> at(int i) { stdb_vector<T> v; if (i == 1) v.push_back(Al<T>::at(0)); if (i == 2) { v.push_back(Al<T>::at(1)); v.push_back(Al<T>::at(2)); } if (i == 3) v.push_back(Al<T>::at(2)); return v; }
};
template <class T> struct Std { using type = T; static T of(const T& t) { return t; } };
template <class T> struct Std<stdb_vector<T>> { using type = std::vector<T>; static type of(const stdb_vector<T>& v) { type r; for (size_t i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; } };

// all words of length <= len over the alphabet, by number
static std::vector<int> word(uint64_t k, int letters) {
    std::vector<int> w;
    uint64_t count = 1;
    int len = 0;
    while (k >= count) { k -= count; count *= uint64_t(letters); ++len; }
    for (int i = 0; i < len; ++i) { w.push_back(int(k % uint64_t(letters))); k /= uint64_t(letters); }
    return w;
}
static uint64_t words(int len, int letters) { uint64_t s = 0, c = 1; for (int i = 0; i <= len; ++i, c *= uint64_t(letters)) s += c; return s; }
static std::string show(const std::vector<int>& w) { std::string s = "["; for (int x : w) s += std::to_string(x) + " "; return s + "]"; }

template <class A>
static int order(A o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }

template <class T>
static void compare(const char* p, int len) {
    uint64_t n = words(len, 4);
    mc::add(p, std::string("all pairs compared, ") + Al<T>::n, n, [n](uint64_t t) {
        auto w0 = word(t, 4);
        using S = typename Std<T>::type;
        stdb_vector<T> a;
        std::vector<S> sa;
        for (int x : w0) { a.push_back(Al<T>::at(x)); sa.push_back(Std<T>::of(Al<T>::at(x))); }
        for (uint64_t k = 0; k < n; ++k) {
            auto w1 = word(k, 4);
            stdb_vector<T> b;
            b.reserve(w1.size() + k % 3);
            std::vector<S> sb;
            for (int x : w1) { b.push_back(Al<T>::at(x)); sb.push_back(Std<T>::of(Al<T>::at(x))); }
            const auto &ca = a, &cb = b;
#define C(op) { bool g = ca op cb, e = sa op sb; MC_CHECK(g == e, "vector<%s>: letters %s " #op " %s is %d, std::vector says %d", Al<T>::n, show(w0).c_str(), show(w1).c_str(), g, e); }
            C(==) C(!=) C(<) C(<=) C(>) C(>=)
#undef C
            int g = order(ca <=> cb), e = order(sa <=> sb);
            MC_CHECK(g == e, "vector<%s>: letters %s <=> %s is %d, std::vector says %d", Al<T>::n, show(w0).c_str(), show(w1).c_str(), g, e);
            mc::step(7);
        }
        mc::state(mc::Hash().str(Al<T>::n).add(t));
    });
}
template <class T>
static void formatted(const char* p, int len) {
    mc::add(p, std::string("formatting, ") + Al<T>::n, words(len, 4), [](uint64_t t) {
        auto w = word(t, 4);
        stdb_vector<T> a;
        std::vector<typename Std<T>::type> s;
        for (int x : w) { a.push_back(Al<T>::at(x)); s.push_back(Std<T>::of(Al<T>::at(x))); }
        std::vector<std::pair<std::string, std::string>> r;
        r.push_back({fmt::format("{}", a), fmt::format("{}", s)});
        r.push_back({fmt::format("{} {}", a, 1), fmt::format("{} {}", s, 1)});
        r.push_back({fmt::format("{:n}", a), fmt::format("{:n}", s)});
        if constexpr (std::is_same_v<T, int>) {
            r.push_back({fmt::format("{::#x}", a), fmt::format("{::#x}", s)});
            r.push_back({fmt::format("{::4}", a), fmt::format("{::4}", s)});
        }
        if constexpr (!std::is_same_v<T, bool> && !std::is_same_v<T, stdb_vector<int>>) {
            r.push_back({fmt::format("{}", fmt::join(a, "; ")), fmt::format("{}", fmt::join(s, "; "))});
            r.push_back({fmt::format("{}", fmt::join(a.begin(), a.end(), "")), fmt::format("{}", fmt::join(s.begin(), s.end(), ""))});
        }
        for (auto& [g, e] : r) { mc::step(); MC_CHECK(g == e, "vector<%s> formats as %s, std::vector as %s", Al<T>::n, g.c_str(), e.c_str()); }
        mc::state(mc::Hash().str(Al<T>::n).str(r[0].first));
    });
}
// the same for long vectors: every length up to 40 and lengths around powers of two, equal but for one position (every one), after which the rest is the same or the other way round
static const std::vector<int>& lengths() {
    static const std::vector<int> l = [] {
        std::vector<int> r;
        for (int i = 5; i <= 40; ++i) r.push_back(i);
        for (int i : {63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300}) r.push_back(i);
        if (mc::thorough()) for (int i : {41, 42, 47, 48, 49, 50, 511, 512, 513, 1000}) r.push_back(i);
        return r;
    }();
    return l;
}
template <class T>
static void compare_long(const char* p, int limit, int letters) {
    size_t count = 0;
    while (count < lengths().size() && lengths()[count] <= limit) ++count;
    mc::add(p, std::string("long vectors compared, ") + Al<T>::n, count, [=](uint64_t t) {
        using S = typename Std<T>::type;
        int n = lengths()[size_t(t)], pattern = choose(3);
        auto letter = [&](int i) { return pattern == 0 ? 1 : pattern == 1 ? i & 1 : (i * 5 + i / 7) % letters; };
        auto build = [](const std::vector<int>& w, stdb_vector<T>& v, std::vector<S>& s) {
            for (int x : w) { v.push_back(Al<T>::at(x)); s.push_back(Std<T>::of(Al<T>::at(x))); }
        };
        std::vector<int> w0;
        for (int i = 0; i < n; ++i) w0.push_back(letter(i));
        stdb_vector<T> a;
        std::vector<S> sa;
        build(w0, a, sa);
        auto against = [&](const std::vector<int>& w1, int at, int how) {
            stdb_vector<T> b;
            std::vector<S> sb;
            build(w1, b, sb);
            const auto &ca = a, &cb = b;
#define C(op) { bool g = ca op cb, e = sa op sb; MC_CHECK(g == e, "vector<%s>: %zu elements (pattern %d) " #op " %zu elements which differ first at %d (variant %d) is %d, std::vector says %d", Al<T>::n, ca.size(), pattern, cb.size(), at, how, g, e); } \
              { bool g = cb op ca, e = sb op sa; MC_CHECK(g == e, "vector<%s>: %zu elements (pattern %d), the left ones changed at %d (variant %d), " #op " %zu elements is %d, std::vector says %d", Al<T>::n, cb.size(), pattern, at, how, ca.size(), g, e); }
            C(==) C(!=) C(<) C(<=) C(>) C(>=)
#undef C
            MC_CHECK(order(ca <=> cb) == order(sa <=> sb) && order(cb <=> ca) == order(sb <=> sa), "vector<%s>: <=> of %zu elements (pattern %d) and %zu elements which differ first at %d (variant %d)", Al<T>::n, ca.size(), pattern, cb.size(), at, how);
            mc::step(14);
        };
        for (int more = 0; more < 3; ++more) {  // the same, a proper prefix, a proper extension
            auto w = w0;
            if (more == 1) w.pop_back();
            if (more == 2) w.push_back(letter(n));
            against(w, -1, more);
        }
        for (int k = 0; k < n; ++k) {
            if (n > 130 && k > 20 && k < n - 20 && k % 13 && (k & (k - 1))) continue;
            for (int x = 0; x < letters; ++x)
                for (int how = 0; how < 4; ++how) {
                    auto w = w0;
                    w[size_t(k)] = x;
                    if (how & 1) for (int i = k + 1; i < n; ++i) w[size_t(i)] = (letters - 1) - w[size_t(i)];
                    if (how & 2) w.resize(size_t(std::max(k + 1, n - 1)));
                    against(w, k, how);
                }
        }
        mc::state(mc::Hash().str(Al<T>::n).add(uint64_t(n)).add(uint64_t(pattern)));
    });
}
template <class T>
static void formatted_long(const char* p) {
    mc::add(p, std::string("formatting long vectors, ") + Al<T>::n, lengths().size(), [](uint64_t t) {
        int n = lengths()[size_t(t)];
        stdb_vector<T> a;
        std::vector<typename Std<T>::type> s;
        for (int i = 0; i < n; ++i) { int x = (i * 5 + i / 7) % 4; a.push_back(Al<T>::at(x)); s.push_back(Std<T>::of(Al<T>::at(x))); }
        std::string g = fmt::format("{}", a), e = fmt::format("{}", s);
        MC_CHECK(g == e, "vector<%s> of %d elements formats as %s, std::vector as %s", Al<T>::n, n, g.c_str(), e.c_str());
        mc::step();
        mc::state(mc::Hash().str(Al<T>::n).str(g));
    });
}
template <class It, class Ref>
static void walk(It b, It e, const std::vector<int>& m, const char* what, Ref value) {
    ptrdiff_t n = ptrdiff_t(m.size());
    MC_CHECK(std::random_access_iterator<It>, "%s is not a random access iterator", what);
    MC_CHECK(e - b == n && b - e == -n && (b == e) == (n == 0) && (b != e) == (n != 0), "%s: distance is %ld, expected %ld", what, long(e - b), long(n));
    // all the ways to get from i to j
    for (ptrdiff_t i = 0; i <= n; ++i) {
        if (n > 70 && i > 5 && i < n - 5 && i % 17 && (i & (i - 1))) continue;
        It x = b;
        for (ptrdiff_t k = 0; k < i; ++k) { if (k & 1) (void)x++; else ++x; }
        It y = e;
        for (ptrdiff_t k = n; k > i; --k) { if (k & 1) (void)y--; else --y; }
        MC_CHECK(x == y && !(x != y), "%s: %ld steps forward and %ld back do not meet", what, long(i), long(n - i));
        if (i < n) {
            MC_CHECK(value(*x) == m[size_t(i)], "%s: visits %d at step %ld, expected %d", what, value(*x), long(i), m[size_t(i)]);
            MC_CHECK(&*x == x.operator->(), "%s: -> is not the element", what);
            It post = x, pre = x;
            It old = post++;
            It now = ++pre;
            MC_CHECK(old == x && post == pre && now == pre && post - x == 1, "%s: increment from %ld", what, long(i));
            It back = post--;
            MC_CHECK(back == pre && post == x, "%s: decrement to %ld", what, long(i));
            MC_CHECK(--pre == x, "%s: decrement to %ld", what, long(i));
        }
        It moved_src = x;
        It moved(std::move(moved_src));
        MC_CHECK(moved == x, "%s: moved iterator", what);
        moved_src = std::move(moved);
        MC_CHECK(moved_src == x, "%s: moved iterator", what);
        for (ptrdiff_t j = 0; j <= n; ++j) {
            if (n > 70 && j > 3 && j < n - 3 && j % 7 && (j & (j - 1))) continue;
            mc::step();
            ptrdiff_t d = j - i;
            It z = x;
            z += d;
            It u = z;
            u -= d;
            MC_CHECK(u == x && x + d == z && d + x == z && z - d == x && z - x == d, "%s: arithmetic between %ld and %ld", what, long(i), long(j));
            MC_CHECK(b + j == z && e - (n - j) == z, "%s: offset %ld from the ends", what, long(j));
            if (j < n) MC_CHECK(value(x[d]) == m[size_t(j)] && &x[d] == &*z, "%s: element [%ld] from index %ld", what, long(d), long(i));
            MC_CHECK((x < z) == (i < j) && (x <= z) == (i <= j) && (x > z) == (i > j) && (x >= z) == (i >= j) && (x == z) == (i == j) && (x != z) == (i != j), "%s: comparison of %ld and %ld", what, long(i), long(j));
            MC_CHECK(order(x <=> z) == (i < j ? -1 : i > j), "%s: <=> of %ld and %ld", what, long(i), long(j));
        }
    }
}
template <class T, class Mk, class Val>
static void iterators(const char* p, const char* name, Mk mk, Val val) {
    mc::add(p, std::string("iterators over every size to 40 and larger ones, ") + name, 13 + lengths().size(), [=](uint64_t t) {
        if (t > 12) t = uint64_t(lengths()[size_t(t - 13)]);
        stdb_vector<T> v;
        std::vector<int> m, r;
        int slack = choose(3);
        if (slack) v.reserve(t + size_t(slack) * 3);
        for (int i = 0; i < int(t); ++i) { v.emplace_back(mk(i + 1)); m.push_back(i + 1); }
        r.assign(m.rbegin(), m.rend());
        const auto& c = v;
        walk(v.begin(), v.end(), m, "begin()", val);
        walk(c.begin(), c.end(), m, "begin() const", val);
        walk(v.cbegin(), v.cend(), m, "cbegin()", val);
        walk(v.rbegin(), v.rend(), r, "rbegin()", val);
        walk(c.rbegin(), c.rend(), r, "rbegin() const", val);
        walk(v.crbegin(), v.crend(), r, "crbegin()", val);
        using V = stdb_vector<T>;
        typename V::const_iterator ci = v.begin();
        MC_CHECK(ci == v.cbegin() && std::to_address(v.begin()) == v.data() && std::to_address(v.cbegin()) == v.data(), "conversion to const_iterator");
        MC_CHECK(v.end() >= v.begin() && c.end() - c.begin() == ptrdiff_t(t), "end()");
        if (t) MC_CHECK((std::is_same_v<decltype(*v.begin()), T&>) && (std::is_same_v<decltype(*v.cbegin()), const T&>), "types");
        MC_CHECK((typename V::iterator() == typename V::iterator()), "default iterators differ");
        size_t n = 0;
        for (auto& x : v) { MC_CHECK(n < m.size() && val(x) == m[n], "range-for visits a wrong element at %zu", n); ++n; }
        MC_CHECK(n == m.size(), "range-for visits %zu of %zu", n, m.size());
        // writing through an iterator
        if (t) {
            size_t i = t <= 12 ? size_t(choose(int(t))) : (size_t[]){0, 1, t / 2, t - 2, t - 1}[choose(5)];
            if (choose(2)) v.begin()[ptrdiff_t(i)] = mk(77);
            else *(v.rend() - ptrdiff_t(i) - 1) = mk(77);
            m[i] = 77;
            for (size_t k = 0; k < t; ++k) MC_CHECK(val(c[k]) == m[k], "writing through an iterator to %zu changed %zu", i, k);
        }
        mc::state(mc::Hash().str(name).add(t).add(uint64_t(slack)));
    });
}
// the library's algorithms drive the iterators through every permutation
template <class T, class Mk, class Val>
static void algorithms(const char* p, const char* name, Mk mk, Val val, int len) {
    uint64_t n = 1;
    for (int i = 2; i <= len; ++i) n *= uint64_t(i);
    mc::add(p, std::string("algorithms on every permutation, ") + name, n, [=](uint64_t t) {
        std::vector<int> m(static_cast<size_t>(len));
        std::iota(m.begin(), m.end(), 0);
        uint64_t k = t;
        for (int i = len; i > 1; --i) { std::swap(m[size_t(i - 1)], m[size_t(k % uint64_t(i))]); k /= uint64_t(i); }
        for (auto& x : m) x /= 2;  // equal elements
        stdb_vector<T> v;
        for (int x : m) v.emplace_back(mk(x));
        int how = choose(12);
        auto key = [&](const T& x) { return val(x); };
        auto less = [&](const T& a, const T& b) { return val(a) < val(b); };
        std::vector<int> e = m;
        switch (how) {
            case 0: std::sort(v.begin(), v.end(), less); std::sort(e.begin(), e.end()); break;
            case 1: std::ranges::sort(v, std::less<>(), key); std::sort(e.begin(), e.end()); break;
            case 2: std::sort(v.rbegin(), v.rend(), less); std::sort(e.rbegin(), e.rend()); break;
            case 3: std::stable_sort(v.begin(), v.end(), less); std::stable_sort(e.begin(), e.end()); break;
            case 4: std::reverse(v.begin(), v.end()); std::reverse(e.begin(), e.end()); break;
            case 5: { auto i = std::rotate(v.begin(), v.begin() + 2, v.end()); auto j = std::rotate(e.begin(), e.begin() + 2, e.end()); MC_CHECK(i - v.begin() == j - e.begin(), "rotate"); break; }
            case 6: { auto i = std::ranges::rotate(v, v.begin() + 3).begin(); MC_CHECK(i - v.begin() == len - 3, "ranges::rotate"); std::rotate(e.begin(), e.begin() + 3, e.end()); break; }
            case 7: { auto i = std::find_if(v.cbegin(), v.cend(), [&](const T& x) { return val(x) == 1; }); auto j = std::find(e.begin(), e.end(), 1); MC_CHECK(i - v.cbegin() == j - e.begin(), "find"); break; }
            case 8: std::ranges::reverse(v); std::reverse(e.begin(), e.end()); break;
            case 9: std::partial_sort(v.begin(), v.begin() + 2, v.end(), less); std::partial_sort(e.begin(), e.begin() + 2, e.end()); break;
            case 10: { std::ranges::stable_sort(v.rbegin(), v.rend(), std::less<>(), key); std::stable_sort(e.rbegin(), e.rend()); break; }
            default: { bool g = std::next_permutation(v.begin(), v.end(), less), w = std::next_permutation(e.begin(), e.end()); MC_CHECK(g == w, "next_permutation"); break; }
        }
        for (size_t i = 0; i < e.size(); ++i) MC_CHECK(val(v[i]) == e[i], "algorithm %d over the iterators of vector<%s>: element %zu is %d, expected %d", how, name, i, val(v[i]), e[i]);
        mc::step();
        mc::state(mc::Hash().str(name).add(t).add(uint64_t(how)));
    });
}
// and long vectors, in which the library's algorithms take their other ways
template <class T, class Mk, class Val>
static void algorithms_long(const char* p, const char* name, Mk mk, Val val) {
    mc::add(p, std::string("algorithms on long vectors, ") + name, lengths().size() * 5, [=](uint64_t t) {
        int n = lengths()[size_t(t / 5)], pattern = int(t % 5);
        std::vector<int> m;
        uint32_t r = 12345;
        for (int i = 0; i < n; ++i) {
            r = r * 1664525 + 1013904223;
            m.push_back(pattern == 0 ? i % 120 : pattern == 1 ? (n - i) % 120 : pattern == 2 ? i & 1 : pattern == 3 ? (i < n / 2 ? i : n - i) % 120 : int(r >> 24) % 120);
        }
        stdb_vector<T> v;
        for (int x : m) v.emplace_back(mk(x));
        int how = choose(14), mid = n / 3;
        auto less = [&](const T& a, const T& b) { return val(a) < val(b); };
        auto key = [&](const T& x) { return val(x); };
        std::vector<int> e = m;
        switch (how) {
            case 0: std::sort(v.begin(), v.end(), less); std::sort(e.begin(), e.end()); break;
            case 1: std::ranges::sort(v, std::less<>(), key); std::sort(e.begin(), e.end()); break;
            case 2: std::sort(v.rbegin(), v.rend(), less); std::sort(e.rbegin(), e.rend()); break;
            case 3: std::stable_sort(v.begin(), v.end(), less); std::stable_sort(e.begin(), e.end()); break;
            case 4: std::reverse(v.begin(), v.end()); std::reverse(e.begin(), e.end()); break;
            case 5: std::rotate(v.begin(), v.begin() + mid, v.end()); std::rotate(e.begin(), e.begin() + mid, e.end()); break;
            case 6: std::rotate(v.rbegin(), v.rbegin() + mid, v.rend()); std::rotate(e.rbegin(), e.rbegin() + mid, e.rend()); break;
            case 7: { std::sort(v.begin(), v.end(), less); std::sort(e.begin(), e.end());
                for (int x : {-1, 0, 1, 60, 119, 200}) {
                    auto i = std::ranges::lower_bound(v, x, std::less<>(), key) - v.begin();
                    auto j = std::lower_bound(e.begin(), e.end(), x) - e.begin();
                    MC_CHECK(i == j, "lower_bound of %d in vector<%s> of %d elements is %ld, expected %ld", x, name, n, long(i), long(j));
                } break; }
            case 8: { auto i = std::stable_partition(v.begin(), v.end(), [&](const T& x) { return val(x) % 3 == 0; }) - v.begin(); auto j = std::stable_partition(e.begin(), e.end(), [](int x) { return x % 3 == 0; }) - e.begin(); MC_CHECK(i == j, "stable_partition of vector<%s>", name); break; }
            case 9: std::sort_heap((std::make_heap(v.begin(), v.end(), less), v.begin()), v.end(), less); std::sort(e.begin(), e.end()); break;
            case 10: std::sort(v.begin(), v.begin() + mid, less); std::sort(v.begin() + mid, v.end(), less); std::inplace_merge(v.begin(), v.begin() + mid, v.end(), less); std::sort(e.begin(), e.end()); break;
            case 11: { auto i = std::remove_if(v.begin(), v.end(), [&](const T& x) { return val(x) % 2; }) - v.begin(); std::erase_if(e, [](int x) { return x % 2; }); MC_CHECK(size_t(i) == e.size(), "remove_if of vector<%s> keeps %ld, expected %zu", name, long(i), e.size()); break; }
            case 12: { stdb_vector<T> w; std::copy(v.begin() + mid, v.end(), std::back_inserter(w)); std::copy_backward(v.begin(), v.begin() + mid, v.end()); std::copy_backward(e.begin(), e.begin() + mid, e.end());
                for (size_t i = 0; i < w.size(); ++i) MC_CHECK(val(w[i]) == m[size_t(mid) + i], "copy out of vector<%s>: element %zu", name, i); break; }
            default: { std::nth_element(v.begin(), v.begin() + mid, v.end(), less); std::nth_element(e.begin(), e.begin() + mid, e.end()); MC_CHECK(val(v[size_t(mid)]) == e[size_t(mid)], "nth_element of vector<%s>", name);
                std::sort(v.begin(), v.end(), less); std::sort(e.begin(), e.end()); break; }
        }
        for (size_t i = 0; i < e.size(); ++i) MC_CHECK(val(v[i]) == e[i], "algorithm %d over the iterators of vector<%s> of %d elements: element %zu is %d, expected %d", how, name, n, i, val(v[i]), e[i]);
        mc::step();
        mc::state(mc::Hash().str(name).add(t).add(uint64_t(how)));
    });
}
void mc_spaces(const std::string& prop) {
    if (prop != "C25") return;
    const char* p = "C25";
    bool th = mc::thorough();
    int len = th ? 5 : 4;
    compare<int>(p, len);
    compare<unsigned char>(p, len);
    compare<signed char>(p, len);
    compare<bool>(p, len);
    compare<double>(p, len);
    compare<std::string>(p, len - 1);
    compare<stdb::memory::string>(p, len - 1);
    compare<Old>(p, len);
    compare<stdb_vector<int>>(p, len - 1);
    compare<stdb_vector<double>>(p, len - 1);
    compare_long<int>(p, 1000, 4);
    compare_long<unsigned char>(p, 1000, 4);
    compare_long<signed char>(p, 1000, 4);
    compare_long<char>(p, 300, 4);
    compare_long<bool>(p, 300, 2);
    compare_long<double>(p, 300, 4);
    compare_long<std::string>(p, 66, 4);
    compare_long<stdb::memory::string>(p, 66, 4);
    compare_long<Old>(p, 129, 4);
    compare_long<stdb_vector<int>>(p, 40, 4);
    formatted_long<int>(p);
    formatted_long<unsigned char>(p);
    formatted_long<bool>(p);
    formatted_long<double>(p);
    formatted_long<std::string>(p);
    formatted_long<stdb_vector<int>>(p);
    formatted<int>(p, len);
    formatted<unsigned char>(p, len);
    formatted<char>(p, len);
    formatted<bool>(p, len);
    formatted<double>(p, len);
    formatted<std::string>(p, len);
    formatted<stdb_vector<int>>(p, len);
    mc::add(p, "formatting, memory::string", words(len, 4), [](uint64_t t) {
        auto w = word(t, 4);
        stdb_vector<stdb::memory::string> a;
        std::vector<std::string> s;
        for (int x : w) { a.push_back(Al<stdb::memory::string>::at(x)); s.push_back(Al<std::string>::at(x)); }
        std::string g = fmt::format("{}", a), e = fmt::format("{}", s);
        MC_CHECK(g == e, "vector<memory::string> formats as %s, std::vector as %s", g.c_str(), e.c_str());
        mc::step();
    });
    auto num = [](int i) { return i; };
    auto txt = [](int i) { return i == 0 ? std::string() : std::string(size_t(i), 'x'); };
    auto len_of = [](const auto& s) { return int(s.size()); };
    iterators<int>(p, "int", num, num);
    iterators<short>(p, "short", [](int i) { return short(i); }, [](short c) { return int(c); });
    iterators<std::string>(p, "std::string", txt, len_of);
    iterators<stdb::memory::string>(p, "memory::string", [](int i) { return stdb::memory::string(size_t(i), 'x'); }, len_of);
    struct Wide { int v; int pad[20]; };
    iterators<Wide>(p, "84 byte class", [](int i) { return Wide{i, {}}; }, [](const Wide& w) { return w.v; });
    algorithms_long<int>(p, "int", num, num);
    algorithms_long<signed char>(p, "signed char", [](int i) { return (signed char)i; }, [](signed char c) { return int(c); });
    algorithms_long<std::string>(p, "std::string", txt, len_of);
    algorithms_long<stdb::memory::string>(p, "memory::string", [](int i) { return stdb::memory::string(size_t(i), 'x'); }, len_of);
    algorithms_long<Wide>(p, "84 byte class", [](int i) { return Wide{i, {}}; }, [](const Wide& w) { return w.v; });
    algorithms<int>(p, "int", num, num, th ? 9 : 7);
    algorithms<std::string>(p, "std::string", txt, len_of, th ? 8 : 7);
    algorithms<Wide>(p, "84 byte class", [](int i) { return Wide{i, {}}; }, [](const Wide& w) { return w.v; }, th ? 8 : 7);
}
int main(int c, char** v) { return mc::main_(c, v); }
