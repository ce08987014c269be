// C14: search and comparison of basic_string against std::basic_string for every haystack, needle and position.
#pragma once
#include <string>
#include <string_view>
#include <memory>
#include <stdexcept>
#include "string/string.hpp"
#include "mc.hpp"

template <class C>
struct Search {
    using S = stdb::memory::basic_string<C>;
    using M = std::basic_string<C>;
    using V = std::basic_string_view<C>;
    static constexpr size_t np = M::npos;

    static M nth(uint64_t i, const std::vector<C>& al) {  // 0 = empty, then all words of length 1, 2, ...
        M r;
        size_t len = 0;
        uint64_t cnt = 1;
        while (i >= cnt) { i -= cnt; cnt *= al.size(); ++len; }
        for (size_t k = 0; k < len; ++k) { r.push_back(al[i % al.size()]); i /= al.size(); }
        return r;
    }
    static uint64_t words(size_t maxlen, size_t al) { uint64_t t = 0, c = 1; for (size_t i = 0; i <= maxlen; ++i) { t += c; c *= al; } return t; }
    static std::string show(const M& m) {
        std::string r = "\"";
        size_t n = m.size();
        for (size_t i = 0; i < n; ++i) {
            if (n > 60 && i == 20) { r += "...(" + std::to_string(n) + ")..."; i = n - 20; }
            char b[16];
            auto u = uint32_t(std::make_unsigned_t<C>(m[i]));
            if (u >= 32 && u < 127) { b[0] = char(u); b[1] = 0; } else snprintf(b, sizeof b, "\\x%x", u);
            r += b;
        }
        return r + "\"";
    }
    // a string with this contents; short ones are copied a whole word at a time in release builds, so there the words of the source are readable
    static S make(const M& m) {
#ifdef NDEBUG
        if (m.size() * sizeof(C) < 32) {
            alignas(8) C w[32 / sizeof(C)];
            std::copy(m.begin(), m.end(), w);
            return S(w, m.size());
        }
#endif
        return S(m.data(), m.size());
    }
    static int sgn(int x) { return x < 0 ? -1 : x > 0; }
    template <class O> static int ord(O o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

    // exact-size copies, so that reading beyond either end is seen
    struct Needle {
        M m;
        std::unique_ptr<C[]> buf, z;  // without and with terminator
        M zm;                         // what a C string of it denotes
        S s;
        explicit Needle(const M& x) : m(x), buf(new C[x.size() ? x.size() : 1]), zm(x.c_str()), s(make(x)) {
            std::copy(x.begin(), x.end(), buf.get());
            z.reset(new C[zm.size() + 1]);
            std::copy(zm.c_str(), zm.c_str() + zm.size() + 1, z.get());
        }
        const C* p() const { return buf.get() + (m.empty() ? 1 : 0); }  // for an empty needle: one past the end, never readable
    };
#define EQ(what, got, want)                                                                                                    \
    do {                                                                                                                       \
        auto g_ = (got);                                                                                                       \
        auto w_ = (want);                                                                                                      \
        mc::step();                                                                                                            \
        if (g_ != w_) mc::fail("%s: %s.%s with needle %s pos %zd n %zd returned %lld instead of %lld", type, show(h).c_str(), what, show(n.m).c_str(), ssize_t(pos), ssize_t(len), (long long)g_, (long long)w_); \
    } while (0)
    template <class F, class G>
    static void both(const char* type, const char* what, const M& h, const Needle& n, size_t pos, size_t len, F f, G g) {
        int a = 99, b = 99;
        try { a = sgn(f()); } catch (const std::out_of_range&) { a = 77; }
        try { b = sgn(g()); } catch (const std::out_of_range&) { b = 77; }
        EQ(what, a, b);
    }
    static inline size_t hint = 0;  // a position of interest in long haystacks
    static std::vector<size_t> positions(size_t hs, size_t ns) {
        std::vector<size_t> p;
        if (hs <= 16) for (size_t i = 0; i <= hs + 2; ++i) p.push_back(i);
        else for (size_t i : {size_t(0), size_t(1), hs - 14, hs - 9, hs - 4, hs - 3, hs - 2, hs - 1, hs, hs + 1}) p.push_back(i);
        if (hs > 16 && hint) for (size_t i : {hint - 1, hint, hint + 1}) p.push_back(i);
        for (size_t x : {np, np - 1, np - ns, np - ns + 1, np - hs, np / 2}) p.push_back(x);
        std::sort(p.begin(), p.end());
        p.erase(std::unique(p.begin(), p.end()), p.end());
        return p;
    }
    static void finds(const char* type, const S& s, const M& h, const Needle& n) {
        const M& m = n.m;
        const C* p = n.p();
        size_t k = m.size(), len = k;
        for (size_t pos : positions(h.size(), k)) {
#define FAM(F)                                                                 \
    EQ(#F "(ptr,pos,n)", s.F(p, pos, k), h.F(m.data(), pos, k));               \
    EQ(#F "(string,pos)", s.F(n.s, pos), h.F(m, pos));                         \
    EQ(#F "(cstr,pos)", s.F(n.z.get(), pos), h.F(n.zm.c_str(), pos));          \
    if (k == 1) EQ(#F "(char,pos)", s.F(m[0], pos), h.F(m[0], pos));
            FAM(find)
            FAM(rfind)
            FAM(find_first_of)
            FAM(find_last_of)
            FAM(find_first_not_of)
            FAM(find_last_not_of)
        }
        size_t pos = 0;
#define FAM0(F)                                                  \
    EQ(#F "(string)", s.F(n.s), h.F(m));                         \
    EQ(#F "(cstr)", s.F(n.z.get()), h.F(n.zm));                  \
    if (k == 1) EQ(#F "(char)", s.F(m[0]), h.F(m[0]));
        FAM0(find)
        FAM0(rfind)
        FAM0(find_first_of)
        FAM0(find_last_of)
        FAM0(find_first_not_of)
        FAM0(find_last_not_of)
        V v(p, k);
        EQ("contains(string)", s.contains(n.s), h.find(m) != np);
        EQ("contains(view)", s.contains(v), h.find(m) != np);
        EQ("contains(cstr)", s.contains(n.z.get()), h.find(n.zm) != np);
        EQ("starts_with(string)", s.starts_with(n.s), h.starts_with(m));
        EQ("starts_with(view)", s.starts_with(v), h.starts_with(m));
        EQ("starts_with(cstr)", s.starts_with(n.z.get()), h.starts_with(n.zm));
        EQ("ends_with(string)", s.ends_with(n.s), h.ends_with(m));
        EQ("ends_with(view)", s.ends_with(v), h.ends_with(m));
        EQ("ends_with(cstr)", s.ends_with(n.z.get()), h.ends_with(n.zm));
        if (k == 1) {
            EQ("contains(char)", s.contains(m[0]), h.find(m[0]) != np);
            EQ("starts_with(char)", s.starts_with(m[0]), h.starts_with(m[0]));
            EQ("ends_with(char)", s.ends_with(m[0]), h.ends_with(m[0]));
        }
    }
    static void relations(const char* type, const S& s, const M& h, const Needle& n) {
        const M& m = n.m;
        size_t pos = 0, len = m.size();
        V v(n.p(), len);
        const C* z = n.z.get();
        EQ("compare(string)", sgn(s.compare(n.s)), sgn(h.compare(m)));
        EQ("compare(cstr)", sgn(s.compare(z)), sgn(h.compare(n.zm)));
#define REL(op)                                                 \
    EQ("string " #op " string", s op n.s, h op m);              \
    EQ("string " #op " cstr", s op z, h op n.zm);               \
    EQ("cstr " #op " string", z op s, n.zm op h);               \
    EQ("string " #op " std::string", s op m, h op m);           \
    EQ("std::string " #op " string", m op s, m op h);           \
    EQ("string " #op " view", s op v, V(h) op v);               \
    EQ("view " #op " string", v op s, v op V(h));
        REL(==)
        REL(!=)
        REL(<)
        REL(>)
        REL(<=)
        REL(>=)
        EQ("string <=> string", ord(s <=> n.s), ord(h <=> m));
        EQ("string <=> std::string", ord(s <=> m), ord(h <=> m));
        EQ("std::string <=> string", ord(m <=> s), ord(m <=> h));
    }
    static void compares(const char* type, const S& s, const M& h, const Needle& n) {
        const M& m = n.m;
        std::vector<size_t> ps;  // every position, and two beyond the end
        for (size_t i = h.size() > 16 ? h.size() - 5 : 0; i <= h.size() + 1; ++i) ps.push_back(i);
        if (h.size() > 16) ps.push_back(0);
        ps.push_back(np);
        for (size_t pos : ps)
            for (size_t len : {size_t(0), size_t(1), size_t(2), h.size() - std::min(pos, h.size()), h.size(), h.size() + 1, np}) {
                if (pos > h.size() && len > 1 && len != np) continue;
                both(type, "compare(pos,n,string)", h, n, pos, len, [&] { return s.compare(pos, len, n.s); }, [&] { return h.compare(pos, len, m); });
                both(type, "compare(pos,n,cstr)", h, n, pos, len, [&] { return s.compare(pos, len, n.z.get()); }, [&] { return h.compare(pos, len, n.zm.c_str()); });
                both(type, "compare(pos,n,ptr,n2)", h, n, pos, len, [&] { return s.compare(pos, len, n.p(), m.size()); }, [&] { return h.compare(pos, len, m.data(), m.size()); });
                for (size_t p2 : {size_t(0), size_t(1), m.size(), m.size() + 1, np})
                    for (size_t n2 : {size_t(0), size_t(1), m.size(), np}) {
                        // out of range: once per pair of positions is enough
                        if ((p2 > m.size() || pos > h.size()) && (len != 1 || n2 != 1)) continue;
                        both(type, "compare(pos,n,string,pos2,n2)", h, n, pos, len, [&] { return s.compare(pos, len, n.s, p2, n2); }, [&] { return h.compare(pos, len, m, p2, n2); });
                    }
            }
    }

    static void add(const char* type, std::vector<C> al2, std::vector<C> al3, bool main_type) {
        bool T = mc::thorough();
        auto space = [&](const char* name, std::vector<C> al, size_t hl, size_t nl, int what, size_t pad, bool shared) {
            std::string nm = std::string(type) + ": " + name + ", haystack <= " + std::to_string(hl) + ", needle <= " + std::to_string(nl) + ", " + std::to_string(al.size()) + " letters" + (pad ? ", after " + std::to_string(pad) + " other characters" : "");
            uint64_t nw = words(nl, al.size());
            auto needles = std::make_shared<std::vector<std::unique_ptr<Needle>>>();
            mc::add("C14", nm, words(hl, al.size()), [=](uint64_t t) {
                if (needles->empty()) for (uint64_t i = 0; i < nw; ++i) needles->emplace_back(new Needle(nth(i, al)));
                M h = M(pad, al[0]) + nth(t, al);
                // first needle choice is by blocks of 64 so that a path is not too short
                uint64_t blocks = (nw + 63) / 64;
                uint64_t b = uint64_t(mc::choose(int(blocks)));
                S s = make(h);
                S other(s);
                const S& str = shared ? other : s;
                for (uint64_t i = b * 64; i < std::min(nw, b * 64 + 64); ++i) {
                    const Needle& n = *(*needles)[i];
                    if (what & 1) finds(type, str, h, n);
                    if (what & 2) relations(type, str, h, n);
                    if (what & 4) compares(type, str, h, n);
                    mc::state((t * 4096 + i) * 8 + uint64_t(what) + (uint64_t(pad) << 40) + (uint64_t(al.size()) << 48) + (uint64_t(sizeof(C)) << 52));
                }
                if (str.size() != h.size() || std::char_traits<C>::compare(str.data(), h.data(), h.size())) mc::fail("%s: searching changed the string", type);
            });
        };
        size_t d = T ? 2 : 0;
        space("find families", al2, (main_type ? 10 : 8) + d, (main_type ? 6 : 4) + (T ? 1 : 0), 1, 0, false);
        space("find families", al3, (main_type ? 5 : 4) + (T ? 1 : 0), 3, 1, 0, false);
        space("relations", al3, (main_type ? 5 : 4) + (T ? 1 : 0), (main_type ? 5 : 4), 2, 0, false);
        space("compare of parts", al3, 4 + (T ? 1 : 0), 3, 4, 0, false);
        for (size_t pad : {24 / sizeof(C), 250 / sizeof(C)})
            for (auto& al : {al2, al3}) {
                space("find families", al, al.size() == 2 ? 5 : 3, 3, 1, pad, true);
                space("compare of parts", al, 2, 2, 4, pad, true);
            }
        {   // long haystacks and long needles: periodic needles up to 5 with every mismatch position
            size_t maxn = T ? 8 : 6;
            std::string nm = std::string(type) + ": every needle <= " + std::to_string(maxn) + " in haystacks made of its own pieces";
            uint64_t nw = words(maxn, al2.size());
            mc::add("C14", nm, nw, [=](uint64_t t) {
                M m = nth(t, al2);
                Needle n(m);
                int cut1 = mc::choose(int(m.size() + 1));
                int cut2 = mc::choose(int(m.size() + 1));
                int rep = mc::choose(3);
                M h;
                for (int i = 0; i < rep; ++i) h += m.substr(0, size_t(cut1));
                h += m.substr(size_t(cut2));
                h += m;
                h += m.substr(0, size_t(cut1));
                S s = make(h);
                finds(type, s, h, n);
                relations(type, s, h, n);
            });
        }
        // every pair of characters, behind equal beginnings and before ends which compare the other way round
        auto cs = std::make_shared<std::vector<C>>();
        if (sizeof(C) == 1) for (int i = 0; i < 256; ++i) cs->push_back(C(i));
        else for (uint64_t x : {0ull, 1ull, 9ull, 0x41ull, 0x7full, 0x80ull, 0x81ull, 0xffull, 0x100ull, 0x101ull, 0x4100ull, 0x7fffull, 0x8000ull, 0xd800ull, 0xffffull, 0x10000ull, 0x10041ull, 0x10ffffull, 0x7fffffffull, 0x80000000ull, 0xffffffffull})
            if (sizeof(C) == 4 || x <= 0xffff) cs->push_back(C(x));
        mc::add("C14", std::string(type) + ": every pair of characters compared behind equal beginnings", cs->size(), [=](uint64_t t) {
            hint = 0;
            static const size_t lens[] = {0, 1, 9, 23, 64, 300};
            size_t pre = lens[mc::choose(main_type && !mc::thorough() ? 3 : 6)];
            bool tail = mc::choose(2) != 0;
            C a = (*cs)[t];
            M p(pre, C('p'));
            M h = p + a + (tail ? M(1, C(1)) : M());
            S s = make(h);
            for (C b : *cs) {
                Needle n(p + b + (tail ? M(1, C(2)) : M()));
                relations(type, s, h, n);
                if (pre == (tail ? 1 : 0)) finds(type, s, h, n);
                if (pre == 9) compares(type, s, h, n);
            }
            mc::state(mc::Hash().add(t).add(pre).add(tail));
        });
        // needles of every length, at several places, and haystacks which miss them by one character
        mc::add("C14", std::string(type) + ": needles of every length in long haystacks", T ? 700 : main_type ? 330 : 90, [=](uint64_t t) {
            size_t k = size_t(t) + 1;
            int what = mc::choose(4), where = mc::choose(5), miss = mc::choose(5);
            M m;
            for (size_t i = 0; i < k; ++i) m += what == 0 ? C('A' + (i * 7 + i / 23) % 23) : what == 1 ? C('a') : what == 2 ? C(i + 1 == k ? 'b' : 'a') : C(i == 0 ? 'b' : 'a');
            M x = m;
            if (miss) x[(size_t[]){0, k - 1, k / 2, k > 1 ? size_t(1) : 0}[miss - 1]] = C('#');
            size_t at = (size_t[]){0, 1, 8, k, 300}[where];
            M pre;
            while (pre.size() < at) pre += what == 1 ? M(1, C('a')) : m.substr(0, k - 1) + C('!');  // beginnings of it
            pre.resize(at);
            M h = pre + x + m.substr(0, k / 2) + M(where % 2, C('~'));
            hint = at;
            Needle n(m);
            S s = make(h);
            finds(type, s, h, n);
            relations(type, s, h, n);
            hint = 0;
            mc::state(mc::Hash().add(t).add(uint64_t(what)).add(uint64_t(where)).add(uint64_t(miss)));
        });
        // sets of every size, one character in or out of the set at every place
        mc::add("C14", std::string(type) + ": sets of every size", 72 + (sizeof(C) == 1 ? 4 : 0), [=](uint64_t t) {
            size_t k = t < 72 ? size_t(t) : (size_t[]){128, 200, 254, 255}[t - 72];
            int which = mc::choose(3);
            bool out = mc::choose(2) != 0;
            M set;
            for (size_t i = 0; i < k; ++i) set += C((i * (k > 127 ? 1 : 5) + 0x30) % 256);  // 51 steps before it wraps around
            if (sizeof(C) > 1) for (size_t i = 0; i < k; ++i) set[i] = C(0x30 + i * 5);
            Needle n(set);
            C in = k ? set[(size_t[]){0, k / 2, k - 1}[which]] : C('x'), no = 0;
            if (sizeof(C) > 1) no = C(0x1000);
            else { int v = 0; while (v < 256 && set.find(C(v)) != np) ++v; no = C(v); }
            for (size_t len : {1, 2, 7, 16, 17, 33, 64, 300})
                for (size_t i = 0; i < len; i += len == 300 ? 13 : 1) {
                    M h(len, out ? in : no);
                    h[i] = out ? no : in;
                    S s = make(h);
                    hint = i;
                    finds(type, s, h, n);
                }
            hint = 0;
            mc::state(mc::Hash().add(t).add(uint64_t(which)).add(out));
        });
    }
};
