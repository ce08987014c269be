// C17: stream extraction and insertion, conversions, hashing and formatting of strings, against std::basic_string.
#include "mc.hpp"
#include "string/string.hpp"
#include "string/arena_string.hpp"
#include "arena/arena.hpp"

#include <fmt/format.h>
#include <iomanip>
#include <memory>
#include <sstream>
#include <unordered_set>
#include <vector>

#ifdef NDEBUG
// The small-string initialiser of release builds reads whole words (string.hpp, initSmall): give every buffer whole words.
void* operator new(std::size_t n) { if (void* p = malloc((n + 7) & ~std::size_t(7))) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
#endif
using std::size_t;
namespace smem = stdb::memory;

// input buffer handing out its text in pieces of the given size
template <class C>
struct Chunks : std::basic_streambuf<C> {
    std::basic_string<C> t;
    size_t at = 0, piece;
    Chunks(std::basic_string<C> text, size_t piece) : t(std::move(text)), piece(piece) {}
    typename std::char_traits<C>::int_type underflow() override {
        if (at >= t.size()) return std::char_traits<C>::eof();
        size_t n = std::min(piece, t.size() - at);
        this->setg(&t[at], &t[at], &t[at] + n);
        at += n;
        return std::char_traits<C>::to_int_type(*this->gptr());
    }
    std::basic_string<C> rest() {
        std::basic_string<C> r(this->gptr(), this->egptr());
        return r + t.substr(std::min(at, t.size()));
    }
};
// output buffer that accepts only so many characters
template <class C>
struct Sink : std::basic_streambuf<C> {
    std::basic_string<C> got;
    size_t room;
    explicit Sink(size_t room) : room(room) {}
    typename std::char_traits<C>::int_type overflow(typename std::char_traits<C>::int_type c) override {
        if (got.size() >= room) return std::char_traits<C>::eof();
        got.push_back(std::char_traits<C>::to_char_type(c));
        return c;
    }
};
// a locale in which 'x' is a blank and '\t' is not
struct XBlank : std::ctype<char> {
    static const mask* make() {
        static mask t[table_size];
        std::copy(classic_table(), classic_table() + table_size, t);
        t['x'] = mask(t['x'] | space);
        t['\t'] = mask(t['\t'] & ~space);
        return t;
    }
    XBlank() : std::ctype<char>(make()) {}
};

template <class S> std::string show(const S& s) {
    std::string r = "\"";
    for (auto c : s) {
        if (c >= 32 && c < 127) r += char(c);
        else r += fmt::format("\\x{:02x}", static_cast<unsigned long>(std::make_unsigned_t<decltype(c)>(c)));
    }
    return r + "\"";
}
template <class C, class S> bool eq(const S& s, const std::basic_string<C>& m) {
    return s.size() == m.size() && std::char_traits<C>::compare(s.data(), m.data(), m.size()) == 0 && s.c_str()[s.size()] == C(0) && s.capacity() >= s.size();
}
inline uint64_t words(size_t n, size_t letters) { uint64_t r = 0, p = 1; for (size_t i = 0; i <= n; ++i, p *= letters) r += p; return r; }
template <class C> std::basic_string<C> word(uint64_t i, const std::vector<C>& al) {
    std::basic_string<C> s;
    size_t len = 0;
    uint64_t p = 1;
    while (i >= p) { i -= p; p *= al.size(); ++len; }
    for (size_t k = 0; k < len; ++k, i /= al.size()) s.push_back(al[i % al.size()]);
    return s;
}
template <class C> C filler(size_t i) {
    size_t v = i % 31;
    return v == 7 ? C(0) : v == 11 ? C(0xE9) : v == 13 && sizeof(C) > 1 ? C(0x4100) : C('a' + v % 26);
}

// Prior states of the string that is read into / converted: contents, capacity, sharing.
template <class C>
struct Prior {
    using S = smem::basic_string<C>;
    static constexpr int N = 9;
    std::unique_ptr<S> s, copy;
    std::basic_string<C> m;
    explicit Prior(int k) {
        static const size_t len[N] = {0, 5, 23 / sizeof(C), 23 / sizeof(C) + 1, 254 / sizeof(C), 254 / sizeof(C) + 1, 254 / sizeof(C) + 40, 3, 0};
        for (size_t i = 0; i < len[k]; ++i) m.push_back(filler<C>(i + size_t(k)));
        s.reset(new S(m.data(), m.size()));
        if (k == 6) copy.reset(new S(*s));
        if (k == 7) s->reserve(100 / sizeof(C));
        if (k == 8) { s->reserve(400 / sizeof(C)); copy.reset(new S(*s)); }
    }
    void check() { if (copy && !eq<C>(*copy, m)) mc::fail("reading into a string changed its copy"); }
};

template <class C>
struct Io {
    using S = smem::basic_string<C>;
    using M = std::basic_string<C>;
    using IS = std::basic_istream<C>;
    using OS = std::basic_ostream<C>;
    static constexpr std::ios_base::iostate states[] = {std::ios_base::goodbit, std::ios_base::eofbit, std::ios_base::failbit, std::ios_base::badbit};

    struct Read { bool line; int width; C delim; bool own_delim; };
    static std::vector<Read> reads() {
        return {{false, 0, C(0), false}, {false, 1, C(0), false}, {false, 3, C(0), false}, {true, 0, C('\n'), false}, {true, 0, C('a'), true}, {true, 0, C(0), true}, {true, 0, C(0xE9), true}, {true, 2, C(' '), true}};
    }
    template <class Str> static bool apply(IS& is, Str& s, const Read& r, bool& same) {
        bool threw = false;
        if (r.width || !r.line) is.width(r.width);
        try {
            IS* back;
            if (!r.line) back = &(is >> s);
            else if (r.own_delim) back = &getline(is, s, r.delim);
            else back = &getline(is, s);
            same = back == &is;
        } catch (const std::ios_base::failure&) { threw = true; same = true; }
        return threw;
    }
    static std::string name(const Read& r) {
        if (!r.line) return fmt::format(">> with width {}", r.width);
        return r.own_delim ? fmt::format("getline with delimiter {}", long(r.delim)) : std::string("getline");
    }
    static void both(IS& a, IS& b, Chunks<C>& ba, Chunks<C>& bb, S& s, M& m, const Read& r, const M& text) {
        bool sa, sb;
        bool ta = apply(a, s, r, sa), tb = apply(b, m, r, sb);
        mc::step();
        MC_NOTE("%s -> %s state %d", name(r).c_str(), show(m).c_str(), int(b.rdstate()));
        if (ta != tb) mc::fail("%s from %s: %s, for std::basic_string %s", name(r).c_str(), show(text).c_str(), ta ? "raised" : "did not raise", tb ? "raised" : "did not raise");
        if (!sa) mc::fail("%s does not return its stream", name(r).c_str());
        if (!eq<C>(s, m)) mc::fail("%s from %s read %s, expected %s", name(r).c_str(), show(text).c_str(), show(static_cast<const S&>(s)).c_str(), show(m).c_str());
        if (a.rdstate() != b.rdstate()) mc::fail("%s from %s left stream state %d, expected %d", name(r).c_str(), show(text).c_str(), int(a.rdstate()), int(b.rdstate()));
        if (a.width() != b.width()) mc::fail("%s left width %ld, expected %ld", name(r).c_str(), long(a.width()), long(b.width()));
        if (a.exceptions() != b.exceptions()) mc::fail("%s changed the exception mask", name(r).c_str());
        if (ba.rest() != bb.rest()) mc::fail("%s from %s left %s unread, expected %s", name(r).c_str(), show(text).c_str(), show(ba.rest()).c_str(), show(bb.rest()).c_str());
    }

    static void add(const char* type, const std::string& cfg) {
        bool T = mc::thorough();
        const std::vector<C> al{C('a'), C(' '), C('\n'), C(0), C(0xE9)};
        const std::vector<C> al3{C('a'), C(' '), C('\n')};
        auto nm = [&](const std::string& s) { return std::string(type) + cfg + ": " + s; };
        // short contents x two reads (any of 8 kinds) x skipws x chunking
        auto shorts = [&](const std::vector<C>& letters, size_t len, int depth, const char* what) {
            mc::add("C17", nm(fmt::format("reading, every text <= {} over {} letters, {} reads{}", len, letters.size(), depth, what)), words(len, letters.size()), [=](uint64_t t) {
                M text = word(t, letters);
                auto rs = reads();
                bool skip = mc::choose(2) == 0;
                size_t piece = mc::choose(2) ? 1000 : 2;
                Chunks<C> ba(text, piece), bb(text, piece);
                IS a(&ba), b(&bb);
                if (!skip) { a.unsetf(std::ios_base::skipws); b.unsetf(std::ios_base::skipws); }
                S s(1, C('q'));
                M m(1, C('q'));
                for (int d = 0; d < depth; ++d) {
                    both(a, b, ba, bb, s, m, rs[size_t(mc::choose(int(rs.size())))], text);
                    mc::state(mc::Hash().bytes(text.data(), text.size() * sizeof(C)).add(uint64_t(b.rdstate())).add(bb.rest().size()).add(m.size()).add(sizeof(C)));
                }
            });
        };
        shorts(al, sizeof(C) == 1 ? (T ? 6 : 5) : 4, 2, "");
        shorts(al3, sizeof(C) == 1 ? (T ? 7 : 5) : 4, T ? 4 : 3, "");
        // stream states and exception masks
        mc::add("C17", nm("reading in every stream state and exception mask"), words(3, al.size()), [=](uint64_t t) {
            M text = word(t, al);
            auto rs = reads();
            int prior = mc::choose(Prior<C>::N);
            unsigned st = unsigned(mc::choose(8)), mask = unsigned(mc::choose(8));
            Read r = rs[size_t(mc::choose(int(rs.size())))];
            std::ios_base::iostate state{}, exc{};
            for (unsigned i = 0; i < 3; ++i) {
                if (st >> i & 1) state |= states[i + 1];
                if (mask >> i & 1) exc |= states[i + 1];
            }
            if (state & exc) return;  // setting the mask would raise already
            Prior<C> p(prior);
            M m = p.m;
            Chunks<C> ba(text, 1), bb(text, 1);
            IS a(&ba), b(&bb);
            a.clear(state); b.clear(state);
            a.exceptions(exc); b.exceptions(exc);
            both(a, b, ba, bb, *p.s, m, r, text);
            p.check();
        });
        // every character between others, as a delimiter and repeated
        std::vector<C> every;
        for (unsigned v = 0; v < 256; ++v) every.push_back(C(v));
        if constexpr (sizeof(C) > 1) for (unsigned v : {0x100u + ' ', 0x10Au, 0x2028u, 0x3000u, 0xFFFEu, 0xFFFFu, 0x10000u + '\n', 0xFFFFFFFFu}) every.push_back(C(v));
        mc::add("C17", nm("reading every character"), every.size(), [=](uint64_t t) {
            C c = every[t];
            const M texts[] = {M{C('a'), c, C('b')}, M{c, c, C('a'), C('b'), c, C('b'), c}, M{c}, M{C(' '), c, C(' '), c, c, C('\n'), c}, M(20, C('a')) + M{c} + M(30, C('b')) + M{c, C('\n')} + M(300, C('d')) + c};
            M text = texts[mc::choose(5)];
            bool skip = mc::choose(2) == 0;
            size_t piece = mc::choose(2) ? 1000 : 1;
            Chunks<C> ba(text, piece), bb(text, piece);
            IS a(&ba), b(&bb);
            if (!skip) { a.unsetf(std::ios_base::skipws); b.unsetf(std::ios_base::skipws); }
            Prior<C> p(mc::choose(3));
            M m = p.m;
            const Read rs[] = {{false, 0, C(0), false}, {true, 0, C('\n'), false}, {true, 0, c, true}, {false, 2, C(0), false}};
            for (int d = 0; d < 3; ++d) both(a, b, ba, bb, *p.s, m, rs[mc::choose(4)], text);
            p.check();
        });
        // every line length
        size_t maxlen = T ? 3000 : 700;
        mc::add("C17", nm(fmt::format("reading words and lines of every length 0..{}", maxlen)), maxlen + 1, [=](uint64_t L) {
            M line;
            for (size_t i = 0; i < L; ++i) line.push_back(filler<C>(i) == C('\n') ? C('b') : filler<C>(i));
            int prior = mc::choose(Prior<C>::N);
            int end = mc::choose(3);
            int kind = mc::choose(3);
            int piece = mc::choose(3);
            int mask = L < 300 ? mc::choose(3) : 0;
            M text = line;
            if (end) text += C('\n');
            if (end == 2) text += M(3, C('z'));
            static const size_t pieces[] = {100000, 64, 7};
            Chunks<C> ba(text, pieces[piece]), bb(text, pieces[piece]);
            IS a(&ba), b(&bb);
            auto exc = mask == 0 ? std::ios_base::goodbit : mask == 1 ? std::ios_base::failbit : std::ios_base::eofbit;
            a.exceptions(exc); b.exceptions(exc);
            Prior<C> p(prior);
            M m = p.m;
            Read r{kind == 0, kind == 2 ? int(L / 2) + 1 : 0, C('\n'), false};
            both(a, b, ba, bb, *p.s, m, r, text);
            p.check();
            if (!a.eof() && !a.fail()) both(a, b, ba, bb, *p.s, m, r, text);
        });
        // writing
        auto writing = [&](const std::string& what, uint64_t n, std::function<M(uint64_t)> make) {
            mc::add("C17", nm("writing " + what), n, [=](uint64_t t) {
                M m = make(t);
                S s(m.data(), m.size());
                long w[] = {0, 1, 2, 3, 5, 8, -1, long(m.size()), long(m.size()) + 1, long(m.size()) + 7};
                long width = w[mc::choose(10)];
                int adj = mc::choose(4);
                C fill = mc::choose(2) ? C('*') : C(' ');
                unsigned st = unsigned(mc::choose(4));
                size_t rooms[] = {size_t(-1), 0, 1, m.size(), m.size() + 2};
                size_t room = rooms[st ? 0 : mc::choose(5)];
                Sink<C> ba(room), bb(room);
                OS a(&ba), b(&bb);
                for (OS* o : {&a, &b}) {
                    o->width(width);
                    o->fill(fill);
                    if (adj) o->setf(adj == 1 ? std::ios_base::left : adj == 2 ? std::ios_base::right : std::ios_base::internal, std::ios_base::adjustfield);
                    o->clear(states[st]);
                }
                OS& back = a << s;
                b << m;
                mc::step();
                if (&back != &a) mc::fail("<< does not return its stream");
                if (ba.got != bb.got) mc::fail("<< of %s with width %ld wrote %s, expected %s", show(m).c_str(), width, show(ba.got).c_str(), show(bb.got).c_str());
                if (a.rdstate() != b.rdstate() || a.width() != b.width()) mc::fail("<< of %s left state %d width %ld, expected %d, %ld", show(m).c_str(), int(a.rdstate()), long(a.width()), int(b.rdstate()), long(b.width()));
                if (!eq<C>(s, m)) mc::fail("<< changed the string");
            });
        };
        size_t wl = T ? 5 : 3;
        writing(fmt::format("every text <= {}", wl), words(wl, al.size()), [=](uint64_t t) { return word(t, al); });
        size_t ml = T ? 1000 : 300;
        writing(fmt::format("every length 0..{}", ml), ml + 1, [](uint64_t L) { M m; for (size_t i = 0; i < L; ++i) m.push_back(filler<C>(i)); return m; });
    }
    static void xblank() {
        if constexpr (sizeof(C) == 1) {
            const std::vector<C> letters{'a', 'x', '\t', ' '};
            mc::add("C17", "char: reading with a locale in which x is a blank and tab is not", words(5, 4), [=](uint64_t t) {
                M text = word(t, letters);
                auto rs = reads();
                Chunks<C> ba(text, 2), bb(text, 2);
                IS a(&ba), b(&bb);
                static std::locale loc(std::locale::classic(), new XBlank);
                a.imbue(loc); b.imbue(loc);
                S s;
                M m;
                for (int d = 0; d < 2; ++d) both(a, b, ba, bb, s, m, rs[size_t(mc::choose(3))], text);
            });
        }
    }
};

// ---- the same contents by different histories
template <class S, class C>
struct Histories {
    static constexpr int N = 12;
    static S make(int k, const std::basic_string<C>& m, const std::function<S(const C*, size_t)>& mk, std::vector<S>& keep) {
        size_t n = m.size();
        const std::basic_string<C> big(600, C('x'));
        switch (k) {
            case 0: return mk(m.data(), n);
            case 1: { S s = mk(nullptr, 0); for (C c : m) s.push_back(c); return s; }
            case 2: { S s = mk(nullptr, 0); s.reserve(n + 300); s.append(m.data(), n); return s; }
            case 3: { S s = mk(big.data(), big.size()); s.assign(m.data(), n); return s; }
            case 4: { S s = mk(big.data(), big.size()); s.replace(0, big.size(), m.data(), n); return s; }
            case 5: { S s = mk(m.data(), n); s.append(big.data(), big.size()); s.erase(n); return s; }
            case 6: { S s = mk(m.data(), n); keep.push_back(s); return s; }
            case 7: { S s = mk(m.data(), n); keep.push_back(s); S c(s); c.push_back(C('y')); c.resize(n); return c; }
            case 8: { S s = mk(m.data(), n); S c(std::move(s)); return c; }
            case 9: { S s = mk(big.data(), 30); s.append(m.data(), n); s.erase(0, 30); return s; }
            case 10: { S s = mk(m.data(), n / 2); S r = mk(m.data() + n / 2, n - n / 2); s += r; return s; }
            default: { S s = mk(m.data(), n); s.shrink_to_fit(); return s; }
        }
    }
};

template <class C> void hashing(const char* type) {
    using S = smem::basic_string<C>;
    using A = smem::arena_basic_string<C>;
    using M = std::basic_string<C>;
    bool T = mc::thorough();
    size_t maxlen = T ? 1200 : 400;
    const std::vector<C> al{C('a'), C(0), C(0xE9)};
    auto one = [=](const M& m) {
        size_t h0 = std::hash<S>{}(S(m.data(), m.size()));
        int k = mc::choose(Histories<S, C>::N);
        std::vector<S> keep;
        S s = Histories<S, C>::make(k, m, [](const C* p, size_t n) { return S(p, n); }, keep);
        mc::step();
        if (!eq<C>(s, m)) mc::fail("%s: history %d did not build the contents", type, k);
        if (std::hash<S>{}(s) != h0) mc::fail("%s: equal strings of length %zu hash differently after history %d", type, m.size(), k);
        for (S& x : keep) if (std::hash<S>{}(x) != h0) mc::fail("%s: a copy hashes differently", type);
        std::unordered_set<S> set;
        set.insert(std::move(s));
        if (!set.count(S(m.data(), m.size()))) mc::fail("%s: a string is not found in an unordered_set holding an equal one", type);
        // conversions
        S t(M(m.data(), m.size()));
        if (!eq<C>(t, m)) mc::fail("%s: construction from a std string of length %zu differs", type, m.size());
        for (size_t start : {size_t(0), size_t(40), size_t(300)}) {
            S u(start, C('v'));
            S twin(u);
            u = m;
            if (!eq<C>(u, m)) mc::fail("%s: assignment of a std string of length %zu differs", type, m.size());
            if (twin != S(start, C('v'))) mc::fail("%s: assignment changed a copy", type);
        }
        std::basic_string_view<C> v = t;
        if (v.data() != static_cast<const S&>(t).data() || v.size() != m.size() || M(v) != m) mc::fail("%s: conversion to a view differs", type);
        if (t.toStdString() != m || M(std::basic_string_view<C>(t)) != m) mc::fail("%s: toStdString differs", type);
        if (S(std::basic_string_view<C>(m)) != t) mc::fail("%s: construction from a view differs", type);
        if (!(t == m) || !(m == t) || (t != m) || t < m || t > m || m < t || !(t <= m) || !(m >= t)) mc::fail("%s: a string and its std copy do not compare equal", type);
        if constexpr (sizeof(C) == 1) {
            if (smem::toStdString(t) != m || smem::toStdString(S(t)) != m || std::to_string(t) != m) mc::fail("%s: toStdString/to_string of length %zu differs", type, m.size());
            if (smem::toStdString(m) != m || smem::toStdString(M(m)) != m) mc::fail("toStdString of a std string differs");
        }
    };
    auto arena_one = [=](const M& m) {
      if constexpr (sizeof(C) == 1) {  // the other widths of arena strings do not compile
        smem::Arena arena{smem::Arena::Options::GetDefaultOptions()};
        std::pmr::polymorphic_allocator<C> al(arena.get_memory_resource());
        A first(m.data(), m.size(), al);
        size_t h0 = std::hash<A>{}(first);
        int k = mc::choose(Histories<A, C>::N);
        std::vector<A> keep;
        A s = Histories<A, C>::make(k, m, [&](const C* p, size_t n) { return A(p, n, al); }, keep);
        mc::step();
        if (!eq<C>(s, m)) mc::fail("arena %s: history %d did not build the contents", type, k);
        if (std::hash<A>{}(s) != h0) mc::fail("arena %s: equal strings of length %zu hash differently after history %d", type, m.size(), k);
        std::basic_string_view<C> v = s;
        if (M(v) != m) mc::fail("arena %s: conversion to a view differs", type);
        if (M(std::basic_string_view<C>(s.toStdString())) != m) mc::fail("arena %s: toStdString() differs", type);
        if constexpr (sizeof(C) == 1)
            if (smem::toStdString(s) != m || smem::toStdString(A(s)) != m) mc::fail("arena %s: toStdString of length %zu differs", type, m.size());
      }
    };
    auto len = [](uint64_t L) { M m; for (size_t i = 0; i < L; ++i) m.push_back(filler<C>(i)); return m; };
    size_t wl = T ? 6 : 4;
    mc::add("C17", fmt::format("{}: hashing and conversions, every text <= {} by 12 histories", type, wl), words(wl, 3), [=](uint64_t t) { one(word(t, al)); });
    mc::add("C17", fmt::format("{}: hashing and conversions, every length 0..{} by 12 histories", type, maxlen), maxlen + 1, [=](uint64_t t) { one(len(t)); });
    if (sizeof(C) == 1) mc::add("C17", fmt::format("arena {}: hashing and conversions, every length 0..{} by 12 histories", type, maxlen), maxlen + 1, [=](uint64_t t) { arena_one(len(t)); });
}

static std::string formatted(const std::string& spec, const auto& v, auto... more) {
    try { return "=" + fmt::format(fmt::runtime(spec), v, more...); }
    catch (const fmt::format_error&) { return "rejected"; }
}
static void formatting() {
    static const char* fills[] = {"", "*", "-", "\xc3\xa9"};
    static const char* aligns[] = {"", "<", ">", "^"};
    static const char* widths[] = {"", "0", "1", "2", "3", "4", "7", "12", "300", "{}"};
    static const char* precs[] = {"", ".0", ".1", ".2", ".3", ".6", ".260", ".{}"};
    static const char* types[] = {"", "s", "d"};
    const std::vector<std::string> bits{"a", std::string(1, '\0'), "\xc3\xa9", "\"", "{}"};
    size_t wl = mc::thorough() ? 4 : 3;
    uint64_t nshort = words(wl, 5);
    std::vector<size_t> longs{22, 23, 24, 100, 254, 255, 256, 299, 300, 301, 600};
    mc::add("C17", fmt::format("formatting, every text of <= {} pieces and {} long ones, every specification of the grid", wl, longs.size()), nshort + longs.size(), [=](uint64_t t) {
        std::string m;
        if (t < nshort) {
            std::vector<size_t> ix{0, 1, 2, 3, 4};
            std::basic_string<char> w = word(t, std::vector<char>{0, 1, 2, 3, 4});
            for (char c : w) m += bits[size_t(c)];
        } else {
            for (size_t i = 0; i < longs[t - nshort]; ++i) m.push_back(char('a' + i % 26));
        }
        const char* al = aligns[mc::choose(4)];
        const char* w = widths[mc::choose(10)];
        const char* p = precs[mc::choose(8)];
        smem::string s(m.data(), m.size());
        smem::Arena arena{smem::Arena::Options::GetDefaultOptions()};
        smem::arena_string as(m.data(), m.size(), arena.get_memory_resource());
        for (const char* f : fills) {
            if (*f && !*al) continue;
            for (const char* ty : types) {
                std::string spec = std::string("[{:") + f + al + w + p + ty + "}]";
                mc::step();
                bool dw = strchr(w, '{'), dp = strchr(p, '{');
                std::string x, y, z;
                if (dw && dp) { x = formatted(spec, s, 6, 2); z = formatted(spec, as, 6, 2); y = formatted(spec, m, 6, 2); }
                else if (dw || dp) { x = formatted(spec, s, 4); z = formatted(spec, as, 4); y = formatted(spec, m, 4); }
                else { x = formatted(spec, s); z = formatted(spec, as); y = formatted(spec, m); }
                if (x != y) mc::fail("formatting %s with %s gives %s, for std::string %s", show(m).c_str(), spec.c_str(), show(x).c_str(), show(y).c_str());
                if (z != y) mc::fail("formatting an arena string %s with %s gives %s, for std::string %s", show(m).c_str(), spec.c_str(), show(z).c_str(), show(y).c_str());
            }
        }
        if (fmt::formatted_size("{}", s) != m.size() || fmt::format("{0}{0}", s) != m + m) mc::fail("formatting %s twice differs", show(m).c_str());
        char out[8];
        auto r = fmt::format_to_n(out, 8, "{}", s);
        if (r.size != m.size() || memcmp(out, m.data(), std::min<size_t>(8, m.size()))) mc::fail("format_to_n of %s differs", show(m).c_str());
    });
}
static void huge() {
    mc::add("C17", "writing strings beyond 2 GiB", mc::thorough() ? 4 : 1, [](uint64_t t) {
        static const uint64_t n[] = {1ull << 31, (1ull << 31) - 1, (1ull << 32) + 3, 3ull << 30};
        struct Count : std::streambuf {
            uint64_t got = 0, sum = 0;
            int overflow(int c) override { ++got; return c; }
            std::streamsize xsputn(const char* p, std::streamsize k) override { got += uint64_t(k); sum += uint64_t(uint8_t(p[k - 1])); return k; }
        } b;
        std::ostream o(&b);
        smem::string s(n[t], 'h');
        o << s;
        mc::step();
        if (b.got != n[t] || !o.good()) mc::fail("<< of %lu characters wrote %lu, state %d", n[t], b.got, int(o.rdstate()));
    });
}

void mc_spaces(const std::string&) {
    Io<char>::add("char", "");
    Io<char>::xblank();
    Io<wchar_t>::add("wchar_t", "");
    hashing<char>("char");
    hashing<wchar_t>("wchar_t");
    hashing<char16_t>("char16_t");
    hashing<char32_t>("char32_t");
    formatting();
    huge();
}
int main(int c, char** v) { return mc::main_(c, v); }
