// C12, C13 (isolation and storage), C15, C16: bounded exhaustive operation histories of basic_string against
// std::basic_string, for every character width, in debug (heap only) and release (small-string) storage modes.
#pragma once
#include "strlib.hpp"
using namespace sl;
using mc::choose;

template <class X>
struct Lists {
    std::vector<Op<X>> all = all_ops<X>(), ctor = ctor_ops<X>(), alias = alias_ops<X>(), big = impossible_ops<X>();
    std::vector<Op<X>> shape, full;
    Lists() {
        for (auto& o : all) if (o.flags & SHAPE) shape.push_back(o);
        full = all;
        for (auto& o : ctor) full.push_back(o);
    }
    static const Lists& get() { static Lists l; return l; }
};

template <class X>
static void apply(World<X>& w, const Op<X>& o) {
    w.opname = o.name;
    MC_NOTE("%s", o.name);
    o.f(w);
    if (!w.no_more) w.check(o.name);
    w.depth++;
}
inline void finish() {
    heap::check_all();
    if (heap::track) heap::end();
    else heap::forget();
}

// start state x shaping operations x every operation
template <class X>
static void histories(const char* prop, const char* type, int shaping, const std::vector<Op<X>>& last, std::vector<size_t> sz, std::vector<int> kinds,
                      std::function<void(World<X>&)> init = {}) {
    std::string nm = std::string(type) + ": start states x " + std::to_string(shaping) + " shaping operations x every operation";
    size_t ns = sz.size(), nk = kinds.size(), nsh = Lists<X>::get().shape.size() + 1;
    mc::add(prop, nm, ns * nk * (shaping ? nsh : 1), [=, &last](uint64_t t) {
        heap::begin();
        {
            World<X> w;
            if (init) init(w);
            bool f = w.faults;
            w.faults = false;
            auto& L = Lists<X>::get();
            build(w, sz[t % ns], kinds[t / ns % nk]);
            w.check("construction");
            size_t first = t / ns / nk;
            bool pruned = false;
            for (int d = 0; d < shaping && !pruned && !w.no_more; ++d) {
                size_t k = d == 0 ? first : size_t(choose(int(nsh)));
                if (k == 0) continue;
                apply(w, L.shape[k - 1]);
                if (mc::seen(w.hash(), shaping - d)) pruned = true;
            }
            if (!pruned && !w.no_more) {
                w.faults = f;
                size_t k = size_t(choose(int(last.size())));
                apply(w, last[k]);
                mc::state(w.hash() + k);
            }
        }
        finish();
    });
}
// longer histories over a small alphabet, explicit-state
template <class X>
static void walk(const char* prop, const char* type, int depth, std::vector<size_t> sz, std::function<void(World<X>&)> init = {}) {
    mc::add(prop, std::string(type) + ": histories of " + std::to_string(depth) + " operations", sz.size() * 6, [=](uint64_t t) {
        heap::begin();
        [&] {
            World<X> w;
            if (init) init(w);
            auto& L = Lists<X>::get();
            using C = typename X::Char;
            build(w, sz[t % sz.size()], int(t / sz.size()));
            w.check("construction");
            for (int d = 0; d < depth; ++d) {
                static const char* names[] = {"push_back(c)", "copy kept", "clear", "shrink_to_fit", "s[i]=c", "pop_back", "drop kept", "+=c"};
                int k = choose(14);
                auto named = [&](const char* n) { for (auto& o : L.all) if (!strcmp(o.name, n)) return &o; return static_cast<const Op<X>*>(nullptr); };
                if (k < 8) {
                    auto* o = named(names[k]);
                    if (!strcmp(o->name, "pop_back") && w.m.empty()) return;
                    apply(w, *o);
                } else {
                    int flags = 0;
                    constexpr int FL = 0;
                    (void)flags;
                    switch (k) {
                        case 8: { w.opname = "append(medium)"; auto x = text<C>(w.b(), X::medium); RET(s.append(x.data(), x.size())); break; }
                        case 9: { w.opname = "insert(1,small)"; auto x = text<C>(w.b(), X::small); if (w.m.empty()) return; RET(s.insert(1, x.data(), x.size())); break; }
                        case 10: { w.opname = "erase(1,half)"; if (w.m.empty()) return; size_t h = w.m.size() / 2; RET(s.erase(1, h)); break; }
                        case 11: { w.opname = "replace(1,2,small)"; auto x = text<C>(w.b(), X::small - 1); if (w.m.empty()) return; RET(s.replace(1, 2, x.data(), x.size())); break; }
                        case 12: { w.opname = "resize(small+1)"; BOTH(s.resize(X::small + 1, C('r'))); break; }
                        case 13: { w.opname = "reserve(medium+1)"; BOTH(s.reserve(X::medium + 1)); break; }
                    }
                    MC_NOTE("%s", w.opname.c_str());
                    w.check(w.opname.c_str());
                    w.depth++;
                }
                if (mc::seen(w.hash(), depth - d)) break;
            }
        }();
        finish();
    });
}

// every length, and long strings
template <class X>
static void long_ones(const char* prop, const char* type, const std::vector<Op<X>>& last, bool most, bool few, std::function<void(World<X>&)> init = {}) {
    bool T = mc::thorough();
    std::vector<size_t> every, big{511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097};
    for (size_t n = 3; n <= (few ? 60 : most ? 300 : 130) * (T ? 2u : 1u); ++n) every.push_back(n);
    if (most || T) for (size_t n : {2047, 2048, 8191, 8192, 16384, 65535, 65536}) big.push_back(n);
    histories<X>(prop, (std::string(type) + ", every length").c_str(), 0, last, every, most || T ? std::vector<int>{0, 2, 3} : std::vector<int>{0}, init);
    if (most || T) histories<X>(prop, (std::string(type) + ", very long").c_str(), 0, last, T ? std::vector<size_t>{131071, 131072, 262145, 1048576} : few ? std::vector<size_t>{131073} : !strcmp(prop, "C12") ? std::vector<size_t>{131072, 524289} : std::vector<size_t>{262145}, T ? std::vector<int>{0, 3} : std::vector<int>{0}, [init](World<X>& w) { if (init) init(w); w.large = true; });
    histories<X>(prop, (std::string(type) + ", long").c_str(), 0, last, big, T ? std::vector<int>{0, 1, 2, 3, 6} : std::vector<int>{0, 3}, [init](World<X>& w) { if (init) init(w); w.large = true; });
}
// growth by appending
template <class X>
static void growth(const char* prop, const char* type, size_t limit) {
    using C = typename X::Char;
    using M = typename X::M;
    mc::add(prop, std::string(type) + ": growth to " + std::to_string(limit) + " characters", 6, [=](uint64_t t) {
        heap::begin();
        {
            World<X> w;
            M m = text<C>(unsigned(t), limit);
            size_t step = (size_t[]){1, 1, 3, 29, 300, 5000}[t], cap = 0, i = 0;
            while (i < limit) {
                size_t k = std::min(step, limit - i);
                if (t == 0) w.s->push_back(m[i]);
                else if (t == 1) *w.s += m[i];
                else w.s->append(m.data() + i, k);
                i += k;
                if (w.s->capacity() == cap && i % 4096 > step && i != limit) continue;
                cap = w.s->capacity();
                mc::step();
                World<X>::same(*w.s, m.substr(0, i), "the string", "appending");
                mc::state(mc::Hash().add(t).add(cap));
            }
        }
        finish();
    });
}
template <class X>
static void c12(const char* type, bool main_type) {
    auto& L = Lists<X>::get();
    bool T = mc::thorough();
    histories<X>("C12", type, main_type || T ? 1 : 0, L.full, sizes<X>(), {0, 1, 2, 3, 4, 5, 6});
    walk<X>("C12", type, (main_type ? 4 : 3) + (T ? 1 : 0), {1, X::small, X::medium + 1});
    long_ones<X>("C12", type, L.full, main_type, false);
    growth<X>("C12", type, T ? 300000 : 40000);
    if (T && main_type) histories<X>("C12", type, 2, L.full, {1, X::small, X::medium, X::medium + 1}, {0, 2, 3, 6});
}
template <class X>
static void c16(const char* type, bool main_type) {
    auto& L = Lists<X>::get();
    bool T = mc::thorough();
    long_ones<X>("C16", type, L.alias, main_type, false);
    histories<X>("C16", type, (main_type ? 1 : 0) + (T ? 1 : 0), L.alias, sizes<X>(), {0, 1, 2, 3, 4, 5, 6});
}
template <class X>
static void c15(const char* type, bool main_type, const char* prop = "C15") {
    auto& L = Lists<X>::get();
    auto init = [](World<X>& w) { w.faults = true; w.check_contents = false; };
    auto* fl = new std::vector<Op<X>>(L.full);
    for (auto& o : L.alias) fl->push_back(o);
    bool T = mc::thorough();
    histories<X>(prop, type, T ? 1 : 0, *fl, sizes<X>(), {0, 1, 2, 3, 4, 5, 6}, init);
    long_ones<X>(prop, type, *fl, false, true, init);
    std::string nm = std::string(type) + ": lengths that cannot exist";
    mc::add(prop, nm, sizes<X>().size() * kKinds, [](uint64_t t) {
        heap::begin();
        {
            World<X> w;
            auto sz = sizes<X>();
            build(w, sz[t % sz.size()], int(t / sz.size()));
            auto& L = Lists<X>::get();
            auto& o = L.big[size_t(choose(int(L.big.size())))];
            auto before = w.m;
            w.opname = o.name;
            MC_NOTE("%s", o.name);
            o.f(w);
            World<X>::valid(*w.s, "the string", o.name);
            World<X>::touch(*w.s);
            if (o.flags & STRONG) World<X>::same(*w.s, before, "the string (must be unchanged)", o.name);
            for (auto& q : w.kept) World<X>::same(*q.first, q.second, "another string", o.name);
            auto m = text<typename X::Char>(9, 2 * X::small + 3);
            w.s->assign(m.data(), m.size());
            World<X>::same(*w.s, m, "the string reused", "assign");
            mc::state(t * 31 + uint64_t(o.name[0]));
        }
        finish();
    });
    (void)main_type;
}

#include "str_share.hpp"


template <class X>
inline void string_spaces(const std::string& prop, const char* type, bool main_type) {
    if (prop == "C12") c12<X>(type, main_type);
    else if (prop == "C16") c16<X>(type, main_type);
    else if (prop == "C15") c15<X>(type, main_type);
    else if (prop == "C13") c13<X>(type, main_type);
}
