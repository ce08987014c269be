// The string spaces on arena strings; one translation unit per kind of resource.
#pragma once
#include "heap.hpp"
#include "astring.hpp"
#include "strspaces.hpp"

// strings of two arenas: what one takes from the other must not keep it tied to the other arena
template <class X>
static void two_arenas(const char* type, const char* prop = "C19") {
    using S = typename X::S;
    constexpr int kOps = 24;
    static const char* nm[kOps] = {"a = b", "a.assign(b)", "a.assign(b,1,n)", "a.append(b)", "a += b", "a.insert(0,b)", "a.insert(it,b.begin(),b.end())", "a.replace(0,1,b)", "a.replace(it,it,b.begin(),b.end())", "S(b)", "S(b,0,npos,A)",
                                   "a = std::move(b)", "S(std::move(b))", "a.swap(b)", "swap(b,a)", "a + b", "std::move(a) + b", "a + std::move(b)", "std::move(a) + std::move(b)", "b.substr(0)", "std::move(b).substr(0)", "b.clone()", "a = b.c_str()", "a.assign(b.begin(), b.end())"};
    mc::add(prop, std::string(type) + ": strings of two arenas, one of which goes away", 10 * 10, [=](uint64_t t) {
        X::al();
        auto sz = sizes<X>();
        size_t na = sz[t % 10], nb = sz[t / 10];
        int k = mc::choose(kOps), ka = mc::choose(4), kb = mc::choose(4);
        MC_NOTE("a has %zu, b has %zu characters: %s", na, nb, nm[k]);
        auto mk = [&](int id, size_t n, unsigned seed, int kind) {
            std::string m = text<char>(seed, n, false);
            auto s = std::make_unique<S>(m.data(), n, ares::get(id));
            if (kind == 1) s->reserve(n + 200);
            if (kind == 2) { s->push_back('x'); s->pop_back(); }
            return s;
        };
        auto* ra = ares::get(0);
        auto* rb = ares::get(1);
        std::unique_ptr<S> a = mk(0, na, 1, ka), b = mk(1, nb, 2, kb), ca, cb;
        if (ka == 3) ca.reset(new S(*a));
        if (kb == 3) cb.reset(new S(*b));
        std::string ma = text<char>(1, na, false), mb = text<char>(2, nb, false), mr;
        std::unique_ptr<S> r;
        const S& B = *b;
        bool throws = false, swapped = false, adopted = false;
        try {
            switch (k) {
                case 0: *a = B; ma = mb; break;
                case 1: a->assign(B); ma = mb; break;
                case 2: throws = nb < 1; a->assign(B, 1, 300); ma = mb.substr(1, 300); break;
                case 3: a->append(B); ma += mb; break;
                case 4: *a += B; ma += mb; break;
                case 5: a->insert(0, B); ma.insert(0, mb); break;
                case 6: a->insert(a->cbegin(), B.begin(), B.end()); ma.insert(0, mb); break;
                case 7: a->replace(0, 1, B); ma.replace(0, 1, mb); break;
                case 8: a->replace(a->begin(), a->end(), B.begin(), B.end()); ma = mb; break;
                case 9: r.reset(new S(B)); mr = mb; break;
                case 10: r.reset(new S(B, 0, S::npos, X::al())); mr = mb; break;
                case 11: *a = std::move(*b); ma = mb; adopted = true; b->assign("again"); mb = "again"; break;
                case 12: r.reset(new S(std::move(*b))); mr = mb; b->assign("again"); mb = "again"; break;
                case 13: a->swap(*b); ma.swap(mb); swapped = true; break;
                case 14: { using std::swap; swap(*b, *a); ma.swap(mb); swapped = true; break; }
                case 15: r.reset(new S(*a + B)); mr = ma + mb; break;
                case 16: r.reset(new S(std::move(*a) + B)); mr = ma + mb; *a = "again"; ma = "again"; break;
                case 17: r.reset(new S(static_cast<const S&>(*a) + std::move(*b))); mr = ma + mb; *b = "again"; mb = "again"; break;
                case 18: r.reset(new S(std::move(*a) + std::move(*b))); mr = ma + mb; *a = "again"; ma = "again"; *b = "again"; mb = "again"; break;
                case 19: r.reset(new S(B.substr(0))); mr = mb; break;
                case 20: r.reset(new S(std::move(*b).substr(0))); mr = mb; *b = "again"; mb = "again"; break;
                case 21: r.reset(new S(B.clone())); mr = mb; break;
                case 22: *a = B.c_str(); ma = mb; break;
                case 23: a->assign(B.begin(), B.end()); ma = mb; break;
            }
        } catch (const std::out_of_range&) {
            MC_CHECK(throws, "%s throws out_of_range", nm[k]);
        }
        mc::step();
        auto home = [&](const S& s, const char* who) -> std::pmr::memory_resource* {
            auto* res = s.get_allocator().resource();
            MC_CHECK(res == ra || res == rb, "%s: %s belongs to no arena", nm[k], who);
            return res;
        };
        World<X>::same(*a, ma, "a", nm[k]);
        World<X>::same(*b, mb, "b", nm[k]);
        if (r) World<X>::same(*r, mr, "the result", nm[k]);
        if (ca) World<X>::same(*ca, text<char>(1, na, false), "the copy of a", nm[k]);
        if (cb) World<X>::same(*cb, text<char>(2, nb, false), "the copy of b", nm[k]);
        if (!swapped && !adopted) MC_CHECK(home(*a, "a") == ra, "%s moved a to the other arena", nm[k]);
        if (!swapped) MC_CHECK(home(*b, "b") == rb, "%s moved b to the other arena", nm[k]);
        MC_CHECK(!(k == 10) || home(*r, "the result") == ra, "%s is not in the arena it was given", nm[k]);
        mc::state(mc::Hash().add(t).add(uint64_t(k)).add(uint64_t(ka * 4 + kb)));
        // one arena goes away with its strings; those of the other one must not notice
        int gone = mc::choose(2);
        auto* dead = gone ? rb : ra;
        for (auto* s : {&a, &b, &r, &ca, &cb}) if (*s && home(**s, "a string") == dead) s->reset();
        ares::drop(gone);
        auto use = [&](std::unique_ptr<S>& s, const std::string& m, const char* who) {
            if (!s) return;
            World<X>::same(*s, m, who, "the other arena was destroyed");
            s->append(300, 'q');
            World<X>::same(*s, m + std::string(300, 'q'), who, "appending after the other arena was destroyed");
            s->erase(0, m.size() / 2);
            World<X>::same(*s, (m + std::string(300, 'q')).substr(m.size() / 2), who, "erasing after the other arena was destroyed");
        };
        use(a, ma, "a");
        use(b, mb, "b");
        use(r, mr, "the result");
        if constexpr (X::ledger) {
            for (auto* s : {&a, &b, &r, &ca, &cb}) s->reset();
            if (!gone) ares::drop(1);
            heap::end();
        }
    });
}
template <int Mode>
static void spaces(const std::string& prop, const char* type) {
    using X = ArenaX<Mode>;
    bool T = mc::thorough();
#ifdef NDEBUG  // differs from the debug layout only in the assertions and the word-wise copy of short sources
    bool deep = T;
#else
    bool deep = Mode == 0 || T;
#endif
    auto& L = Lists<X>::get();
    if (prop == "C19") {
        auto init = [](World<X>& w) { w.check_kept = true; };
        histories<X>("C19", type, deep ? 1 : 0, L.full, sizes<X>(), {0, 1, 2, 3, 4, 5, 6}, init);
        histories<X>("C19", (std::string(type) + ", own parts as arguments").c_str(), T ? 1 : 0, L.alias, sizes<X>(), {0, 1, 2, 3, 4, 5, 6}, init);
        walk<X>("C19", type, 3 + (T ? 1 : 0), {1, X::small, X::medium + 1});
        long_ones<X>("C19", type, L.full, false, false, init);
        long_ones<X>("C19", (std::string(type) + ", own parts as arguments").c_str(), L.alias, false, true);
        growth<X>("C19", type, T ? 300000 : 40000);
        c13<X>(type, deep && Mode == 0, "C19");
        two_arenas<X>(type);
    }
    if (prop == "C15") c15<X>(type, false);
}
