// C13: up to three strings that copy, move, swap, clone and destroy each other while one of them is modified. Explicit
// exploration of the joint state (contents, capacities, who shares storage with whom).
#pragma once
template <class X>
struct Pool {
    using C = typename X::Char;
    using S = typename X::S;
    using M = typename X::M;
    static constexpr int N = 3;
    std::unique_ptr<S> s[N];
    M m[N];

    static bool inside(const S& x) {  // small form: characters inside the object
        auto* d = reinterpret_cast<const char*>(x.data());
        auto* o = reinterpret_cast<const char*>(&x);
        return d >= o && d < o + sizeof(S);
    }
    void check(const char* op) {
        for (int i = 0; i < N; ++i)
            if (s[i]) {
                static const char* who[] = {"string 0", "string 1", "string 2"};
                World<X>::same(*s[i], m[i], who[i], op);
            }
        if constexpr (X::ledger) {
            // every live allocation is the storage of some string, and every storage is live
            int distinct = 0;
            for (int i = 0; i < N; ++i) {
                if (!s[i]) continue;
                const S& x = *s[i];
                if (inside(x)) continue;
                MC_CHECK(heap::contains(x.data(), (x.size() + 1) * sizeof(C)), "string %d uses storage that is not allocated after %s", i, op);
                bool dup = false;
                for (int j = 0; j < i; ++j) dup |= s[j] && static_cast<const S&>(*s[j]).data() == x.data();
                if (!dup) ++distinct;
            }
            MC_CHECK(heap::nlive == distinct, "%d allocations are live for %d storages in use after %s", heap::nlive, distinct, op);
        }
    }
    uint64_t hash() const {
        mc::Hash h;
        for (int i = 0; i < N; ++i) {
            if (!s[i]) { h.add(77); continue; }
            const S& x = *s[i];
            h.bytes(m[i].data(), m[i].size() * sizeof(C)).add(x.capacity());
            int part = i;
            for (int j = i - 1; j >= 0; --j) if (s[j] && static_cast<const S&>(*s[j]).data() == x.data()) part = j;
            h.add(uint64_t(part));
        }
        return h.h;
    }
    M fresh(int kind) { return kind == 0 ? text<C>(1, 3) : kind == 1 ? text<C>(2, X::small + 9) : text<C>(3, X::medium + 3); }
};

struct ShareStop {};
template <class X>
static void share_step(Pool<X>& w) {
    using C = typename X::Char;
    using S = typename X::S;
    using M = typename X::M;
    constexpr int kPair = 15, kMut = 34;
    auto one = [&](int i, int k) {  // modifies string i
        S& s = *w.s[i];
        M& m = w.m[i];
        C c = C('0' + i);
        size_t n = m.size();
        static const char* nm[kMut] = {"s[0]=c", "at(n/2)=c", "front()=c", "back()=c", "*begin()=c", "*(end()-1)=c", "*rbegin()=c", "data()[0]=c", "push_back", "append(10)", "append(past medium)",
                                       "pop_back", "erase(1,1)", "erase(it)", "insert(0,c)", "insert(mid,small)", "replace same length", "replace growing", "replace shrinking", "resize(n-1)", "resize(n+1)", "clear",
                                       "reserve(size)", "reserve(cap+1)", "shrink_to_fit", "=c", "assign(short)", "assign(same length)", "erase()", "+={il}", "getline", ">>", "substr()&&", "reserve(0)"};
        MC_NOTE("string %d: %s", i, nm[k]);
        if (n == 0 && (k <= 7 || k == 11 || k == 13)) throw ShareStop();
        if (n > X::medium + 80 && (k == 9 || k == 10 || k == 15 || k == 17)) throw ShareStop();
        switch (k) {
            case 0: s[0] = c; m[0] = c; break;
            case 1: s.at(n / 2) = c; m[n / 2] = c; break;
            case 2: s.front() = c; m.front() = c; break;
            case 3: s.back() = c; m.back() = c; break;
            case 4: *s.begin() = c; m[0] = c; break;
            case 5: *(s.end() - 1) = c; m.back() = c; break;
            case 6: *s.rbegin() = c; m.back() = c; break;
            case 7:
                // known finding: non-const data() hands out storage that other strings use (the tests pin that it does)
                for (int j = 0; j < Pool<X>::N; ++j) if (j != i && w.s[j] && static_cast<const S&>(*w.s[j]).data() == static_cast<const S&>(s).data()) throw ShareStop();
                s.data()[0] = c; m[0] = c; break;
            case 8: s.push_back(c); m.push_back(c); break;
            case 9: s.append(10, c); m.append(10, c); break;
            case 10: { size_t k2 = X::medium + 4 > n ? X::medium + 4 - n : 1; s.append(k2, c); m.append(k2, c); break; }
            case 11: s.pop_back(); m.pop_back(); break;
            case 12: if (n < 2) throw ShareStop(); s.erase(1, 1); m.erase(1, 1); break;
            case 13: s.erase(s.begin() + n / 2); m.erase(n / 2, 1); break;
            case 14: s.insert(s.cbegin(), c); m.insert(m.begin(), c); break;
            case 15: s.insert(n / 2, X::small, c); m.insert(n / 2, X::small, c); break;
            case 16: { if (n < 2) throw ShareStop(); M t(2, c); s.replace(0, 2, t.data(), 2); m.replace(0, 2, t); break; }
            case 17: { M t(12, c); s.replace(0, 1, t.data(), 12); m.replace(0, 1, t); break; }
            case 18: { if (n < 3) throw ShareStop(); M t(1, c); s.replace(0, 3, t.data(), 1); m.replace(0, 3, t); break; }
            case 19: if (!n) throw ShareStop(); s.resize(n - 1); m.resize(n - 1); break;
            case 20: s.resize(n + 1, c); m.resize(n + 1, c); break;
            case 21: s.clear(); m.clear(); break;
            case 22: s.reserve(n); break;
            case 23: if (static_cast<const S&>(s).capacity() > X::medium + 300) throw ShareStop(); s.reserve(static_cast<const S&>(s).capacity() + 1); break;
            case 24: s.shrink_to_fit(); break;
            case 25: s = c; m = c; break;
            case 26: { M t(2, c); s.assign(t.data(), 2); m = t; break; }
            case 27: { M t(n, c); s.assign(t.data(), n); m = t; break; }
            case 28: s.erase(); m.erase(); break;
            case 29: s += {c, C('q')}; m += {c, C('q')}; break;
            case 30:
                if constexpr (std::is_same_v<C, char>) {
                    std::istringstream is(std::string("line ") + char(c) + "\nrest");
                    getline(is, s);
                    m = M("line ") + c;
                } else throw ShareStop();
                break;
            case 31:
                if constexpr (std::is_same_v<C, char>) {
                    std::istringstream is(std::string(" word") + char(c) + " rest");
                    is >> s;
                    m = M("word") + c;
                } else throw ShareStop();
                break;
            case 32: { if (n < 2) throw ShareStop(); S t = std::move(s).substr(1, n / 2); s = std::move(t); m = m.substr(1, n / 2); break; }
            case 33: s.reserve(); break;
        }
    };
    auto pair = [&](int i, int j, int k) {  // string j gets something of string i
        auto& a = w.s[i];
        auto& b = w.s[j];
        static const char* nm[kPair] = {"copy-construct", "copy-assign", "move-construct", "move-assign", "swap", "clone", "assign", "append", "insert(0)", "replace(0,1)", "substr", "S(s,0)", "std::swap", "const& + const&", "replace all with iterators"};
        MC_NOTE("string %d from string %d: %s", j, i, nm[k]);
        if ((k == 1 || k == 3 || k == 4 || k == 6 || k == 7 || k == 8 || k == 9 || k == 12 || k == 13 || k == 14) && !b) throw ShareStop();
        if ((k == 7 || k == 8 || k == 9 || k == 13) && w.m[i].size() + w.m[j].size() > 2 * X::medium + 40) throw ShareStop();
        if (k == 9 && w.m[j].empty()) throw ShareStop();
        switch (k) {
            case 0: b.reset(); b.reset(new S(static_cast<const S&>(*a))); w.m[j] = w.m[i]; break;
            case 1: *b = static_cast<const S&>(*a); w.m[j] = w.m[i]; break;
            case 2: b.reset(); b.reset(new S(std::move(*a))); w.m[j] = w.m[i]; a.reset(); break;
            case 3: *b = std::move(*a); w.m[j] = w.m[i]; World<X>::valid(*a, "moved-from string", "move assignment"); *a = C('m'); w.m[i] = M(1, C('m')); break;
            case 4: a->swap(*b); w.m[i].swap(w.m[j]); break;
            case 5: b.reset(); b.reset(new S(a->clone())); w.m[j] = w.m[i]; break;
            case 6: b->assign(static_cast<const S&>(*a)); w.m[j] = w.m[i]; break;
            case 7: b->append(static_cast<const S&>(*a)); w.m[j] += w.m[i]; break;
            case 8: b->insert(0, static_cast<const S&>(*a)); w.m[j].insert(0, w.m[i]); break;
            case 9: b->replace(0, 1, static_cast<const S&>(*a)); w.m[j].replace(0, 1, w.m[i]); break;
            case 10: b.reset(); b.reset(new S(static_cast<const S&>(*a).substr())); w.m[j] = w.m[i]; break;
            case 11: b.reset(); b.reset(new S(static_cast<const S&>(*a), 0, S::npos, X::al())); w.m[j] = w.m[i]; break;
            case 12: { using std::swap; swap(*a, *b); w.m[i].swap(w.m[j]); break; }
            case 13: { S t = static_cast<const S&>(*a) + static_cast<const S&>(*b); *b = std::move(t); w.m[j] = w.m[i] + w.m[j]; break; }
            case 14: b->replace(b->begin(), b->end(), static_cast<const S&>(*a).begin(), static_cast<const S&>(*a).end()); w.m[j] = w.m[i]; break;
        }
    };
    // which strings exist
    int live[3], nl = 0, free_slot = -1;
    for (int i = 0; i < 3; ++i) { if (w.s[i]) live[nl++] = i; else if (free_slot < 0) free_slot = i; }
    int kind = choose(nl ? 4 : 1);
    if (kind == 0 && nl) {  // pair operation
        int i = live[choose(nl)];
        // target: another live string, or the first free slot
        int cand[3], nc = 0;
        for (int q = 0; q < nl; ++q) if (live[q] != i) cand[nc++] = live[q];
        if (free_slot >= 0) cand[nc++] = free_slot;
        if (!nc) throw ShareStop();
        int j = cand[choose(nc)];
        pair(i, j, choose(kPair));
    } else if (kind == 1) {
        int i = live[choose(nl)];
        one(i, choose(kMut));
    } else if (kind == 2) {
        int i = live[choose(nl)];
        MC_NOTE("string %d destroyed", i);
        w.s[i].reset();
    } else {
        if (free_slot < 0) throw ShareStop();
        int k = choose(3);
        MC_NOTE("string %d created, kind %d", free_slot, k);
        M t = w.fresh(k);
        Src<C> src(t);
        w.s[free_slot] = World<X>::make(static_cast<const C*>(src.p), t.size());
        w.m[free_slot] = t;
    }
}
template <class X>
static void c13(const char* type, bool main_type, const char* prop = "C13") {
    using C = typename X::Char;
    using S = typename X::S;
    int depth = (main_type ? 3 : 2) + (mc::thorough() ? 1 : 0);
    std::string nm = std::string(type) + ": three strings, " + std::to_string(depth) + " operations";
    mc::add(prop, nm, 8 * 40, [depth](uint64_t t) {
        heap::begin();
        {
            Pool<X> w;
            // starting points: one string of each storage class, then two / three sharing or not
            size_t sz[] = {3, X::small + 9, X::medium + 3, X::medium + 3, X::medium + 3, X::medium + 3, X::medium + 1, 0};
            int start = int(t % 8);
            auto txt = text<C>(3, sz[start]);
            Src<C> src(txt);
            w.s[0] = World<X>::make(static_cast<const C*>(src.p), txt.size());
            w.m[0] = txt;
            MC_NOTE("string 0 has %zu characters", txt.size());
            if (start == 3 || start == 4 || start == 5) { w.s[1].reset(new S(static_cast<const S&>(*w.s[0]))); w.m[1] = txt; MC_NOTE("string 1 is a copy"); }
            if (start == 4) { w.s[2].reset(new S(static_cast<const S&>(*w.s[1]))); w.m[2] = txt; MC_NOTE("string 2 is a copy"); }
            if (start == 5) { w.s[0]->resize(X::small - 1); w.m[0].resize(X::small - 1); w.s[2].reset(new S(static_cast<const S&>(*w.s[0]))); w.m[2] = w.m[0]; }
            if (start == 6) { w.s[0]->reserve(X::medium + 200); }
            w.check("start");
            try {
                for (int d = 0; d < depth; ++d) {
                    share_step(w);
                    mc::step();
                    w.check("the operation");
                    if (d == 0 && depth > 1 && (w.hash() >> 20) % 40 != t / 8) break;  // the successors of that state belong to another task
                    if (mc::seen(w.hash(), depth - d)) break;
                }
            } catch (const ShareStop&) {
            }
        }
        finish();
    });
}
