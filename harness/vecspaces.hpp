// Spaces of the vector checks, instantiated once per element type.
#pragma once
#include <algorithm>
#include <functional>
#include "veclib.hpp"

namespace vec {
template <class T>
void finish(World<T>& w) {
    // destroy through the destructor and see what is left
    (void)w;
}
template <class T>
struct Run {
    // f(world), then everything is destroyed and the ledgers must be empty
    template <class F>
    static void path(F f) {
        el::begin();
        heap::begin();
        std::string last;
        {
            World<T> w;
            f(w);
            last = w.what;
        }
        if (chk_life || faults) {
            MC_CHECK(el::live == 0, "%s; after the vectors are gone %ld elements are alive", last.c_str(), long(el::live));
            heap::end("after the vectors were destroyed");
        } else heap::forget();
    }
    static bool trivial_history() { return false; }

    // every operation with all its parameters from every size and slack
    static void single(const char* prop, int maxn) {
        static const int slacks[] = {0, 1, 2, 3, 8};
        mc::add(prop, std::string("one operation from every state, ") + el::name<T>, uint64_t(N_OPS) * uint64_t(maxn + 1) * 5, [maxn](uint64_t t) {
            int o = int(t % N_OPS), s = int(t / N_OPS % uint64_t(maxn + 1)), k = slacks[t / N_OPS / uint64_t(maxn + 1)];
            path([&](World<T>& w) {
                w.build(0, s, k);
                if (o == SWAP || o == COPY_ASSIGN || o == MOVE_ASSIGN) { int s1 = choose(6), k1 = (int[]){0, 1, 4}[choose(3)]; w.build(1, s1, k1); }
                if (!w.op(o)) return;
                w.verify();
                // the result has to be usable
                w.full = false;
                int nx[] = {EMPLACE_BACK, EMPLACE_IT, ERASE_IT, RESIZE, SHRINK, COPY_CTOR};
                if (w.op(nx[choose(6)])) w.verify();
            });
        });
    }
    // every operation on vectors of many elements
    static void large(const char* prop, bool more) {
        static const std::vector<int> sizes = [] {
            std::vector<int> r;
            for (int n = mc::thorough() ? 6 : 8; n <= 40; n += mc::thorough() ? 1 : n < 18 ? 1 : 5) r.push_back(n);
            for (int n : {31, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}) r.push_back(n);
            for (int n : {511, 512, 1000, 1024, 4097}) r.push_back(n);
            return r;
        }();
        size_t ns = sizes.size() - (more ? 0 : 5);
        mc::add(prop, std::string("one operation on many elements, ") + el::name<T>, uint64_t(N_OPS) * ns * 3, [ns](uint64_t t) {
            int o = int(t % N_OPS), s = sizes[t / N_OPS % ns], k = (int[]){0, 1, 34}[t / N_OPS / ns];
            path([&](World<T>& w) {
                w.big = true;
                w.full = false;
                w.build(0, s, k);
                if (o == SWAP || o == COPY_ASSIGN || o == MOVE_ASSIGN || o == COPY_CTOR) { int s1 = (int[]){0, s / 2, s - 1, s, s + 1, s + 20}[choose(6)], k1 = (int[]){0, 1}[choose(2)]; w.build(1, s1, k1); }
                if (!w.op(o)) return;
                w.verify();
                int nx[] = {EMPLACE_BACK, EMPLACE_IT, SHRINK};
                w.big = false;
                if (w.op(nx[choose(3)])) w.verify();
            });
        });
    }
    // all histories of depth d over a reduced choice of parameters
    static void histories(const char* prop, int d, bool wide) {
        static const int small[] = {EMPLACE_BACK, POP, EMPLACE_IT, ERASE_IT, INS_N, RESIZE, SHRINK, COPY_ASSIGN, MOVE_ASSIGN, SWAP, CLEAR, INS_RANGE, PUSH_RVAL, ERASE_IF, RESERVE, ASSIGN_N};
        int nops = wide ? int(N_OPS) : 16;
        mc::add(prop, std::string("histories of ") + std::to_string(d) + (wide ? " over all operations, " : " operations, ") + el::name<T>, uint64_t(nops) * 4 * uint64_t(nops), [d, wide, nops](uint64_t t) {
            int first = int(t % uint64_t(nops)), start = int(t / uint64_t(nops) % 4), second = int(t / uint64_t(nops) / 4);
            path([&](World<T>& w) {
                w.full = false;
                if (start >= 1) w.build(0, start == 1 ? 2 : 3, start == 3 ? 1 : 0);
                if (start >= 2) w.build(1, 2, start == 2 ? 2 : 0);
                for (int k = 0; k < d; ++k) {
                    int i = k == 0 ? first : k == 1 ? second : choose(nops);
                    if (!w.op(wide ? i : small[i])) return;
                    w.verify();
                    mc::Hash h;
                    for (int j = 0; j < 2; ++j) { h.add(w.v[j].capacity()); for (int x : w.m[j]) h.add(uint64_t(x)); h.add(77); }
                    h.add(uint64_t(w.fresh_));
                    if (k > 1 && k + 1 < d && mc::seen(h.h, d - k)) return;
                }
            });
        });
    }
    // elements which are copied when they have to make room can not be supported when those copies fail
    static int any_fault(int n) { return el::movable<T> ? choose(2 * n) : 2 * choose(n); }
    // C23: every failing allocation and element construction in every operation
    static void failing(const char* prop, int maxn) {
        static const int slacks[] = {0, 1, 3, 8};
        static const int ops[] = {PUSH_CREF, PUSH_RVAL, EMPLACE_BACK, INS_CREF, INS_RVAL, INS_N, INS_RANGE, INS_LIST, EMPLACE_IT, EMPLACE_IDX, RESIZE, RESIZE_VAL, RESERVE, SHRINK,
                                  ASSIGN_N, ASSIGN_RANGE, ASSIGN_LIST, COPY_ASSIGN, COPY_CTOR, MAKE, FILL, WBUF};
        constexpr uint64_t n = sizeof ops / sizeof *ops;
        mc::add(prop, std::string("every failure in one operation, ") + el::name<T>, n * uint64_t(maxn + 1) * 4, [maxn](uint64_t t) {
            int o = ops[t % n], s = int(t / n % uint64_t(maxn + 1)), k = slacks[t / n / uint64_t(maxn + 1)];
            path([&](World<T>& w) {
                w.build(0, s, k);
                if (o == COPY_ASSIGN) { int s1 = choose(6), k1 = (int[]){0, 4}[choose(2)]; w.build(1, s1, k1); }
                w.fault = any_fault(8);
                if (!w.op(o)) return;
                if (!w.hit) return;  // nothing failed: covered by the fault-free checks
                w.verify();
                w.fault = -1;
                w.full = false;
                static const int nx[] = {EMPLACE_BACK, EMPLACE_IT, ERASE_IT, CLEAR, SHRINK, COPY_CTOR};
                if (w.op(nx[choose(6)])) w.verify();
            });
        });
        mc::add(prop, std::string("every failure in one operation on many elements, ") + el::name<T>, n * 5 * 3, [](uint64_t t) {
            int o = ops[t % n], s = (int[]){9, 16, 17, 33, 65}[t / n % 5], k = (int[]){0, 1, 34}[t / n / 5];
            path([&](World<T>& w) {
                w.big = true;
                w.full = false;
                w.build(0, s, k);
                if (o == COPY_ASSIGN) { int s1 = (int[]){1, s - 1, s + 20}[choose(3)]; w.build(1, s1, 0); }
                int at = choose(el::movable<T> ? 11 : 2);
                w.fault = at < 2 ? 2 * at : 2 * (int[]){0, 1, 2, 15, 16, s / 2, s - 1, s, 2 * s}[at - 2] + 1;
                if (!w.op(o)) return;
                if (!w.hit) return;
                w.verify();
                w.fault = -1;
                w.big = false;
                static const int nx[] = {EMPLACE_BACK, EMPLACE_IT, CLEAR};
                if (w.op(nx[choose(3)])) w.verify();
            });
        });
        mc::add(prop, std::string("histories of 3 operations with one failure, ") + el::name<T>, n * n, [](uint64_t t) {
            path([&](World<T>& w) {
                w.full = false;
                w.build(0, 2, 0);
                w.build(1, 3, 0);
                if (!w.op(ops[t % n])) return;
                w.verify();
                w.fault = any_fault(4);
                if (!w.op(ops[t / n])) return;
                if (!w.hit) return;
                w.verify();
                w.fault = -1;
                static const int nx[] = {EMPLACE_BACK, EMPLACE_IT, ERASE_IF, RESIZE, SHRINK, COPY_ASSIGN, MOVE_ASSIGN, SWAP};
                if (w.op(nx[choose(8)])) w.verify();
            });
        });
        // erasing, with a predicate or comparison which throws for one of the elements
        mc::add(prop, std::string("erasing with a predicate or comparison which throws, ") + el::name<T>, 5 * 7 * 2, [](uint64_t t) {
            path([&](World<T>& w) {
                static const char* names[] = {"erase_if", "std::erase_if", "erase(value)", "std::erase(value)", "erase(own element)"};
                int how = int(t % 5), s = int(t / 5 % 7), mask = choose(1 << s), at = choose(s + 1);
                if (how >= 2 && !requires(const T& x) { x.id; }) return;
                if (how == 4 && (s == 0 || !el::copyable<T>)) return;
                auto& x = w.v[0];
                x.reserve(size_t(s) + size_t(t / 35));
                // erasing by value: two values only
                for (int i = 0; i < s; ++i) { int val = how < 2 ? i + 1 : mask >> i & 1 ? 3 : 4; x.emplace_back(Tr<T>::arg(val)); w.m[0].push_back(Tr<T>::norm(val)); }
                w.note("%s, victims %d (bit mask), throwing for element %d", names[how], mask, at);
                int k = 0;
                auto pred = [&](const T& e) {
                    el::value(e);
                    if (k == at) throw el::Thrown();
                    return bool(mask >> k++ & 1);
                };
                bool threw = false;
                int own = how == 4 ? choose(s) : 0;
                try {
                    std::optional<T> val;
                    if (how == 2 || how == 3) val.emplace(Tr<T>::arg(3));
                    el::compares = 0;
                    el::compare_fail_at = how < 2 ? -1 : at;
                    switch (how) {
                        case 0: x.erase_if(std::ref(pred)); break;
                        case 1: std::erase_if(x, std::ref(pred)); break;
                        case 2: x.erase(std::as_const(*val)); break;
                        case 3: std::erase(x, std::as_const(*val)); break;
                        case 4: x.erase(x[size_t(own)]); break;
                    }
                } catch (const el::Thrown&) { threw = true; }
                bool late = el::compare_fail_at >= 0;
                el::compare_fail_at = -1;
                if (how < 2 && !threw && at < s) mc::fail("%s: the exception was swallowed", w.what.c_str());
                if (!threw || late) return;
                // what is left is valid, and every element is one of those which were there
                MC_CHECK(x.size() <= size_t(s) && x.size() <= x.capacity(), "%s: size %zu, capacity %zu", w.what.c_str(), x.size(), x.capacity());
                if constexpr (el::tracked<T> && !std::is_same_v<T, el::Zi>) {
                    MC_CHECK(el::live == int64_t(x.size()), "%s: %ld elements are alive, the vector holds %zu", w.what.c_str(), long(el::live), x.size());
                    for (size_t i = 0; i < x.size(); ++i) if (x[i].moved()) x[i].assign(Tr<T>::norm(1));
                }
                M was = w.m[0];
                w.after_failure(false);
                for (int e : w.m[0]) MC_CHECK(std::find(was.begin(), was.end(), e) != was.end() || e == 0 || e == 1, "%s: element %d appeared", w.what.c_str(), e);
                w.verify();
                w.full = false;
                static const int nx[] = {EMPLACE_BACK, EMPLACE_IT, ERASE_IT, CLEAR, SHRINK, COPY_CTOR};
                if (w.op(nx[choose(6)])) w.verify();
            });
        });
        // sizes which can not exist
        mc::add(prop, std::string("impossible sizes, ") + el::name<T>, 9 * 4, [](uint64_t t) {
            path([&](World<T>& w) {
                int st = int(t / 9);
                w.build(0, st == 0 ? 0 : 3, st == 2 ? 4 : st == 3 ? 1 : 0);
                auto& x = w.v[0];
                size_t all = ~size_t(0), per = all / sizeof(T), mx = x.max_size();
                const size_t sizes[] = {mx, mx + 1, mx - 1, per, per + 1, per + 2, per + 5, all, all - 1, all - 2, all - 3, all - 6, all / 2, all / 2 + 1, all / 4 + 1, all / 4 + 4, size_t(1) << 33};
                size_t n = sizes[choose(17)];
                if (n * sizeof(T) / sizeof(T) == n && n * sizeof(T) <= heap::limit) return;
                const char* what = "";
                bool threw = false;
                std::optional<T> val;
                if constexpr (el::copyable<T>) val.emplace(Tr<T>::arg(7));
                try {
                    switch (t % 9) {
                        case 0: what = "reserve"; x.reserve(n); break;
                        case 1: what = "resize"; x.resize(n); break;
                        case 2: if constexpr (el::copyable<T>) { what = "resize(value)"; x.resize(n, *val); } break;
                        case 3: if constexpr (el::copyable<T>) { what = "insert(n)"; x.insert(x.cbegin() + ptrdiff_t(x.size() ? choose(4) : 0), n, *val); } break;
                        case 4: if constexpr (el::copyable<T>) { what = "assign(n)"; x.assign(n, *val); } break;
                        case 5: what = "get_writebuffer"; (void)x.get_writebuffer(n); break;
                        case 6: { what = "vector(n)"; stdb_vector<T> y(static_cast<size_t>(n)); } break;
                        case 7: if constexpr (el::copyable<T>) { what = "vector(n, value)"; stdb_vector<T> y(n, *val); } break;
                        case 8: what = "resize<Unsafe>"; x.template resize<Safety::Unsafe>(n); break;
                    }
                } catch (const std::bad_alloc&) { threw = true; }
                if (!*what) return;
                w.what = std::string(what) + " of " + std::to_string(n) + " elements";
                MC_CHECK(threw, "stdb_vector<%s>::%s did not throw bad_alloc", el::name<T>, w.what.c_str());
                val.reset();
                if (t % 9 == 4) w.after_failure(false);
                w.verify();
                w.full = false;
                if (w.op(EMPLACE_BACK)) w.verify();
            });
        });
    }
    // C24: values which are elements of the vector
    static void alias(const char* prop) {
        static const int slacks[] = {0, 1, 2, 3, 8, 40};
        static const char* names[] = {"push_back", "push_back(move)", "emplace_back", "insert", "insert(move)", "insert(n)", "emplace(it)", "emplace(index)", "assign(n)", "resize", "erase", "std::erase", "vector(n)"};
        constexpr uint64_t n = 13;
        mc::add(prop, std::string("own element as argument, ") + el::name<T>, n * 15 * 6, [](uint64_t t) {
            path([&](World<T>& w) {
                int o = int(t % n), s = (int[]){0, 1, 2, 3, 4, 5, 6, 9, 16, 17, 33, 65, 100, 130, 257}[t / n % 15], k = slacks[t / n / 15];
                bool big = s > 6;
                if (s == 0) return;
                auto where = [&](int m) {
                    if (!big) return choose(m);
                    return (int[]){0, 1, m / 2, m - 2, m - 1}[choose(5)];
                };
                auto many = [&](int m) {
                    if (!big) return size_t(choose(m));
                    return size_t((int[]){0, 1, 2, 17, 33, 34, s - 1, s, s + 1, 2 * s + 1}[choose(10)]);
                };
                w.build(0, s, k);
                // duplicates, so that erasing by value has several victims
                auto& x = w.v[0];
                M& e = w.m[0];
                if (o == 10 || o == 11) {
                    x.clear();
                    e.clear();
                    unsigned mask = big ? (unsigned[]){0x1, 0x80000000, 0xaaaaaaaa, 0xffffffff, 0x0ffff0f0}[choose(5)] : unsigned(choose(1 << s));
                    for (int i = 0; i < s; ++i) { x.emplace_back(Tr<T>::arg(mask >> i % 32 & 1 ? 3 : 4)); e.push_back(Tr<T>::norm(mask >> i % 32 & 1 ? 3 : 4)); }
                }
                int i = where(s), val = e[size_t(i)];
                bool moved = o == 1 || o == 4;
                w.note("%s with element %d (%d)", names[o], i, val);
                size_t at = e.size();
                auto un = [&](size_t c) { return w.room(c) && choose(2); };
                switch (o) {
                    case 0: if constexpr (el::copyable<T>) { un(1) ? x.template push_back<Safety::Unsafe>(std::as_const(x[size_t(i)])) : x.push_back(std::as_const(x[size_t(i)])); e.push_back(val); } break;
                    case 1: if constexpr (el::movable<T>) { un(1) ? x.template push_back<Safety::Unsafe>(std::move(x[size_t(i)])) : x.push_back(std::move(x[size_t(i)])); e.push_back(val); } break;
                    case 2: if constexpr (el::copyable<T>) { un(1) ? x.template emplace_back<Safety::Unsafe>(x[size_t(i)]) : x.emplace_back(x[size_t(i)]); e.push_back(val); } break;
                    case 3: if constexpr (el::copyable<T>) {
                            at = size_t(where(s + 1));
                            w.returned(un(1) ? x.template insert<Safety::Unsafe>(x.cbegin() + ptrdiff_t(at), std::as_const(x[size_t(i)])) : x.insert(x.cbegin() + ptrdiff_t(at), std::as_const(x[size_t(i)])), at);
                            e.insert(e.begin() + ptrdiff_t(at), val);
                        } break;
                    case 4: if constexpr (el::movable<T>) {
                            at = size_t(where(s + 1));
                            w.returned(un(1) ? x.template insert<Safety::Unsafe>(x.cbegin() + ptrdiff_t(at), std::move(x[size_t(i)])) : x.insert(x.cbegin() + ptrdiff_t(at), std::move(x[size_t(i)])), at);
                            e.insert(e.begin() + ptrdiff_t(at), val);
                        } break;
                    case 5: if constexpr (el::copyable<T>) {
                            at = size_t(where(s + 1));
                            size_t c = many(6);
                            w.returned(un(c) ? x.template insert<Safety::Unsafe>(x.cbegin() + ptrdiff_t(at), c, x[size_t(i)]) : x.insert(x.cbegin() + ptrdiff_t(at), c, x[size_t(i)]), at);
                            e.insert(e.begin() + ptrdiff_t(at), c, val);
                        } break;
                    case 6: if constexpr (el::copyable<T>) {
                            at = size_t(where(s + 1));
                            w.returned(un(1) ? x.template emplace<Safety::Unsafe>(x.begin() + ptrdiff_t(at), x[size_t(i)]) : x.emplace(x.begin() + ptrdiff_t(at), x[size_t(i)]), at);
                            e.insert(e.begin() + ptrdiff_t(at), val);
                        } break;
                    case 7: if constexpr (el::copyable<T>) {
                            at = size_t(where(s + 1));
                            w.returned(un(1) ? x.template emplace<Safety::Unsafe>(at, std::as_const(x[size_t(i)])) : x.emplace(at, std::as_const(x[size_t(i)])), at);
                            e.insert(e.begin() + ptrdiff_t(at), val);
                        } break;
                    case 8: if constexpr (el::copyable<T>) { size_t c = many(12); x.assign(c, x[size_t(i)]); e.assign(c, val); } break;
                    case 9: if constexpr (el::copyable<T>) { size_t c = many(s + 10); x.resize(c, x[size_t(i)]); e.resize(c, val); } break;
                    case 10:
                    case 11: {
                        size_t want = 0;
                        for (int y : e) want += y == val;
                        size_t got = o == 10 ? x.erase(x[size_t(i)]) : std::erase(x, x[size_t(i)]);
                        MC_CHECK(got == want, "%s: says %zu erased, expected %zu", w.what.c_str(), got, want);
                        std::erase(e, val);
                    } break;
                    case 12: if constexpr (el::copyable<T>) { stdb_vector<T> y(size_t(2), x[size_t(i)]); y.insert(y.cbegin(), x[size_t(i)]); x.swap(y); e.assign(3, val); } break;
                }
                if (moved && el::movable<T>) {
                    // the element which gave its value away keeps an unspecified value: put it back
                    size_t j = size_t(i) + (size_t(i) >= at ? 1 : 0);
                    if constexpr (el::tracked<T> && !std::is_same_v<T, el::Zi>) x[j].assign(val);
                    else if constexpr (std::is_move_assignable_v<T>) x[j] = T(Tr<T>::arg(val));
                }
                w.verify();
            });
        });
    }
    // C22: appending until storage is a multiple of the size from which it doubles
    static void capacity_large(const char* prop, size_t limit) {
        mc::add(prop, std::string("growth to ") + std::to_string(limit) + " elements, " + el::name<T> + " of " + std::to_string(sizeof(T)) + " bytes", 2, [limit](uint64_t t) {
            path([&](World<T>& w) {
                auto& x = w.v[0];
                size_t c = 0, growths = 0;
                const T* d = nullptr;
                for (size_t i = 0; i < limit; ++i) {
                    if (t == 0) x.emplace_back(Tr<T>::arg(1 + int(i % 50)));
                    else if constexpr (el::movable<T>) x.push_back(T(Tr<T>::arg(1 + int(i % 50))));
                    else return;
                    size_t c2 = x.capacity();
                    if (c2 == c && x.data() == d) continue;
                    mc::step();
                    size_t first = sizeof(T) >= 64 ? 1 : 64 / sizeof(T);
                    MC_CHECK(i == c, "%s: appending to %zu elements moved them although the capacity is %zu", el::name<T>, i, c);
                    MC_CHECK(2 * c2 + 1 >= 3 * c || (c < first && c2 >= first), "%s (%zu bytes): capacity grew from %zu to %zu only", el::name<T>, sizeof(T), c, c2);
                    MC_CHECK(heap::contains(x.data(), c2 * sizeof(T)), "%s: capacity %zu is not backed by memory", el::name<T>, c2);
                    c = c2;
                    d = x.data();
                    ++growths;
                    mc::Hash h;
                    h.add(sizeof(T)).add(c2).add(t);
                    mc::state(h);
                }
                MC_CHECK(x.size() == limit, "%s: %zu elements after %zu appends", el::name<T>, x.size(), limit);
                for (size_t i = 0; i < limit; ++i) MC_CHECK(el::value(x[i]) == Tr<T>::norm(int(1 + i % 50)), "%s: element %zu is wrong after %zu growths", el::name<T>, i, growths);
                x.shrink_to_fit();
                MC_CHECK(x.capacity() == limit && x.size() == limit, "%s: shrink_to_fit of %zu elements gives capacity %zu", el::name<T>, limit, x.capacity());
                for (size_t i = 0; i < limit; i += 997) MC_CHECK(el::value(x[i]) == Tr<T>::norm(int(1 + i % 50)), "%s: element %zu is wrong after shrink_to_fit", el::name<T>, i);
            });
        });
    }
    // C22: growth by appending, one or several at a time, reserve and buffers of every size
    static void capacity(const char* prop, int limit) {
        mc::add(prop, std::string("growth by appending, ") + el::name<T> + " of " + std::to_string(sizeof(T)) + " bytes", 7, [limit](uint64_t t) {
            path([&](World<T>& w) {
                static const int starts[] = {0, 1, 2, 3, 5, 17, 40};
                int start = starts[t];
                if (start > limit) return;
                bool reserved = choose(2) != 0;
                if (reserved) w.v[0].reserve(size_t(start));
                else w.build(0, start, 0);
                int how = choose(4);
                
                for (int i = int(w.m[0].size()); i < limit; ++i) {
                    size_t c = w.v[0].capacity(), n = w.v[0].size();
                    const T* d = w.v[0].data();
                    if (how == 0) w.v[0].emplace_back(Tr<T>::arg(1 + i % 50));
                    else if (how == 1) { if constexpr (el::movable<T>) w.v[0].push_back(T(Tr<T>::arg(1 + i % 50))); else return; }
                    else if (how == 2) { if constexpr (el::copyable<T>) { T x(Tr<T>::arg(1 + i % 50)); w.v[0].insert(w.v[0].cend(), std::as_const(x)); } else return; }
                    else w.v[0].emplace(w.v[0].begin() + ptrdiff_t(n / 2), Tr<T>::arg(1 + i % 50));
                    size_t c2 = w.v[0].capacity();
                    mc::step();
                    MC_CHECK(c2 >= w.v[0].size(), "%s: after %zu appends capacity is %zu", el::name<T>, n + 1, c2);
                    MC_CHECK(heap::contains(w.v[0].data(), c2 * sizeof(T)), "%s: capacity %zu is not backed by memory", el::name<T>, c2);
                    if (n < c) MC_CHECK(c2 == c && w.v[0].data() == d, "%s: appending within capacity %zu moved the elements", el::name<T>, c);
                    else {
                        size_t first = sizeof(T) >= 64 ? 1 : 64 / sizeof(T);
                        MC_CHECK(2 * c2 + 1 >= 3 * c || (c < first && c2 >= first), "%s (%zu bytes): capacity grew from %zu to %zu only", el::name<T>, sizeof(T), c, c2);
                    }
                }
                if (how < 3) for (size_t i = reserved ? 0 : size_t(start); i < w.v[0].size(); ++i) MC_CHECK(el::value(w.v[0][i]) == Tr<T>::norm(int(1 + i % 50)), "%s: element %zu is wrong after growth", el::name<T>, i);
                mc::Hash h;
                h.add(sizeof(T)).add(w.v[0].capacity()).add(t);
                mc::state(h);
                size_t n = w.v[0].size();
                w.v[0].shrink_to_fit();
                MC_CHECK(w.v[0].capacity() == n && w.v[0].size() == n, "%s: shrink_to_fit of %zu elements gives capacity %zu", el::name<T>, n, w.v[0].capacity());
            });
        });
        mc::add(prop, std::string("reserve, buffers and resize of every size, ") + el::name<T> + " of " + std::to_string(sizeof(T)) + " bytes", uint64_t(limit) + 1, [limit](uint64_t t) {
            path([&](World<T>& w) {
                w.build(0, choose(4), choose(3));
                auto& x = w.v[0];
                size_t c = x.capacity(), n = x.size(), k = size_t(t);
                const T* d = x.data();
                int how = choose(4);
                bool fits = true;
                if (how == 0) {
                    x.reserve(k);
                    fits = k <= c;
                    MC_CHECK(x.capacity() >= k && x.capacity() >= c && x.size() == n, "%s: reserve(%zu) from %zu/%zu gives capacity %zu", el::name<T>, k, n, c, x.capacity());
                } else if (how == 1) {
                    auto s = x.get_writebuffer(k);
                    fits = n + k <= c;
                    MC_CHECK(s.size() == k && (k == 0 || s.data() == x.data() + n) && x.size() == n + k, "%s: get_writebuffer(%zu) from %zu/%zu gives %zu slots", el::name<T>, k, n, c, s.size());
                    for (auto& slot : s) ::new (static_cast<void*>(&slot)) T(Tr<T>::arg(5));
                } else if (how == 2) {
                    x.resize(k);
                    fits = k <= c;
                    MC_CHECK(x.size() == k, "%s: resize(%zu) gives %zu", el::name<T>, k, x.size());
                } else {
                    if constexpr (el::copyable<T>) {
                        T val(Tr<T>::arg(5));
                        x.insert(x.cbegin(), k, val);
                        fits = n + k <= c;
                        MC_CHECK(x.size() == n + k, "%s: insert of %zu gives %zu", el::name<T>, k, x.size());
                        for (size_t i = 0; i < k; ++i) MC_CHECK(el::value(x[i]) == Tr<T>::norm(5), "%s: wrong element", el::name<T>);
                        for (size_t i = 0; i < n; ++i) MC_CHECK(el::value(x[k + i]) == Tr<T>::norm(int(i) + 1), "%s: wrong element", el::name<T>);
                    } else return;
                }
                MC_CHECK(x.capacity() >= x.size(), "%s: capacity %zu below size %zu", el::name<T>, x.capacity(), x.size());
                if (x.capacity()) MC_CHECK(heap::contains(x.data(), x.capacity() * sizeof(T)), "%s: capacity %zu is not backed by memory", el::name<T>, x.capacity());
                if (fits && c > 0) MC_CHECK(x.data() == d && x.capacity() == c, "%s: storage changed although the result fits", el::name<T>);
                if (how == 0 || how == 1) for (size_t i = 0; i < n; ++i) MC_CHECK(el::value(x[i]) == Tr<T>::norm(int(i) + 1), "%s: element %zu lost", el::name<T>, i);
            });
        });
    }
};

template <class T>
void reg_type(const std::string& prop, bool deep) {
    using R = Run<T>;
    bool th = mc::thorough();
    if (prop == "C20" || prop == "C21") {
        R::single(prop.c_str(), th ? 7 : 5);
        R::large(prop.c_str(), deep || th);
        if (deep || th) R::histories(prop.c_str(), th ? 4 : 3, false);
        if (th) R::histories(prop.c_str(), 3, true);
    }
    if (prop == "C22") {
        R::single(prop.c_str(), th ? 7 : 4);
        R::large(prop.c_str(), deep || th);
        R::capacity(prop.c_str(), th ? 1000 : 300);
    }
    if (prop == "C23") R::failing(prop.c_str(), th ? 6 : 4);
    if (prop == "C24") R::alias(prop.c_str());
}
}  // namespace vec
