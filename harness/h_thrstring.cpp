// C18: clones are used by another thread while the first one goes on with the originals. The string code has no synchronisation, so
// one schedule per order of the hand-over stands for all interleavings: any access two threads do not order is reported.
#include <optional>
#include <string>

#include "mc.hpp"
#include "string/string.hpp"
#include "thr.hpp"
using S = stdb::memory::string;

static void expect(const S& s, const std::string& m, const char* who) {
    const S& c = s;
    MC_CHECK(c.size() == m.size() && memcmp(c.data(), m.data(), m.size()) == 0 && c.c_str()[m.size()] == 0, "%s: the string is \"%.40s...\" (%zu characters), expected \"%.40s...\" (%zu characters)", who, c.c_str(), c.size(),
             m.c_str(), m.size());
}
constexpr int kOps = 20;
static const char* op_name[kOps] = {"read", "append a character", "append 300", "write through operator[]", "clear", "assign", "erase the end", "insert in front", "reserve", "shrink_to_fit", "copy and drop the copy",
                                    "copy, then change the original", "copy, then change the copy", "clone, then drop the clone", "clone, then change both", "move away and back", "assign a copy of itself", "resize", "compare and search", "iterate writing"};
static void op(S& s, std::string& m, int k, const char* who) {
    switch (k) {
        case 0: break;
        case 1: s.push_back('+'); m.push_back('+'); break;
        case 2: s.append(300, 'n'); m.append(300, 'n'); break;
        case 3: if (!m.empty()) { s[m.size() / 2] = '!'; m[m.size() / 2] = '!'; } break;
        case 4: s.clear(); m.clear(); break;
        case 5: s = "assigned"; m = "assigned"; break;
        case 6: if (!m.empty()) { s.erase(m.size() - 1); m.erase(m.size() - 1); } break;
        case 7: s.insert(0, "in"); m.insert(0, "in"); break;
        case 8: s.reserve(m.size() + 400); break;
        case 9: s.shrink_to_fit(); break;
        case 10: { S t(s); expect(t, m, who); break; }
        case 11: { S t(s); std::string tm(m); s.push_back('o'); m.push_back('o'); expect(t, tm, who); break; }
        case 12: { S t(s); std::string tm(m); t.push_back('c'); tm.push_back('c'); expect(s, m, who); expect(t, tm, who); break; }
        case 13: { S t(s.clone()); expect(t, m, who); break; }
        case 14: { S t(s.clone()); std::string tm(m); t.push_back('c'); tm.push_back('c'); s.push_back('o'); m.push_back('o'); expect(t, tm, who); break; }
        case 15: { S t(std::move(s)); s = "gone"; s = std::move(t); break; }
        case 16: { S t(s); s = t; break; }
        case 17: s.resize(m.size() + 20, 'r'); m.resize(m.size() + 20, 'r'); break;
        case 18: { const S& c = s; MC_CHECK(c.find("zz") == m.find("zz") && (c == c) && c.compare(m.c_str()) == 0, "%s: compare and search", who); break; }
        case 19: for (auto& c : s) c = 'i'; for (auto& c : m) c = 'i'; break;
    }
    expect(s, m, who);
    mc::step();
}
static const size_t kSizes[] = {0, 1, 22, 23, 24, 25, 253, 254, 255, 256, 300, 2000};
static std::string letters(size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += char('a' + i % 23); return s; }
constexpr int kShare = 6;
static const char* share_name[kShare] = {"never copied", "a copy is kept", "a copy was dropped", "is itself a copy", "moved from another string", "a copy is kept, capacity in reserve"};

// thread 1 builds the original, shares it, clones it and hands the clone over; both go on
static void two(size_t size, int share, int a1, int a2, int b1, int b2, bool before, int preemptions = 0) {
    thr::Event handed;
    std::optional<S> slot;
    std::string start = letters(size);
    MC_NOTE("size %zu, original %s; thread 1: %s, %s; thread 2: %s, %s", size, share_name[share], op_name[a1], op_name[a2], op_name[b1], op_name[b2]);
    auto first = [&] {
        std::string m = start;
        std::optional<S> other;
        std::optional<S> s;
        s.emplace(start.data(), start.size());
        if (share == 5) s->reserve(size + 600);
        if (share == 1 || share == 5) other.emplace(*s);
        if (share == 2) { S t(*s); }
        if (share == 3) { other.emplace(*s); S t(*other); s.emplace(std::move(t)); }
        if (share == 4) { S t(std::move(*s)); s.emplace(std::move(t)); }
        if (before) op(*s, m, a1, "thread 1 before cloning");
        std::string om = start;
        slot.emplace(s->clone());
        std::string cm = m;
        handed.set();
        if (!before) op(*s, m, a1, "thread 1");
        op(*s, m, a2, "thread 1");
        if (other) expect(*other, om, "thread 1, the other copy");
        (void)cm;
    };
    auto second = [&] {
        handed.wait();
        std::string m(slot->data(), slot->size());
        if (!before) MC_CHECK(m == start, "the clone has other contents than the original");
        op(*slot, m, b1, "thread 2");
        op(*slot, m, b2, "thread 2");
        slot.reset();
    };
    thr::run({first, second}, preemptions);
    mc::state(mc::Hash().add(size).add(uint64_t(share)).add(uint64_t(a1 * 1000 + b1)).add(uint64_t(before)));
}
void mc_spaces(const std::string&) {
    constexpr size_t nsz = sizeof kSizes / sizeof *kSizes;
    mc::add("C18", "the owner and the user of a clone, one operation before and one or two after", nsz * kShare * 2, [](uint64_t t) {
        size_t size = kSizes[t % nsz];
        int share = int(t / nsz % kShare);
        bool before = t / nsz / kShare;
        int a1 = mc::choose(kOps), b1 = mc::choose(kOps);
        static const int few[] = {0, 3, 1, 10, 14, 9};
        bool th = mc::thorough();
        int a2 = th ? mc::choose(kOps) : few[mc::choose(2)], b2 = few[mc::choose(th ? 6 : 1)];
        two(size, share, a1, a2, b1, b2, before);
    });
    mc::add("C18", "switches inside of the operations, should they synchronise", 5 * kShare * 2, [](uint64_t t) {
        static const size_t sz[] = {0, 23, 24, 255, 300};
        int a1 = mc::choose(kOps), b1 = mc::choose(kOps);
        two(sz[t % 5], int(t / 5 % kShare), a1, 0, b1, 0, t / 5 / kShare, mc::thorough() ? 3 : 2);
    });
    mc::add("C18", "three threads, clones of clones", nsz * kOps, [](uint64_t t) {
        size_t size = kSizes[t % nsz];
        static const int few[] = {0, 1, 3, 8, 9, 10, 12, 14, 17};
        bool th = mc::thorough();
        int k1 = int(t / nsz), k2 = th ? mc::choose(kOps) : few[mc::choose(9)], k3 = th ? mc::choose(kOps) : few[mc::choose(9)];
        bool chain = mc::choose(2);
        MC_NOTE("size %zu; operations %s / %s / %s; %s", size, op_name[k1], op_name[k2], op_name[k3], chain ? "thread 3 gets a clone of the clone" : "both get clones of the original");
        thr::Event h1, h2;
        std::optional<S> s1, s2;
        std::string start = letters(size);
        auto a = [&] {
            S s(start.data(), start.size());
            S keep(s);
            std::string m = start;
            s1.emplace(s.clone());
            if (!chain) { s2.emplace(s.clone()); h2.set(); }
            h1.set();
            op(s, m, k1, "thread 1");
            expect(keep, start, "thread 1, the other copy");
        };
        auto b = [&] {
            h1.wait();
            std::string m = start;
            if (chain) { s2.emplace(s1->clone()); h2.set(); }
            op(*s1, m, k2, "thread 2");
            s1.reset();
        };
        auto c = [&] {
            h2.wait();
            std::string m = start;
            op(*s2, m, k3, "thread 3");
            S moved(std::move(*s2));
            s2.reset();
            expect(moved, m, "thread 3");
        };
        thr::run({a, b, c}, mc::thorough() ? 1 : 0);
        mc::state(mc::Hash().add(t).add(uint64_t(k2 * 100 + k3)).add(chain));
    });
    mc::add("C18", "clones read and destroyed elsewhere, every size", mc::thorough() ? 1200 : 600, [](uint64_t t) {
        bool keep = mc::choose(2);
        two(t, keep ? 1 : 0, 1, 14, 0, 0, false);
        two(t, keep ? 3 : 2, 3, 0, 3, 0, false);
    });
}
int main(int c, char** v) { return mc::main_(c, v); }
