// C36: threads which share no object at all. Every body works on objects of its own and writes down what it observes; whatever the
// schedule, that is what it observes when it runs alone, and no two accesses of different threads may meet.
#include <fmt/format.h>

#include <map>
#include <memory_resource>
#include <sstream>
#include <string>
#include <vector>

#include "arena/arena.hpp"
#include "container/stdb_vector.hpp"
#include "mc.hpp"
#include "optparse/optparse.hpp"
#include "string/arena_string.hpp"
#include "string/string.hpp"
#include "thr.hpp"
namespace op = stdb::optparse;
using stdb::container::stdb_vector;
using stdb::memory::Arena;
using stdb::memory::arena_string;
using S = stdb::memory::string;

using Log = std::string;
template <class T> static void put(Log& l, const T& s) { l.append(s.data(), s.size()); l += '|'; }
static void num(Log& l, uint64_t v) { l += std::to_string(v); l += '|'; }
static Arena::Options small_blocks(size_t n) {
    Arena::Options o{};
    o.normal_block_size = o.suggested_init_block_size = 256 + n;
    o.huge_block_size = 4096;
    o.block_alloc = [](size_t k) { return std::malloc(k); };
    o.block_dealloc = [](void* p) { std::free(p); };
    o.logger_func = [](const std::string&) {};
    return o;
}
struct Noted { ArenaFullManagedTag; Log* l; uint64_t id; Noted(Log* p, uint64_t i) : l(p), id(i) {} ~Noted() { num(*l, id); } };
struct Pod { uint64_t a = 7, b = 9; };
struct Elem { std::string s; auto operator<=>(const Elem&) const = default; };

constexpr int kBodies = 14;
static const char* body_name[kBodies] = {"string changes", "string searches and conversions", "string streams and formatting", "wide strings", "arena", "arena objects and cleanups", "arena refused and moved", "arena memory resource",
                                         "arena strings", "vector of numbers", "vector of strings", "option parsing", "option texts", "option conflicts and the store"};
static void body(Log& l, int k, size_t n) {
    std::string std_text;
    for (size_t i = 0; i < n; ++i) std_text += char('a' + (i * 7 + n) % 26);
    const char* text = std_text.c_str();
    switch (k) {
        case 0: {
            S s(text), t(s);
            s.append("more"); s.insert(1, "in"); s.push_back('!'); s.erase(0, 1);
            S u(s);
            u.replace(0, 2, 30, 'x');
            s.resize(n + 60, 'r');
            s += t;
            t.clear();
            s.swap(u);
            s.reserve(n + 400);
            S c(s.clone());
            c[0] = '#';
            for (auto* p : {&s, &t, &u, &c}) put(l, *p);
            s.shrink_to_fit();
            S v(std::move(s));
            put(l, v);
            s = "again";
            put(l, s + v + "end" + 'c');
            break;
        }
        case 1: {
            S s(text);
            S f("b");
            num(l, s.find(f)); num(l, s.rfind('c')); num(l, s.find_first_of("xyz")); num(l, s.find_last_not_of("abc")); num(l, s.find("kr", 1)); num(l, s.compare(f) < 0); num(l, s == f); num(l, s.contains("y"));
            num(l, std::hash<S>{}(s)); put(l, std::string(s)); put(l, s.substr(n / 2)); num(l, s.starts_with("a"));
            std::map<S, int> m;
            for (size_t i = 0; i < 4; ++i) m[s.substr(i % (n + 1))] = int(i);
            for (auto& e : m) { put(l, e.first); num(l, uint64_t(e.second)); }
            try { (void)s.at(n + 1); } catch (const std::out_of_range& e) { l += e.what(); }
            try { s.erase(n + 1); } catch (const std::out_of_range& e) { l += "erase"; }
            break;
        }
        case 2: {
            S s(text), r, q;
            std::ostringstream o;
            o.width(std::streamsize(n + 3));
            o << s << ' ' << S("two words") << '\n' << s;
            put(l, o.str());
            std::istringstream i(o.str());
            i >> r; put(l, r);
            getline(i, q); put(l, q);
            getline(i, q, 'c'); put(l, q);
            put(l, fmt::format("{:>40} {}", s, r));
            break;
        }
        case 3: {
            stdb::memory::basic_string<wchar_t> w(n, L'w');
            stdb::memory::basic_string<char16_t> u(n, u'u');
            auto w2 = w; auto u2 = u;
            w2 += L"tail"; u2.insert(u2.begin(), u'!'); w.resize(n + 9, L'r'); u.clear();
            num(l, w.size()); num(l, w2.size()); num(l, u.size()); num(l, u2.size()); num(l, w2.find(L't')); num(l, u2.find(u'u')); num(l, w < w2);
            break;
        }
        case 4: {
            Arena a(small_blocks(n));
            char* p[6];
            for (size_t i = 0; i < 6; ++i) { p[i] = a.AllocateAligned(40 + n * i, i % 2 ? 16 : 8); memset(p[i], int('0' + i), 40 + n * i); }
            for (size_t i = 0; i < 6; ++i) { put(l, std::string_view(p[i], 40 + n * i)); num(l, uint64_t(a.check(p[i]))); }
            num(l, a.SpaceAllocated());
            num(l, a.Reset()); num(l, a.SpaceAllocated());
            num(l, a.AllocateAligned(700) != nullptr); num(l, uint64_t(a.check(text)));
            break;
        }
        case 5: {
            Arena a(small_blocks(n));
            for (uint64_t i = 0; i < 12; ++i) a.Create<Noted>(&l, i + n);
            auto* v = a.CreateArray<Pod>(3 + n % 5);
            num(l, v[2].b);
            num(l, a.Own(new Elem{std_text}));
            num(l, a.cleanups());
            a.Reset();
            l += '/';
            a.Create<Noted>(&l, 5);
            static_cast<void>(a.AllocateAlignedAndAddCleanup(8, [](void*) {}));
            break;
        }
        case 6: {
            auto o = small_blocks(n);
            o.block_alloc = [](size_t k) { return k > 3000 ? nullptr : std::malloc(k); };
            Arena a(o);
            num(l, a.AllocateAligned(100) != nullptr); num(l, a.AllocateAligned(5000) == nullptr); num(l, a.CreateArray<Pod>(1u << 20) == nullptr); num(l, a.AllocateAligned(~uint64_t(0) - 9) == nullptr);
            a.Create<Noted>(&l, n);
            Arena b(std::move(a));
            num(l, b.cleanups()); num(l, b.SpaceAllocated()); num(l, b.AllocateAligned(300) != nullptr);
            break;
        }
        case 7: {
            Arena a(small_blocks(n));
            std::pmr::vector<std::pmr::string> v(a.get_memory_resource());
            for (size_t i = 0; i < 9; ++i) v.emplace_back(std_text + std::to_string(i));
            std::pmr::map<int, std::pmr::string> m(a.get_memory_resource());
            for (int i = 0; i < 9; ++i) m[i * 5 % 9] = v[size_t(i)];
            for (auto& e : m) put(l, e.second);
            break;
        }
        case 8: {
            Arena a(small_blocks(n)), b(small_blocks(n + 8));
            arena_string s(text, a.get_memory_resource()), t(s), e(b.get_memory_resource());
            s.append("more"); t.insert(0, "in"); e.assign(text); e.push_back('e');
            arena_string u(s);
            u.replace(0, 1, "xyz"); s.resize(n + 300, 'r');
            for (auto* p : {&s, &t, &e, &u}) put(l, *p);
            num(l, s.find("zr")); num(l, t == u); num(l, std::hash<arena_string>{}(e));
#ifdef NDEBUG  // refused in debug builds
            arena_string d("on the default resource, long enough for the heap");
            d += text;
            put(l, d);
#endif
            break;
        }
        case 9: {
            stdb_vector<int> v;
            for (size_t i = 0; i < n; ++i) v.push_back(int(i * 3));
            v.insert(v.begin(), {1, 2, 3}); v.emplace(v.begin() + 1, 8); v.erase(v.begin()); v.resize(n + 9, 4); v.insert(v.begin() + 2, 5, 6);
            stdb_vector<int> w(v);
            w.pop_back(); w.shrink_to_fit();
            num(l, v == w); num(l, v > w);
            v.swap(w);
            stdb_vector<int> x(std::move(w));
            for (int i : v) num(l, uint64_t(i));
            num(l, x.size());
            put(l, fmt::format("{}", x));
            break;
        }
        case 10: {
            stdb_vector<Elem> v(n % 20, Elem{std_text});
            for (size_t i = 0; i < 6; ++i) v.emplace_back(Elem{std_text + std::to_string(i)});
            v.insert(v.begin() + 1, Elem{"in"}); v.push_back(v.front()); v.erase(v.begin(), v.begin() + 1); v.assign(5, v.back()); v.resize(7);
            stdb_vector<Elem> w{Elem{"a"}, Elem{std_text}};
            v = w; w.clear(); w.push_back(v[1]);
            for (auto& e : v) put(l, e.s);
            for (auto& e : w) put(l, e.s);
            break;
        }
        case 11: {
            op::OptionParser p;
            p.add_option({"-s", "--str"}).dest("s").action(op::Store).type(op::String).default_value("dflt");
            p.add_option({"-n"}).dest("n").action(op::Store).type(op::Int).default_value("3");
            p.add_option({"-d"}).dest("d").action(op::Store).type(op::Double);
            p.add_option({"-l"}).dest("l").action(op::Append).type(op::Int);
            p.add_option({"-b"}).dest("b").action(op::StoreTrue).type(op::Bool);
            p.add_option({"-e"}).dest("e").action(op::Store).type(op::String).env("MC_THROWNED");
            std::string v1 = "-s=" + std_text, v2 = "-n=" + std::to_string(n), v3 = "-d=" + std::to_string(n) + ".5";
            const char* argv[] = {"prog", v1.c_str(), "left", v2.c_str(), v3.c_str(), "-l=1, 2,3", "4", "-b", "--nope", "-z=1"};
            for (int again = 0; again < 2; ++again) {
                auto st = p.parse_args(again ? 3 : 10, argv);
                if (auto v = st.get<op::string>("s")) put(l, *v);
                if (auto v = st.get<int32_t>("n")) num(l, uint64_t(*v));
                if (auto v = st.get<double>("d")) put(l, std::to_string(*v));
                if (auto v = st.get<bool>("b")) num(l, *v);
                if (auto v = st.get<op::string>("e")) put(l, *v);
                for (auto* x : p.invalid_args()) { l += x; l += '|'; }
            }
            break;
        }
        case 12: {
            op::OptionParser p;
            p.program(op::string(text));
            p.add_option({"-s", "--str"}).dest("s").action(op::Store).type(op::String).help("a text");
            p.add_option({"--number"}).action(op::Store).type(op::Int).help(op::string(text));
            p.add_option({"-b", "--flag"}).action(op::StoreTrue).type(op::Bool).help("a flag");
            put(l, p.format_usage()); put(l, p.format_help());
            const char* argv[] = {"prog"};
            (void)p.parse_args(1, argv);
            put(l, p.format_usage()); put(l, p.format_help());
            p.usage(op::string(text)); p.version("v");
            put(l, p.format_usage()); put(l, p.version());
            break;
        }
        case 13: {
            for (auto h : {op::Error, op::Replace}) {
                op::OptionParser p('+', h);
                p.add_option({"+a", "++alpha"}).action(op::Store).type(op::Choice).choices({"x", "y", op::string(text)});
                try { p.add_option({"+a"}).dest("other").action(op::Store).type(op::String); l += "taken|"; } catch (const std::logic_error& e) { l += e.what(); }
                try { p.add_option({"bad"}); } catch (const std::logic_error& e) { l += e.what(); }
                std::string v = "++alpha=" + std_text;
                const char* argv[] = {"prog", v.c_str(), "+a"};
                try {
                    auto st = p.parse_args(3, argv);
                    if (auto x = st.get<op::string>("alpha")) put(l, *x);
                } catch (const std::logic_error& e) { l += e.what(); }
            }
            op::ValueStore st;
            st.set("a", op::Value(op::string(text))); st.append("b", op::Value(int32_t(4))); st.append("b", op::Value(int32_t(5))); st.increment("c"); st.increment("c");
            if (auto x = st.get<op::string>("a")) put(l, *x);
            if (auto x = st.get<int32_t>("c")) num(l, uint64_t(*x));
            num(l, st.user_set("b")); num(l, st.user_set("z"));
            break;
        }
    }
}
static void together(const std::vector<std::pair<int, size_t>>& who, int preemptions) {
    std::vector<Log> logs(who.size());
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < who.size(); ++i) {
        MC_NOTE("thread %zu: %s, size %zu", i + 1, body_name[who[i].first], who[i].second);
        bodies.push_back([&, i] { body(logs[i], who[i].first, who[i].second); });
    }
    thr::run(bodies, preemptions);
    mc::step();
    for (size_t i = 0; i < who.size(); ++i) {
        Log alone;
        thr::run({[&] { body(alone, who[i].first, who[i].second); }}, 0);
        if (alone.empty()) mc::internal("nothing was observed");
        MC_CHECK(logs[i] == alone, "thread %zu (%s) observed\n   %.600s\n alone it observes\n   %.600s", i + 1, body_name[who[i].first], logs[i].c_str(), alone.c_str());
        mc::state(mc::Hash().add(i).add(uint64_t(who[i].first)).add(who[i].second).add(uint64_t(who[0].first)).add(thr::switches()));
    }
}
static const size_t kSizes[] = {1, 5, 23, 30, 254, 300, 1000};
void mc_spaces(const std::string&) {
    bool th = mc::thorough();
    constexpr size_t nsz = std::size(kSizes);
    mc::add("C36", "two threads, every pair of uses and sizes", kBodies * kBodies * nsz, [](uint64_t t) {
        int a = int(t % kBodies), b = int(t / kBodies % kBodies);
        together({{a, kSizes[t / kBodies / kBodies]}, {b, kSizes[mc::choose(int(nsz))]}}, 0);
    });
    mc::add("C36", "two threads with switches at whatever synchronises", kBodies * kBodies, [=](uint64_t t) {
        together({{int(t % kBodies), kSizes[mc::choose(int(nsz))]}, {int(t / kBodies), kSizes[mc::choose(3) * 2]}}, th ? 3 : 2);
    });
    mc::add("C36", "three threads", kBodies * kBodies, [=](uint64_t t) {
        int c = mc::choose(kBodies);
        size_t n = kSizes[mc::choose(th ? int(nsz) : 3) * (th ? 1 : 2)];
        together({{int(t % kBodies), n}, {int(t / kBodies), n + 1}, {c, n + 2}}, th ? 1 : 0);
    });
}
int main(int c, char** v) { return mc::main_(c, v); }
