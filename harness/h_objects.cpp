// C32: what is constructed in an arena, with which arguments, and which destructors run.
#include <sanitizer/asan_interface.h>

#include <map>
#include <memory_resource>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "arena/arena.hpp"
#include "mc.hpp"
using namespace stdb::memory;
using mc::choose;

// ---------------------------------------------------------------- environment
struct Blk { char* p; size_t n; };
static std::vector<Blk> blocks;
static int fault_mode, faults_left, failures;
static void* blk_alloc(size_t n) {
    if (n > (1u << 22)) { ++failures; return nullptr; }
    if (fault_mode && faults_left && choose(2)) { --faults_left; ++failures; MC_NOTE("  block_alloc(%zu) fails", n); return nullptr; }
    char* p = static_cast<char*>(aligned_alloc(32, (n + 31) / 32 * 32));
    memset(p, 0xAB, n);
    blocks.push_back({p, n});
    return p;
}
static void blk_dealloc(void* p) {
    for (size_t i = 0; i < blocks.size(); ++i)
        if (blocks[i].p == p) { memset(p, 0xCD, blocks[i].n); free(p); blocks.erase(blocks.begin() + long(i)); return; }
    mc::fail("block_dealloc of something that is no block");
}
static bool in_blocks(const void* q, size_t n) {
    for (auto& b : blocks) if (static_cast<const char*>(q) >= b.p && static_cast<const char*>(q) + n <= b.p + b.n) return true;
    return false;
}
static int hooks;
static std::vector<std::pair<const std::type_info*, uint64_t>> reported;
static void hk_alloc(const std::type_info* t, uint64_t n, void*) { reported.push_back({t, n}); }

// ---------------------------------------------------------------- observed classes
struct Val { int v; };  // the arguments; told apart by their addresses
static Val vals[4] = {{11}, {22}, {33}, {44}};
enum { LV, CLV, RV, CRV };
template <class A> constexpr int cat_of() {
    using R = std::remove_reference_t<A>;
    return (std::is_lvalue_reference_v<A> ? 0 : 2) + (std::is_const_v<R> ? 1 : 0);
}
template <class A> concept IsVal = std::is_same_v<std::remove_cvref_t<A>, Val>;
template <class A> concept IsAlloc = !IsVal<A> && std::is_convertible_v<A, std::pmr::polymorphic_allocator<>>;
struct Rec {
    const void* self;
    const std::type_info* type;
    int n = 0, cats[3] = {};
    const void* addr[3] = {};
    const void* arena = nullptr;
    const std::pmr::memory_resource* res = nullptr;
};
static std::vector<Rec> made;
static std::vector<const void*> gone;
enum Mode { PLAIN, ARENA, ARENA_OR_PLAIN, ALLOC, ALLOC_OR_PLAIN };
enum Tag { NOTAG, FULL, SKIP, BOTH };
template <int T> struct Tagged {};
template <> struct Tagged<FULL> { ArenaFullManagedTag; };
template <> struct Tagged<SKIP> { ArenaManagedCreateOnlyTag; };
template <> struct Tagged<BOTH> { ArenaFullManagedTag; ArenaManagedCreateOnlyTag; };

template <int M, int T, size_t Al, size_t Size>
struct alignas(Al) X : Tagged<T> {
    uint32_t magic = 0x1234ABCD;
    int n;
    int v[3] = {0, 0, 0};
    unsigned char rest[Size];
    template <class... A> void start(Arena* ar, std::pmr::memory_resource* res, A&&... a) {
        Rec r;
        r.self = this;
        r.type = &typeid(X);
        r.arena = ar;
        r.res = res;
        n = 0;
        ((r.cats[n] = cat_of<A>(), r.addr[n] = &a, v[n] = a.v, ++n), ...);
        r.n = n;
        memset(rest, 0x77, Size);
        made.push_back(r);
    }
    X() requires(M == PLAIN || M == ARENA_OR_PLAIN || M == ALLOC_OR_PLAIN) { start(nullptr, nullptr); }
    template <IsVal... A> requires((M == PLAIN || M == ARENA_OR_PLAIN || M == ALLOC_OR_PLAIN) && sizeof...(A) > 0)
    explicit X(A&&... a) { start(nullptr, nullptr, std::forward<A>(a)...); }
    template <IsVal... A> requires(M == ARENA || M == ARENA_OR_PLAIN)
    explicit X(Arena& ar, A&&... a) { start(&ar, nullptr, std::forward<A>(a)...); }
    template <IsAlloc R> requires(M == ALLOC || M == ALLOC_OR_PLAIN)
    explicit X(R&& r) { start(nullptr, std::pmr::polymorphic_allocator<>(r).resource()); }
    template <IsVal A, IsAlloc R> requires(M == ALLOC || M == ALLOC_OR_PLAIN)
    X(A&& a, R&& r) { start(nullptr, std::pmr::polymorphic_allocator<>(r).resource(), std::forward<A>(a)); }
    template <IsVal A, IsVal B, IsAlloc R> requires(M == ALLOC || M == ALLOC_OR_PLAIN)
    X(A&& a, B&& b, R&& r) { start(nullptr, std::pmr::polymorphic_allocator<>(r).resource(), std::forward<A>(a), std::forward<B>(b)); }
    template <IsVal A, IsVal B, IsVal C, IsAlloc R> requires(M == ALLOC || M == ALLOC_OR_PLAIN)
    X(A&& a, B&& b, C&& c, R&& r) { start(nullptr, std::pmr::polymorphic_allocator<>(r).resource(), std::forward<A>(a), std::forward<B>(b), std::forward<C>(c)); }
    X(const X&) = delete;
    void end() {
        if (magic != 0x1234ABCD) mc::fail("a destructor was run on something that is not a live object");
        magic = 0xDEADDEAD;
        gone.push_back(this);
    }
    ~X() requires(T != NOTAG) { end(); }
    ~X() requires(T == NOTAG) = default;
};
// aggregates and scalars
struct Pod { int a; char b; uint64_t c; };
struct Big { unsigned char b[70]; };
enum class En : uint16_t { Zero, One = 7 };

// ---------------------------------------------------------------- world
static Arena* ar;
alignas(Arena) static char mem[2][sizeof(Arena)];
static int cur;
struct Live { const void* p; size_t n; std::string bytes; };
static std::vector<Live> lives;
static std::vector<const void*> pending;  // objects whose destructor is to run, oldest first
struct Cfg { uint64_t init, normal, huge; };
static const Cfg cfgs[] = {{128, 128, 1024}, {256, 512, 4096}, {96, 256, 256}};
static void begin(const Cfg& c) {
    for (auto& b : blocks) free(b.p);
    blocks.clear(); made.clear(); gone.clear(); lives.clear(); pending.clear(); reported.clear();
    fault_mode = faults_left = failures = 0;
    Arena::Options o{};
    o.suggested_init_block_size = c.init;
    o.normal_block_size = c.normal;
    o.huge_block_size = c.huge;
    o.block_alloc = blk_alloc;
    o.block_dealloc = blk_dealloc;
    if (hooks) o.on_arena_allocation = hk_alloc;
    cur = 0;
    ar = new (mem[0]) Arena(o);
}
static void keep(const void* p, size_t n) { lives.push_back({p, n, std::string(static_cast<const char*>(p), n)}); }
static void post(const char* what) {
    mc::step();
    for (auto& l : lives) MC_CHECK(memcmp(l.p, l.bytes.data(), l.n) == 0, "after %s, an earlier object of %zu bytes has changed", what, l.n);
    MC_CHECK(gone.empty(), "a destructor ran during %s", what);
    mc::state(mc::Hash().add(blocks.size()).add(ar->SpaceRemains()).add(lives.size()).add(pending.size()).add(uint64_t(cur)));
}
static void check_gone(const char* what) {
    std::vector<const void*> want(pending.rbegin(), pending.rend());
    MC_CHECK(gone == want, "%s: %zu destructors ran, expected %zu, newest first", what, gone.size(), want.size());
    gone.clear(); pending.clear(); lives.clear();
}
static void reset() { MC_NOTE("Reset()"); ar->Reset(); mc::step(); check_gone("Reset()"); }
static void destroy() {
    ar->~Arena();
    mc::step();
    check_gone("destruction");
    MC_CHECK(blocks.empty(), "a block was not returned");
}
static void move_arena() {
    MC_NOTE("the arena is moved");
    Arena* to = new (mem[1 - cur]) Arena(std::move(*ar));
    ar->~Arena();
    ar = to;
    cur = 1 - cur;
    post("the move");
}
static const char* cat_name[] = {"lvalue", "const lvalue", "rvalue", "const rvalue"};
template <class T, int Max, class... A>
static T* call(const int* cats, int n, A&&... a) {
    constexpr int k = sizeof...(A);
    if (k == n) return ar->Create<T>(std::forward<A>(a)...);
    if constexpr (k < Max) {
        Val& x = vals[k];
        switch (cats[k]) {
            case LV: return call<T, Max>(cats, n, std::forward<A>(a)..., x);
            case CLV: return call<T, Max>(cats, n, std::forward<A>(a)..., std::as_const(x));
            case RV: return call<T, Max>(cats, n, std::forward<A>(a)..., std::move(x));
            default: return call<T, Max>(cats, n, std::forward<A>(a)..., std::move(std::as_const(x)));
        }
    }
    return nullptr;
}
static void check_rec(const Rec& r, const void* self, const std::type_info* ty, int mode, int n, const int* cats, const char* w) {
    MC_CHECK(*r.type == *ty, "%s constructed another type", w);
    MC_CHECK(r.self == self, "%s constructed the object elsewhere", w);
    MC_CHECK(r.n == n, "%s: the constructor got %d arguments", w, r.n);
    for (int i = 0; i < n; ++i) {
        MC_CHECK(r.cats[i] == cats[i], "%s: argument %d arrives as %s", w, i, cat_name[r.cats[i]]);
        MC_CHECK(r.addr[i] == &vals[i], "%s: argument %d is not the object given", w, i);
    }
    bool a = mode == ARENA || mode == ARENA_OR_PLAIN, m = mode == ALLOC || mode == ALLOC_OR_PLAIN;
    MC_CHECK(r.arena == (a ? ar : nullptr), "%s: the constructor was %sgiven the arena", w, a ? "not " : "");
    MC_CHECK(r.res == (m ? ar->get_memory_resource() : nullptr), "%s: the constructor was %sgiven the memory resource", w, m ? "not " : "");
}
template <int M, int T, size_t Al, size_t Size, int Max>
static void create(int n, const int* cats) {
    using Ty = X<M, T, Al, Size>;
    char w[160];
    snprintf(w, sizeof w, "Create<mode %d, tag %d, %zu bytes aligned %zu>(%d arguments: %s %s %s)", M, T, sizeof(Ty), Al, n, n > 0 ? cat_name[cats[0]] : "", n > 1 ? cat_name[cats[1]] : "", n > 2 ? cat_name[cats[2]] : "");
    MC_NOTE("%s", w);
    made.clear(); failures = 0; reported.clear();
    if (n > Max) n = Max;
    Ty* p = call<Ty, Max>(cats, n);
    if (!p) {
        MC_CHECK(failures > 0, "%s was refused although no block request failed", w);
        MC_CHECK(made.size() <= 1 && (T == SKIP || T == BOTH || T == NOTAG ? made.empty() : gone.size() == made.size()), "%s was refused: %zu constructed, %zu destroyed", w, made.size(), gone.size());
        if (made.size() == 1) MC_CHECK(gone[0] == made[0].self, "%s was refused, the object destroyed is another one", w);
        MC_CHECK(reported.empty(), "%s was refused but reported", w);
        gone.clear();
    } else {
        MC_CHECK(made.size() == 1, "%s constructed %zu objects", w, made.size());
        MC_CHECK(in_blocks(p, sizeof(Ty)), "%s: the object is not in a block", w);
        MC_CHECK(uintptr_t(p) % alignof(Ty) == 0, "%s: the object is not aligned", w);
        check_rec(made[0], p, &typeid(Ty), M, n, cats, w);
        for (int i = 0; i < 3; ++i) MC_CHECK(p->v[i] == (i < n ? vals[i].v : 0) && p->n == n, "%s: the object does not hold its arguments", w);
        MC_CHECK(!hooks || (reported.size() == 1 && *reported[0].first == typeid(Ty) && reported[0].second == sizeof(Ty)), "%s was not reported once with its type and size", w);
        keep(p, sizeof(Ty));
        if (T == FULL) pending.push_back(p);
    }
    post(w);
}
template <class T, class F, class... A>
static void simple(const char* name, F same, A&&... a) {
    char w[100];
    snprintf(w, sizeof w, "Create<%s>(%zu arguments)", name, sizeof...(A));
    MC_NOTE("%s", w);
    failures = 0; reported.clear();
    T* p = ar->Create<T>(std::forward<A>(a)...);
    if (p) {
        MC_CHECK(in_blocks(p, sizeof(T)), "%s: not in a block", w);
        MC_CHECK(same(*p), "%s does not have the value given", w);
        MC_CHECK(!hooks || (reported.size() == 1 && *reported[0].first == typeid(T) && reported[0].second == sizeof(T)), "%s was not reported once with its type and size", w);
        if (std::is_trivially_destructible_v<T>) keep(p, sizeof(T));
    } else MC_CHECK(failures > 0, "%s was refused although no block request failed", w);
    post(w);
}
template <class T> struct Arr {
    static void run(const char* name, uint64_t n, int mode) {
        char w[100];
        snprintf(w, sizeof w, "CreateArray<%s>(%lu)", name, n);
        MC_NOTE("%s", w);
        made.clear(); failures = 0; reported.clear();
        T* p = ar->CreateArray<T>(n);
        if (!p) {
            MC_CHECK(failures > 0, "%s was refused although no block request failed", w);
            MC_CHECK(made.empty() && reported.empty(), "%s was refused but constructed something", w);
        } else {
            MC_CHECK(n == 0 || in_blocks(p, n * sizeof(T)), "%s: not in a block", w);
            MC_CHECK(uintptr_t(p) % alignof(T) == 0, "%s: not aligned", w);
            if (mode < 0) {
                for (uint64_t i = 0; i < n * sizeof(T); ++i) {
                    if constexpr (std::is_same_v<T, Pod>) { if (i % sizeof(T) == 5 || i % sizeof(T) == 6 || i % sizeof(T) == 7) continue; }
                    MC_CHECK(reinterpret_cast<char*>(p)[i] == 0, "%s: element %lu is not value-initialised", w, i / sizeof(T));
                }
            } else {
                MC_CHECK(made.size() == n, "%s constructed %zu elements", w, made.size());
                for (uint64_t i = 0; i < n; ++i) check_rec(made[i], p + i, &typeid(T), mode, 0, nullptr, w);
            }
            MC_CHECK(!hooks || (reported.size() == 1 && *reported[0].first == typeid(T) && reported[0].second == n * sizeof(T)), "%s was not reported once with its type and size", w);
            if (n) keep(p, n * sizeof(T));
        }
        post(w);
    }
};
using Fn = void (*)(int, const int*);
template <int M, size_t Al, size_t Sz> static void row(std::vector<Fn>& v) {
    v.push_back(create<M, NOTAG, Al, Sz, 2>);
    v.push_back(create<M, FULL, Al, Sz, Al == 8 ? 3 : 2>);
    v.push_back(create<M, SKIP, Al, Sz, 2>);
    v.push_back(create<M, BOTH, Al, Sz, 2>);
}
static std::vector<Fn> creators() {
    std::vector<Fn> v;
    row<PLAIN, 8, 8>(v); row<ARENA, 8, 8>(v); row<ARENA_OR_PLAIN, 8, 8>(v); row<ALLOC, 8, 8>(v); row<ALLOC_OR_PLAIN, 8, 8>(v);
    row<PLAIN, 4, 3>(v); row<PLAIN, 16, 1>(v); row<PLAIN, 32, 40>(v); row<ARENA, 32, 1>(v); row<ALLOC, 16, 70>(v);
    return v;
}
static const std::vector<Fn> all = creators();
using A = void (*)(const char*, uint64_t, int);
struct ArrK { const char* name; void (*f)(const char*, uint64_t, int); int mode; };
static const ArrK arrays[] = {
    {"int", Arr<int>::run, -1}, {"char", Arr<char>::run, -1}, {"Pod", Arr<Pod>::run, -1}, {"Big", Arr<Big>::run, -1}, {"pointer", Arr<void*>::run, -1}, {"enum", Arr<En>::run, -1},
    {"default-constructible", Arr<X<PLAIN, NOTAG, 8, 8>>::run, PLAIN}, {"given the arena", Arr<X<ARENA, NOTAG, 8, 8>>::run, ARENA}, {"given the arena if possible", Arr<X<ARENA_OR_PLAIN, NOTAG, 4, 1>>::run, ARENA_OR_PLAIN},
    {"given the resource", Arr<X<ALLOC, NOTAG, 8, 8>>::run, ALLOC}, {"given the resource if possible", Arr<X<ALLOC_OR_PLAIN, NOTAG, 16, 8>>::run, ALLOC_OR_PLAIN}, {"aligned 32", Arr<X<PLAIN, NOTAG, 32, 1>>::run, PLAIN}};
constexpr int narr = int(std::size(arrays));
static void simple_op(int k) {
    static int target;
    static const std::string_view text = "a text that is longer than anything kept in place, and then some more of it";
    switch (k) {
        case 0: simple<int>("int", [](int& x) { return x == 0; }); break;
        case 1: simple<int>("int", [](int& x) { return x == 5; }, 5); break;
        case 2: simple<Pod>("Pod", [](Pod& x) { return x.a == 0 && x.b == 0 && x.c == 0; }); break;
        case 3: simple<Pod>("Pod", [](Pod& x) { return x.a == 3 && x.b == 'x' && x.c == 0; }, 3, 'x'); break;
        case 4: simple<Pod>("Pod", [](Pod& x) { return x.a == 3 && x.b == 'x' && x.c == 9; }, 3, 'x', 9u); break;
        case 5: { Pod q{1, 'q', 2}; simple<Pod>("Pod", [](Pod& x) { return x.a == 1 && x.b == 'q' && x.c == 2; }, q); break; }
        case 6: simple<int*>("pointer", [](int*& x) { return x == &target; }, &target); break;
        case 7: simple<En>("enum", [](En& x) { return x == En::One; }, En::One); break;
        case 8: simple<Big>("Big", [](Big& x) { for (auto b : x.b) if (b) return false; return true; }); break;
        case 9: simple<std::pmr::string>("pmr::string", [](auto& x) { return std::string_view(x) == std::string(60, 'z') && x.get_allocator().resource() == ar->get_memory_resource() && in_blocks(x.data(), 60); }, size_t(60), 'z'); lives.clear(); break;
        case 10: simple<std::pmr::string>("pmr::string", [](auto& x) { return x.empty() && x.get_allocator().resource() == ar->get_memory_resource(); }); lives.clear(); break;
        case 11: simple<std::pmr::vector<int>>("pmr::vector<int>", [](auto& x) { return x == std::pmr::vector<int>{7, 7, 7} && x.get_allocator().resource() == ar->get_memory_resource() && in_blocks(x.data(), 12); }, size_t(3), 7); lives.clear(); break;
        case 12: { std::initializer_list<int> il = {3, 1, 2}; simple<std::pmr::set<int>>("pmr::set<int>", [](auto& x) { return x.size() == 3 && *x.begin() == 1 && x.get_allocator().resource() == ar->get_memory_resource(); }, il); lives.clear(); break; }
        case 13: simple<arena_string>("arena_string", [](auto& x) { return std::string_view(x) == text && std::string_view(x.c_str()) == text && in_blocks(x.data(), text.size() + 1); }, text.data(), text.size()); lives.clear(); break;
        case 14: simple<arena_string>("arena_string", [](auto& x) { return x.empty() && x.c_str()[0] == 0; }); lives.clear(); break;
        case 15: simple<string>("string", [](auto& x) { return std::string_view(x) == text; }, text.data(), text.size()); lives.clear(); break;
        case 16: simple<std::variant<int, string>>("variant<int, string>", [](auto& x) { return std::holds_alternative<string>(x) && std::string_view(std::get<1>(x)) == text; }, string(text.data(), text.size())); lives.clear(); break;
        case 17: simple<std::variant<int, arena_string>>("variant<int, arena_string>", [](auto& x) { return std::holds_alternative<arena_string>(x) && std::string_view(std::get<1>(x)) == text && in_blocks(std::get<1>(x).data(), text.size() + 1); }, arena_string(text.data(), text.size(), ar->get_memory_resource())); lives.clear(); break;
        case 18: simple<std::variant<int, string>>("variant<int, string>", [](auto& x) { return std::holds_alternative<int>(x) && std::get<0>(x) == 0; }); lives.clear(); break;
    }
}
constexpr int nsimple = 19;

void mc_spaces(const std::string&) {
    bool th = mc::thorough();
    // 1 + 4 + 16 + 64 argument lists
    mc::add("C32", "every class x every list of up to 3 arguments x state of the arena x failing blocks", all.size() * 85, [th](uint64_t t) {
        int cats[3], n = 0;
        uint64_t a = t % 85;
        if (a >= 21) { n = 3; a -= 21; } else if (a >= 5) { n = 2; a -= 5; } else if (a >= 1) { n = 1; a -= 1; }
        for (int i = 0; i < n; ++i) { cats[i] = int(a % 4); a /= 4; }
        if (n == 3 && (t / 85 >= 20 || t / 85 % 4 != FULL)) return;  // 3 arguments for 5 classes
        hooks = choose(2);
        begin(cfgs[choose(3)]);
        int lvl = choose(th ? 34 : 18);
        if (lvl && !ar->AllocateAligned(uint64_t(lvl - 1) * (th ? 8 : 16))) mc::fail("refused");
        if (choose(2)) move_arena();
        fault_mode = 1;
        faults_left = 2;
        all[t / 85](n, cats);
        all[t / 85](n, cats);
        if (choose(2)) { reset(); all[t / 85](n, cats); }
        destroy();
    });
    mc::add("C32", "scalars, aggregates and standard containers: values and resources", nsimple * 34, [](uint64_t t) {
        hooks = choose(2);
        begin(cfgs[choose(3)]);
        if (t / nsimple && !ar->AllocateAligned((t / nsimple - 1) * 8)) mc::fail("refused");
        if (choose(2)) move_arena();
        simple_op(int(t % nsimple));
        simple_op(choose(nsimple));
        if (choose(2)) { reset(); simple_op(int(t % nsimple)); }
        destroy();
    });
    mc::add("C32", "arrays of every length", narr * (th ? 400 : 130), [](uint64_t t) {
        auto& k = arrays[t % narr];
        hooks = choose(2);
        begin(cfgs[choose(3)]);
        int lvl = choose(6);
        if (lvl && !ar->AllocateAligned(uint64_t(lvl - 1) * 24)) mc::fail("refused");
        if (choose(2)) move_arena();
        fault_mode = 1;
        faults_left = 2;
        k.f(k.name, t / narr, k.mode);
        k.f(k.name, choose(3), k.mode);
        if (choose(2)) { reset(); k.f(k.name, t / narr, k.mode); }
        destroy();
    });
    mc::add("C32", "histories of creations, resets and moves with failing blocks", (all.size() + narr) * 3, [th](uint64_t t) {
        hooks = 1;
        begin(cfgs[t % 3]);
        fault_mode = 1;
        faults_left = th ? 3 : 2;
        auto op = [&](uint64_t k) {
            int cats[3] = {int(k % 4), LV, RV};
            if (k < all.size()) all[k](int(k % 3), cats);
            else if (k < all.size() + narr) arrays[k - all.size()].f(arrays[k - all.size()].name, 1 + k % 4, arrays[k - all.size()].mode);
            else if (k == all.size() + narr) reset();
            else move_arena();
        };
        op(t / 3);
        for (int d = 0; d < (th ? 3 : 2); ++d) {
            int c = choose(int(all.size()) + narr + 3);
            if (!c) break;
            op(uint64_t(c - 1));
        }
        destroy();
    });
}
int main(int c, char** v) { return mc::main_(c, v); }
