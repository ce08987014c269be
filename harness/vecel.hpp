// Element types for the vector checks. Every class-type element registers itself in a table, so that the number of live
// elements, use of dead or never constructed slots, double destruction and elements which own the same thing are seen.
#pragma once
#include <compare>
#include <cstring>
#include <new>
#include <string>

#include "container/stdb_vector.hpp"
#include "heap.hpp"
#include "mc.hpp"
#ifdef VEC_WITH_STRING
#include "string/string.hpp"
#endif

namespace el {
enum St : uint8_t { NONE, LIVE, MOVED, DEAD };
struct Ent { St st; int val; const void* addr; };
constexpr uint32_t kMax = 1 << 20;
inline Ent ents[kMax];
inline uint32_t next = 1;
inline int64_t live = 0;
inline int64_t copies = 0, copy_fail_at = -1;  // element constructions that may fail, and the one which does
inline uint64_t copy_failed = 0;
inline bool lifetimes = true;  // report wrong lifetimes (otherwise only what reads wrong)

inline void begin() {
    next = 1;
    live = 0;
    copies = 0;
    copy_fail_at = -1;
    copy_failed = 0;
}
inline void may_fail() {
    if (copies++ == copy_fail_at) { ++copy_failed; throw std::bad_alloc(); }
}
struct Thrown {};
inline int64_t compares = -1, compare_fail_at = -1;
inline void may_fail_compare() {
    if (compare_fail_at >= 0 && compares++ == compare_fail_at) { compare_fail_at = -1; throw Thrown(); }
}
constexpr uint32_t kTag = 0xE1E3E77u;

// Reg: address-bound unless kAnywhere (elements which may be moved as bytes)
template <bool kAnywhere>
struct Reg {
    uint32_t id;
    uint32_t tag;
    const Ent& check(const char* what) const {
        if (tag != kTag || id == 0 || id >= next) mc::fail("%s a slot which holds no element", what);
        const Ent& e = ents[id];
        if (e.st == DEAD) mc::fail("%s an element which was already destroyed", what);
        if (!kAnywhere && e.addr != this) mc::fail("%s bytes of an element which lives elsewhere", what);
        return e;
    }
    void born(int v) {
        if (next == kMax) mc::internal("element table full");
        id = next++;
        tag = kTag;
        ents[id] = {LIVE, v, this};
        ++live;
    }
    void die() {
        check("destroyed");
        ents[id].st = DEAD;
        --live;
    }
    int read(const char* what = "read") const {
        const Ent& e = check(what);
        if (e.st == MOVED) mc::fail("%s an element which was moved away", what);
        return e.val;
    }
    void take_from(Reg& r) {
        Ent e = r.check("moved from");
        ents[r.id].st = MOVED;
        born(e.val);
        ents[id].st = e.st;  // what was moved away already has nothing to give
    }
    void assign(int v) {
        check("assigned to");
        ents[id].st = LIVE;
        ents[id].val = v;
    }
    int value() const { return read(); }
    bool moved() const { return check("read").st == MOVED; }
};
#define EL_COMMON(N)                                                                                   \
    explicit N(int v) { may_fail(); born(v); }                                                         \
    N(int a, int b) { may_fail(); born(a * 10 + b); }                                                  \
    N() { may_fail(); born(0); }                                                                       \
    ~N() { die(); }                                                                                    \
    friend bool operator==(const N& a, const N& b) { may_fail_compare(); return a.read("compared") == b.read("compared"); } \
    friend auto operator<=>(const N& a, const N& b) { return a.read("compared") <=> b.read("compared"); }

// copy (may throw) and nothrow move
struct Mov : Reg<false> {
    EL_COMMON(Mov)
    Mov(const Mov& r) { may_fail(); born(r.read("copied")); }
    Mov(Mov&& r) noexcept { take_from(r); }
    Mov& operator=(const Mov& r) { int v = r.read("copied"); may_fail(); assign(v); return *this; }
    Mov& operator=(Mov&& r) noexcept { int v = r.read("moved from"); if (this != &r) { ents[r.id].st = MOVED; assign(v); } return *this; }
};
struct Mo : Reg<false> {  // move only
    EL_COMMON(Mo)
    Mo(const Mo&) = delete;
    Mo(Mo&& r) noexcept { take_from(r); }
    Mo& operator=(const Mo&) = delete;
    Mo& operator=(Mo&& r) noexcept { int v = r.read("moved from"); if (this != &r) { ents[r.id].st = MOVED; assign(v); } return *this; }
};
struct Co : Reg<false> {  // copy only, moving is deleted
    EL_COMMON(Co)
    Co(const Co& r) { may_fail(); born(r.read("copied")); }
    Co(Co&&) = delete;
    Co& operator=(const Co&) = delete;
};
struct Ci : Reg<false> {  // no move constructor of its own: moving copies
    EL_COMMON(Ci)
    Ci(const Ci& r) noexcept { born(r.read("copied")); }
    Ci& operator=(const Ci& r) { int v = r.read("copied"); assign(v); return *this; }
};
struct Re : Reg<true> {  // declared relocatable, owns something
    EL_COMMON(Re)
    Re(const Re& r) { may_fail(); born(r.read("copied")); }
    Re(Re&& r) noexcept { take_from(r); }
    Re& operator=(const Re& r) { int v = r.read("copied"); may_fail(); assign(v); return *this; }
    Re& operator=(Re&& r) noexcept { int v = r.read("moved from"); if (this != &r) { ents[r.id].st = MOVED; assign(v); } return *this; }
};
struct Rm : Reg<true> {  // declared relocatable, move only
    EL_COMMON(Rm)
    Rm(const Rm&) = delete;
    Rm(Rm&& r) noexcept { take_from(r); }
    Rm& operator=(const Rm&) = delete;
    Rm& operator=(Rm&& r) noexcept { int v = r.read("moved from"); if (this != &r) { ents[r.id].st = MOVED; assign(v); } return *this; }
};
// declared zero-initialisable and relocatable; all zero bytes are the value 0, which owns nothing
struct Zi {
    uint32_t id = 0, tag = 0;
    Zi() noexcept {}
    explicit Zi(int v) { may_fail(); set(v); }
    Zi(int a, int b) : Zi(a * 10 + b) {}
    Zi(const Zi& r) { int v = r.value(); may_fail(); set(v); }
    Zi(Zi&& r) noexcept : id(r.id), tag(r.tag) { r.value(); r.id = r.tag = 0; }
    Zi& operator=(const Zi& r) { int v = r.value(); if (this != &r) { may_fail(); drop(); set(v); } return *this; }
    Zi& operator=(Zi&& r) noexcept { r.value(); if (this != &r) { drop(); id = r.id; tag = r.tag; r.id = r.tag = 0; } return *this; }
    ~Zi() { drop(); tag = 0xdead; }
    void set(int v) {
        id = tag = 0;
        if (v == 0) return;
        if (next == kMax) mc::internal("element table full");
        id = next++;
        tag = kTag;
        ents[id] = {LIVE, v, this};
        ++live;
    }
    void drop() {
        value();
        if (id) { ents[id].st = DEAD; --live; }
        id = tag = 0;
    }
    int value() const {
        if (id == 0 && tag == 0) return 0;
        if (tag != kTag || id == 0 || id >= next) mc::fail("used a slot which holds no element");
        if (ents[id].st != LIVE) mc::fail("used an element which was already destroyed");
        return ents[id].val;
    }
    friend bool operator==(const Zi& a, const Zi& b) { may_fail_compare(); return a.value() == b.value(); }
    friend auto operator<=>(const Zi& a, const Zi& b) { return a.value() <=> b.value(); }
};
// points to itself: moving the bytes is not moving, although there is nothing to destroy
struct Sp {
    const Sp* self;
    int v;
    Sp() : self(this), v(0) {}
    explicit Sp(int x) : self(this), v(x) { may_fail(); }
    Sp(int x, int y) : self(this), v(x * 10 + y) { may_fail(); }
    Sp(const Sp& r) : self(this), v(r.value()) { may_fail(); }
    Sp(Sp&& r) noexcept : self(this), v(r.at_home().v) { r.v = -7777; }
    Sp& operator=(const Sp& r) { v = r.value(); at_home(); return *this; }
    Sp& operator=(Sp&& r) noexcept { int x = r.at_home().v; if (this != &r) { r.v = -7777; at_home(); v = x; } return *this; }
    const Sp& at_home() const { if (self != this) mc::fail("element was moved as bytes, or used before it was constructed"); return *this; }
    int value() const { if (at_home().v == -7777) mc::fail("read an element which was moved away"); return v; }
    friend bool operator==(const Sp& a, const Sp& b) { may_fail_compare(); return a.value() == b.value(); }
    friend auto operator<=>(const Sp& a, const Sp& b) { return a.value() <=> b.value(); }
};
// trivial types
struct P2 {
    int a, b;
    P2() = default;
    explicit P2(int v) : a(v), b(~v) {}
    P2(int x, int y) : a(x * 10 + y), b(~a) {}
    friend bool operator==(const P2&, const P2&) = default;
    friend auto operator<=>(const P2&, const P2&) = default;
};
struct Grade {  // one byte, and converts to a number which is not that byte
    unsigned char c;
    Grade() = default;
    explicit Grade(int v) : c((unsigned char)(v == 0 ? 0 : 100 + v)) {}
    Grade(int x, int y) : Grade(x * 10 + y) {}
    explicit operator int() const { return c == 0 ? 0 : c - 100; }
    friend bool operator==(const Grade&, const Grade&) = default;
    friend auto operator<=>(const Grade&, const Grade&) = default;
};
struct Kon {  // trivially copyable, can not be assigned
    const int a;
    Kon() : a(0) {}
    explicit Kon(int v) : a(v) {}
    Kon(int x, int y) : a(x * 10 + y) {}
    friend bool operator==(const Kon&, const Kon&) = default;
    friend auto operator<=>(const Kon&, const Kon&) = default;
};
struct Body { int f[300]; };
using Mp = int Body::*;
template <size_t N>
struct Big {  // trivial, any size
    unsigned char b[N];
    Big() = default;
    explicit Big(int v) { memset(b, v, N); }
    Big(int x, int y) : Big(x * 10 + y) {}
    friend bool operator==(const Big& x, const Big& y) { return memcmp(x.b, y.b, N) == 0; }
    friend auto operator<=>(const Big& x, const Big& y) { return memcmp(x.b, y.b, N) <=> 0; }
};

template <class T> constexpr const char* name = "?";
template <> inline constexpr const char* name<int> = "int";
template <> inline constexpr const char* name<unsigned char> = "byte";
template <> inline constexpr const char* name<bool> = "bool";
template <> inline constexpr const char* name<Mov> = "movable";
template <> inline constexpr const char* name<Mo> = "move-only";
template <> inline constexpr const char* name<Co> = "copy-only";
template <> inline constexpr const char* name<Ci> = "copied-when-moved";
template <> inline constexpr const char* name<Re> = "relocatable";
template <> inline constexpr const char* name<Rm> = "relocatable-move-only";
template <> inline constexpr const char* name<Zi> = "zero-initialisable";
template <> inline constexpr const char* name<Sp> = "self-pointing";
template <> inline constexpr const char* name<P2> = "pair";
template <> inline constexpr const char* name<Grade> = "one-byte-class";
template <> inline constexpr const char* name<Kon> = "unassignable";
template <> inline constexpr const char* name<Mp> = "member-pointer";
template <> inline constexpr const char* name<std::string> = "std::string";

// value <-> element; 0 is the value of a value-initialised element
template <class T> struct Tr {
    static T make(int v) { if constexpr (std::is_same_v<T, bool>) return v != 0; else return T(v); }
    static int arg(int v) { return v; }
    static int norm(int v) { return std::is_same_v<T, bool> ? v != 0 : v; }
};
template <> struct Tr<Mp> {
    static Mp make(int v) {
        if (v == 0) return nullptr;
        Mp p;
        long off = long(v) * 4;
        memcpy(&p, &off, sizeof p);
        return p;
    }
    static Mp arg(int v) { return make(v); }
    static int norm(int v) { return v; }
};
inline std::string text_of(int v) { return v == 0 ? std::string() : "value number " + std::to_string(v) + " which does not fit inside"; }
template <> struct Tr<std::string> {
    static std::string make(int v) { return text_of(v); }
    static std::string arg(int v) { return text_of(v); }
    static int norm(int v) { return v; }
};
#ifdef VEC_WITH_STRING
template <> inline constexpr const char* name<stdb::memory::string> = "memory::string";
template <> struct Tr<stdb::memory::string> {
    static stdb::memory::string make(int v) { auto s = text_of(v); return stdb::memory::string(s.data(), s.size()); }
    static stdb::memory::string arg(int v) { return make(v); }
    static int norm(int v) { return v; }
};
#endif
template <class T> int value(const T& t) {
    if constexpr (std::is_integral_v<T>) return int(t);
    else if constexpr (std::is_same_v<T, P2>) { if (t.a == 0 && t.b == 0) return 0; if (t.b != ~t.a) mc::fail("element torn"); return t.a; }
    else if constexpr (std::is_same_v<T, Grade>) return int(t);
    else if constexpr (std::is_same_v<T, Kon>) return t.a;
    else if constexpr (std::is_same_v<T, Mp>) { if (t == nullptr) return 0; long o; memcpy(&o, &t, sizeof o); return o == 0 ? -1000 : int(o / 4); }
    else if constexpr (requires { t.size(); t.c_str(); }) {
        std::string s(t.data(), t.size());
        if (s.empty()) return 0;
        int v = atoi(s.c_str() + 13);
        if (s.compare(0, 13, "value number ") != 0 || s != text_of(v)) mc::fail("element holds \"%s\"", s.c_str());
        return v;
    } else if constexpr (requires { t.b[0]; }) {
        for (auto c : t.b) if (c != t.b[0]) mc::fail("element torn");
        return t.b[0];
    } else return t.value();
}
template <class T> constexpr bool tracked = requires(const T& t) { t.id; };
template <class T> constexpr bool copyable = std::is_copy_constructible_v<T>;
template <class T> constexpr bool movable = std::is_move_constructible_v<T>;
}  // namespace el
namespace stdb {
template <> struct Relocatable<el::Re> : std::true_type {};
template <> struct Relocatable<el::Rm> : std::true_type {};
template <> struct Relocatable<el::Zi> : std::true_type {};
template <> struct ZeroInitable<el::Zi> : std::true_type {};
}  // namespace stdb
