// Arena strings for strlib.hpp: the memory resource is either exact (every request its own heap block, so that ASan sees
// every byte out of place) or a stdb Arena with recorded blocks; anything else that allocates is a violation. In mode 2 it is the default memory
// resource (which strings refuse in debug builds): a ledger that wants every allocation back, once and with its size.
#pragma once
#include <memory_resource>
#include "mc.hpp"
namespace ares {
struct Exact : std::pmr::memory_resource {
    int id;
    explicit Exact(int i) : id(i) {}
    void* do_allocate(size_t n, size_t al) override;
    void do_deallocate(void*, size_t, size_t) override {}
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
std::pmr::memory_resource* get(int id);        // the resource of arena 0 or 1
bool owns(const std::pmr::memory_resource* r, const void* p, size_t n);
void use_arena(bool real);                     // for the spaces registered from now on
void reset();                                  // drops everything handed out (start of a path)
void drop(int id);                             // destroys arena id: its memory becomes inaccessible
inline int mode = 0;                           // 0: exact, 1: Arena, 2: the default resource (get(1): exact)
}  // namespace ares
#include "strlib.hpp"
namespace sl {
template <int Mode>
struct ArenaX {
    using Char = char;
    using S = stdb::memory::arena_string;
    using M = std::string;
    static constexpr bool arena = true, ledger = Mode == 2;
    static std::pmr::polymorphic_allocator<char> al() { ares::mode = Mode; return ares::get(0); }
    static bool owns(const std::pmr::memory_resource* r, const void* p, size_t n) { return ares::owns(r, p, n); }
    static constexpr size_t small = 23, medium = 254;
};
}  // namespace sl
