V = "container/stdb_vector.hpp"
HEAD = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#include "container/stdb_vector.hpp"
using stdb::container::stdb_vector;
#define REQUIRE(c, ...) do { if (!(c)) { fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); _Exit(1); } } while (0)
"""
SEEDS = [
    dict(id="c20-destructible-means-relocatable", prop="C20",
         needs="elements with a move constructor of their own but no destructor (pointing into themselves, say), and storage that grows or shifts",
         breaks="they are moved byte-wise",
         edits=[(V, "  std::is_trivially_copyable_v<T> || std::is_trivially_move_constructible_v<T> || Relocatable<T>::value;",
                    "  std::is_trivially_copyable_v<T> || std::is_trivially_move_constructible_v<T> ||\n  (std::is_trivially_destructible_v<T> && std::is_nothrow_move_constructible_v<T>) || Relocatable<T>::value;")],
         demo=HEAD + r"""
struct Self {
    Self* me = this;
    int v;
    Self(int x) : v(x) {}
    Self(const Self& o) : v(o.v) {}
    Self(Self&& o) noexcept : v(o.v) {}
    Self& operator=(const Self& o) { v = o.v; return *this; }
};
int main() {
    stdb_vector<Self> v;
    for (int i = 0; i < 100; ++i) v.emplace_back(i);
    for (auto& s : v) REQUIRE(s.me == &s, "element %d was not moved by its move constructor", s.v);
}
"""),
    dict(id="c20-insert-range-before-tail", prop="C20",
         needs="inserting a range at exactly its own length before the end, with room",
         breaks="the element there is not shifted as a whole",
         edits=[(V, "        if (pos_ptr + count >= this->_finish) {\n            this->move_forward(pos_ptr + count, pos_ptr);\n        } else {\n            this->move_backward(pos_ptr + count, pos_ptr);\n        }\n        gap_guard gap(*this, pos_ptr, size_to_insert);",
                    "        if (pos_ptr + count + 1 >= this->_finish) {\n            this->move_forward(pos_ptr + count, pos_ptr);\n        } else {\n            this->move_backward(pos_ptr + count, pos_ptr);\n        }\n        gap_guard gap(*this, pos_ptr, size_to_insert);")],
         flags="-O1 -g -DNDEBUG",
         demo=HEAD + r"""
int main() {
    for (size_t n = 1; n < 8; ++n)
        for (size_t p = 0; p <= n; ++p)
            for (size_t k = 1; k < 8; ++k) {
                stdb_vector<std::string> v;
                std::vector<std::string> w, in;
                v.reserve(20);
                for (size_t i = 0; i < n; ++i) { v.push_back("a rather long element " + std::to_string(i)); w.push_back(v[i]); }
                for (size_t i = 0; i < k; ++i) in.push_back("another rather long element " + std::to_string(i));
                v.insert(v.cbegin() + long(p), in.begin(), in.end());
                w.insert(w.begin() + long(p), in.begin(), in.end());
                for (size_t i = 0; i < w.size(); ++i) REQUIRE(v[i] == w[i], "element %zu after inserting %zu at %zu of %zu", i, k, p, n);
            }
}
"""),
    dict(id="c21-assign-empty-forgets", prop="C21", flags="-O1 -g -fsanitize=address",
         needs="copy-assigning an empty vector to one which has elements",
         breaks="the old elements are never destroyed",
         edits=[(V, "            // if other's size is smaller than current capacity, we can just copy data\n            // destroy old data\n            destroy_range(_start, _finish);\n",
                    "            // if other's size is smaller than current capacity, we can just copy data\n            if (new_size > 0) {\n                // destroy old data\n                destroy_range(_start, _finish);\n            }\n")],
         demo=HEAD + r"""
static int alive = 0;
struct E { E() { ++alive; } E(const E&) { ++alive; } E(E&&) noexcept { ++alive; } ~E() { --alive; } };
int main() {
    stdb_vector<E> none;
    { stdb_vector<E> v(3); v = none; }
    REQUIRE(alive == 0, "%d elements were never destroyed", alive);
}
"""),
    dict(id="c22-shrink-keeps-little", prop="C22",
         needs="shrinking a vector whose capacity is only a little larger than its size",
         breaks="the capacity stays above the size",
         edits=[(V, "        if (size == capacity()) [[unlikely]] {\n            return;", "        if (capacity() - size < 2) [[unlikely]] {\n            return;")],
         demo=HEAD + r"""
int main() {
    stdb_vector<int> v;
    v.reserve(11);
    for (int i = 0; i < 10; ++i) v.push_back(i);
    v.shrink_to_fit();
    REQUIRE(v.capacity() == 10, "capacity %zu for 10 elements", v.capacity());
}
"""),
    dict(id="c23-size-before-elements", prop="C23",
         needs="an element constructor that throws while the vector is constructed from a range",
         breaks="elements which were never made, or destroyed already, are destroyed again",
         edits=[(V, "            this->allocate((size_type)size);  // NOLINT\n            copy_from_iterator(this->_start, first, last);\n            this->_finish = this->_start + size;\n",
                    "            this->allocate((size_type)size);  // NOLINT\n            this->_finish = this->_edge;\n            copy_from_iterator(this->_start, first, last);\n")],
         demo=HEAD + r"""
static int left = 5, alive = 0;
struct E { int v = 1; E() { ++alive; } E(const E&) { if (left-- == 0) throw std::runtime_error("x"); ++alive; } E(E&&) noexcept { ++alive; } ~E() { --alive; } };
int main() {
    std::vector<E>* in = new std::vector<E>(20);
    alive = 0;
    try { stdb_vector<E> v(in->begin(), in->end()); } catch (std::runtime_error&) {}
    REQUIRE(alive == 0, "%d elements alive", alive);
}
"""),
    dict(id="c24-push-back-of-own-element-by-move", prop="C24", flags="-O1 -g -fsanitize=address",
         needs="push_back(std::move(v[i])) when the vector is full",
         breaks="the element is read after its storage was freed",
         edits=[(V, "                this->realloc_and_emplace_back(compute_next_capacity(), std::forward<rvalue_reference>(value));",
                    "                this->realloc_with_old_data(compute_next_capacity());\n                copy_value(this->_finish, std::forward<rvalue_reference>(value));\n                ++this->_finish;")],
         demo=HEAD + r"""
int main() {
    const std::string m = "a string which is too long to be stored in place";
    stdb_vector<std::string> v;
    for (int i = 0; i < 200; ++i) {
        v.push_back(std::string(m));
        if (v.size() > 3) v.push_back(std::move(v[1]));
        if (v.size() > 3) { REQUIRE(v.back() == m || v.back().empty(), "moved element"); v[1] = m; }
    }
}
"""),
    dict(id="c25-shorter-vectors-first", prop="C25",
         needs="comparing vectors of different lengths whose elements have no <=> of their own",
         breaks="the shorter one comes first whatever the elements are",
         edits=[(V, "    for (std::size_t i = 0; i < std::min(lhs.size(), rhs.size()); ++i) {\n        if (lhs[i] < rhs[i]) {\n            return std::strong_ordering::less;",
                    "    for (std::size_t i = 0; i < lhs.size() && lhs.size() == rhs.size(); ++i) {\n        if (lhs[i] < rhs[i]) {\n            return std::strong_ordering::less;")],
         demo=HEAD + r"""
struct E { int v; bool operator<(const E& o) const { return v < o.v; } bool operator>(const E& o) const { return v > o.v; } bool operator==(const E& o) const { return v == o.v; } };
int main() {
    stdb_vector<E> a, b;
    a.push_back(E{2});
    b.push_back(E{1});
    b.push_back(E{1});
    REQUIRE(a > b, "{2} is not greater than {1, 1}");
}
"""),
]
