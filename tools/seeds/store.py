F = "optparse/optparse.hpp"
HEAD = r"""#include <cstdio>
#include <cstdlib>
#include <string>
#include "optparse/optparse.hpp"
#define REQUIRE(c, ...) do { if (!(c)) { fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); exit(1); } } while (0)
using namespace stdb::optparse;
"""
SEEDS = [
    dict(id="c34-empty-list-forgotten", prop="C34", srcs="optparse/*.cc",
         needs="an empty list appended to a destination which holds no list yet",
         breaks="the destination has no list afterwards although it counts as set",
         edits=[(F, "        if (lit == _list_values.end()) {\n            _list_values[key] = vector<Value>{values};\n",
                    "        if (lit == _list_values.end()) {\n            for (const auto& val : values) {\n                _list_values[key].push_back(val);\n            }\n")],
         demo=HEAD + r"""
int main() {
    ValueStore s;
    s.append("a", {Value(string("x")), Value(2)});
    s.append("a", {Value(3)});
    REQUIRE(s.get_list("a") && s.get_list("a")->size() == 3, "three values");
    s.append("b", {});
    REQUIRE(s.user_set("b"), "set");
    REQUIRE(s.get_list("b") && s.get_list("b")->size() == 0, "an empty list");
}
"""),
    dict(id="c34-count-of-a-listed-destination", prop="C34", srcs="optparse/*.cc",
         needs="a destination which received list values and is then counted",
         breaks="the first count is refused with an exception",
         edits=[(F, "        if (vit == _values.end()) {\n            _values[key] = 1;\n        } else {\n            _values[key] = std::get<int>(vit->second) + 1;\n",
                    "        if (!user_set(key)) {\n            _values[key] = 1;\n        } else {\n            _values[key] = vit == _values.end() ? std::get<int>(_values[key]) + 1 : std::get<int>(vit->second) + 1;\n")],
         demo=HEAD + r"""
int main() {
    ValueStore s;
    s.increment("a");
    s.increment("a");
    REQUIRE(s.get<int>("a") == 2, "counted twice");
    s.append("b", Value(string("x")));
    try { s.increment("b"); } catch (const std::exception& e) { REQUIRE(false, "counting threw"); }
    REQUIRE(s.get<int>("b") == 1 && s.get_list("b")->size() == 1, "one count, one value");
}
"""),
]
