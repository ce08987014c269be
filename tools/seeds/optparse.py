C = "optparse/optparse.cc"
O = "optparse/optparse.hpp"
HEAD = r"""
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include "optparse/optparse.hpp"
using namespace stdb::optparse;
#define REQUIRE(c, ...) do { if (!(c)) { fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); _Exit(1); } } while (0)
static ValueStore parse(OptionParser& p, std::vector<const char*> a) { a.insert(a.begin(), "prog"); static std::vector<std::vector<const char*>> keep; keep.push_back(a); return p.parse_args(int(a.size()), keep.back().data()); }
"""
S = "optparse/optparse.cc"
SEEDS = [
    dict(id="c26-value-after-last-equals", prop="C26", srcs=S,
         needs="name=value with another = in the value",
         breaks="only what follows the last = is stored",
         edits=[(C, "    auto delim = opt.find('=');\n    if (delim == string::npos) {\n        return {};", "    auto delim = opt.rfind('=');\n    if (delim == string::npos) {\n        return {};")],
         demo=HEAD + r"""
int main() {
    OptionParser p;
    p.add_option("--name").action(Action::Store).type(Type::String);
    auto v = parse(p, {"--name=a=b"});
    REQUIRE(*v.get<std::string>("name") == "a=b", "value %s", v.get<std::string>("name")->c_str());
}
"""),
    dict(id="c26-list-drops-last-repeat", prop="C26", srcs=S,
         needs="a comma separated list which begins and ends with the same value",
         breaks="the last value is lost",
         edits=[(C, "            // split the string by ',' to get the arg values\n            auto values = split(str_val, \",\", true);\n            for (auto& val : values) {",
                    "            // split the string by ',' to get the arg values\n            auto values = split(str_val, \",\", true);\n            if (values.size() > 1 and values.front() == values.back()) {\n                values.pop_back();\n            }\n            for (auto& val : values) {")],
         demo=HEAD + r"""
int main() {
    OptionParser p;
    p.add_option("--name").action(Action::Append).type(Type::String);
    auto v = parse(p, {"--name=a,b,a"});
    REQUIRE(v.get_list("name")->size() == 3, "%zu values of a,b,a", v.get_list("name")->size());
}
"""),
    dict(id="c27-leftovers-of-last-parse", prop="C27", srcs=S,
         needs="parsing a list of strings with a parser that was used before",
         breaks="the leftovers of the earlier parse are listed again",
         edits=[(C, "    // once parse args, clear all invalid_args\n    _invalid_args.clear();\n", "    // once parse args, clear all invalid_args\n"),
                (C, "    return parse_args({&argv[1], &argv[argc]}, argv);", "    _invalid_args.clear();\n    return parse_args({&argv[1], &argv[argc]}, argv);")],
         demo=HEAD + r"""
int main() {
    OptionParser p;
    const char* argv[] = {"prog", "x", nullptr};
    (void)p.parse_args({"x"}, argv);
    (void)p.parse_args({"x"}, argv);
    REQUIRE(p.invalid_args().size() == 1, "%zu leftovers of one argument", p.invalid_args().size());
}
"""),
    dict(id="c27-empty-leftover-dropped", prop="C27", srcs=S,
         needs="an empty argument among plain arguments behind an option with its value",
         breaks="it is not listed",
         edits=[(C, "                // pop the first argument is not an option, and drag-and-drop to the invalid args list.\n                auto the_invalid_arg = args.pop();\n                // _invalid_args.emplace_back(std::move(the_invalid_arg));\n                _invalid_args.push_back(argv_span[args.pos()]);",
                    "                // pop the first argument is not an option, and drag-and-drop to the invalid args list.\n                auto the_invalid_arg = args.pop();\n                if (not the_invalid_arg.empty()) {\n                    _invalid_args.push_back(argv_span[args.pos()]);\n                }")],
         demo=HEAD + r"""
int main() {
    OptionParser p;
    p.add_option("--name").action(Action::Store).type(Type::String);
    (void)parse(p, {"--name", "v", "a", ""});
    REQUIRE(p.invalid_args().size() == 2, "%zu leftovers, expected 2", p.invalid_args().size());
}
"""),
    dict(id="c28-version-name-taken", prop="C28", srcs=S,
         needs="an own option which is called --version but not -v",
         breaks="parsing throws because the added option can not be registered",
         edits=[(C, "    if (not _short_option_map.contains(short_version_name) and not _long_option_map.contains(long_version_name)) {", "    if (not _short_option_map.contains(short_version_name)) {")],
         demo=HEAD + r"""
int main() {
    OptionParser p;
    p.add_option("--version").action(Action::Store).type(Type::String);
    auto v = parse(p, {"--version=3"});
    REQUIRE(*v.get<std::string>("version") == "3", "value");
}
"""),
    dict(id="c29-environment-joins-list", prop="C29", srcs=S,
         needs="a list option given on the command line whose environment variable is set",
         breaks="the values of the environment are added to those given",
         edits=[(C, "            if (not store.user_set(dest)) {\n                // get the environment variable", "            if (not store.user_set(dest) or opt.action() == Append) {\n                // get the environment variable")],
         demo=HEAD + r"""
int main() {
    setenv("SOME_LIST", "x,y", 1);
    OptionParser p;
    p.add_option("--name").action(Action::Append).type(Type::String).env("SOME_LIST");
    auto v = parse(p, {"--name=a"});
    REQUIRE(v.get_list("name")->size() == 1, "%zu values, 1 was given", v.get_list("name")->size());
}
"""),
    dict(id="c30-third-name-not-listed", prop="C30", srcs=S,
         needs="an option with three names",
         breaks="the help text lists two of them",
         edits=[(C, "    for (size_t off = 1; off < names.size(); ++off) {", "    for (size_t off = 1; off < names.size() && off < 2; ++off) {")],
         demo=HEAD + r"""
int main() {
    OptionParser p;
    p.program("prog");
    p.add_option({"-a", "--all", "--everything"}).action(Action::Store).type(Type::String);
    REQUIRE(p.format_help().find("--everything") != std::string::npos, "%s", p.format_help().c_str());
}
"""),
    dict(id="c30-own-usage-once", prop="C30", srcs=S,
         needs="a usage text set by the caller, and printing it more than once",
         breaks="the usage text set by the caller is given out only once",
         edits=[(C, "    return _usage;\n}", "    return std::exchange(_usage, {});\n}")],
         demo=HEAD + r"""
int main() {
    OptionParser p;
    p.program("prog").usage("my usage");
    REQUIRE(p.format_usage() == "my usage", "first");
    REQUIRE(p.format_usage() == "my usage", "second: %s", p.format_usage().c_str());
}
"""),
]
