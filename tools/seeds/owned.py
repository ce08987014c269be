F = "optparse/optparse.cc"
HEAD = r"""#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <thread>
#include <vector>
#include "optparse/optparse.hpp"
namespace op = stdb::optparse;
static std::atomic<int> ready{0};
template <class F> static int both(F f) {
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { ++ready; while (ready < 4) {} for (int i = 0; i < 20000; ++i) if (!f(t, i)) ++bad; });
    for (auto& t : ts) t.join();
    if (bad) fprintf(stderr, "%d wrong results\n", bad.load());
    return bad != 0;
}
"""
SEEDS = [
    dict(id="c36-number-reader-kept", prop="C36", srcs="optparse/*.cc",
         needs="two threads which parse arguments with numbers at the same time, each with a parser of its own",
         breaks="both read through one stream: numbers are mixed up or the program crashes",
         edits=[(F, "    std::stringstream sst(str.data());\n", "    static std::stringstream sst;  // making one takes longer than the reading\n    sst.clear();\n    sst.str(str.data());\n")],
         demo=HEAD + r"""
int main() {
    return both([](int t, int i) {
        op::OptionParser p;
        p.add_option({"-n"}).dest("n").action(op::Store).type(op::Int);
        std::string a = "-n=" + std::to_string(t * 100000 + i);
        const char* argv[] = {"prog", a.c_str()};
        auto st = p.parse_args(2, argv);
        auto v = st.get<int32_t>("n");
        return v && *v == t * 100000 + i;
    });
}
"""),
    dict(id="c36-usage-scratch-kept", prop="C36", srcs="optparse/*.cc",
         needs="two threads which ask their own parsers for the usage text at the same time",
         breaks="both prepare the name in one string: it is garbled or freed twice",
         edits=[(F, "                auto upper_dest = opt.dest();\n", "                static string upper_dest;  // keeps its room from one option to the next\n                upper_dest.assign(opt.dest().data(), opt.dest().size());\n")],
         demo=HEAD + r"""
int main() {
    return both([](int t, int) {
        op::OptionParser p;
        std::string name(size_t(30 + t * 20), char('a' + t)), upper(name.size(), char('A' + t));
        p.program("x");
        p.add_option({"-b"}).dest(op::string(name)).action(op::StoreTrue).type(op::Bool);
        auto u = p.format_usage();
        return std::string(u.data(), u.size()) == "usage: x [-b " + upper + "]\n";
    });
}
"""),
]
