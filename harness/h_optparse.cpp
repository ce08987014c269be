// C26..C30: OptionParser, explored over argument lists, option tables, registration histories and value sources, against a
// reference parser written from the documented behaviour.
#include <sys/mman.h>

#include <cerrno>
#include <climits>
#include <cmath>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "mc.hpp"
#include "optparse/optparse.hpp"
namespace op = stdb::optparse;
using mc::choose;
using std::string;
using Strings = std::vector<string>;

// ---------------------------------------------------------------------------------------------- reference parser
static const op::Type kTypes[] = {op::Bool, op::Int, op::Long, op::Float, op::Double, op::Choice, op::String};
static const char* kTypeName[] = {"bool", "int", "long", "float", "double", "choice", "string"};
static const char* type_name(op::Type t) { return kTypeName[int(t) - 1]; }
static const op::Action kActions[] = {op::Store, op::StoreTrue, op::StoreFalse, op::Append, op::Count};
static const char* action_name(op::Action a) {
    static const char* n[] = {"Null", "Store", "StoreTrue", "StoreFalse", "Append", "Count", "Help", "Version"};
    return n[a];
}
struct Decl {
    Strings names;
    op::Action action = op::Null;
    op::Type type = op::String;
    string dest, def;
    Strings choices;
    std::optional<string> help = string();  // nullopt: any text
    string env;
};
struct Outcome {
    bool threw = false;
    std::map<string, op::Value> vals;
    std::map<string, std::vector<op::Value>> lists;
    std::vector<size_t> left;  // positions in the argument list
};
static bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static string trimmed(const string& s) {
    size_t a = 0, b = s.size();
    while (a < b && blank(s[a])) ++a;
    while (b > a && blank(s[b - 1])) --b;
    return s.substr(a, b - a);
}
static bool digit(char c) { return c >= '0' && c <= '9'; }
// the integer a text starts with, saturated; 0 when there is none
static long long leading_int(const string& s, long long lo, long long hi) {
    size_t i = 0;
    while (i < s.size() && blank(s[i])) ++i;
    bool neg = i < s.size() && s[i] == '-';
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
    __int128 v = 0;
    for (; i < s.size() && digit(s[i]); ++i) if (v < (__int128(1) << 90)) v = v * 10 + (s[i] - '0');
    if (neg) v = -v;
    return v < lo ? lo : v > hi ? hi : (long long)v;
}
// the number a text starts with; a dangling exponent ("1e", "1e+") may make it no number at all
template <class F> static std::vector<F> leading_float(const string& s) {
    size_t i = 0;
    while (i < s.size() && blank(s[i])) ++i;
    size_t b = i;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
    size_t d = i;
    while (i < s.size() && digit(s[i])) ++i;
    bool any = i > d;
    if (i < s.size() && s[i] == '.') {
        size_t j = i + 1;
        while (j < s.size() && digit(s[j])) ++j;
        any = any || j > i + 1;
        i = j;
    }
    if (!any) return {F(0)};
    bool dangling = false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        size_t j = i + 1;
        if (j < s.size() && (s[j] == '-' || s[j] == '+')) ++j;
        size_t k = j;
        while (j < s.size() && digit(s[j])) ++j;
        if (j > k) i = j; else dangling = true;
    }
    string n = s.substr(b, i - b);
    F v = sizeof(F) == 4 ? F(strtof(n.c_str(), nullptr)) : F(strtod(n.c_str(), nullptr));
    F m = std::numeric_limits<F>::max();
    if (v > m) v = m;
    if (v < -m) v = -m;
    if (dangling) return {v, F(0)};
    return {v};
}
static std::vector<op::Value> convert(const string& s, op::Type t, const Strings& choices) {
    switch (t) {
        case op::Bool: return {op::Value(bool(leading_int(s, LONG_MIN, LONG_MAX) != 0))};
        case op::Int: return {op::Value(int32_t(leading_int(s, INT_MIN, INT_MAX)))};
        case op::Long: return {op::Value(int64_t(leading_int(s, LONG_MIN, LONG_MAX)))};
        case op::Float: { std::vector<op::Value> r; for (float f : leading_float<float>(s)) r.push_back(op::Value(f)); return r; }
        case op::Double: { std::vector<op::Value> r; for (double f : leading_float<double>(s)) r.push_back(op::Value(f)); return r; }
        case op::Choice: for (auto& c : choices) if (c == s) return {op::Value(s)}; return {};
        case op::String: return {op::Value(s)};
    }
    mc::internal("type");
}
struct Model {
    char prefix = '-';
    bool replace = false;
    std::vector<Decl> opts;
    std::map<string, size_t> by_name;
    string program;
    std::optional<string> usage, version;

    bool starts(const string& s) const { return !s.empty() && s[0] == prefix; }
    bool lng(const string& s) const { return s.size() > 2 && s[0] == prefix && s[1] == prefix; }
    bool add(const Decl& d) {  // false: refused
        if (d.names.empty()) return false;
        auto m = by_name;
        for (auto& n : d.names) {
            if (!starts(n)) return false;
            if (!replace && m.count(n)) return false;
            m[n] = opts.size();
        }
        by_name = m;
        opts.push_back(d);
        return true;
    }
    void builtin(const char* s, const char* l, const char* dest, std::optional<string> help) {
        string sn = string(1, prefix) + s, ln = string(2, prefix) + l;
        if (by_name.count(sn) || by_name.count(ln)) return;
        Decl d;
        d.names = {sn, ln};
        d.dest = dest;
        d.action = op::StoreTrue;
        d.type = op::Bool;
        d.help = help;
        add(d);
    }
    static void give(const Decl& o, Outcome& r, const string& text) {
        auto one = [&](const string& s) -> std::optional<op::Value> {
            auto c = convert(s, o.type, o.choices);
            if (c.empty()) return std::nullopt;
            return c[0];
        };
        switch (o.action) {
            case op::Count:
                if (r.vals.count(o.dest)) r.vals[o.dest] = std::get<int>(r.vals[o.dest]) + 1; else r.vals[o.dest] = 1;
                return;
            case op::StoreTrue: if (text.empty()) { r.vals[o.dest] = true; return; } break;
            case op::StoreFalse: if (text.empty()) { r.vals[o.dest] = false; return; } break;
            case op::Append: {
                if (text.find(',') == string::npos) { if (auto v = one(text)) r.lists[o.dest].push_back(*v); return; }
                for (size_t b = 0; b <= text.size();) {
                    size_t e = std::min(text.find(',', b), text.size());
                    if (e > b) { auto v = one(trimmed(text.substr(b, e - b))); if (!v) return; r.lists[o.dest].push_back(*v); }
                    b = e + 1;
                }
                return;
            }
            case op::Store: break;
            default: r.threw = true; return;
        }
        if (auto v = one(text)) r.vals[o.dest] = *v;
    }
    Outcome parse(const Strings& args) {
        Outcome r;
        for (auto& o : opts) {
            if (o.dest.empty()) for (auto& n : o.names) if (lng(n)) { o.dest = n.substr(2); break; }
            if (o.action == op::Null || o.dest.empty() || (o.type != op::Choice && !o.choices.empty())) { r.threw = true; return r; }
        }
        builtin("u", "usage", "usage", std::nullopt);
        builtin("h", "help", "help", std::nullopt);
        builtin("v", "version", "version", std::nullopt);
        for (size_t i = 0; i < args.size() && !r.threw;) {
            const string& a = args[i];
            size_t eq = a.find('=');
            auto it = starts(a) ? by_name.find(trimmed(a.substr(0, eq))) : by_name.end();
            if (it == by_name.end()) { r.left.push_back(i++); continue; }
            const Decl& o = opts[it->second];
            bool follows = i + 1 < args.size();
            if (eq == string::npos && !(follows && !starts(args[i + 1]))) {
                if (o.type != op::Bool) { r.threw = true; break; }
                give(o, r, "");
                ++i;
                continue;
            }
            if (eq != string::npos && eq + 1 < a.size()) { give(o, r, a.substr(eq + 1)); ++i; }
            else if (follows) { give(o, r, args[i + 1]); i += 2; }
            else { r.left.push_back(i++); continue; }
            if (o.action == op::Append) while (i < args.size() && !starts(args[i]) && !r.threw) give(o, r, args[i++]);
        }
        if (r.threw) return r;
        auto has = [&](const string& d) { return r.vals.count(d) || r.lists.count(d); };
        for (auto& o : opts) if (!o.def.empty() && !has(o.dest)) give(o, r, o.def);
        for (auto& o : opts) if (!o.env.empty() && !has(o.dest)) if (const char* e = getenv(o.env.c_str())) give(o, r, e);
        return r;
    }
};

// ---------------------------------------------------------------------------------------------- the real parser
static void configure(op::Option& o, const Decl& d) {
    if (d.action != op::Null) o.action(d.action);
    if (!d.dest.empty()) o.dest(d.dest);
    if (auto& c = d.choices; !c.empty()) {  // both ways to give them
        if (d.names.size() % 2 || c.size() > 4) o.choices(c.begin(), c.end());
        else if (c.size() == 1) o.choices({c[0]});
        else if (c.size() == 2) o.choices({c[0], c[1]});
        else if (c.size() == 3) o.choices({c[0], c[1], c[2]});
        else o.choices({c[0], c[1], c[2], c[3]});
        MC_CHECK(o.choices() == std::set<string>(c.begin(), c.end()), "an option has other choices than the %zu given", c.size());
    }
    if (d.choices.empty() || d.type != op::Choice) o.type(d.type);
    if (!d.def.empty()) o.default_value(d.def);
    if (!d.env.empty()) o.env(d.env);
    if (d.help && !d.help->empty()) o.help(*d.help);
}
// how the names are passed: 0 any overload that fits, 1 the braced list
static bool real_add(op::OptionParser& p, const Decl& d, int how = 0) {
    try {
        if (d.names.size() == 1 && how == 0) configure(p.add_option(d.names[0]), d);
        else if (d.names.size() == 2 && how == 0) configure(p.add_option(d.names[0], d.names[1]), d);
        else if (d.names.empty()) configure(p.add_option(std::initializer_list<string>{}), d);
        else if (d.names.size() == 1) configure(p.add_option({d.names[0]}), d);
        else if (d.names.size() == 2) configure(p.add_option({d.names[0], d.names[1]}), d);
        else if (d.names.size() == 3) configure(p.add_option({d.names[0], d.names[1], d.names[2]}), d);
        else mc::internal("names");
        return true;
    } catch (const std::logic_error&) {
        return false;
    }
}
static string show(const op::Value& v) {
    switch (v.index()) {
        case 0: return std::get<0>(v) ? "true" : "false";
        case 1: return "int " + std::to_string(std::get<1>(v));
        case 2: return "long " + std::to_string(std::get<2>(v));
        case 3: return fmt::format("float {}", std::get<3>(v));
        case 4: return fmt::format("double {}", std::get<4>(v));
        default: return "\"" + std::get<5>(v) + "\"";
    }
}
static string show(const Strings& a) { string s; for (auto& x : a) s += (s.empty() ? "\"" : " \"") + x + "\""; return s; }
static bool same(const op::Value& a, const op::Value& b) { return a == b; }

enum Aspect { VALUES = 1, LEFT = 2 };
// `count`: get<T>() for the type the model expects, so that a value of another type is reported, not fatal
template <class T> static std::optional<op::Value> get_as(const op::ValueStore& st, const string& d) {
    auto v = st.get<T>(d);
    if (!v) return std::nullopt;
    return op::Value(*v);
}
static std::optional<op::Value> get_like(const op::ValueStore& st, const string& d, const op::Value& m) {
    switch (m.index()) {
        case 0: return get_as<bool>(st, d);
        case 1: return get_as<int32_t>(st, d);
        case 2: return get_as<int64_t>(st, d);
        case 3: return get_as<float>(st, d);
        case 4: return get_as<double>(st, d);
        default: return get_as<string>(st, d);
    }
}
// absent destinations: any type may be asked for
static bool absent(const op::ValueStore& st, const string& d) { return !st.get<bool>(d).has_value(); }

struct Run {  // one parse on the real parser and on the model
    Strings args;
    std::vector<const char*> argv;
    string prog = "prog";
    explicit Run(const Strings& a) : args(a) {
        argv.push_back(prog.c_str());
        for (auto& s : args) argv.push_back(s.c_str());
    }
    Run(const Run&) = delete;
    // list: use the overload which takes the arguments as strings
    void go(op::OptionParser& p, Model& m, int aspects, const std::set<string>& dests, const char* what, bool list = false) {
        if (!list && m.program.empty()) m.program = prog;
        Outcome e = m.parse(args);
        mc::step();
        bool threw = false;
        std::optional<op::ValueStore> st;
        try {
            if (list) {
                op::vector<string> v;
                for (auto& s : args) v.push_back(s);
                st.emplace(p.parse_args(v, argv.data()));
            } else {
                st.emplace(p.parse_args(int(argv.size()), argv.data()));
            }
        } catch (const std::logic_error&) {
            threw = true;
        }
        MC_NOTE("parse %s%s", show(args).c_str(), threw ? " throws" : "");
        mc::Hash h;
        h.add(threw);
        for (auto& [n, i] : m.by_name) h.str(n).add(i);
        MC_CHECK(threw == e.threw, "%s: parsing %s %s, expected it to %s", what, show(args).c_str(), threw ? "throws" : "succeeds", e.threw ? "be refused" : "succeed");
        if (threw) { mc::state(h); return; }
        if (aspects & VALUES) {
            std::set<string> all = dests;
            for (auto& o : m.opts) all.insert(o.dest);
            for (auto& d : all) {
                auto v = e.vals.find(d);
                if (v == e.vals.end()) {
                    MC_CHECK(absent(*st, d), "%s: parsing %s stores a value for %s which was never given", what, show(args).c_str(), d.c_str());
                } else {
                    auto g = get_like(*st, d, v->second);
                    h.str(d).str(show(v->second));
                    bool ok = g && same(*g, v->second);
                    MC_CHECK(ok, "%s: parsing %s stores %s for %s, expected %s", what, show(args).c_str(), g ? show(*g).c_str() : "nothing", d.c_str(), show(v->second).c_str());
                }
                auto l = e.lists.find(d);
                auto gl = st->get_list(d);
                MC_CHECK(gl.has_value() == (l != e.lists.end()), "%s: parsing %s: list of %s is %s, expected %s", what, show(args).c_str(), d.c_str(), gl ? "present" : "absent", gl ? "none" : "one");
                if (!gl) continue;
                string gs, es;
                for (size_t i = 0; i < gl->size(); ++i) gs += show((*gl)[i]) + "; ";
                for (auto& x : l->second) es += show(x) + "; ";
                h.str(es);
                MC_CHECK(gs == es, "%s: parsing %s: list of %s is %s expected %s", what, show(args).c_str(), d.c_str(), gs.c_str(), es.c_str());
                typed_list(*st, d, l->second);
            }
        }
        if (aspects & LEFT) {
            auto left = p.invalid_args();
            string gs, es;
            for (size_t i = 0; i < left.size(); ++i) gs += string(left[i] ? left[i] : "(null)") + " ";
            for (size_t i : e.left) es += args[i] + " ";
            h.str(es);
            MC_CHECK(left.size() == e.left.size(), "%s: parsing %s leaves %s, expected %s", what, show(args).c_str(), gs.c_str(), es.c_str());
            for (size_t i = 0; i < left.size(); ++i)
                MC_CHECK(left[i] == argv[e.left[i] + 1], "%s: parsing %s: leftover %zu is %s%s, expected the pointer to argument %zu", what, show(args).c_str(), i, left[i],
                         left[i] == args[e.left[i]] ? " at another address" : "", e.left[i]);
            MC_CHECK(p.get_raw_argc() == int(left.size()) + 1, "%s: parsing %s: raw argc %d, expected %zu", what, show(args).c_str(), p.get_raw_argc(), left.size() + 1);
            auto raw = p.get_raw_argv();
            MC_CHECK(raw[0] == argv[0], "%s: parsing %s: the rebuilt argument vector does not start with the program name", what, show(args).c_str());
            for (size_t i = 0; i < left.size(); ++i) MC_CHECK(raw[i + 1] == left[i], "%s: parsing %s: rebuilt argument %zu differs", what, show(args).c_str(), i + 1);
            for (size_t i : e.left) h.add(i);
        }
        mc::state(h);
    }
    static void typed_list(const op::ValueStore& st, const string& d, const std::vector<op::Value>& e) {
        std::set<size_t> kinds;
        for (auto& v : e) kinds.insert(v.index());
        if (kinds.size() != 1) return;
        if (*kinds.begin() == 5) {
            auto l = st.get_list<string>(d);
            MC_CHECK(l && l->size() == e.size(), "get_list<string>(%s)", d.c_str());
            for (size_t i = 0; i < e.size(); ++i) MC_CHECK((*l)[i] == std::get<5>(e[i]), "get_list<string>(%s)", d.c_str());
        } else if (*kinds.begin() == 1) {
            auto l = st.get_list<int>(d);
            MC_CHECK(l && l->size() == e.size(), "get_list<int>(%s)", d.c_str());
            for (size_t i = 0; i < e.size(); ++i) MC_CHECK((*l)[i] == std::get<1>(e[i]), "get_list<int>(%s)", d.c_str());
        }
    }
};

static void declare(op::OptionParser& p, Model& m, const std::vector<Decl>& t, int how = 0) {
    for (auto& d : t) {
        bool g = real_add(p, d, how), e = m.add(d);
        MC_CHECK(g == e, "registering %s %s", show(d.names).c_str(), e ? "is refused" : "is accepted");
    }
}
static Decl decl(Strings names, op::Action a, op::Type t, string dest = "", Strings choices = {}) {
    Decl d;
    d.names = names;
    d.action = a;
    d.type = t;
    d.dest = dest;
    d.choices = choices;
    return d;
}
// tokens are written with '-' and turned to the parser's prefix; "-" inside values stays when it is not leading
static string pfx(string s, char c) {
    for (size_t i = 0; i < s.size() && i < 2 && s[i] == '-'; ++i) s[i] = c;
    return s;
}
static Strings pre(Strings v, char c) { for (auto& s : v) s = pfx(s, c); return v; }
// all argument lists of length <= n over a vocabulary, the first argument being part of the task
static Strings pick(const Strings& voc, int n) {
    Strings a;
    for (int i = 0; i < n; ++i) {
        int k = choose(int(voc.size()) + 1);
        if (k == 0) break;
        a.push_back(voc[size_t(k - 1)]);
    }
    return a;
}
static Strings choices_of(op::Type t) { return t == op::Choice ? Strings{"1", "on", "a b", ""} : Strings{}; }

static int aspect(const string& p) { return p == "C27" ? LEFT : VALUES; }

static void lines(const char* prop) {
    int asp = aspect(prop);
    // every action with every type, next to a string option and a flag
    for (char px : {'-', '+'}) {
        Strings voc = pre({"-a", "--alpha", "-a=", "-a=1", "--alpha=2,on", "-a =-3", "1", "2.5x", "1, on,,7", "", "-s", "-s=x", "-s=x=y=", "-b", "-z", "--zz=1", "a=b", "--", "-"}, px);
        if (mc::thorough()) for (auto& s : pre({"on", " ", "--alpha= 4", "-b=0", "--str", "-a=99999999999999999999"}, px)) voc.push_back(s);
        size_t first = voc.size() + 1;
        mc::add(prop, string("one option of every action and type, lists of 3, prefix ") + px, 35 * first, [=](uint64_t t) {
            uint64_t combo = t / first, f = t % first;
            auto a = kActions[combo / 7];
            auto ty = kTypes[combo % 7];
            op::OptionParser p(px);
            Model m;
            m.prefix = px;
            declare(p, m, {decl(pre({"-a", "--alpha"}, px), a, ty, "", choices_of(ty)), decl(pre({"-s", "--str"}, px), op::Store, op::String, "s"), decl(pre({"-b"}, px), op::StoreTrue, op::Bool, "b")});
            Strings args;
            if (f) {
                args.push_back(voc[f - 1]);
                for (auto& s : pick(voc, 2)) args.push_back(s);
            }
            char what[100];
            snprintf(what, sizeof what, "-a: %s of %s", action_name(a), type_name(ty));
            MC_NOTE("%s", what);
            Run(args).go(p, m, asp, {"alpha", "s", "b", "a", "z", ""}, what);
        });
    }
    // every text as an argument
    for (char px : {'-', '+'}) {
        const string al = string(1, px) + "ab= ,";
        int len = mc::thorough() ? 7 : 6;
        mc::add(prop, string("every argument of up to ") + std::to_string(len) + " characters out of \"" + al + "\"", 6 * 7, [=](uint64_t t) {
            op::OptionParser p(px);
            Model m;
            m.prefix = px;
            declare(p, m, {decl(pre({"-a", "--ab"}, px), op::Store, op::String, "s"), decl(pre({"-b"}, px), op::StoreTrue, op::Bool, "f"), decl(pre({"--a"}, px), op::Append, op::String, "l"), decl(pre({"--b", "-ba"}, px), op::Append, op::Int, "n")});
            string s(1, al[t % 6]);
            if (t / 6) {
                s += al[t / 6 - 1];
                for (int i = 2; i < len; ++i) { int k = choose(7); if (!k) break; s += al[size_t(k) - 1]; }
            }
            Strings args;
            int around = choose(4);  // alone, before a value, behind an option which takes one, between the two
            if (around & 2) args.push_back(pfx("--a", px));
            args.push_back(s);
            if (around & 1) args.push_back("b");
            Run(args).go(p, m, asp, {"a", "b", "ab", "ba", ""}, "every argument text");
        });
    }
    // a table like a real tool's
    Strings big = {"-f", "--file=t.txt", "-q", "-vv", "-n", "--size=100", "-l", "-l=1,2", "-m", "-c", "work", "12", "x", "-x", "-m=bad"};
    int depth = mc::thorough() ? 5 : 4;
    mc::add(prop, "a table of nine options", big.size() * big.size(), [=](uint64_t t) {
        op::OptionParser p;
        Model m;
        declare(p, m, {decl({"-f", "--file"}, op::Store, op::String, "filename"), decl({"-q", "--quiet"}, op::StoreFalse, op::Bool, "quiet"), decl({"-vv", "--verbose"}, op::StoreTrue, op::Bool),
                       decl({"-n", "--size"}, op::Store, op::Int), decl({"-l", "--list"}, op::Append, op::Int), decl({"--names"}, op::Append, op::String), decl({"-m"}, op::Store, op::Choice, "mode", {"work", "wait"}),
                       decl({"-c"}, op::Count, op::Bool, "c"), decl({"--ratio", "-rr", "-r"}, op::Store, op::Double)}, 1);
        Strings args = {big[t / big.size()], big[t % big.size()]};
        for (auto& s : pick(big, depth - 2)) args.push_back(s);
        Run(args).go(p, m, asp, {"vv", "verbose", "file", "x", "help", "usage", "version"}, "nine options");
    });
    // several options for one destination
    Strings sh = {"-a", "-b", "-a=1", "-b=0", "--add", "-l=1,2", "-o", "-o=3", "x", "--to", "--to=y", "-p=w"};
    mc::add(prop, "options which share destinations", sh.size() * sh.size(), [=](uint64_t t) {
        op::OptionParser p;
        Model m;
        declare(p, m, {decl({"-a"}, op::StoreTrue, op::Bool, "flag"), decl({"-b"}, op::StoreFalse, op::Bool, "flag"), decl({"--add"}, op::Append, op::String, "list"), decl({"-l"}, op::Append, op::Int, "list"),
                       decl({"-o"}, op::Append, op::Long, "list"), decl({"--to"}, op::Store, op::String, "s"), decl({"-p"}, op::Store, op::String, "s")});
        Strings args = {sh[t / sh.size()], sh[t % sh.size()]};
        for (auto& s : pick(sh, mc::thorough() ? 3 : 2)) args.push_back(s);
        Run(args).go(p, m, asp, {"a", "to"}, "shared destinations");
    });
    // names: lookup is by the whole name
    Strings nm = {"-a", "-ab", "-abc", "--a", "--ab", "--abc", "---a", "-A", "-b", "--", "-", "--=1", "-=1"};
    mc::add(prop, "names which are prefixes of each other", nm.size() * (1 << 7), [=](uint64_t t) {
        size_t f = t >> 7;
        op::OptionParser p;
        Model m;
        const char* decls[] = {"-a", "-ab", "--a", "--ab", "---a", "-", "--"};
        std::vector<Decl> tab;
        for (int i = 0; i < 7; ++i) if (t >> i & 1) tab.push_back(decl({decls[i]}, op::Store, op::String, string("d") + decls[i]));
        declare(p, m, tab);
        Strings args = {nm[f]};
        for (auto& s : pick(nm, 1)) args.push_back(s);
        args.push_back("val");
        Run(args).go(p, m, asp, {"a", "ab", "d-a", "d--a"}, "names which are prefixes of each other");
    });
}

static void conversions() {
    const char al[] = "019-+. e";
    int n = 8, len = mc::thorough() ? 6 : 5;
    for (auto ty : {op::Bool, op::Int, op::Long, op::Float, op::Double}) {
        mc::add("C26", string("every text of a small alphabet as ") + type_name(ty), 64, [=](uint64_t t) {
            string s = {al[t / 8], al[t % 8]};
            for (int i = 2; i < len; ++i) { int k = choose(n + 1); if (!k) break; s += al[k - 1]; }
            op::OptionParser p;
            p.add_option("-a").action(op::Store).type(ty).dest("a");
            string arg = "-a=" + s;
            const char* argv[] = {"prog", arg.c_str()};
            auto st = p.parse_args(2, argv);
            mc::step();
            auto exp = convert(s, ty, {});
            auto g = get_like(st, "a", exp[0]);
            bool ok = false;
            for (auto& e : exp) ok = ok || (g && same(*g, e));
            MC_CHECK(ok, "\"%s\" is converted to %s, expected %s", s.c_str(), g ? show(*g).c_str() : "nothing", show(exp[0]).c_str());
            mc::state(mc::Hash().add(uint64_t(ty)).str(show(exp[0])));
        });
    }
    Strings nums;
    auto around = [&](__int128 v) {
        for (int d = -12; d <= 12; ++d) {
            __int128 x = v + d;
            bool neg = x < 0;
            if (neg) x = -x;
            string s;
            do { s.insert(s.begin(), char('0' + int(x % 10))); x /= 10; } while (x);
            nums.push_back((neg ? "-" : "") + s);
        }
    };
    for (int k : {7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 80}) { around(__int128(1) << k); around(-(__int128(1) << k)); }
    for (int k = 1, e = 1; k < 25; ++k) { (void)e; __int128 v = 1; for (int i = 0; i < k; ++i) v *= 10; around(v); }
    for (const char* s : {"1e10", "1e38", "3.5e38", "-3.5e38", "1e39", "1e308", "1.8e308", "-1.8e308", "1e309", "1e-300", "0.1", "16777217", "123456.789", "0x10", "010", "1_000", "nan", "inf", "true", "false", "yes", "TRUE", "1true", "00000000000000000000000000012", "1.0000000000000000000000001", "+7", "--7", "+-7"}) nums.push_back(s);
    static const char* deco[][2] = {{"", ""}, {" ", ""}, {"\t\n", " "}, {"", "x"}, {"+", ""}, {"000", ".5"}, {"", " 9"}};
    for (auto ty : kTypes) {
        if (ty == op::Choice) continue;
        mc::add("C26", string("numbers around the limits as ") + type_name(ty), nums.size(), [=](uint64_t t) {
            for (auto& dc : deco) {
                string s = dc[0] + nums[t] + dc[1];
                if (s.find(",") != string::npos) continue;
                op::OptionParser p;
                p.add_option("-a").action(op::Store).type(ty).dest("a");
                p.add_option("-l").action(op::Append).type(ty).dest("l");
                string arg = "-a=" + s, lst = "-l=" + s + ",x," + s;
                const char* argv[] = {"prog", arg.c_str(), lst.c_str()};
                auto st = p.parse_args(3, argv);
                mc::step(2);
                auto exp = convert(s, ty, {});
                auto g = get_like(st, "a", exp[0]);
                bool ok = false;
                for (auto& e : exp) ok = ok || (g && same(*g, e));
                MC_CHECK(ok, "\"%s\" is converted to %s, expected %s", s.c_str(), g ? show(*g).c_str() : "nothing", show(exp[0]).c_str());
                auto l = st.get_list("l");
                auto le = convert(trimmed(s), ty, {});
                MC_CHECK(l && l->size() == 3 && same((*l)[1], convert("x", ty, {})[0]), "list of \"%s\"", lst.c_str());
                for (size_t i : {size_t(0), size_t(2)}) {
                    ok = false;
                    for (auto& e : le) ok = ok || same((*l)[i], e);
                    MC_CHECK(ok, "\"%s\": list element %zu is %s, expected %s", lst.c_str(), i, show((*l)[i]).c_str(), show(le[0]).c_str());
                }
                mc::state(mc::Hash().add(uint64_t(ty)).str(show(exp[0])));
            }
        });
    }
    mc::add("C26", "comma separated lists", 6, [](uint64_t t) {
        auto ty = (op::Type[]){op::String, op::Int, op::Choice, op::Bool, op::Long, op::Double}[t];
        const char lal[] = ",1 b\t";
        string s;
        for (int i = 0; i < 6; ++i) { int k = choose(6); if (!k) break; s += lal[k - 1]; }
        op::OptionParser p;
        Model m;
        declare(p, m, {decl({"-l"}, op::Append, ty, "l", ty == op::Choice ? Strings{"1", "b", "1 b", ""} : Strings{})});
        Run r({s.empty() ? "-x" : "-l=" + s, "-l", s, "1"});
        r.go(p, m, VALUES, {}, "comma separated list");
    });
}

static void reparse() {
    Strings voc = {"-s", "-s=1", "-b", "-z", "pos", "-l=1,2", "-c", "--end="};
    auto table = std::vector<Decl>{decl({"-s"}, op::Store, op::String, "s"), decl({"-b"}, op::StoreTrue, op::Bool, "b"), decl({"-l"}, op::Append, op::Int, "l"), decl({"-c"}, op::Count, op::Bool, "c"), decl({"--end"}, op::Store, op::Int)};
    for (const char* prop : {"C26", "C27"})
        mc::add(prop, "parsing several argument lists with one parser", voc.size() * 4, [=](uint64_t t) {
            op::OptionParser p;
            Model m;
            declare(p, m, table);
            Strings first = {voc[t / 4]};
            if (int k = choose(int(voc.size()) + 1)) first.push_back(voc[size_t(k - 1)]);
            Run r1(first);
            r1.go(p, m, aspect(prop), {}, "first parse", t & 1);
            Strings second = pick(voc, 2);
            Run r2(second);
            r2.prog = "other";
            r2.argv[0] = r2.prog.c_str();
            r2.go(p, m, aspect(prop), {}, "second parse", t & 2);
            if (!mc::thorough()) return;
            Run r3(pick(voc, 2));
            r3.go(p, m, aspect(prop), {}, "third parse", t & 1);
        });
    mc::add("C27", "the list of strings overload on a new parser", voc.size(), [=](uint64_t t) {
        op::OptionParser p;
        Model m;
        declare(p, m, table);
        Strings a = {voc[t]};
        for (auto& s : pick(voc, 3)) a.push_back(s);
        Run r(a);
        r.go(p, m, LEFT, {}, "list of strings", true);
    });
    mc::add("C27", "many leftovers", 64, [=](uint64_t t) {
        op::OptionParser p;
        Model m;
        declare(p, m, table);
        Strings a;
        for (uint64_t i = 0; i < t * 3; ++i) a.push_back(i % 7 == 3 ? "-b=1" : i % 7 == 5 ? "-z" + std::to_string(i) : "p" + std::to_string(i));
        Run r(a);
        r.go(p, m, LEFT, {}, "many leftovers");
        Run(Strings{}).go(p, m, LEFT, {}, "nothing");
    });
}

// ---------------------------------------------------------------------------------------------- registration
static const char kPrefixes[] = "-+#$&%";
static void answers(op::OptionParser& p, Model& m, const Strings& names, const char* what) {
    for (auto& n : names) {
        if (n.empty()) continue;
        Run(Strings{n, "val"}).go(p, m, VALUES | LEFT, {}, what);
        Run(Strings{n + "=val"}).go(p, m, VALUES | LEFT, {}, what);
    }
}
static Decl nth(const Strings& names, size_t k) { return decl(names, op::Store, op::String, "d" + std::to_string(k)); }
static op::OptionParser make(char px, bool replace, int ctor) {
    auto h = replace ? op::Replace : op::Error;
    if (px == '-' && ctor == 1) return op::OptionParser(h);
    if (!replace && ctor == 2) return op::OptionParser(px);
    return op::OptionParser(px, h);
}
static void registration() {
    mc::add("C28", "prefix characters", 256, [](uint64_t t) {
        char c = char(t);
        bool ok = c && strchr(kPrefixes, c);
        for (int k = 0; k < 3; ++k) {
            bool threw = false;
            try {
                if (k == 0) op::OptionParser p(c);
                else op::OptionParser p(c, k == 1 ? op::Error : op::Replace);
            } catch (const std::logic_error&) { threw = true; }
            mc::step();
            MC_CHECK(threw == !ok, "constructor %d with prefix character %d is %s", k, int(t), threw ? "refused" : "accepted");
        }
        mc::state(t);
    });
    Strings all = {"-a", "-b", "--a", "--ab", "-ab", "-", "--", "---", "a", "", "=a", "--b", " -a", "@a"};
    mc::add("C28", "a single registration of 0..3 names", 6 * 4 * 2, [=](uint64_t t) {
        char px = kPrefixes[t / 8];
        bool replace = t & 1;
        int ctor = int(t / 2 % 4);
        op::OptionParser p = make(px, replace, ctor);
        Model m;
        m.prefix = px;
        m.replace = replace;
        Strings voc = pre(all, px);
        voc.push_back(px == '-' ? "+a" : "-a");
        Strings names = pick(voc, px == '-' || mc::thorough() ? 3 : 2);
        MC_NOTE("register %s", show(names).c_str());
        auto d = nth(names, 0);
        bool g = real_add(p, d, choose(2)), e = m.add(d);
        mc::step();
        MC_CHECK(g == e, "registering %s with prefix %c is %s", show(names).c_str(), px, g ? "accepted" : "refused");
        answers(p, m, names, e ? "after a registration" : "after a refused registration");
    });
    Strings few = {"-a", "-b", "--ab", "--b", "a", "--"};
    std::vector<Strings> regs = {{}};
    for (auto& x : few) regs.push_back({x});
    for (auto& x : few) for (auto& y : few) regs.push_back({x, y});
    regs.push_back({"-a", "--ab", "b"});
    regs.push_back({"-a", "--ab", "-b"});
    int depth = mc::thorough() ? 4 : 3;
    size_t nr = regs.size();
    mc::add("C28", "histories of registrations and parses", 6 * nr, [=](uint64_t t) {
        bool replace = t & 1;
        int px = t / 2 % 3 == 0 ? '-' : t / 2 % 3 == 1 ? '+' : '%';
        op::OptionParser p = make(char(px), replace, 0);
        Model m;
        m.prefix = char(px);
        m.replace = replace;
        for (int k = 0; k < depth; ++k) {
            size_t r = k == 0 ? t / 6 : size_t(choose(k + 1 < depth || depth == 2 ? int(nr) + 1 : 8));
            if (k && r == (k + 1 < depth ? nr : 7)) { answers(p, m, pre(Strings{"-a"}, char(px)), "between registrations"); continue; }
            auto names = pre(regs[r], char(px));
            auto d = nth(names, size_t(k));
            MC_NOTE("register %s", show(names).c_str());
            bool g = real_add(p, d), e = m.add(d);
            mc::step();
            MC_CHECK(g == e, "registering %s is %s, %d%s registration", show(names).c_str(), g ? "accepted" : "refused", k + 1, k ? "." : "st");
        }
        answers(p, m, pre(few, char(px)), replace ? "after registrations which replace" : "after registrations");
    });
    mc::add("C28", "names taken by or from the added options", 2 * 64, [](uint64_t t) {
        static const char* b[] = {"-u", "--usage", "-h", "--help", "-v", "--version"};
        bool replace = t & 1;
        op::OptionParser p = make('-', replace, 0);
        Model m;
        m.replace = replace;
        size_t k = 0;
        for (int i = 0; i < 6; ++i) if (t >> 1 >> i & 1) declare(p, m, {nth({b[i]}, k++)});
        Strings names(b, b + 6);
        for (auto& n : names) Run(Strings{n, "val"}).go(p, m, VALUES | LEFT, {"help", "usage", "version"}, "with own options of these names");
        // registered after a parse
        for (int i = 0; i < 6; ++i) {
            auto d = nth({b[i]}, k++);
            bool g = real_add(p, d), e = m.add(d);
            MC_CHECK(g == e, "registering %s after a parse is %s", b[i], g ? "accepted" : "refused");
        }
        for (auto& n : names) Run(Strings{n, "val"}).go(p, m, VALUES | LEFT, {"help", "usage", "version"}, "with own options registered after a parse");
    });
    mc::add("C28", "incomplete options", 6 * 8 * 8, [](uint64_t t) {
        op::OptionParser p;
        Model m;
        Decl d;
        int nm = int(t % 6), ac = int(t / 6 % 8), rest = int(t / 48);
        d.names = (Strings[]){{"-a"}, {"--a"}, {"-a", "--a"}, {"--a", "-a"}, {"-ab", "--"}, {"---"}}[nm];
        d.action = op::Action(ac);
        if (rest & 1) d.dest = "dd";
        if (rest & 2) d.choices = {"x", "1"};
        if (rest & 4) d.type = op::Choice;
        if (!(rest & 6)) d.type = (op::Type[]){op::String, op::Int, op::Bool}[choose(3)];
        declare(p, m, {d});
        Strings a = pick({"-a", "--a=1", "x", "1"}, 2);
        Run(a).go(p, m, VALUES | LEFT, {"a", "dd", "-"}, "an option which may be incomplete");
        Run(a).go(p, m, VALUES | LEFT, {"a", "dd", "-"}, "an option which may be incomplete, again");
    });
    Strings few2 = {"-a", "--ab", "-b"};
    mc::add("C28", "copied and moved parsers", 6 * 2 * 8, [=](uint64_t t) {
        char px = kPrefixes[t / 16];
        int before = int(t / 2 % 8);
        Model m;
        m.prefix = px;
        m.replace = t & 1;
        auto p = std::make_unique<op::OptionParser>(make(px, m.replace, 0));
        auto reg = [&](op::OptionParser& q, Model& qm, size_t k) {
            auto d = decl(pre((Strings[]){{"-a", "--alpha"}, {"--ab"}, {"-b", "--beta"}}[k], px), op::Store, op::String);
            bool g = real_add(q, d), e = qm.add(d);
            MC_CHECK(g == e, "registering %s is %s", show(d.names).c_str(), g ? "accepted" : "refused");
        };
        for (size_t k = 0; k < 3; ++k) if (before >> k & 1) reg(*p, m, k);
        if (choose(2)) answers(*p, m, pre(few2, px), "before the copy");
        bool copy = choose(2), keep = choose(2);
        MC_NOTE("%s the parser, %s the original", copy ? "copy" : "move", keep ? "keep" : "destroy");
        Model qm = m;
        std::unique_ptr<op::OptionParser> q;
        if (copy) q = std::make_unique<op::OptionParser>(*p); else q = std::make_unique<op::OptionParser>(std::move(*p));
        if (!keep) p.reset();
        for (size_t k = 0; k < 3; ++k) if (choose(2)) reg(*q, qm, k);
        answers(*q, qm, pre(Strings{"-a", "--ab", "-b", "--beta=1"}, px), copy ? "a copy" : "a moved parser");
        if (keep && copy) answers(*p, m, pre(Strings{"-a", "--ab", "-b", "--beta=1"}, px), "the original of a copy");
    });
}

// ---------------------------------------------------------------------------------------------- value sources
static Strings values_for(op::Type t) {
    switch (t) {
        case op::Bool: return {"1", "0", "true", " "};
        case op::Int: case op::Long: return {"7", "-3", "abc", "1,2"};
        case op::Float: case op::Double: return {"7.5", "-1e2", "abc", "1,2"};
        case op::Choice: return {"on", "off", "bad", "on,off"};
        default: return {"one", " two ", "a,b", "="};
    }
}
static void sources() {
    static const char* kEnv = "MC_OPT_ENV", *kEnv2 = "MC_OPT_ENV2";
    auto set_env = [](const char* n, const std::optional<string>& v) { if (v) setenv(n, v->c_str(), 1); else unsetenv(n); };
    for (auto a : kActions)
        for (auto ty : kTypes)
            mc::add("C29", string("sources of ") + action_name(a) + " of " + type_name(ty), 5 * 6, [=](uint64_t t) {
                Strings v = values_for(ty);
                Decl d = decl({"-a", "--a"}, a, ty, "", ty == op::Choice ? Strings{"on", "off"} : Strings{});
                if (t % 5) d.def = v[t % 5 - 1];
                bool has_env = t / 5 > 0;
                if (has_env) d.env = kEnv;
                op::OptionParser p;
                Model m;
                declare(p, m, {d});
                MC_NOTE("default \"%s\"%s", d.def.c_str(), has_env ? ", with environment variable" : "");
                std::vector<std::optional<string>> envs = {std::nullopt, ""};
                for (auto& x : v) envs.push_back(x);
                for (int k = 0; k < 2; ++k) {
                    // the environment may change between parses
                    set_env(kEnv, has_env && k == 0 ? envs[t / 5] : envs[size_t(choose(int(envs.size())))]);
                    Strings args;
                    int c = choose(k == 0 || mc::thorough() ? 9 : 5);
                    if (c == 1) args = {"-a"};
                    else if (c == 2) args = {"-a=" + v[0]};
                    else if (c == 3) args = {"--a", v[1]};
                    else if (c == 4) args = {"-a=" + v[2], "-a=" + v[0]};
                    else if (c == 5) args = {"-a=" + v[3]};
                    else if (c == 6) args = {"-a=" + v[0], "--a=" + v[2]};
                    else if (c == 7) args = {"-z", "-a", "-a", "-a"};
                    else if (c == 8) args = {"-a", ""};
                    Run(args).go(p, m, VALUES, {}, k ? "value sources, second parse" : "value sources");
                }
                unsetenv(kEnv);
            });
    // two options, one destination or two
    mc::add("C29", "two options with their own sources", 2 * 3 * 3 * 3 * 3, [=](uint64_t t) {
        bool shared = t & 1;
        int d1 = int(t / 2 % 3), d2 = int(t / 6 % 3), e1 = int(t / 18 % 3), e2 = int(t / 54 % 3);
        auto kind = choose(3);
        auto a = kind == 1 ? op::Append : kind == 2 ? op::StoreTrue : op::Store;
        auto ty = kind == 2 ? op::Bool : op::String;
        Decl x = decl({"-x"}, a, ty, "x"), y = decl({"-y"}, a, ty, shared ? "x" : "y");
        const char* def[] = {"", "0", "1"};
        x.def = def[d1];
        y.def = def[d2];
        x.env = kEnv;
        y.env = choose(2) ? kEnv : kEnv2;
        set_env(kEnv, e1 == 0 ? std::nullopt : std::optional<string>(e1 == 1 ? "1" : ""));
        set_env(kEnv2, e2 == 0 ? std::nullopt : std::optional<string>(e2 == 1 ? "0" : "7"));
        op::OptionParser p;
        Model m;
        declare(p, m, {x, y});
        for (int k = 0; k < 2; ++k) {
            Strings args = (Strings[]){{}, {"-x=1"}, {"-y=0"}, {"-y=5", "-x=6"}, {"-x=7", "-y=8", "-x=9"}}[choose(5)];
            Run(args).go(p, m, VALUES, {}, "two options with their own sources");
        }
        unsetenv(kEnv);
        unsetenv(kEnv2);
    });
    mc::add("C29", "defaults of every C++ type", 12, [](uint64_t t) {
        op::OptionParser p;
        auto check = [&](op::Type ty, auto set, op::Value e) {
            auto& o = p.add_option("--o");
            o.action(op::Store).type(ty);
            set(o);
            const char* argv[] = {"prog"};
            auto st = p.parse_args(1, argv);
            auto g = get_like(st, "o", e);
            mc::step();
            MC_CHECK(g && same(*g, e), "default of a %s option is %s, expected %s", type_name(ty), g ? show(*g).c_str() : "absent", show(e).c_str());
            mc::state(t);
        };
        switch (t) {
            case 0: return check(op::Int, [](op::Option& o) { o.default_value(5); }, 5);
            case 1: return check(op::Int, [](op::Option& o) { o.default_value(-2147483647 - 1); }, -2147483647 - 1);
            case 2: return check(op::Int, [](op::Option& o) { o.default_value(0); }, 0);
            case 3: return check(op::Long, [](op::Option& o) { o.default_value(9223372036854775807L); }, int64_t(9223372036854775807L));
            case 4: return check(op::Double, [](op::Option& o) { o.default_value(2.5); }, 2.5);
            case 5: return check(op::Float, [](op::Option& o) { o.default_value(-0.25f); }, -0.25f);
            case 6: return check(op::Bool, [](op::Option& o) { o.default_value(true); }, true);
            case 7: return check(op::Bool, [](op::Option& o) { o.default_value(false); }, false);
            case 8: return check(op::String, [](op::Option& o) { o.default_value("text"); }, string("text"));
            case 9: return check(op::String, [](op::Option& o) { o.default_value(string("text 2")); }, string("text 2"));
            case 10: return check(op::Double, [](op::Option& o) { o.default_value(1000000.0); }, 1000000.0);
            default: return check(op::String, [](op::Option& o) { o.default_value(12UL); }, string("12"));
        }
    });
}

// ---------------------------------------------------------------------------------------------- texts
static string printed(const std::function<void()>& f) {
    static int fd = memfd_create("out", 0);
    fflush(stdout);
    int old = dup(1);
    if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) mc::internal("memfd");
    dup2(fd, 1);
    f();
    fflush(stdout);
    dup2(old, 1);
    close(old);
    off_t n = lseek(fd, 0, SEEK_CUR);
    string s(size_t(n), 0);
    if (pread(fd, s.data(), s.size(), 0) != n) mc::internal("memfd");
    return s;
}
static bool eat(const string& s, size_t& i, const string& what) {
    if (s.compare(i, what.size(), what) != 0) return false;
    i += what.size();
    return true;
}
static string upper(string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static void texts_ok(op::OptionParser& p, const Model& m) {
    string u = p.format_usage(), h = p.format_help(), v = p.format_verison();
    mc::step(3);
    MC_NOTE("usage: %s", u.c_str());
    MC_NOTE("help: %s", h.c_str());
    MC_NOTE("version: %s", v.c_str());
    if (m.usage) {
        MC_CHECK(u == *m.usage, "the usage text set by the caller is returned as \"%s\"", u.c_str());
    } else {
        size_t i = 0;
        MC_CHECK(eat(u, i, "usage: " + m.program), "usage text \"%s\" does not start with the name of the program \"%s\"", u.c_str(), m.program.c_str());
        for (auto& o : m.opts) {
            MC_CHECK(eat(u, i, " [" + o.names[0]), "usage text \"%s\" does not go on with %s", u.c_str(), o.names[0].c_str());
            eat(u, i, " " + upper(o.dest));
            MC_CHECK(eat(u, i, "]"), "usage text \"%s\": %s is not followed by ]", u.c_str(), o.names[0].c_str());
        }
        MC_CHECK(u.substr(i) == "\n", "usage text \"%s\" lists something else behind the options", u.c_str());
    }
    if (m.version) MC_CHECK(v == *m.version, "the version text set by the caller is returned as \"%s\"", v.c_str());
    else MC_CHECK(v.find(m.program) != string::npos && v.size() > m.program.size(), "version text \"%s\" does not name the program \"%s\"", v.c_str(), m.program.c_str());
    size_t i = 0;
    MC_CHECK(eat(h, i, u), "help text does not start with the usage text:\n%s", h.c_str());
    i = h.find("options:", i);
    MC_CHECK(i != string::npos, "help text has no list of options:\n%s", h.c_str());
    i = h.find('\n', i);
    MC_CHECK(i != string::npos, "help text has no list of options:\n%s", h.c_str());
    ++i;
    size_t column = 0;
    std::vector<std::pair<size_t, size_t>> shorts;
    for (auto& o : m.opts) {
        size_t e = std::min(h.find('\n', i), h.size());
        string line = h.substr(i, e - i), want;
        i = e + 1;
        for (auto& n : o.names) want += (want.empty() ? "" : ", ") + n;
        want += string("=<") + type_name(o.type) + ">";
        size_t k = line.find_first_not_of(' ');
        MC_CHECK(k != string::npos && line.compare(k, want.size(), want) == 0, "help line \"%s\" is not that of %s", line.c_str(), want.c_str());
        k += want.size();
        size_t c = line.find_first_not_of(' ', k);
        string help = c == string::npos ? "" : line.substr(c);
        if (o.help) MC_CHECK(help == *o.help, "help line \"%s\" should have the help message \"%s\"", line.c_str(), o.help->c_str());
        else MC_CHECK(!help.empty(), "help line \"%s\" has no help message", line.c_str());
        if (c == string::npos) continue;
        MC_CHECK(c > k, "help line \"%s\": no room before the message", line.c_str());
        MC_CHECK(!column || column == c, "help line \"%s\" is not aligned with the others", line.c_str());
        column = c;
    }
    MC_CHECK(i >= h.size() || h.find_first_not_of(" \n", i) == string::npos, "help text lists something else behind the options: %s", h.substr(std::min(i, h.size())).c_str());
    mc::state(mc::Hash().str(u).str(h).str(v));
}
static void texts() {
    auto mkop = [](int k) {
        static const Decl menu[] = {
          [] { Decl d = decl({"-f", "--file"}, op::Store, op::String, "filename"); d.help = "write to FILE"; return d; }(),
          [] { Decl d = decl({"-q"}, op::StoreFalse, op::Bool, "quiet"); return d; }(),
          [] { Decl d = decl({"--a-long-name-for-an-option"}, op::Append, op::Int); d.dest = "lst"; d.help = "numbers, like 1,2"; return d; }(),
          [] { Decl d = decl({"-h"}, op::Store, op::Double, "height"); d.help = "height in cm"; return d; }(),
          [] { Decl d = decl({"-n", "--version", "--number"}, op::Count, op::Bool, "n"); d.help = "x"; return d; }(),
          [] { Decl d = decl({"-m", "--mode"}, op::Store, op::Choice, "mode", {"a", "b"}); d.help = "one of a b"; return d; }(),
        };
        return menu[k];
    };
    constexpr int kOps = 17;
    auto apply = [mkop](op::OptionParser& p, Model& m, int k) {
        switch (k) {
            case 0: case 1: case 2: case 3: case 4: case 5: {
                auto d = mkop(k);
                bool g = real_add(p, d, k == 0), e = m.add(d);
                MC_NOTE("register %s%s", show(d.names).c_str(), e ? "" : " (refused)");
                MC_CHECK(g == e, "registering %s is %s", show(d.names).c_str(), g ? "accepted" : "refused");
                return;
            }
            case 6: MC_NOTE("program(tool)"); p.program("tool"); m.program = "tool"; return;
            case 7: MC_NOTE("usage(..)"); p.usage("how to use it: {}\n"); m.usage = "how to use it: {}\n"; return;
            case 8: MC_NOTE("version(..)"); p.version("v1.2 {}"); m.version = "v1.2 {}"; return;
            case 9: MC_NOTE("parse"); Run(Strings{}).go(p, m, VALUES, {}, "no arguments"); return;
            case 10: MC_NOTE("format_usage"); p.format_usage(); return;
            case 11: MC_NOTE("format_help"); p.format_help(); return;
            case 12: MC_NOTE("format_verison"); p.format_verison(); return;
            case 13: MC_NOTE("add_help_option"); p.add_help_option("shows this"); m.builtin("h", "help", "help", "shows this"); return;
            case 14: MC_NOTE("add_usage_option()"); p.add_usage_option({}); m.builtin("u", "usage", "usage", std::nullopt); return;
            case 15: MC_NOTE("add_version_option(2.0)"); p.add_version_option("2.0"); m.version = "2.0"; m.builtin("v", "version", "version", std::nullopt); return;
            default: MC_NOTE("parse -h"); Run(Strings{"-h", "1"}).go(p, m, VALUES, {}, "-h"); return;
        }
    };
    mc::add("C30", "histories of declarations, settings, texts and parses", kOps * kOps, [=](uint64_t t) {
        op::OptionParser p;
        Model m;
        apply(p, m, int(t / kOps));
        apply(p, m, int(t % kOps));
        int depth = mc::thorough() ? 5 : 4;
        for (int k = 2; k < depth; ++k) {
            int c = choose(kOps + 1);
            if (!c) break;
            apply(p, m, c - 1);
        }
        texts_ok(p, m);
        texts_ok(p, m);
    });
    mc::add("C30", "texts of every table of up to 6 options in every order", 720 * 6, [=](uint64_t t) {
        std::vector<int> perm = {0, 1, 2, 3, 4, 5};
        for (uint64_t i = 0; i < t / 6; ++i) std::next_permutation(perm.begin(), perm.end());
        op::OptionParser p;
        Model m;
        p.program("tool");
        m.program = "tool";
        for (uint64_t i = 0; i < t % 6; ++i) apply(p, m, perm[i]);
        texts_ok(p, m);
        apply(p, m, 9);
        texts_ok(p, m);
        apply(p, m, perm[5]);
        texts_ok(p, m);
    });
    mc::add("C30", "printed texts", 64, [=](uint64_t t) {
        op::OptionParser p;
        Model m;
        for (int k = 0; k < 6; ++k) if (t >> k & 1) apply(p, m, (int[]){0, 1, 5, 7, 8, 9}[k]);
        string u = p.format_usage(), h = p.format_help(), v = p.format_verison();
        mc::step(3);
        MC_CHECK(printed([&] { p.print_usage(); }) == u, "print_usage prints something else than the usage text");
        MC_CHECK(printed([&] { p.print_help(); }) == h, "print_help prints something else than the help text");
        MC_CHECK(printed([&] { p.print_version(); }) == v, "print_version prints something else than the version text");
        MC_CHECK(p.program() == m.program, "program() is \"%s\", expected \"%s\"", p.program().c_str(), m.program.c_str());
        MC_CHECK(!m.usage || p.usage() == *m.usage, "usage()");
        MC_CHECK(!m.version || p.version() == *m.version, "version()");
        mc::state(t);
    });
    mc::add("C30", "alignment for every pair of name lengths", 40, [=](uint64_t t) {
        for (size_t l = 1; l <= 40; ++l) {
            op::OptionParser p;
            Model m;
            Decl a = decl({"-" + string(t + 1, 'x')}, op::Store, op::String, "x"), b = decl({"--" + string(l, 'y')}, op::Store, op::Float, "y");
            a.help = "first";
            b.help = "second one";
            declare(p, m, {a, b});
            texts_ok(p, m);
        }
    });
}
// ---------------------------------------------------------------------------------------------- many options, long texts
static uint64_t amounts() { return mc::thorough() ? 140 : 100; }
static int amount(uint64_t t) { return t < 90 ? int(t) + 1 : int(t - 90) * (mc::thorough() ? 7 : 21) + 91; }
// the i-th of many options
static Decl one_of(int names, int mix, int i) {
    static const op::Type valued[] = {op::String, op::Int, op::Long, op::Double, op::Float};
    string n = std::to_string(i);
    Strings nm;
    switch (names) {
        case 0: nm = {"--option" + n}; break;
        case 1: nm = {"-" + n, "--long" + n}; break;
        case 2: nm = {"-" + string(size_t(i) + 1, 'x')}; break;                       // beginnings of each other
        case 3: nm = {"--" + string(size_t(i) % 50, 'z') + n, "-o" + n, "-O" + n}; break;
    }
    int k = mix == 0 ? 0 : mix == 1 ? i % 5 : (i * 7 + i / 3) % 5;
    Decl d;
    switch (k) {
        case 0: d = decl(nm, op::Store, valued[i % 5]); break;
        case 1: d = decl(nm, op::StoreTrue, op::Bool); break;
        case 2: d = decl(nm, op::Append, valued[i % 3]); break;
        case 3: d = decl(nm, op::Count, op::Bool); break;
        default: d = decl(nm, op::Store, op::Choice, "", {"1", "c" + n, "2"}); break;
    }
    d.dest = mix == 2 && k != 3 ? "shared" + std::to_string(i % 9) + "-" + std::to_string(k) + (k == 0 || k == 2 ? type_name(d.type) : "") : "dest" + n;
    return d;
}
static void many() {
    for (const char* prop : {"C26", "C27"}) {
        mc::add(prop, "many options, all given", amounts(), [=](uint64_t t) {
            int n = amount(t), names = choose(4), mix = choose(3), order = choose(3), form = choose(3), wrong = choose(3);
            op::OptionParser p;
            Model m;
            std::vector<Decl> tab;
            for (int i = 0; i < n; ++i) tab.push_back(one_of(names, mix, i));
            declare(p, m, tab);
            Strings args;
            for (int j = 0; j < n; ++j) {
                int i = order == 0 ? j : order == 1 ? n - 1 - j : int(int64_t(j) * 89 % n);
                auto& d = tab[size_t(i)];
                string name = d.names[size_t(j) % d.names.size()];
                if (wrong && j == n / 2) args.push_back(wrong == 1 ? name + "?" : name.substr(0, name.size() - 1));
                string v = d.type == op::Choice ? (i % 2 ? "2" : "c" + std::to_string(i)) : std::to_string(i * 3) + (i % 4 == 1 ? "," + std::to_string(i) : "");
                bool flag = d.type == op::Bool;
                switch ((form + j * (form == 2)) % 3) {
                    case 0: args.push_back(name + "=" + (flag ? "1" : v)); break;
                    case 1: args.push_back(name); if (!flag || j % 2) args.push_back(flag ? "0" : v); break;
                    default: args.push_back(name + "=" + (flag ? "1" : v)); if (d.action != op::Append) args.push_back("pos" + std::to_string(j)); break;
                }
            }
            Run(args).go(p, m, aspect(prop), {"option0", "1", "x", "z0"}, "many options");
        });
        mc::add(prop, "arguments of every length", mc::thorough() ? 1500 : 400, [=](uint64_t t) {
            int kind = choose(10), sep = choose(3);
            size_t L = size_t(t);
            string filler;
            for (size_t i = 0; i < L; ++i) filler += char('a' + (i * 7 + i / 26) % 26);
            string digits;
            for (size_t i = 0; i < L; ++i) digits += char('0' + (i * 3 + 1) % 10);
            string name = "--opt", v = filler;
            Decl d = decl({name}, op::Store, op::String);
            switch (kind) {
                case 0: break;
                case 1: d.type = op::Int; v = digits; break;
                case 2: d.type = op::Double; v = "0." + digits + "e3"; break;
                case 3: d.type = op::Float; v = string(L, '0') + "12.5"; break;
                case 4: d.type = op::Long; v = "-" + string(L, '0') + "77"; break;
                case 5: d.type = op::Choice; d.choices = {filler + "x", filler, "x" + filler}; break;
                case 6: d.action = op::Append; d.type = op::Int; v.clear(); for (size_t i = 0; i < L; ++i) v += (i ? i % 3 ? "," : " , " : "") + std::to_string(i); break;
                case 7: d.action = op::Append; v.clear(); for (size_t i = 0; i < L; ++i) v += (i ? "," : "") + string(i % 23, 'w') + (i % 5 ? "" : ","); break;
                case 8: name = "--" + filler; d = decl({"--" + filler, "--" + filler + "a"}, op::Store, op::String, "dst"); v = "v"; break;
                case 9: v = filler + "=" + filler + "=" + digits; break;
            }
            op::OptionParser p;
            Model m;
            declare(p, m, {d, decl({"-b"}, op::StoreTrue, op::Bool, "b")});
            Strings args;
            if (sep == 0) args = {name + "=" + v, "rest"};
            else if (sep == 1) args = {"-b", name, v, filler};
            else args = {filler, name + filler, "-" + filler, name + "=" + v, name + "=" + v + "9", "-b"};
            Run(args).go(p, m, aspect(prop), {"opt", "dst", "b", "r"}, "long arguments");
        });
        mc::add(prop, "every character in and around names, values and list items", 255, [=](uint64_t t) {
            string c(1, char(t + 1));
            static const op::Type types[] = {op::String, op::Int, op::Double, op::Choice, op::Bool};
            auto ty = types[choose(5)];
            if (ty == op::Double && (c == "e" || c == "E")) return;  // an exponent without digits: what is read of it is not laid down
            auto choices = ty == op::Choice ? Strings{"1", c + "1", "1" + c, c + "1" + c, c, ""} : Strings{};
            op::OptionParser p;
            Model m;
            declare(p, m, {decl({"-l", "--list"}, op::Append, ty, "list", choices), decl({"--one"}, op::Store, ty, "one", choices), decl({"-s"}, op::Store, op::String, "s"), decl({"-b"}, op::StoreTrue, op::Bool, "b"),
                           decl({"--w" + c + "w"}, op::Store, op::String, "w")});
            Strings args;
            switch (choose(10)) {
                case 0: args = {"-l=" + c + "1,1" + c + "," + c + "1" + c + "," + c + "," + c + c + ",1"}; break;
                case 1: args = {"-l", c + "1", "1" + c + ",1", c}; break;
                case 2: args = {"--one=" + c + "1" + c, "-b"}; break;
                case 3: args = {"--one", "1" + c}; break;
                case 4: args = {"--one" + c + "=1", "-s" + c, "x"}; break;
                case 5: args = {"-s=a" + c + "b" + c, "p" + c, c + "p", c}; break;
                case 6: args = {"--w" + c + "w=1", "--w" + c + "=1"}; break;
                case 7: args = {"-s" + c + "=1", "-" + c + "s=1", "-b" + c, "-" + c}; break;
                case 8: args = {"--list" + c + c + "=1," + c + "1", "--" + c + "list=1"}; break;
                case 9: args = {"-s= " + c + " ", "-s", " " + c + " ", "--one=" + c}; break;
            }
            Run(args).go(p, m, aspect(prop), {"w", "one", "list"}, "every character");
        });
        mc::add(prop, "tens of thousands of arguments", 4 * 4, [=](uint64_t t) {
            static const uint64_t amounts[] = {32767, 32769, 65535, 65600};
            uint64_t n = amounts[t / 4];
            op::OptionParser p;
            Model m;
            declare(p, m, {decl({"-s"}, op::Store, op::String, "s"), decl({"-c"}, op::Count, op::Bool, "c"), decl({"-l"}, op::Append, op::Int, "l")});
            Strings args;
            if (t % 4 == 1) args.push_back("-l");
            for (uint64_t i = 0; i < n; ++i)
                switch (t % 4) {
                    case 0: args.push_back(i % 1000 == 7 ? "-z" + std::to_string(i) : "p" + std::to_string(i)); break;
                    case 1: args.push_back(std::to_string(i)); break;
                    case 2: args.push_back(i % 3 ? "-c" : i % 2 ? "-s=" + std::to_string(i) : "p"); break;
                    case 3: args.push_back(i % 2 ? "-l=" + std::to_string(i) : "-u" + std::to_string(i)); break;
                }
            args.push_back("-u");
            args.push_back("-s=end");
            args.push_back("rest");
            Run(args).go(p, m, aspect(prop), {}, "tens of thousands of arguments");
        });
        mc::add(prop, "one option given many times", mc::thorough() ? 700 : 300, [=](uint64_t t) {
            int kind = choose(6);
            op::OptionParser p;
            Model m;
            declare(p, m, {decl({"-s", "--str"}, op::Store, op::String, "s"), decl({"-c"}, op::Count, op::Bool, "c"), decl({"-l"}, op::Append, op::String, "l"), decl({"-n"}, op::Append, op::Int, "n"), decl({"-q"}, op::StoreFalse, op::Bool, "q")});
            Strings args;
            if (kind == 3) args.push_back("-l=first");
            for (uint64_t i = 0; i < t; ++i)
                switch (kind) {
                    case 0: args.push_back((i % 2 ? "-s=" : "--str=") + std::to_string(i)); break;
                    case 1: args.push_back("-c"); break;
                    case 2: args.push_back("-l"); args.push_back("v" + std::to_string(i)); break;
                    case 3: args.push_back("v" + std::to_string(i) + (i % 6 == 5 ? ",w" : "")); break;
                    case 4: args.push_back(i % 3 == 0 ? "-n=" + std::to_string(i) : i % 3 == 1 ? "-c" : "-l=" + string(i % 40, 'l')); break;
                    case 5: args.push_back(i % 4 == 3 ? "-q=" + std::to_string(i % 2) : i % 4 == 2 ? "x" : "-q"); break;
                }
            if (choose(2)) args.push_back("-s=end");
            Run(args).go(p, m, aspect(prop), {}, "one option many times");
        });
    }
    mc::add("C28", "one more name next to many", amounts(), [=](uint64_t t) {
        int n = amount(t), names = choose(4), which = choose(5);
        bool replace = choose(2), parsed = choose(2);
        op::OptionParser p = make('-', replace, 0);
        Model m;
        m.replace = replace;
        for (int i = 0; i < n; ++i) {
            auto d = one_of(names, 0, i);
            d.type = op::String;
            d.dest = "d" + std::to_string(i);
            declare(p, m, {d});
        }
        if (parsed) Run(Strings{"x"}).go(p, m, VALUES | LEFT, {}, "between");
        int i = (int[]){0, 1, n / 2, n - 2, n - 1}[which];
        if (i < 0 || i >= n) return;
        auto taken = one_of(names, 0, i).names;
        Decl d = nth({"--new-name", taken[taken.size() - 1]}, 5000);
        bool g = real_add(p, d), e = m.add(d);
        MC_CHECK(g == e, "registering %s next to %d others is %s", show(d.names).c_str(), n, g ? "accepted" : "refused");
        Decl d2 = nth({taken[0] + "2222"}, 5001);
        g = real_add(p, d2), e = m.add(d2);
        MC_CHECK(g == e, "registering %s next to %d others is %s", show(d2.names).c_str(), n, g ? "accepted" : "refused");
        Strings ask = {"--new-name", taken[0] + "2222"};
        for (auto& x : taken) ask.push_back(x);
        for (int k : {0, n / 3, n - 1}) for (auto& x : one_of(names, 0, k).names) ask.push_back(x);
        answers(p, m, ask, "next to many options");
        if (which != 2) return;
        op::OptionParser q(p);
        Model qm = m;
        op::OptionParser r(std::move(q));
        answers(r, qm, ask, "a moved copy with many options");
    });
    mc::add("C29", "many options with their own sources", amounts(), [=](uint64_t t) {
        int n = amount(t), kinds = choose(3), shift = choose(4);
        op::OptionParser p;
        Model m;
        std::vector<Decl> tab;
        Strings vars;
        for (int i = 0; i < n; ++i) {
            Decl d = one_of(1, 0, i);
            if (kinds == 1 && i % 2) d.action = op::Append;
            if (kinds == 2) d.type = op::String;
            int src = (i + shift) % 4;
            string text = std::to_string(i + 10) + (kinds == 2 ? string(size_t(i % 60), 't') : "");
            if (src & 1) d.def = text;
            if (src & 2) {
                d.env = "MC_OPT_M" + std::to_string(i);
                if (i % 5 != 4) { setenv(d.env.c_str(), ("7" + text).c_str(), 1); vars.push_back(d.env); }
            }
            tab.push_back(d);
        }
        declare(p, m, tab);
        for (int k = 0; k < 2; ++k) {
            Strings args;
            int every = choose(3);
            if (every) for (int i = k; i < n; i += every == 1 ? 3 : 10) args.push_back(tab[size_t(i)].names[0] + "=" + std::to_string(i));
            Run(args).go(p, m, VALUES, {}, "many options with their own sources");
        }
        for (auto& v : vars) unsetenv(v.c_str());
    });
    mc::add("C30", "texts of many options", amounts(), [=](uint64_t t) {
        int n = amount(t), names = choose(4), help = choose(3), mix = choose(2);
        op::OptionParser p;
        Model m;
        for (int i = 0; i < n; ++i) {
            Decl d = one_of(names, mix, i);
            if (help == 1) d.help = "message " + std::to_string(i);
            if (help == 2) d.help = i % 3 ? "h" + string(size_t(i * 13 % 300), 'm') : "";
            declare(p, m, {d});
        }
        texts_ok(p, m);
        Run(Strings{"x"}).go(p, m, VALUES, {}, "between");
        texts_ok(p, m);
        Decl d = decl({"--one-more"}, op::Store, op::String);
        d.help = "the last";
        declare(p, m, {d});
        texts_ok(p, m);
    });
    mc::add("C30", "long names, messages, destinations and texts", mc::thorough() ? 1200 : 400, [=](uint64_t t) {
        int kind = choose(6);
        string x(size_t(t), 'x');
        op::OptionParser p;
        Model m;
        Decl a = decl({"-a", "--alpha"}, op::Store, op::String, "al"), b = decl({"--b"}, op::Append, op::Int, "bb");
        a.help = "first";
        b.help = "second one";
        switch (kind) {
            case 0: b.help = "m" + x; break;
            case 1: b.dest = "d" + x; break;
            case 2: b.names = {"--b" + x, "-b"}; break;
            case 3: m.program = "p" + x; p.program(m.program); break;
            case 4: m.usage = "u" + x; p.usage(*m.usage); break;
            case 5: m.version = "v" + x; p.version(*m.version); break;
        }
        declare(p, m, {a, b});
        texts_ok(p, m);
        Run(Strings{}).go(p, m, VALUES, {}, "between");
        texts_ok(p, m);
    });
}
// ---------------------------------------------------------------------------------------------- C34: the value store by itself
struct StoreModel {
    std::map<string, op::Value> vals;
    std::map<string, std::vector<op::Value>> lists;
    std::set<string> touched;
};
struct StoreWorld {
    std::unique_ptr<op::ValueStore> st{new op::ValueStore};
    StoreModel m;
    std::vector<string> keys;
    std::string last = "construction";
    struct Kept { op::vector<op::Value> list; std::vector<op::Value> want; };
    std::vector<Kept> kept;
    static std::vector<op::Value> plain(const op::vector<op::Value>& v) { std::vector<op::Value> r; for (size_t i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; }
    static std::string text(const std::vector<op::Value>& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) { if (v.size() > 30 && i == 10) { s += "...; "; i = v.size() - 10; } s += show(v[i]) + "; "; } return "[" + s + "](" + std::to_string(v.size()) + ")"; }
    static bool same_list(const std::vector<op::Value>& a, const std::vector<op::Value>& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i) if (a[i].index() != b[i].index() || !(a[i] == b[i])) return false;
        return true;
    }
    template <class T> void typed(const string& k, const std::vector<op::Value>& want) {
        auto l = st->get_list<T>(k);
        MC_CHECK(l && l->size() == want.size(), "after %s: get_list<T>(%s) has %zd elements instead of %zu", last.c_str(), k.c_str(), l ? ssize_t(l->size()) : -1, want.size());
        for (size_t i = 0; i < want.size(); ++i) MC_CHECK((*l)[i] == std::get<T>(want[i]), "after %s: element %zu of get_list<T>(%s) is wrong", last.c_str(), i, k.c_str());
    }
    void check() {
        mc::step();
        mc::Hash h;
        for (auto& k : keys) {
            MC_CHECK(st->user_set(k) == (m.touched.count(k) != 0), "after %s: user_set(%s) is %d", last.c_str(), k.c_str(), !m.touched.count(k));
            auto v = m.vals.find(k);
            if (v == m.vals.end()) {
                MC_CHECK(absent(*st, k) && !st->get<int32_t>(k) && !st->get<string>(k), "after %s: %s has a value which was never set", last.c_str(), k.c_str());
                h.add(7);
            } else {
                auto g = get_like(*st, k, v->second);
                MC_CHECK(g && g->index() == v->second.index() && *g == v->second, "after %s: %s holds %s instead of %s", last.c_str(), k.c_str(), g ? show(*g).c_str() : "nothing", show(v->second).c_str());
                h.add(v->second.index()).str(show(v->second));
            }
            auto l = m.lists.find(k);
            auto gl = st->get_list(k);
            MC_CHECK(gl.has_value() == (l != m.lists.end()), "after %s: %s has %s list", last.c_str(), k.c_str(), gl ? "a" : "no");
            h.add(gl.has_value());
            if (!gl) { MC_CHECK(!st->get_list<string>(k), "after %s: %s has a list of strings only", last.c_str(), k.c_str()); continue; }
            MC_CHECK(same_list(plain(*gl), l->second), "after %s: the list of %s is %s instead of %s", last.c_str(), k.c_str(), text(plain(*gl)).c_str(), text(l->second).c_str());
            h.str(text(l->second));
            std::set<size_t> kinds;
            for (auto& x : l->second) kinds.insert(x.index());
            if (kinds.empty()) { typed<string>(k, l->second); typed<int32_t>(k, l->second); }
            if (kinds.size() == 1) switch (*kinds.begin()) {
                case 0: typed<bool>(k, l->second); break;
                case 1: typed<int32_t>(k, l->second); break;
                case 2: typed<int64_t>(k, l->second); break;
                case 3: typed<float>(k, l->second); break;
                case 4: typed<double>(k, l->second); break;
                default: typed<string>(k, l->second);
            }
            if (kept.size() < 8) kept.push_back({std::move(*gl), l->second});
        }
        for (auto& x : kept) MC_CHECK(same_list(plain(x.list), x.want), "after %s: a list handed out before changed to %s from %s", last.c_str(), text(plain(x.list)).c_str(), text(x.want).c_str());
        mc::state(h);
    }
    void set(const string& k, const op::Value& v) { last = "set(" + k + ", " + show(v) + ")"; st->set(k, v); m.vals[k] = v; m.touched.insert(k); }
    void append(const string& k, const op::Value& v) { last = "append(" + k + ", " + show(v) + ")"; st->append(k, v); m.lists[k].push_back(v); m.touched.insert(k); }
    void append(const string& k, std::initializer_list<op::Value> v) {
        last = "append(" + k + ", " + text(v) + ")";
        st->append(k, v);
        auto& l = m.lists[k];
        l.insert(l.end(), v.begin(), v.end());
        m.touched.insert(k);
    }
    bool count(const string& k) {
        auto v = m.vals.find(k);
        if (v != m.vals.end() && (v->second.index() != 1 || std::get<1>(v->second) == INT_MAX)) return false;
        last = "increment(" + k + ")";
        st->increment(k);
        if (v == m.vals.end()) m.vals[k] = 1; else v->second = std::get<1>(v->second) + 1;
        m.touched.insert(k);
        return true;
    }
    void move() { last = "moving the store"; std::unique_ptr<op::ValueStore> n(new op::ValueStore(std::move(*st))); st = std::move(n); }
    bool op(int o) {
        static const string longer(60, 'v');
        const string& k = keys[size_t(o) % keys.size()];
        switch (size_t(o) / keys.size()) {
            case 0: set(k, string("text")); return true;
            case 1: set(k, 41); return true;
            case 2: set(k, int64_t(1) << 40); return true;
            case 3: set(k, false); return true;
            case 4: set(k, 2.5); return true;
            case 5: set(k, longer); return true;
            case 6: return count(k);
            case 7: append(k, string("a")); return true;
            case 8: append(k, longer); return true;
            case 9: append(k, 7); return true;
            case 10: append(k, {}); return true;
            case 11: append(k, {op::Value(string("one"))}); return true;
            case 12: append(k, {op::Value(string("x")), op::Value(longer), op::Value(string())}); return true;
            case 13: append(k, {op::Value(1), op::Value(2.0f), op::Value(true), op::Value(string("mixed"))}); return true;
        }
        return false;
    }
    static constexpr int kOps = 14;
};
static void value_store() {
    bool T = mc::thorough();
    auto histories = [&](const char* name, std::vector<string> keys, int depth) {
        int n = StoreWorld::kOps * int(keys.size());
        mc::add("C34", string("histories of ") + std::to_string(depth) + " operations, " + name, uint64_t(n) * uint64_t(n), [=](uint64_t t) {
            StoreWorld w;
            w.keys = keys;
            w.keys.push_back("never");
            w.check();
            w.keys.pop_back();
            for (int d = 0; d < depth; ++d) {
                int o = d == 0 ? int(t) % n : d == 1 ? int(t) / n : choose(n + 1);
                if (o == n) { w.move(); } else if (!w.op(o)) return;
                w.keys.push_back("never");
                w.check();
                w.keys.pop_back();
            }
        });
    };
    histories("one destination", {"d"}, T ? 6 : 5);
    histories("two destinations", {"b", "a"}, T ? 4 : 3);
    histories("destinations which begin alike", {"", "dest", "dest2"}, 3);
    mc::add("C34", "lists of every length", T ? 700 : 300, [](uint64_t t) {
        StoreWorld w;
        w.keys = {"k", "other"};
        int kind = choose(7), tail = choose(5);
        for (uint64_t i = 0; i < t; ++i) {
            string s = i % 3 ? std::to_string(i) : string(size_t(i % 41), 'l') + std::to_string(i);
            switch (kind) {
                case 0: w.append("k", s); break;
                case 1: w.append("k", int32_t(i)); break;
                case 2: w.append("k", {op::Value(s), op::Value(s + "!")}); break;
                case 3: w.append("k", double(i) / 3); break;
                case 4: w.append("k", i % 2 == 0); break;
                case 5: w.append("k", int64_t(i) << 33); break;
                case 6: if (i % 2) w.append("k", s); else w.append("k", float(i)); break;
            }
        }
        w.check();
        switch (tail) {
            case 0: w.append("k", string("end")); break;
            case 1: w.append("k", {op::Value(3), op::Value(4), op::Value(5)}); break;
            case 2: w.move(); break;
            case 3: w.append("k", {}); w.append("other", string(40, 'o')); break;
            case 4: w.set("k", string(t, 's')); break;
        }
        w.check();
        w.append("k", string("last"));
        w.check();
    });
    mc::add("C34", "counting and many destinations", T ? 700 : 300, [](uint64_t t) {
        StoreWorld w;
        int order = choose(3);
        for (uint64_t i = 0; i < t; ++i) {
            uint64_t j = order == 0 ? i : order == 1 ? t - 1 - i : i * 7919 % t;
            w.keys.push_back("key" + std::to_string(j));
            const string& k = w.keys.back();
            if (j % 3 == 0) w.set(k, string(j % 50, 'x'));
            if (j % 3 == 1) w.append(k, int32_t(j));
            if (j % 4 == 2) for (uint64_t c = 0; c <= j % 9; ++c) w.count(k);
        }
        w.keys.push_back("n");
        for (uint64_t i = 0; i < t; ++i) w.count("n");
        w.check();
        w.move();
        w.check();
    });
}
void mc_spaces(const string& p) {
    if (p == "C26" || p == "C27") lines(p.c_str());
    if (p == "C26") conversions();
    if (p == "C26" || p == "C27") reparse();
    registration();
    sources();
    texts();
    value_store();
    many();
}
int main(int c, char** v) { return mc::main_(c, v); }
