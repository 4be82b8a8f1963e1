// C21: command lines, against a reference parser.  Link with -Wl,--wrap=exit,--wrap=abort.
#include <csetjmp>
#include <deque>
#include <memory>
#include <optional>
#include <cerrno>
#include "common.hpp"
#include <pystd2026_argparse.hpp>

static jmp_buf g_exit_jmp;
static int g_exit_code;
static bool g_armed = false;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __real_abort() __attribute__((noreturn));
extern "C" __attribute__((noreturn, no_sanitize("address"))) void __wrap_exit(int code) {
    if(g_armed) {
        g_armed = false;
        g_exit_code = code;
        longjmp(g_exit_jmp, 1);
    }
    __real_exit(code);
}
extern "C" __attribute__((noreturn, no_sanitize("address"))) void __wrap_abort() {
    if(g_armed) {
        g_armed = false;
        g_exit_code = 134;
        longjmp(g_exit_jmp, 1);
    }
    __real_abort();
}

#ifndef NO_PRIVATE
// The library keeps positional arguments but has no accessor for them.
template<auto M> struct Rob {
    friend P::ParseResult &result_of(P::ParseOutput &o) { return o.*M; }
};
P::ParseResult &result_of(P::ParseOutput &o);
template struct Rob<&P::ParseOutput::pr>;
#endif

struct Opt {
    const char *name;
    char s;
    const char *l;
    char type;   // S, A, B, I
    char action; // s store, t true, f false, a append
    std::optional<int64_t> lo, hi;
};
static std::vector<Opt> OPTS = {
    {"str", 's', "--str", 'S', 's', {}, {}},   {"num", 'i', "--int", 'I', 's', -5, 50}, {"flag", 'f', "--flag", 'B', 't', {}, {}},
    {"nof", 'n', "--nof", 'B', 'f', {}, {}},   {"arr", 'a', "--arr", 'A', 'a', {}, {}}, {"one", 0, "--one", 'A', 's', {}, {}},
    {"quick", 'q', "", 'S', 's', {}, {}},      {"big", 0, "--str-big", 'I', 's', {}, {}},
};

struct Val {
    char type = 0;
    std::string s;
    int64_t i = 0;
    std::vector<std::string> a;
    bool operator==(const Val &o) const { return type == o.type && s == o.s && i == o.i && a == o.a; }
};
static std::string showv(const Val &v) {
    if(v.type == 'S')
        return "'" + v.s + "'";
    if(v.type == 'A') {
        std::string r = "[";
        for(auto &x : v.a)
            r += "'" + x + "' ";
        return r + "]";
    }
    return std::string(1, v.type) + std::to_string(v.i);
}
struct Res {
    bool error = false, help = false;
    std::map<std::string, Val> vals;
    std::vector<std::string> pos, extra;
};

static bool parse_int(const std::string &s, int64_t &out) {
    size_t i = 0;
    bool neg = false;
    if(i < s.size() && (s[i] == '-' || s[i] == '+'))
        neg = s[i++] == '-';
    if(i == s.size())
        return false;
    __int128 v = 0;
    for(; i < s.size(); ++i) {
        if(s[i] < '0' || s[i] > '9')
            return false;
        v = v * 10 + (s[i] - '0');
        if(v > ((__int128)1 << 70))
            v = (__int128)1 << 70;
    }
    if(neg)
        v = -v;
    if(v > INT64_MAX || v < INT64_MIN)
        return false;
    out = (int64_t)v;
    return true;
}

static Val default_of(const Opt &o) {
    Val v;
    v.type = o.type;
    if(o.type == 'S')
        v.s = "dflt";
    if(o.type == 'I')
        v.i = 3;
    if(o.type == 'B')
        v.i = o.action == 'f';
    if(o.type == 'A')
        v.a = {"d0"};
    return v;
}

static Res reference(const std::vector<std::string> &args, bool posargs, bool defaults) {
    Res r;
    if(defaults)
        for(auto &o : OPTS)
            r.vals[o.name] = default_of(o);
    auto err = [&] {
        r.error = true;
        return r;
    };
    for(size_t i = 0; i < args.size(); ++i) {
        const std::string &t = args[i];
        if(t.empty())
            return err();
        if(t == "-h" || t == "--help") {
            r.help = true;
            return r;
        }
        if(t == "--") {
            r.extra.assign(args.begin() + i + 1, args.end());
            break;
        }
        if(t[0] != '-') {
            if(!posargs)
                return err();
            r.pos.push_back(t);
            continue;
        }
        const Opt *o = nullptr;
        std::optional<std::string> attached;
        if(t[1] == '-') {
            auto eq = t.find('=');
            std::string key = t.substr(0, eq);
            if(eq != std::string::npos)
                attached = t.substr(eq + 1);
            for(auto &x : OPTS)
                if(key == x.l)
                    o = &x;
        } else {
            if(t.size() < 2)
                return err();
            for(auto &x : OPTS)
                if(x.s && x.s == t[1])
                    o = &x;
            if(t.size() > 2)
                attached = t.substr(2);
        }
        if(!o)
            return err();
        bool fresh = !r.vals.count(o->name);
        Val &v = r.vals[o->name];
        if(fresh)
            v.type = o->type;
        if(o->action == 't' || o->action == 'f') {
            if(attached)
                return err();
            v.i = o->action == 't';
            continue;
        }
        std::string value;
        if(attached)
            value = *attached;
        else {
            if(i + 1 >= args.size())
                return err();
            value = args[++i];
        }
        if(o->type == 'S')
            v.s = value;
        else if(o->type == 'I') {
            if(!parse_int(value, v.i) || (o->lo && v.i < *o->lo) || (o->hi && v.i > *o->hi))
                return err();
        } else if(o->action == 'a')
            v.a.push_back(value);
        else
            v.a = {value};
    }
    return r;
}

static void declare(P::ArgParse &p, bool posargs, bool defaults) {
    for(auto &o : OPTS) {
        P::Argument a;
        a.name = P::CString(o.name);
        a.short_arg = o.s;
        a.long_arg = P::CString(o.l);
        a.help = P::U8String("help");
        a.type = o.type == 'S' ? P::ArgumentType::String : o.type == 'I' ? P::ArgumentType::Integer
            : o.type == 'B'                                                ? P::ArgumentType::Boolean
                                                                           : P::ArgumentType::StringArray;
        a.aaction = o.action == 's' ? P::ArgumentAction::Store : o.action == 't' ? P::ArgumentAction::StoreTrue
            : o.action == 'f'                                                      ? P::ArgumentAction::StoreFalse
                                                                                   : P::ArgumentAction::AppendArray;
        if(o.lo)
            a.minval = *o.lo;
        if(o.hi)
            a.maxval = *o.hi;
        if(defaults) {
            Val d = default_of(o);
            if(d.type == 'S')
                a.default_value = P::ArgumentValue(P::CString(d.s.c_str()));
            else if(d.type == 'I')
                a.default_value = P::ArgumentValue(d.i);
            else if(d.type == 'B')
                a.default_value = P::ArgumentValue((bool)d.i);
            else {
                P::Vector<P::CString> v;
                v.emplace_back(d.a[0].c_str());
                a.default_value = P::ArgumentValue(P::move(v));
            }
        }
        p.add_argument(P::move(a));
    }
    if(posargs)
        p.permit_posargs();
}

// The argument list, every string and the list itself exactly as long as it has to be.
struct Argv {
    std::vector<std::unique_ptr<char[]>> strs;
    std::unique_ptr<const char *[]> argv;
    int argc;
    Argv(const std::vector<std::string> &args) : argv(new const char *[args.size() + 2]), argc((int)args.size() + 1) {
        auto put = [&](const std::string &s) {
            strs.emplace_back(new char[s.size() + 1]);
            memcpy(strs.back().get(), s.c_str(), s.size() + 1);
            return strs.back().get();
        };
        argv[0] = put("prog");
        for(size_t i = 0; i < args.size(); ++i)
            argv[i + 1] = put(args[i]);
        argv[argc] = nullptr;
    }
};

// What the library makes of it: nothing when it reports an error.
struct Got {
    bool error = false;
    int code = -1;
    P::Optional<P::ParseOutput> out;
};

static FILE *g_null;
__attribute__((noinline)) static void run_parser(P::ArgParse &p, Argv &av, Got &g) {
    if(!g_null)
        g_null = fopen("/dev/null", "w");
    FILE *so = stdout, *se = stderr;
    stdout = g_null;
    stderr = g_null;
    if(setjmp(g_exit_jmp) == 0) {
        g_armed = true;
        try {
            g.out = p.parse_args(av.argc, av.argv.get());
        } catch(const P::PyException &) {
            g.error = true;
        } catch(const char *) {
            g.error = true;
        }
        g_armed = false;
    } else {
        g.error = true;
        g.code = g_exit_code;
    }
    stdout = so;
    stderr = se;
}

static void compare(Ctx &c, const Res &want, Got &g, const std::string &line) {
    if(want.help) {
        MC_CHECK(c, g.error && g.code == 0, "%s does not print the help and end", line.c_str());
        return;
    }
    if(want.error) {
        MC_CHECK(c, g.error && g.code != 0, "%s should be refused, it is accepted", line.c_str());
        MC_CHECK(c, g.code != 134, "%s aborts", line.c_str());
        return;
    }
    MC_CHECK(c, !g.error && g.out, "%s is refused (exit code %d), it should be accepted", line.c_str(), g.code);
    P::ParseOutput &o = *g.out;
    for(auto &opt : OPTS) {
        auto it = want.vals.find(opt.name);
        P::ArgumentValue *v = o.value_of(P::CStringView(opt.name));
        const P::ParseOutput &co = o;
        MC_CHECK(c, v == co.value_of(P::CStringView(opt.name)), "value_of differs when const");
        MC_CHECK(c, !!v == (it != want.vals.end()), "%s: %s is %s", line.c_str(), opt.name, v ? "invented" : "dropped");
        if(!v)
            continue;
        Val got;
        got.type = opt.type;
        bool typed = true;
        if(opt.type == 'S') {
            auto *x = v->get_if<P::CString>();
            if((typed = x))
                got.s = std::string(x->c_str(), x->size());
        } else if(opt.type == 'I') {
            auto *x = v->get_if<int64_t>();
            if((typed = x))
                got.i = *x;
        } else if(opt.type == 'B') {
            auto *x = v->get_if<bool>();
            if((typed = x))
                got.i = *x;
        } else {
            auto *x = v->get_if<P::Vector<P::CString>>();
            if((typed = x))
                for(auto &e : *x)
                    got.a.push_back(std::string(e.c_str(), e.size()));
        }
        MC_CHECK(c, typed, "%s: %s holds another type", line.c_str(), opt.name);
        MC_CHECK(c, got == it->second, "%s: %s is %s, expected %s", line.c_str(), opt.name, showv(got).c_str(), showv(it->second).c_str());
    }
    MC_CHECK(c, !o.value_of(P::CStringView("nosuch")), "an undeclared name has a value");
#ifndef NO_PRIVATE
    auto list = [](const P::Vector<P::CString> &v) {
        std::vector<std::string> r;
        for(auto &e : v)
            r.push_back(std::string(e.c_str(), e.size()));
        return r;
    };
    MC_CHECK(c, list(result_of(o).posargs) == want.pos, "%s: the positional arguments are wrong", line.c_str());
    MC_CHECK(c, list(result_of(o).extra_args) == want.extra, "%s: the arguments after -- are wrong", line.c_str());
#endif
}

static std::string join(const std::vector<std::string> &a) {
    std::string r = "{";
    for(auto &s : a)
        r += " '" + s + "'";
    return r + " }";
}

static void one_line(Ctx &c, const std::vector<std::string> &args, bool posargs, bool defaults) {
    c.ops(1);
    c.no_leak_check = true; // exit() leaves the parser's temporaries behind
    P::ArgParse p{P::U8String("what it does")};
    declare(p, posargs, defaults);
    Argv av(args);
    Got g;
    run_parser(p, av, g);
    std::string line = join(args) + (posargs ? " with positionals" : "") + (defaults ? " with defaults" : "");
    Res want = reference(args, posargs, defaults);
    c.state(mc::Hash().str(line).h);
    compare(c, want, g, line);
}

static const char *const TOKENS[] = {
    "pos", "--str", "--str=v", "-s", "-i", "7", "--flag", "--", "--arr=1", "-a", "-f", "--int", "-", "", "--int=5", "-n", "--str=", "-sv",
    "--str=a=b", "-i7", "-7", "-i-5", "-i-6", "x", "--int=50", "--int=51", "--int=", "--int=5x", "--int=x", "--int=+4", "--int=99999999999999999999",
    "--flag=1", "--flag=", "-fs", "-fn", "--nof", "--arr", "-ab", "--one=q", "--one", "-q", "-qq", "--help", "-h", "--unknown", "-u", "--st", "--strx",
    "--str-big=2147483648", "--str-big", "--quick", "--str-big=-9223372036854775808", "--str-big=9223372036854775808", "---str", "-\xc3\xa9", "--str=\xc3\xa9", "--=", "--str -s", "=", "--int=0x10", "--int=010"};
static const int NTOK = sizeof TOKENS / sizeof *TOKENS;

static void lines(Ctx &c, int maxlen, int alphabet, int inner) {
    bool posargs = c.choose(2), defaults = c.choose(2);
    int n = c.choose(maxlen + 1);
    std::vector<std::string> args;
    for(int i = 0; i < n - inner; ++i)
        args.push_back(TOKENS[c.choose(alphabet)]);
    c.op("argument lists of %d after %s%s%s", n, join(args).c_str(), posargs ? " with positionals" : "", defaults ? " with defaults" : "");
    int rest = n - (int)args.size();
    std::vector<int> idx(rest, 0);
    size_t base = args.size();
    args.resize(n);
    for(;;) {
        for(int i = 0; i < rest; ++i)
            args[base + i] = TOKENS[idx[i]];
        one_line(c, args, posargs, defaults);
        int i = rest - 1;
        while(i >= 0 && idx[i] == alphabet - 1)
            idx[i--] = 0;
        if(i < 0)
            break;
        ++idx[i];
    }
}

// The same parser object used twice: the second result does not depend on the first line.
static void twice(Ctx &c) {
    static const char *const al[] = {"pos", "--str=v", "-i7", "--flag", "--arr=1", "--", "--int=x", "--one=z"};
    bool defaults = c.choose(2);
    std::vector<std::string> l[2];
    for(auto &x : l) {
        int n = c.choose(3);
        for(int i = 0; i < n; ++i)
            x.push_back(al[c.choose(8)]);
    }
    c.op("%s, then %s", join(l[0]).c_str(), join(l[1]).c_str());
    c.no_leak_check = true;
    P::ArgParse p{P::U8String("")};
    declare(p, true, defaults);
    for(auto &x : l) {
        Argv av(x);
        Got g;
        run_parser(p, av, g);
        compare(c, reference(x, true, defaults), g, join(x) + (&x == l ? "" : " as the second line"));
    }
    c.state(mc::Hash().str(join(l[0])).str(join(l[1])).h);
}

// Options that clash are refused, and only those.
static void clashes(Ctx &c) {
    static const char *const names[] = {"a", "b", "c"};
    static const char *const longs[] = {"", "--x", "--xy"};
    static const char shorts[] = {0, 'x', 'y'};
    struct D {
        int n, l, s;
    } d[3];
    P::ArgParse p{P::U8String("")};
    std::vector<D> have;
    for(auto &x : d) {
        x = D{c.choose(3), c.choose(3), c.choose(3)};
        c.op("declare %s %s %c", names[x.n], longs[x.l], shorts[x.s] ? shorts[x.s] : '-');
        bool clash = false;
        for(auto &h : have)
            clash = clash || h.n == x.n || (h.l && h.l == x.l) || (h.s && h.s == x.s);
        P::Argument a;
        a.name = P::CString(names[x.n]);
        a.long_arg = P::CString(longs[x.l]);
        a.short_arg = shorts[x.s];
        bool threw = throws([&] { p.add_argument(P::move(a)); });
        MC_CHECK(c, threw == clash, "declaring option %s (%s, %c) is %s", names[x.n], longs[x.l], shorts[x.s] ? shorts[x.s] : '-',
                 threw ? "refused" : "accepted");
        if(!threw)
            have.push_back(x);
    }
    c.no_leak_check = true;
    // What was declared works, what was refused does not.
    for(int l = 1; l < 3; ++l) {
        Argv av({std::string(longs[l]) + "=v"});
        Got g;
        run_parser(p, av, g);
        int owner = -1;
        for(auto &h : have)
            if(h.l == l)
                owner = h.n;
        MC_CHECK(c, g.error == (owner < 0), "%s is %s", longs[l], g.error ? "refused" : "accepted");
        for(int n = 0; !g.error && n < 3; ++n)
            MC_CHECK(c, !!(*g.out).value_of(P::CStringView(names[n])) == (n == owner), "%s gives a value to %s", longs[l], names[n]);
    }
    mc::Hash h;
    for(auto &x : d)
        h.add(x.n).add(x.l).add(x.s);
    c.state(h.h);
}

// Lines of many arguments, and of long ones.
static void many(Ctx &c) {
    static const int counts[] = {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000};
    static const std::vector<std::vector<std::string>> groups = {
        {"--arr=#"}, {"-a", "#"}, {"pos#"}, {"-i7", "--flag"}, {"--str=v#", "-n"}, {"--arr=x", "pos#", "-s", "#", "--flag", "--int=4"}, {"-a#", "-q#", "p"},
        {"--one=#"}, {"--", "#"}};
    static const std::vector<std::vector<std::string>> tails = {{}, {"--"}, {"-a"}, {"--str", "last"}, {"-u"}, {"--int=99"}, {"--", "-h", "--str=q"}, {"-h"}, {""}};
    int n = c.pick(counts), g = c.choose((int)groups.size()), tl = c.choose((int)tails.size());
    bool posargs = c.choose_inner(2), front = c.choose_inner(2);
    std::vector<std::string> args;
    if(front)
        args = tails[tl];
    for(int i = 0; i < n; ++i)
        for(auto t : groups[g]) {
            auto at = t.find('#');
            if(at != std::string::npos)
                t.replace(at, 1, std::to_string(i));
            args.push_back(t);
        }
    if(!front)
        args.insert(args.end(), tails[tl].begin(), tails[tl].end());
    c.op("%d times %s, %s %s", n, join(groups[g]).c_str(), front ? "after" : "then", join(tails[tl]).c_str());
    one_line(c, args, posargs, false);
}
static void long_values(Ctx &c) {
    static const int lens[] = {7, 8, 14, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 70000};
    int n = c.pick(lens);
    std::string v(n, 'v'), d(n, '7'), z(n, '0'), e(n, '=');
    c.op("values of %d characters", n);
    for(const std::vector<std::string> &a :
        std::vector<std::vector<std::string>>{{"--str=" + v},    {"-s" + v},       {"-s", v},          {"--str", v},       {v},            {"--", v},       {"--arr=" + v, "-a", v}, {"--one", v},
                                              {"-i" + d},        {"-i" + z + "7"}, {"--int=" + z},     {"--int=-" + z + "5"}, {"--" + v},  {"--" + v + "=1"}, {"-" + v},              {"--str" + v + "=x"},
                                              {"--str=" + e + v}, {"-q" + e},       {"--str-big=" + d}, {"--str-big", "-" + z + "1"}, {"--int=5" + v}, {"-f" + v}, {"--flag=" + v}, {"--str=v", v, "--str=w"},
                                              {"--int=+" + z + "50"}, {"--int=" + z + "51"}})
        for(int k = 0; k < 4; ++k)
            one_line(c, a, k & 1, k & 2);
}
// Every number around the limits, and every short text as a number.
static void integers(Ctx &c) {
    int block = c.choose(16);
    c.op("numbers, block %d", block);
    std::vector<std::string> texts;
    for(int i = -100 + block; i <= 300; i += 16)
        texts.push_back(std::to_string(i));
    for(__int128 mid : {(__int128)1 << 31, (__int128)1 << 32, (__int128)1 << 62, (__int128)1 << 63, (__int128)1 << 64, (__int128)1 << 65})
        for(int sg : {1, -1})
            for(int k = -3; k <= 3; ++k) {
                if((k + 3) % 16 != block)
                    continue;
                __int128 v = (mid + k) * sg;
                bool neg = v < 0;
                if(neg)
                    v = -v;
                std::string t;
                for(; v; v /= 10)
                    t.insert(t.begin(), (char)('0' + (int)(v % 10)));
                texts.push_back((neg ? "-" : "") + t);
                texts.push_back((neg ? "-000" : "+0") + t);
            }
    static const char AL[] = {'-', '+', '0', '3', '9', 'x', ' ', '.'};
    for(int k = block; k < 8 * 8 * 8 * 8; k += 16) {
        std::string t;
        for(int v = k, i = 0; i < 4; ++i, v /= 8)
            t += AL[v % 8];
        for(int l = 1; l <= 4; ++l)
            if(l == 4 || k % 64 == 0)
                texts.push_back(t.substr(4 - l));
    }
    for(int b = 1 + block; b < 256; b += 16) { // a byte in, before and after a number
        char ch = (char)b;
        texts.push_back(std::string(1, ch));
        texts.push_back(std::string(1, ch) + "3");
        texts.push_back(std::string("3") + ch);
        texts.push_back(std::string("1") + ch + "2");
    }
    for(auto &t : texts) {
        if(isspace((unsigned char)t[0])) // skipped or refused, either is fine
            continue;
        one_line(c, {"--int=" + t}, false, false);
        one_line(c, {"--str-big", t}, false, false);
    }
}
// Parsers with many options, with short, long, or both names.
static void tables(Ctx &c) {
    static const int counts[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300};
    static const int namelens[] = {1, 8, 15, 23, 24, 40, 100};
    int n = c.pick(counts), nl = c.pick(namelens);
    bool defaults = c.choose(2);
    c.op("%d options, names of %d and more characters%s", n, nl, defaults ? ", defaults" : "");
    auto keep = OPTS;
    std::deque<std::string> names;
    OPTS.clear();
    static const char types[] = "SISBAAB";
    static const char actions[] = "ssstasf";
    for(int i = 0; i < n; ++i) {
        Opt o{};
        names.push_back(std::string(nl, 'o') + std::to_string(i));
        o.name = names.back().c_str();
        names.push_back("--" + std::string(nl, 'o') + std::to_string(i));
        o.l = i % 5 == 4 && i < 40 ? "" : names.back().c_str();
        o.s = i < 40 && i % 3 != 1 ? (char)('A' + i) : 0;
        if(o.s == 'h' || (o.s >= 'Z' + 1 && o.s < 'a'))
            o.s = 0;
        if(!o.s && !*o.l)
            o.l = names.back().c_str();
        o.type = types[i % 7];
        o.action = actions[i % 7];
        OPTS.push_back(o);
    }
    struct Back {
        std::vector<Opt> k;
        ~Back() { OPTS = k; }
    } back{keep};
    // each option alone, in both forms, and all of them at once
    std::vector<std::string> all, rev;
    auto forms = [&](const Opt &o) {
        std::vector<std::vector<std::string>> r;
        bool bare = o.action == 't' || o.action == 'f';
        if(o.s) {
            r.push_back({std::string("-") + o.s + (bare ? "" : "12")});
            if(!bare)
                r.push_back({std::string("-") + o.s, "13"});
        }
        if(*o.l) {
            r.push_back({std::string(o.l) + (bare ? "" : "=14")});
            if(!bare)
                r.push_back({o.l, "15"});
            r.push_back({std::string(o.l) + "x"});
            r.push_back({std::string(o.l).substr(0, strlen(o.l) - 1) + (bare ? "" : "=1")});
        }
        return r;
    };
    for(int i = 0; i < n; ++i) {
        auto f = forms(OPTS[i]);
        all.insert(all.end(), f[0].begin(), f[0].end());
        rev.insert(rev.begin(), f[0].begin(), f[0].end());
        if(i < 3 || i > n - 4 || i % 16 == 15 || i % 16 == 0)
            for(auto &x : f)
                one_line(c, x, false, defaults);
    }
    one_line(c, all, false, defaults);
    one_line(c, rev, false, defaults);
    all.insert(all.end(), rev.begin(), rev.end());
    one_line(c, all, true, defaults);
}

void mc::mc_register() {
    mc::add("lines", "all lines of up to 2 of 61 arguments, with and without positionals and defaults", [](Ctx &c) { lines(c, 2, NTOK, 1); }, 3);
    mc::add("long-lines", "all lines of up to 4 (thorough: 5) of 14 (thorough: 18) arguments", [](Ctx &c) { lines(c, c.bound(4, 5), c.bound(14, 18), 2); }, 3);
    mc::add("lines-3", "all lines of up to 3 of 61 arguments", [](Ctx &c) { lines(c, 3, NTOK, 1); }, 3);
    mc::add("twice", "two lines of up to 2 of 8 arguments with one parser", twice, 3);
    mc::add("clashes", "three declarations with 3 names, long and short options", clashes, 3);
    mc::add("many", "22 numbers of repetitions up to 1000 of 9 groups of arguments, 9 endings and beginnings", many, 3);
    mc::add("long-values", "27 lengths up to 70000, 26 lines", long_values);
    mc::add("integers", "numbers around the limits of types and options, every text of up to 4 of 8 characters, every byte", integers);
    mc::add("tables", "21 numbers of options up to 300, 7 lengths of names", tables);
}
