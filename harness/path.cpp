// C22: paths as texts, against the component-wise definition.
#include "common.hpp"

static std::string txt(const P::Path &p) { return std::string(p.c_str(), p.size()); }
static std::string txt(const P::CString &p) { return std::string(p.c_str(), p.size()); }

static std::string norm(std::string s) {
    while(s.size() > 1 && s.back() == '/')
        s.pop_back();
    return s;
}
static bool absolute(const std::string &s) { return !s.empty() && s[0] == '/'; }
static std::string joined(const std::string &a, const std::string &b_) {
    std::string b = norm(b_);
    if(absolute(b) || a.empty())
        return b;
    return norm(a.back() == '/' ? a + b : a + "/" + b);
}
static std::string last(const std::string &s) {
    auto p = s.rfind('/');
    return p == std::string::npos ? s : s.substr(p + 1);
}
// Where the extension starts, or npos.
static size_t ext_at(const std::string &s) {
    auto n = last(s);
    auto p = n.rfind('.');
    return p == std::string::npos ? p : s.size() - n.size() + p;
}
// A name whose only dots are leading (".", "..", ".rc") has an extension or not depending on whom one asks.
static bool ext_open(const std::string &s) {
    auto n = last(s);
    size_t i = 0;
    while(i < n.size() && n[i] == '.')
        ++i;
    return i && n.find('.', i) == std::string::npos;
}
static std::vector<std::string> comps(const std::string &s) {
    std::vector<std::string> r;
    std::string cur;
    for(char ch : s + "/")
        if(ch == '/') {
            if(!cur.empty())
                r.push_back(cur);
            cur.clear();
        } else
            cur += ch;
    return r;
}

// Every observation of one path.
static void observe(Ctx &c, const P::Path &p, const std::string &want) {
    std::string got = txt(p);
    MC_CHECK(c, got == want, "the path is '%s', expected '%s'", got.c_str(), want.c_str());
    MC_CHECK(c, p.size() == want.size() && strlen(p.c_str()) == want.size(), "size of '%s' is %zu", want.c_str(), p.size());
    MC_CHECK(c, p.is_empty() == want.empty(), "is_empty('%s') is wrong", want.c_str());
    MC_CHECK(c, p.is_abs() == absolute(want), "is_abs('%s') is wrong", want.c_str());
    std::string f = txt(p.filename());
    MC_CHECK(c, f == last(want), "filename of '%s' is '%s', expected '%s'", want.c_str(), f.c_str(), last(want).c_str());
    if(!ext_open(want)) {
        size_t e = ext_at(want);
        std::string we = e == std::string::npos ? "" : want.substr(e);
        std::string ge = txt(p.extension());
        MC_CHECK(c, ge == we, "extension of '%s' is '%s', expected '%s'", want.c_str(), ge.c_str(), we.c_str());
    } else
        p.extension();
    auto parts = p.split();
    std::vector<std::string> gp, wp = comps(want);
    for(auto &x : parts)
        gp.push_back(txt(x));
    MC_CHECK(c, gp == wp, "split of '%s' gives %zu components, expected %zu, or others", want.c_str(), gp.size(), wp.size());
    MC_CHECK(c, txt(p) == want, "an observer changes the path");
    // The components, joined, give the path back.
    P::Path again(absolute(want) ? "/" : "");
    for(auto &x : parts)
        again = again / x;
    std::string back = absolute(want) ? "/" : "";
    for(size_t i = 0; i < wp.size(); ++i)
        back += (i ? "/" : "") + wp[i];
    MC_CHECK(c, txt(again) == back, "joining the components of '%s' gives '%s', expected '%s'", want.c_str(), txt(again).c_str(), back.c_str());
}

static const char AL[] = {'a', '.', '/', 'b'};
static std::string text(Ctx &c, int len, int alphabet) {
    std::string s;
    for(int i = 0; i < len; ++i)
        s += AL[c.choose(alphabet)];
    return s;
}
static std::string exact(Ctx &c, int maxlen, int alphabet) { return text(c, c.choose(maxlen + 1), alphabet); }

static void single(Ctx &c) {
    int n = c.choose(c.bound(9, 11));
    int outer = n > 5 ? n - 5 : 0;
    std::string head = text(c, outer, 4);
    c.op("paths of %d characters after '%s'", n, head.c_str());
    std::vector<int> idx(n - outer, 0);
    for(;;) {
        std::string s = head;
        for(int i : idx)
            s += AL[i];
        c.ops(1);
        c.state(mc::Hash().str(s).h);
        observe(c, P::Path(s.c_str()), norm(s));
        if(n < 8)
            observe(c, P::Path(P::CString(s.c_str(), s.size())), norm(s));
        int i = (int)idx.size() - 1;
        while(i >= 0 && idx[i] == 3)
            idx[i--] = 0;
        if(i < 0)
            break;
        ++idx[i];
    }
}

static void join(Ctx &c) {
    std::string a = exact(c, c.bound(4, 5), 3);
    c.op("'%s' / anything of up to %d characters", a.c_str(), c.bound(4, 5));
    P::Path pa(a.c_str());
    for(int n = 0; n <= c.bound(4, 5); ++n) {
        std::vector<int> idx(n, 0);
        for(;;) {
            std::string b;
            for(int i : idx)
                b += AL[i];
            c.ops(1);
            std::string want = joined(norm(a), b);
            P::Path pb(b.c_str());
            P::Path r1 = pa / pb, r2 = pa / b.c_str(), r3 = pa / P::CString(b.c_str());
            observe(c, r1, want);
            MC_CHECK(c, txt(r2) == want && txt(r3) == want, "'%s' / '%s' as text gives '%s' or '%s', expected '%s'", a.c_str(), b.c_str(),
                     txt(r2).c_str(), txt(r3).c_str(), want.c_str());
            MC_CHECK(c, txt(pa) == norm(a) && txt(pb) == norm(b), "joining changes an operand");
            // parent joined with the name gives the path back
            if(!b.empty() && b.find('/') == std::string::npos && !a.empty())
                MC_CHECK(c, txt(r1.filename()) == b && txt(pa / r1.filename()) == txt(r1), "'%s' / '%s' does not end in the name", a.c_str(), b.c_str());
            c.state(mc::Hash().str(a).str(b).h);
            int i = n - 1;
            while(i >= 0 && idx[i] == 2)
                idx[i--] = 0;
            if(i < 0)
                break;
            ++idx[i];
        }
    }
}

static void extension(Ctx &c) {
    static const char *const exts[] = {".x", "", ".tar.gz", "z", "."};
    std::string a = exact(c, c.bound(6, 8), 4);
    int e = c.choose(5);
    c.op("'%s' with extension '%s'", a.c_str(), exts[e]);
    std::string n = norm(a);
    P::Path p(a.c_str());
    if(c.choose(2))
        p.replace_extension(exts[e]);
    else {
        std::string longer = std::string(exts[e]) + "tail";
        p.replace_extension(P::CStringView(longer.c_str(), strlen(exts[e])));
    }
    c.state(mc::Hash().str(n).add(e).h);
    if(ext_open(n) || n == "/")
        return;
    size_t at = ext_at(n);
    std::string want = (at == std::string::npos ? n : n.substr(0, at)) + exts[e];
    if(exts[e][0] == '.' && exts[e][1] && !last(n).empty() && last(want)[0] != '.')
        MC_CHECK(c, last(n).empty() || txt(p.extension()) == (e == 2 ? ".gz" : exts[e]), "the new extension of '%s' is not '%s'", a.c_str(), exts[e]);
    MC_CHECK(c, txt(p) == want, "'%s' with extension '%s' is '%s', expected '%s'", a.c_str(), exts[e], txt(p).c_str(), want.c_str());
    if(at != std::string::npos && want != "" && want.back() != '/')
        observe(c, p, want);
}

// Sequences of operations on one path.
static void history(Ctx &c) {
    static const char *const parts[] = {"a", "b.c", "/", "/r", ".d", "", "x/y.z", "e/", "a//b"};
    P::Path p;
    std::string m;
    int depth = c.bound(5, 6);
    for(int i = 0; i < depth; ++i) {
        int k = c.choose(13);
        if(k < 9) {
            c.op("/ '%s'", parts[k]);
            p = p / parts[k];
            m = joined(m, parts[k]);
        } else if(k == 9) {
            if(ext_open(m) || last(m).empty())
                c.abandon();
            c.op("replace_extension .q");
            p.replace_extension(".q");
            auto at = ext_at(m);
            m = (at == std::string::npos ? m : m.substr(0, at)) + ".q";
        } else if(k == 10) {
            c.op("filename");
            p = p.filename();
            m = last(m);
        } else if(k == 11) {
            c.op("self / self");
            p = p / p;
            m = joined(m, m);
        } else {
            c.op("copy and move");
            P::Path q(p);
            P::Path r(P::move(q));
            p = r;
            P::Path &alias = p;
            p = alias;
        }
        if(c.fresh())
            observe(c, p, m);
        c.visit(mc::Hash().str(m).h, depth - i);
    }
}

// Paths whose names or numbers of components are long, with every operation.
static void sizes(Ctx &c) {
    static const int sizes[] = {1,  2,   3,   7,   8,   14,  15,  16,  21,  22,  23,  24,  25,   30,   31,   32,   33,   47,    48,
                                63, 64,  65,  100, 127, 128, 129, 254, 255, 256, 257, 511, 512,  1023, 1024, 1025, 4094, 4095, 4096, 4097};
    int n = c.pick(sizes), kind = c.choose(8);
    c.op("size %d, kind %d", n, kind);
    if((kind == 3 || kind == 4) && n > c.bound(300, 1100)) // joining them back takes quadratic time
        return;
    std::string s;
    switch(kind) {
    case 0: // one name
        s = std::string(n, 'n');
        break;
    case 1: // one name with an extension at the end
        s = std::string(n, 'n') + ".x";
        break;
    case 2: // a long extension
        s = "n." + std::string(n, 'x');
        break;
    case 3: // many components, of which the first have a dot
        for(int i = 0; i < n; ++i)
            s += (i ? "/c" : "c.d") + std::to_string(i % 7);
        break;
    case 4: // absolute, many, the last with an extension
        for(int i = 0; i < n; ++i)
            s += "/" + std::string(1, 'a' + i % 26);
        s += ".txt";
        break;
    case 5: // a long name in the middle
        s = "/usr/" + std::string(n, 'l') + "/x.tar.gz";
        break;
    case 6: // slashes
        s = "a" + std::string(n, '/') + "b" + std::string(n, '/');
        break;
    default: // dots
        s = "a" + std::string(n, '.') + "b";
    }
    c.state(mc::Hash().str(s).h);
    P::Path p(s.c_str());
    observe(c, p, norm(s));
    P::Path q(P::CString(s.c_str(), s.size()));
    observe(c, q, norm(s));
    for(const std::string &t : {std::string("t"), std::string("/t/u"), std::string(n, 'k'), s, std::string("u/") + std::string(n, 'k') + ".e"}) {
        P::Path o(t.c_str());
        observe(c, p / o, joined(norm(s), t));
        observe(c, p / t.c_str(), joined(norm(s), t));
        observe(c, o / p, joined(norm(t), s));
    }
    size_t at = ext_at(norm(s));
    if(!ext_open(norm(s)))
        for(const std::string &e : {std::string(".q"), std::string(), "." + std::string(n, 'e'), std::string(".longer-than-before")}) {
            P::Path r(p);
            r.replace_extension(P::CStringView(e.c_str(), e.size()));
            std::string want = norm(s);
            want = (at == std::string::npos ? want : want.substr(0, at)) + e;
            observe(c, r, want);
            observe(c, p, norm(s));
        }
    observe(c, p / p, joined(norm(s), s));
}

// Every byte that a name can have, in each place.
static void bytes(Ctx &c) {
    int b = 1 + c.choose(255), k = c.choose(6);
    char ch = (char)b;
    static const char *const forms[] = {"%", "%%", "a%b/c", "a/%", "x.%", "/%/b%.c%d"};
    std::string s;
    for(const char *f = forms[k]; *f; ++f)
        s += *f == '%' ? ch : *f;
    c.op("byte %d, form %d", b, k);
    c.state(mc::Hash().str(s).h);
    P::Path p(s.c_str());
    observe(c, p, norm(s));
    P::Path a("q");
    observe(c, a / p, joined("q", s));
    observe(c, p / a, joined(norm(s), "q"));
    if(!ext_open(norm(s)) && norm(s) != "/") {
        size_t at = ext_at(norm(s));
        P::Path r(p);
        r.replace_extension(".z");
        observe(c, r, (at == std::string::npos ? norm(s) : norm(s).substr(0, at)) + ".z");
    }
}

void mc::mc_register() {
    mc::add("single", "every path text of up to 8 (thorough: 10) characters of a b . /", single);
    mc::add("join", "every pair of texts of up to 4 (thorough: 5) characters of a . /", join, 3);
    mc::add("extension", "every text of up to 6 (thorough: 8) characters of a b . /, 5 extensions", extension, 3);
    mc::add("history", "all sequences of 5 (thorough: 6) of 13 operations", history);
    mc::add("sizes", "39 lengths up to 4097 of a name, an extension, a number of components, of slashes and dots, every operation", sizes);
    mc::add("bytes", "each of 255 bytes in 6 places", bytes);
}
