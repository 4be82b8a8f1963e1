// C23: globbing in real directory trees, against the definition of the pattern language.
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "common.hpp"

// ---- the directory calls, observed and (where a scenario asks for it) answered differently
static std::set<DIR *> *g_dirs;
static std::vector<std::string> *g_opened;
static bool g_watch, g_unknown;
static int g_fail_nth = -1, g_nopen, g_maxopen;
static std::string *g_failed;
struct NoTrack {
    bool t = mc::track_allocs;
    NoTrack() { mc::track_allocs = false; }
    ~NoTrack() { mc::track_allocs = t; }
};
extern "C" {
DIR *__real_opendir(const char *);
int __real_closedir(DIR *);
dirent *__real_readdir(DIR *);
dirent64 *__real_readdir64(DIR *);
DIR *__wrap_opendir(const char *n) {
    if(!g_watch)
        return __real_opendir(n);
    g_opened->push_back(n);
    if(g_nopen++ == g_fail_nth) {
        *g_failed = n;
        errno = EACCES;
        return nullptr;
    }
    DIR *d = __real_opendir(n);
    if(d) {
        g_dirs->insert(d);
        g_maxopen = std::max(g_maxopen, (int)g_dirs->size());
    }
    return d;
}
int __wrap_closedir(DIR *d) {
    if(!g_watch)
        return __real_closedir(d);
    if(!d) {
        errno = EINVAL;
        return -1;
    }
    if(!g_dirs->erase(d))
        g_ctx->fail("closedir of a directory that is not open");
    return __real_closedir(d);
}
dirent *__wrap_readdir(DIR *d) {
    dirent *e = __real_readdir(d);
    if(e && g_unknown)
        e->d_type = DT_UNKNOWN;
    return e;
}
dirent64 *__wrap_readdir64(DIR *d) {
    dirent64 *e = __real_readdir64(d);
    if(e && g_unknown)
        e->d_type = DT_UNKNOWN;
    return e;
}
}

// ---- reference
struct Tree {
    std::map<std::string, char> e; // path below the root -> 'd', 'f'
    void add(const std::string &p, char k) { e[p] = k; }
};
static std::vector<std::string> parts_of(const std::string &s) {
    std::vector<std::string> r;
    std::string cur;
    for(char ch : s + "/")
        if(ch == '/') {
            if(!cur.empty())
                r.push_back(cur);
            cur.clear();
        } else
            cur += ch;
    return r;
}
// 0 no, 1 left open, 2 yes
static int match1(const std::string &t, const std::string &p) {
    if(t[0] == '.' && p[0] == '*')
        return 0;
    std::vector<std::vector<char>> m(t.size() + 1, std::vector<char>(p.size() + 1, 0));
    m[t.size()][p.size()] = 1;
    for(int i = (int)t.size(); i >= 0; --i)
        for(int j = (int)p.size() - 1; j >= 0; --j) {
            bool b;
            if(p[j] == '*')
                b = m[i][j + 1] || (i < (int)t.size() && m[i + 1][j]);
            else
                b = i < (int)t.size() && (p[j] == '?' || p[j] == t[i]) && m[i + 1][j + 1];
            m[i][j] = b;
        }
    if(!m[0][0])
        return 0;
    return t[0] == '.' && p[0] == '?' ? 1 : 2;
}
static int match_path(const std::vector<std::string> &t, size_t i, const std::vector<std::string> &p, size_t j) {
    if(j == p.size())
        return i == t.size() ? 2 : 0;
    if(p[j] == "**") {
        if(j + 1 == p.size()) { // everything below
            for(size_t k = i; k < t.size(); ++k)
                if(t[k][0] == '.')
                    return 0;
            return i < t.size() ? 2 : 0;
        }
        int best = 0;
        for(size_t k = i; k < t.size(); ++k) {
            best = std::max(best, match_path(t, k, p, j + 1));
            if(t[k][0] == '.')
                break;
        }
        return best;
    }
    if(i == t.size())
        return 0;
    int a = match1(t[i], p[j]);
    return a ? std::min(a, match_path(t, i + 1, p, j + 1)) : 0;
}

static void clear_dir(const std::string &root) {
    std::error_code ec;
    for(auto &x : std::filesystem::directory_iterator(root, ec))
        std::filesystem::remove_all(x.path(), ec);
}
static void build(const std::string &root, const Tree &t) {
    for(auto &[p, k] : t.e) {
        std::string f = root + "/" + p;
        if(k == 'd')
            mkdir(f.c_str(), 0700);
        else
            close(open(f.c_str(), O_CREAT | O_WRONLY, 0600));
    }
}

static std::string txt(const P::Path &p) { return std::string(p.c_str(), p.size()); }

struct Watch {
    std::set<DIR *> dirs;
    std::vector<std::string> opened;
    std::string failed;
    Watch() {
        g_dirs = &dirs;
        g_opened = &opened;
        g_failed = &failed;
        g_nopen = 0;
        g_maxopen = 0;
        g_watch = true;
    }
    ~Watch() {
        g_watch = false;
        g_unknown = false;
        g_fail_nth = -1;
    }
};

static std::string prefix_of(const std::string &root) { return root.empty() ? "" : root.back() == '/' ? root : root + "/"; }

// Everything one complete iteration has to yield.
static void complete(Ctx &c, const Tree &t, const std::string &root, const std::string &pat, bool lossy = false) {
    g_ctx = &c;
    auto pp = parts_of(pat);
    Watch w;
    g_unknown = false;
    std::multiset<std::string> got;
    {
        P::Path rp(root.c_str());
        auto g = rp.glob(pat.c_str());
        for(size_t n = 0;; ++n) {
            auto r = g.next();
            if(!r)
                break;
            MC_CHECK(c, n < 3000 + t.e.size(), "the iteration of '%s' does not end", pat.c_str());
            got.insert(txt(*r));
        }
        MC_CHECK(c, !g.next(), "a finished iteration yields something");
    }
    g_watch = false;
    MC_CHECK(c, w.dirs.empty(), "%zu directories are left open by '%s'", w.dirs.size(), pat.c_str());
    std::string pre = prefix_of(root);
    for(auto &o : w.opened)
        MC_CHECK(c, o == root || (root.empty() && o == ".") || (o.compare(0, pre.size(), pre) == 0 && o.find("..", pre.size()) == std::string::npos && (o[0] == '/') == (root[0] == '/')),
                 "'%s' from '%s' opens '%s'", pat.c_str(), root.c_str(), o.c_str());
    for(auto &[p, k] : t.e) {
        int m = pp.empty() ? 0 : match_path(parts_of(p), 0, pp, 0);
        size_t n = got.count(pre + p);
        MC_CHECK(c, m || !n, "'%s' from '%s' yields '%s'", pat.c_str(), root.c_str(), p.c_str());
        bool lost = false;
        if(lossy && !w.failed.empty()) // whatever is below the directory that could not be opened
            lost = w.failed.size() <= pre.size() || (p + "/").compare(0, w.failed.size() - pre.size() + 1, w.failed.substr(pre.size()) + "/") == 0;
        MC_CHECK(c, m < 2 || n || lost, "'%s' from '%s' misses '%s'", pat.c_str(), root.c_str(), p.c_str());
        MC_CHECK(c, n <= 1, "'%s' from '%s' yields '%s' %zu times", pat.c_str(), root.c_str(), p.c_str(), n);
        got.erase(pre + p);
    }
    MC_CHECK(c, got.empty(), "'%s' from '%s' yields '%s', which is not in the tree", pat.c_str(), root.c_str(), got.begin()->c_str());
    c.ops(1);
}

// A directory of its own for the execution, entered for relative roots.
struct Dir {
    std::string root;
    int old;
    Dir() {
        root = mc::workdir() + "/t";
        mkdir(root.c_str(), 0700);
        clear_dir(root);
        old = open(".", O_RDONLY | O_DIRECTORY);
        if(chdir(root.c_str()) != 0)
            _exit(99);
    }
    ~Dir() {
        if(fchdir(old) != 0)
            _exit(99);
        close(old);
        clear_dir(root);
    }
};

static Tree some_tree(Ctx &c) {
    Tree t;
    switch(c.choose(4)) {
    case 1:
        t.add("a", 'f');
        break;
    case 2:
        t.add("a", 'd');
        break;
    case 3:
        t.add("a", 'd');
        t.add("a/a", 'f');
    }
    if(c.choose(2))
        t.add("b.a", 'f');
    if(c.choose(2)) {
        t.add(".g", 'd');
        t.add(".g/a", 'f');
        t.add(".g/d", 'd');
        t.add(".g/d/a", 'f');
    }
    if(int d = c.choose(4)) {
        t.add("d", 'd');
        if(d == 2)
            t.add("d/a", 'f');
        if(d == 3) {
            t.add("d/a", 'd');
            t.add("d/a/a", 'd');
            t.add("d/.h", 'f');
        }
        switch(c.choose(4)) {
        case 1:
            t.add("d/e", 'd');
            break;
        case 2:
            t.add("d/e", 'd');
            t.add("d/e/a", 'f');
            break;
        case 3:
            t.add("d/e", 'd');
            t.add("d/e/a", 'd');
            t.add("d/e/b.a", 'f');
            t.add("d/e/d", 'd');
            t.add("d/e/d/a", 'f');
        }
    }
    std::string s;
    for(auto &[p, k] : t.e)
        s += p + (k == 'd' ? "/ " : " ");
    c.op("tree: %s", s.c_str());
    return t;
}

static const char *const COMP[] = {"a", "*", "**", "d", "?", "*a", ".*", "e", "?*", "*.a", ".g", "a*", "x"};
static constexpr int NC = 13;

static void roots(const Dir &d, std::vector<std::string> &r) { r = {d.root, "", ".", "../t"}; }

// Patterns of several components.
static void trees(Ctx &c) {
    Tree t = some_tree(c);
    int comps = 1 + c.choose(c.bound(3, 4));
    int first = c.choose(NC);
    Dir d;
    build(d.root, t);
    std::vector<std::string> rs;
    roots(d, rs);
    std::vector<int> idx(comps - 1, 0);
    int wide = c.thorough && comps < 4 ? NC : comps == 4 ? 7 : comps == 3 ? 9 : NC;
    unsigned turn = 0;
    for(;;) {
        std::string pat = COMP[first];
        int stars = first == 2;
        for(int i : idx) {
            pat += std::string("/") + COMP[i];
            stars += i == 2;
        }
        if(stars < 2) {
            if(comps == 3 && !c.thorough)
                complete(c, t, rs[turn++ & 3], pat);
            else
                for(auto &r : rs)
                    complete(c, t, r, pat);
        } else { // "not yet supported": refused, or right
            try {
                P::Path rp(d.root.c_str());
                auto g = rp.glob(pat.c_str());
                complete(c, t, d.root, pat);
            } catch(const P::PyException &) {
            }
        }
        c.state(mc::Hash().str(pat).add(t.e.size()).h);
        int i = comps - 2;
        while(i >= 0 && idx[i] == wide - 1)
            idx[i--] = 0;
        if(i < 0)
            break;
        ++idx[i];
    }
}

// Patterns of one component against every short name.
static void names(Ctx &c) {
    int len = 1 + c.choose(c.bound(5, 6));
    static const char PC[] = {'a', '*', '?', '.', 'b'};
    std::string pat;
    for(int i = 0; i < len; ++i) {
        pat += PC[c.choose(5)];
        if(i && pat[i] == '*' && pat[i - 1] == '*')
            c.abandon();
    }
    if(pat == "." || pat == "..")
        c.abandon();
    c.op("pattern %s", pat.c_str());
    static Tree t;
    static pid_t owner;
    static std::string root;
    {
        NoTrack nt;
        if(owner != getpid()) { // the same tree for every execution of this process
            owner = getpid();
            root = mc::workdir() + "/names";
            mkdir(root.c_str(), 0700);
            clear_dir(root);
            t.e.clear();
            for(int n = 1; n <= 5; ++n)
                for(int k = 0; k < (n == 1 ? 3 : n == 2 ? 9 : n == 3 ? 27 : n == 4 ? 81 : 243); ++k) {
                    std::string s;
                    for(int i = 0, v = k; i < n; ++i, v /= 3)
                        s += "ab."[v % 3];
                    if(s != "." && s != "..")
                        t.add(s, 'f');
                }
            build(root, t);
        }
    }
    complete(c, t, root, pat);
    c.state(mc::Hash().str(pat).h);
}

// Names of every length up to the longest there can be, and every byte in them.
static void long_names(Ctx &c) {
    static const int lens[] = {6, 7, 8, 9, 14, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 200, 253, 254, 255};
    int n = c.pick(lens);
    c.op("names of %d characters", n);
    Dir d;
    Tree t;
    std::string a(n, 'a'), m = a, e = a, b = a;
    m[n / 2] = '.';
    e[n - 1] = 'b';
    b[0] = 'b';
    t.add(a, 'f');
    t.add(m, 'f');
    t.add(e, 'f');
    t.add(b, 'd');
    t.add(b + "/" + a, 'f');
    t.add(b + "/" + e, 'd');
    t.add(b + "/" + e + "/" + m, 'f');
    t.add(a.substr(1), 'f');
    t.add("." + a.substr(1), 'f');
    build(d.root, t);
    std::string q(n, '?'), sq;
    std::vector<std::string> rs;
    roots(d, rs);
    for(const std::string &p : {a, m, e, q, q.substr(1), q + "?", std::string("*"), a + "*", "*" + a, a.substr(1) + "*", "*" + a.substr(1), a.substr(0, n - 1) + "?",
                                "?" + a.substr(1), std::string("*b"), std::string("b*"), std::string("*.*"), "*." + a.substr(n / 2 + 1),
                                a.substr(0, n / 2) + "*" + a.substr(n - n / 2 + 1), "*/" + a, b + "/*", b + "/*/*", b + "/" + e + "/" + m, std::string("**"),
                                "**/" + a, "**/" + m, b + "/**", "**/" + q, b + "/" + q + "/" + q})
        for(auto &r : rs)
            complete(c, t, r, p);
    c.state(mc::Hash().add(n).h);
}
static void bytes(Ctx &c) {
    int b = 1 + c.choose(255);
    if(b == '/' || b == '*' || b == '?')
        return;
    c.op("byte %d", b);
    char ch = (char)b;
    std::string s(1, ch);
    Dir d;
    Tree t;
    for(const std::string &n : {"a" + s + "a", s + "a", "a" + s, s + s + "x", std::string("aXa"), std::string("Xa"), std::string("aX")})
        t.add(n, 'f');
    t.add("d" + s, 'd');
    t.add("d" + s + "/" + s + "e", 'f');
    build(d.root, t);
    for(const std::string &p : {"a" + s + "a", s + "a", "a" + s, s + "*", "*" + s, "*" + s + "*", "*" + s + "a", "?" + s, std::string("a?a"), std::string("?a"), std::string("*a"),
                                "d" + s + "/*", "*/" + s + "e", "**/" + s + "*", s + s + "?"})
        complete(c, t, d.root, p);
    c.state(mc::Hash().add(b).h);
}
// Directories with many entries, and trees with many directories.
static void many(Ctx &c) {
    static const int counts[] = {10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000, 1025};
    int n = c.pick(counts), kind = c.choose(3);
    c.op("%d entries, kind %d", n, kind);
    Dir d;
    Tree t;
    if(kind == 2 && n > 257) // paths would be too long
        return;
    std::string deep;
    for(int i = 0; i < n; ++i) {
        std::string name = "n" + std::to_string(i);
        if(kind == 0)
            t.add(name, i % 3 == 0 ? 'd' : 'f');
        else if(kind == 1) {
            t.add(name, 'd');
            t.add(name + "/x" + std::to_string(i % 10), 'f');
        } else {
            deep += (i ? "/" : "") + name;
            t.add(deep, 'd');
            t.add(deep + "/f", 'f');
        }
    }
    for(auto &[p, k] : t.e) // in the order of depth, as the map orders prefixes first
        if(k == 'd')
            mkdir((d.root + "/" + p).c_str(), 0700);
    build(d.root, t);
    for(const char *p : {"*", "n*", "n1*", "*9", "n?", "n??", "**", "**/x1", "*/x*", "n1/x1", "**/f", "n0/*/f", "n0/n1/n2/f", "none", "*/none"})
        complete(c, t, d.root, p);
    c.state(mc::Hash().add(n).add(kind).h);
}

// Stopping anywhere, moving the iteration, directories that cannot be opened, unknown entry types.
static void partial(Ctx &c) {
    g_ctx = &c;
    Tree t = some_tree(c);
    Dir d;
    build(d.root, t);
    static const char *const pats[] = {"**/a", "*/*", "d/**/a", "**", "*", "d/e/*"};
    const char *pat = pats[c.choose(6)];
    int mode = c.choose(5);
    c.op("pattern %s, mode %d", pat, mode);
    auto pp = parts_of(pat);
    size_t total = 0;
    for(auto &[p, k] : t.e)
        total += match_path(parts_of(p), 0, pp, 0) == 2;
    if(mode < 4) {
        for(size_t stop = 0; stop <= total; ++stop) {
            Watch w;
            std::set<std::string> got;
            {
                P::Path rp(d.root.c_str());
                auto g = rp.glob(pat);
                rp = P::Path("/nonexistent");
                for(size_t i = 0; i < stop; ++i) {
                    auto r = g.next();
                    MC_CHECK(c, (bool)r, "the iteration ends after %zu of %zu results", i, total);
                    got.insert(txt(*r));
                }
                if(mode == 1) {
                    auto h = P::move(g);
                    size_t n = stop;
                    while(auto r = h.next()) {
                        got.insert(txt(*r));
                        ++n;
                    }
                    MC_CHECK(c, n == total && got.size() == total, "a moved iteration yields %zu of %zu results", n, total);
                    MC_CHECK(c, !g.next(), "a moved-from iteration yields something");
                } else if(mode == 2) { // replaced half way
                    P::Path other((d.root + "/d").c_str());
                    auto h = other.glob("*");
                    h.next();
                    g = P::move(h);
                    size_t n = 0, want = 0;
                    while(g.next())
                        ++n;
                    for(auto &[p, k] : t.e)
                        want += match_path(parts_of(p), 0, {"d", "*"}, 0) == 2;
                    MC_CHECK(c, n + (want ? 1 : 0) == want, "a replaced iteration yields %zu more of %zu", n, want);
                } else if(mode == 3) {
                    P::GlobResult e;
                    MC_CHECK(c, !e.next(), "an empty iteration yields something");
                    e = P::move(g);
                    auto &alias = e;
                    e = P::move(alias);
                    size_t n = stop;
                    while(e.next())
                        ++n;
                    MC_CHECK(c, n == total, "a move-assigned iteration yields %zu of %zu results", n, total);
                }
            }
            MC_CHECK(c, w.dirs.empty(), "%zu directories are left open when '%s' is abandoned after %zu results", w.dirs.size(), pat, stop);
            c.ops(stop + 1);
        }
    } else {
        {
            Watch w;
            g_unknown = true;
            // file systems that do not report entry types
            std::multiset<std::string> got;
            {
                auto g = P::Path(d.root.c_str()).glob(pat);
                while(auto r = g.next()) {
                    got.insert(txt(*r));
                }
            }
            g_unknown = false;
            for(auto &[p, k] : t.e) {
                int m = match_path(parts_of(p), 0, pp, 0);
                MC_CHECK(c, m == 1 || got.count(d.root + "/" + p) == (size_t)(m == 2), "unknown entry types: '%s' yields '%s' %zu times", pat, p.c_str(), got.count(d.root + "/" + p));
            }
        }
        for(int nth = 0; nth < 12; ++nth) {
            g_fail_nth = nth;
            complete(c, t, d.root, pat, true);
            if(g_nopen <= nth)
                break;
        }
        g_fail_nth = -1;
    }
}

// Few file descriptors, many directories; odd roots; what exists() and friends say.
static void odd(Ctx &c) {
    int k = c.choose(6);
    Dir d;
    Tree t;
    if(k == 0) {
        int n = 24;
        for(int i = 0; i < n; ++i) {
            std::string s = "d" + std::to_string(i);
            t.add(s, 'd');
            t.add(s + "/a", 'f');
            t.add(s + "/e", 'd');
            t.add(s + "/e/a", 'f');
        }
        build(d.root, t);
        int fd = open("/dev/null", O_RDONLY);
        close(fd);
        rlimit old, now;
        getrlimit(RLIMIT_NOFILE, &old);
        now = old;
        now.rlim_cur = fd + 10;
        setrlimit(RLIMIT_NOFILE, &now);
        for(auto *p : {"**/a", "*/a", "*/*/a", "**", "*/**/a"}) {
            c.op("%s with 10 free descriptors", p);
            complete(c, t, d.root, p);
        }
        setrlimit(RLIMIT_NOFILE, &old);
        return;
    }
    if(k == 1) {
        c.op("roots that are not directories");
        t.add("f", 'f');
        build(d.root, t);
        complete(c, Tree(), d.root + "/f", "*");
        complete(c, Tree(), d.root + "/none", "*");
        complete(c, Tree(), d.root + "/none", "**/a");
        complete(c, Tree(), "none", "**");
        return;
    }
    if(k == 2) {
        c.op("empty patterns");
        t.add("a", 'f');
        build(d.root, t);
        for(auto *p : {"", "/", "//"})
            if(!throws([&] { P::Path("").glob(p); }))
                complete(c, t, d.root, p);
        for(auto *p : {"a**", "**a", "d/**x/a", "***"})
            MC_CHECK(c, throws([&] { P::Path("").glob(p); }), "'%s' is accepted", p);
        return;
    }
    if(k == 3) {
        c.op("a deep chain");
        std::string s;
        for(int i = 0; i < 40; ++i) {
            s += (i ? "/" : "") + std::string("d");
            t.add(s, 'd');
        }
        t.add(s + "/a", 'f');
        build(d.root, t);
        complete(c, t, d.root, "**/a");
        complete(c, t, "", "**/d/a");
        complete(c, t, ".", "d/**/a");
        complete(c, t, d.root, "**");
        complete(c, t, d.root, "d/d/**/d/a");
        std::string all = s;
        for(auto &ch : all)
            if(ch == 'd')
                ch = '?';
        complete(c, t, d.root, all);
        complete(c, t, d.root, all + "/*");
        return;
    }
    if(k == 4) {
        c.op("queries and renaming");
        t.add("f", 'f');
        t.add("d", 'd');
        t.add("d/g", 'f');
        build(d.root, t);
        if(symlink("f", "lf") || symlink("d", "ld") || symlink("none", "ln"))
            _exit(99);
        struct {
            const char *p;
            bool e, f, d;
        } q[] = {{"f", 1, 1, 0}, {"d", 1, 0, 1}, {"none", 0, 0, 0}, {"lf", 1, 1, 0}, {"ld", 1, 0, 1}, {"ln", 0, 0, 0}, {"d/g", 1, 1, 0}, {"f/g", 0, 0, 0}, {".", 1, 0, 1}, {"", 0, 0, 0}, {"/dev/null", 1, 0, 0}, {"/", 1, 0, 1}};
        for(auto &x : q) {
            P::Path p(x.p);
            MC_CHECK(c, p.exists() == x.e && p.is_file() == x.f && p.is_dir() == x.d, "queries on '%s' are wrong", x.p);
        }
        return;
    }
    // rename_to
    static const char *const names[] = {"f", "g", "d", "none", "d/h", "e"};
    int from = c.choose(6), to = c.choose(6);
    t.add("f", 'f');
    t.add("g", 'f');
    t.add("d", 'd');
    t.add("e", 'd');
    t.add("d/h", 'f');
    build(d.root, t);
    FILE *f = fopen("f", "w");
    fputs("one", f);
    fclose(f);
    c.op("rename %s to %s", names[from], names[to]);
    // what the C library's own rename does in an identical tree
    bool todir = P::Path(names[to]).is_dir();
    std::string ref = mc::workdir() + "/ref";
    std::filesystem::remove_all(ref);
    std::filesystem::copy(d.root, ref, std::filesystem::copy_options::recursive);
    bool want = !todir && rename((ref + "/" + names[from]).c_str(), (ref + "/" + names[to]).c_str()) == 0;
    fflush(stderr);
    int save = dup(2), null = open("/dev/null", O_WRONLY);
    dup2(null, 2);
    bool got = P::Path(names[from]).rename_to(P::Path(names[to]));
    fflush(stderr);
    dup2(save, 2);
    close(save);
    close(null);
    MC_CHECK(c, got == want, "rename %s to %s says %d", names[from], names[to], got);
    std::string a, b;
    auto list = [](const std::string &r, std::string &s) {
        std::set<std::string> l;
        for(auto &x : std::filesystem::recursive_directory_iterator(r))
            l.insert(x.path().string().substr(r.size()) + (x.is_directory() ? "/" : ":" + std::to_string(x.file_size())));
        for(auto &x : l)
            s += x + " ";
    };
    list(d.root, a);
    list(ref, b);
    std::filesystem::remove_all(ref);
    MC_CHECK(c, a == b, "after rename %s to %s the tree is %s, expected %s", names[from], names[to], a.c_str(), b.c_str());
}

void mc::mc_register() {
    mc::add("names", "every pattern of up to 5 (thorough: 6) characters of a b . * ? against every name of up to 5 characters", names, 3);
    mc::add("trees", "a family of 208 trees, every pattern of up to 3 (thorough: 4) components, 4 ways to name the root", trees, 6);
    mc::add("partial", "the trees, 6 patterns: stopped after every number of results, moved, replaced; every directory that cannot be opened; unknown entry types", partial, 4);
    mc::add("odd", "few descriptors, deep trees, odd roots and patterns, queries, all renamings between 6 names", odd, 1);
    mc::add("long-names", "names of 27 lengths up to 255, 28 patterns, 4 ways to name the root", long_names);
    mc::add("bytes", "each byte in names and directories, 15 patterns", bytes);
    mc::add("many", "13 numbers of entries, of directories, of levels, 15 patterns", many);
}
