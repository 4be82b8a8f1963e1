// C33: the command line tools, run as functions on every small input.
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "common.hpp"
#include "aborts.hpp"
// The headers that the tools include have been included above, so that the sources can stand in namespaces.
#include <assert.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#pragma clang diagnostic ignored "-Wreturn-type"
#pragma clang diagnostic ignored "-Wmain"
#if EPOCH == 2026
#include <pystd2026_argparse.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_introsort.hpp>
namespace wordcount_tool {
#include <tools/wordcount.cpp>
}
namespace wordsort_tool {
#include <tools/wordsort.cpp>
}
namespace argparse_tool {
#include <tools/argparse.cpp>
}
#else
namespace globber_tool {
#include <tools/globber.cpp>
}
#endif

// What a tool prints.
template<typename F> static std::string output(Ctx &c, int &rc, F &&tool) {
    char *buf = nullptr;
    size_t n = 0;
    FILE *real = stdout, *mine = open_memstream(&buf, &n);
    MC_CHECK(c, mine, "no memory stream");
    stdout = mine;
    rc = tool();
    stdout = real;
    fclose(mine);
    std::string r(buf, n);
    free(buf);
    c.ops(1);
    return r;
}
static std::string put(Ctx &c, const std::string &content) {
    std::string f = mc::workdir() + "/input.txt";
    int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    MC_CHECK(c, fd >= 0 && write(fd, content.data(), content.size()) == (ssize_t)content.size(), "cannot write the input");
    close(fd);
    return f;
}
static std::string show(const std::string &s) {
    std::string r;
    char b[8];
    for(unsigned char ch : s.substr(0, 200))
        if(ch >= ' ' && ch < 127)
            r += ch;
        else
            snprintf(b, sizeof b, "\\x%02x", ch), r += b;
    return "\"" + r + "\"";
}
[[maybe_unused]] static std::vector<std::string> lines_of(Ctx &c, const std::string &out) {
    std::vector<std::string> r;
    size_t i = 0;
    while(i < out.size()) {
        size_t e = out.find('\n', i);
        MC_CHECK(c, e != std::string::npos, "the last line of %s is not ended", show(out).c_str());
        r.push_back(out.substr(i, e - i));
        i = e + 1;
    }
    return r;
}
#if EPOCH == 2026
static bool blank(char ch) { return ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'; }
static std::vector<std::string> words_of(const std::string &t) {
    std::vector<std::string> r;
    std::string w;
    for(char ch : t + " ")
        if(blank(ch)) {
            if(!w.empty())
                r.push_back(w);
            w.clear();
        } else {
            w += ch;
        }
    return r;
}
static void check_tools(Ctx &c, const std::string &t) {
    std::string f = put(c, t);
    char *av[] = {(char *)"tool", f.data(), nullptr};
    int rc;
    auto words = words_of(t);
    auto out = output(c, rc, [&] { return wordsort_tool::main(2, av); });
    if(t.empty()) {
        // An empty file need not be mappable.
        MC_CHECK(c, rc == 1 || out.empty(), "wordsort of an empty file prints %s", show(out).c_str());
    } else {
        auto want = words;
        std::sort(want.begin(), want.end(), [](const std::string &a, const std::string &b) {
            return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](unsigned char x, unsigned char y) { return x < y; });
        });
        auto got = lines_of(c, out);
        MC_CHECK(c, rc == 0 && got == want, "wordsort of %s returns %d and prints %s", show(t).c_str(), rc, show(out).c_str());
    }
    out = output(c, rc, [&] { return wordcount_tool::main(2, av); });
    if(t.empty()) {
        MC_CHECK(c, rc == 1 || out.empty(), "wordcount of an empty file prints %s", show(out).c_str());
        return;
    }
    std::map<std::string, int> counts;
    for(auto &w : words)
        ++counts[w];
    MC_CHECK(c, rc == 0, "wordcount of %s returns %d and prints %s", show(t).c_str(), rc, show(out).c_str());
    size_t last_count = ~size_t(0), last_len = 0;
    for(auto &l : lines_of(c, out)) {
        size_t sp = l.find(' ');
        MC_CHECK(c, sp != std::string::npos, "wordcount prints the line %s", show(l).c_str());
        std::string w = l.substr(sp + 1);
        auto it = counts.find(w);
        MC_CHECK(c, it != counts.end() && l.substr(0, sp) == std::to_string(it->second), "wordcount of %s prints the line %s", show(t).c_str(), show(l).c_str());
        size_t n = it->second;
        MC_CHECK(c, n < last_count || (n == last_count && w.size() <= last_len), "wordcount of %s prints %s, which is not ordered by count and length", show(t).c_str(), show(out).c_str());
        last_count = n;
        last_len = w.size();
        counts.erase(it);
    }
    MC_CHECK(c, counts.empty(), "wordcount of %s leaves out %s", show(t).c_str(), show(counts.begin()->first).c_str());
    c.state(mc::Hash().str(out).h);
}
static void small(Ctx &c) {
    static const char *const pieces[] = {"a", "b", " ", "\n", "\xc3\xa9", "\t"};
    std::string t;
    int n = c.choose(c.bound(8, 9));
    for(int i = 0; i < n; ++i)
        t += c.pick(pieces);
    c.op("%s", show(t).c_str());
    check_tools(c, t);
}
// Longer texts: every number of distinct words around the thresholds of the hash table and the sort.
static void longer(Ctx &c) {
    static const int counts[] = {1, 8, 12, 13, 14, 16, 17, 24, 25, 26, 31, 32, 33, 48, 49, 50, 51, 98, 99, 100, 200, 1000};
    int n = c.pick(counts), rep = c.choose(4), order = c.choose(3), sep = c.choose(3), len = c.choose(3);
    std::string t;
    auto word = [&](int i) {
        std::string w = std::to_string((i * 7919) % 10007);
        if(len == 1)
            w = std::string(i % 40, 'x') + w;
        if(len == 2)
            w = "\xe2\x82\xac" + w + "\xf0\x9f\x98\x80";
        return w;
    };
    for(int r = 0; r < 6; ++r)
        for(int j = 0; j < n; ++j) {
            int i = order == 0 ? j : order == 1 ? n - 1 - j : (j * 31 + r) % n;
            bool take = rep == 0 ? r == 0 : rep == 1 ? r <= i % 6 : rep == 2 ? r <= (n - i) % 3 : i == 0 || r == 0;
            if(take)
                t += word(i) + (sep == 0 ? " " : sep == 1 ? "\n" : " \t\n ");
        }
    c.op("%d words, repetition %d, order %d, separator %d, kind %d", n, rep, order, sep, len);
    check_tools(c, t);
}
// How often a word occurs and how long it is, around the limits of the small integer types.
static void frequent(Ctx &c) {
    static const int freqs[] = {1, 2, 127, 128, 255, 256, 257, 300, 32768, 65535, 65536, 65537};
    static const int lens[] = {1, 2, 127, 128, 255, 256, 257, 65535, 65536, 65537};
    std::string t, a = "a", b = "b", d = "dd";
    int fa, fb;
    if(c.choose(2)) {
        fa = c.pick(freqs), fb = c.pick(freqs);
    } else {
        fa = 1 + c.choose(2), fb = 1 + c.choose(2);
        a.assign(c.pick(lens), 'a'), b.assign(c.pick(lens), 'b');
    }
    bool mixed = c.choose(2);
    c.op("%zu times a, %d times; %zu times b, %d times; %s", a.size(), fa, b.size(), fb, mixed ? "mixed" : "one after the other");
    for(int i = 0; i < fa || i < fb; ++i) {
        if(mixed)
            t += (i < fa ? a + " " : "") + (i < fb ? b + "\n" : "");
        else if(i < fa)
            t += a + " ";
    }
    for(int i = 0; !mixed && i < fb; ++i)
        t += b + "\n";
    check_tools(c, t + d);
}
// Bytes that are not UTF-8: wordcount reports them.
static void invalid(Ctx &c) {
    int b = 1 + c.choose(255), at = c.choose(3);
    std::string t = at == 0 ? std::string(1, b) + "a b" : at == 1 ? "a " + std::string(1, b) + " b" : "a b" + std::string(1, b);
    std::string f = put(c, t);
    char *av[] = {(char *)"tool", f.data(), nullptr};
    c.op("byte %02x at %d", b, at);
    if(b < 128) {
        if(b == 0xb || b == 0xc)
            c.abandon(); // vertical tab and form feed may separate words or not
        check_tools(c, t);
        return;
    }
    int rc;
    auto out = output(c, rc, [&] { return wordcount_tool::main(2, av); });
    MC_CHECK(c, rc == 1 && !out.empty(), "wordcount accepts %s: returns %d, prints %s", show(t).c_str(), rc, show(out).c_str());
}
static void usage(Ctx &c) {
    int which = c.choose(2), what = c.choose(4), rc;
    std::string missing = mc::workdir() + "/missing.txt", f = put(c, "b a a");
    unlink(missing.c_str());
    char *none[] = {(char *)"tool", nullptr};
    char *two[] = {(char *)"tool", f.data(), f.data(), nullptr};
    char *gone[] = {(char *)"tool", missing.data(), nullptr};
    char *dir[] = {(char *)"tool", (char *)mc::workdir().c_str(), nullptr};
    char **av = what == 0 ? none : what == 1 ? two : what == 2 ? gone : dir;
    int ac = what == 0 ? 1 : what == 1 ? 3 : 2;
    c.op("tool %d, case %d", which, what);
    auto out = output(c, rc, [&] { return which ? wordcount_tool::main(ac, av) : wordsort_tool::main(ac, av); });
    if(what < 2)
        MC_CHECK(c, out.find("<infile>") != std::string::npos, "no usage is printed: %s", show(out).c_str());
    else
        MC_CHECK(c, rc == 1 && !out.empty(), "a file that cannot be read: returns %d, prints %s", rc, show(out).c_str());
}
// The example of the command line parser prints what it was given.
static void example(Ctx &c) {
    struct {
        std::string foo = "undef", bar = "undef";
        int size = -1;
        std::vector<std::string> inc = {"one", "two"};
        bool v = false;
    } want;
    std::vector<const char *> av = {"prog"};
    int n = c.choose(c.bound(5, 6));
    std::string desc;
    auto add = [&](const char *t) {
        want.inc.push_back(t);
    };
    for(int i = 0; i < n; ++i) {
        switch(c.choose(9)) {
        case 0: av.push_back("--foo=x"); want.foo = "x"; break;
        case 1: av.push_back("--foo"); av.push_back("why"); want.foo = "why"; break;
        case 2: av.push_back("--bar=\xc3\xa9"); want.bar = "\xc3\xa9"; break;
        case 3: av.push_back("--size=9"); want.size = 9; break;
        case 4: av.push_back("--size"); av.push_back("0"); want.size = 0; break;
        case 5: av.push_back("--include=two"); add("two"); break;
        case 6: av.push_back("-I"); av.push_back("in"); add("in"); break;
        case 7: av.push_back("--include"); av.push_back("a b"); add("a b"); break;
        default: av.push_back("-v"); want.v = true; break;
        }
    }
    int ac = av.size();
    av.push_back(nullptr);
    for(int i = 1; i < ac; ++i)
        desc += std::string(" ") + av[i];
    c.op("argparse%s", desc.c_str());
    int rc;
    auto out = output(c, rc, [&] { return argparse_tool::main(ac, av.data()); });
    std::string w = "Foo: " + want.foo + "\nBar: " + want.bar + "\nSize: " + std::to_string(want.size) + "\nInclude: " + std::to_string(want.inc.size()) + " entries \n";
    for(auto &s : want.inc)
        w += " " + s + "\n";
    w += "Verbose: " + std::to_string(want.v) + "\n";
    MC_CHECK(c, rc == 0 && out == w, "argparse%s prints %s, expected %s", desc.c_str(), show(out).c_str(), show(w).c_str());
    c.state(mc::Hash().str(out).h);
}
void mc::mc_register() {
    mc::add("small", "wordcount and wordsort of every text of up to 7 (thorough: 8) pieces a b blank newline é tab", small, 3);
    mc::add("frequent", "wordcount and wordsort of two words, 12 numbers of occurrences up to 65537 each and 10 lengths up to 65537 each", frequent, 2);
    mc::add("longer", "wordcount and wordsort of 22 numbers of words up to 1000, 4 repetitions, 3 orders, 3 separators, 3 kinds of words", longer, 2);
    mc::add("invalid", "every byte at 3 places", invalid, 1);
    mc::add("usage", "missing arguments and files", usage, 1);
    mc::add("example", "the argparse example with up to 4 (thorough: 5) of 9 arguments", example, 2);
}
#else
static bool match(const char *p, const char *t) {
    if(*p == 0)
        return *t == 0;
    if(*p == '*')
        return match(p + 1, t) || (*t && match(p, t + 1));
    return *t && (*p == '?' || *p == *t) && match(p + 1, t + 1);
}
static void globs(Ctx &c) {
    static const char chars[] = "ab*?.";
    static const char *const names[] = {"a", "b", "ab", "ba", "aa.b", "a.a", ".a", "bbb"};
    std::string d = mc::workdir() + "/glob";
    mkdir(d.c_str(), 0755);
    for(auto n : names)
        close(open((d + "/" + n).c_str(), O_CREAT | O_WRONLY, 0644));
    int n = 1 + c.choose(c.bound(5, 6));
    std::string p;
    for(int i = 0; i < n; ++i)
        p += chars[c.choose(5)];
    if(p.find("**") != std::string::npos || p == "." || p == ".." || (p[0] == '?' && n > 1) || p == "??")
        c.abandon(); // ** and the special directories are C23's; ? against a leading dot is open
    c.op("globber %s", p.c_str());
    MC_CHECK(c, chdir(d.c_str()) == 0, "chdir");
    char *av[] = {(char *)"globber", p.data(), nullptr};
    int rc;
    auto out = output(c, rc, [&] { return globber_tool::main(2, av); });
    MC_CHECK(c, chdir("/") == 0, "chdir");
    auto got = lines_of(c, out);
    MC_CHECK(c, got.size() >= 2 && got[0] == "Glob matches:" && got[1].empty(), "globber prints %s", show(out).c_str());
    got.erase(got.begin(), got.begin() + 2);
    std::sort(got.begin(), got.end());
    std::vector<std::string> want;
    for(auto t : names)
        if((*t != '.' || p[0] == '.') && match(p.c_str(), t))
            want.push_back(t);
    std::sort(want.begin(), want.end());
    MC_CHECK(c, got == want, "globber %s prints %s", p.c_str(), show(out).c_str());
    c.state(mc::Hash().str(p).h);
}
static void usage(Ctx &c) {
    int n = c.choose(3);
    n = n == 1 ? 3 : n;
    if(n == 0)
        n = 1;
    char *av[] = {(char *)"globber", (char *)"a", (char *)"b", nullptr};
    if(n != 1 && n != 3)
        c.abandon();
    if(n == 1)
        av[1] = nullptr;
    int rc;
    c.op("globber with %d arguments", n - 1);
    auto out = output(c, rc, [&] { return globber_tool::main(n, av); });
    MC_CHECK(c, out.find("<glob pattern>") != std::string::npos, "no usage is printed: %s", show(out).c_str());
}
void mc::mc_register() {
    mc::add("globs", "globber with every pattern of up to 5 (thorough: 6) characters a b * ? . in a directory of 8 names", globs, 2);
    mc::add("usage", "missing and superfluous arguments", usage, 1);
}
#endif
