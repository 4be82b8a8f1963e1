// C20: regular expressions, against a backtracking matcher of the harness's own for a small
// grammar, and against PCRE2 called directly for arbitrary pattern texts.
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include <functional>
#include <memory>
#include "common.hpp"
#if EPOCH == 2026
#include <pystd2026_regex.hpp>
#endif

static const char *vd(const P::U8StringView &v) { return v.raw_view().data(); }

using Cap = std::vector<std::pair<int, int>>;

struct Expect {
    bool match = false;
    int groups = 0; // declared
    Cap caps;       // -1 when the group took no part
};

static std::string esc(const std::string &s) {
    std::string r = "\"";
    for(unsigned char ch : s) {
        char b[8];
        if(ch == '\n')
            r += "\\n";
        else if(ch < 32 || ch > 126)
            snprintf(b, sizeof b, "\\x%02x", ch), r += b;
        else
            r += (char)ch;
    }
    return r + "\"";
}

static void check_one(Ctx &c, const P::U8Regex &re, const std::string &pat, const std::string &text, const Expect &want) {
    P::U8String t(text.data(), text.size());
    c.ops(1);
    bool matched = false;
    try {
        P::U8Match m = P::regex_search(re, t);
        matched = true;
        MC_CHECK(c, want.match, "%s is said to match %s, which it does not", esc(pat).c_str(), esc(text).c_str());
        MC_CHECK(c, m.num_groups() == (size_t)want.groups, "%s has %d groups, %zu are reported", esc(pat).c_str(), want.groups,
                 m.num_groups());
        P::U8Match moved(P::move(m));
        for(int g = 0; g <= want.groups; ++g) {
            bool set = want.caps[g].first >= 0;
            std::string w = set && want.caps[g].second >= want.caps[g].first ?
                text.substr(want.caps[g].first, want.caps[g].second - want.caps[g].first) : std::string();
            bool inverted = set && want.caps[g].second < want.caps[g].first; // \K inside a lookahead
            try {
                P::U8StringView v = moved.group(g);
                if(set && !inverted) {
                    MC_CHECK(c, vd(v) >= t.c_str() && vd(v) + v.size_bytes() <= t.c_str() + t.size_bytes(),
                             "group %d of %s in %s lies outside the text", g, esc(pat).c_str(), esc(text).c_str());
                    std::string got(vd(v), v.size_bytes());
                    MC_CHECK(c, got == w && vd(v) == t.c_str() + want.caps[g].first,
                             "group %d of %s in %s is %s at %ld, expected %s at %d", g, esc(pat).c_str(), esc(text).c_str(),
                             esc(got).c_str(), (long)(vd(v) - t.c_str()), esc(w).c_str(), want.caps[g].first);
                } else
                    MC_CHECK(c, vd(v) == nullptr && v.size_bytes() == 0,
                             "group %d of %s in %s took no part in the match, but is reported as text", g, esc(pat).c_str(),
                             esc(text).c_str());
            } catch(const P::PyException &) {
                MC_CHECK(c, !set || inverted, "group %d of %s in %s is refused", g, esc(pat).c_str(), esc(text).c_str());
            } catch(const char *) {
                MC_CHECK(c, !set || inverted, "group %d of %s in %s is refused", g, esc(pat).c_str(), esc(text).c_str());
            }
            try {
                P::U8String v = moved.get_submatch(g);
                MC_CHECK(c, set && !inverted, "submatch %d of %s in %s took no part in the match, but is reported as %s", g, esc(pat).c_str(),
                         esc(text).c_str(), esc(std::string(v.c_str(), v.size_bytes())).c_str());
                std::string got(v.c_str(), v.size_bytes());
                MC_CHECK(c, got == w, "submatch %d of %s in %s is %s, expected %s", g, esc(pat).c_str(), esc(text).c_str(),
                         esc(got).c_str(), esc(w).c_str());
            } catch(const P::PyException &) {
                MC_CHECK(c, !set || inverted, "submatch %d of %s in %s is refused", g, esc(pat).c_str(), esc(text).c_str());
            } catch(const char *) {
                MC_CHECK(c, !set || inverted, "submatch %d of %s in %s is refused", g, esc(pat).c_str(), esc(text).c_str());
            }
        }
        if(text.size() < 3) // exceptions are slow
            for(size_t bad : {(size_t)want.groups + 1, (size_t)want.groups + 2, (size_t)-1}) {
                MC_CHECK(c, throws([&] { moved.group(bad); }), "group %zu of %s, which has %d, is accepted", bad, esc(pat).c_str(),
                         want.groups);
                MC_CHECK(c, throws([&] { moved.get_submatch(bad); }), "submatch %zu of %s, which has %d, is accepted", bad,
                         esc(pat).c_str(), want.groups);
            }
        MC_CHECK(c, t == text.c_str() || text.find('\0') != std::string::npos, "the searched text has changed");
    } catch(const P::PyException &) {
        MC_CHECK(c, !matched && !want.match, "%s does not match %s, which it should", esc(pat).c_str(), esc(text).c_str());
    } catch(const char *) {
        MC_CHECK(c, !matched && !want.match, "%s does not match %s, which it should", esc(pat).c_str(), esc(text).c_str());
    }
}

// ------------------------------------------------------------------ own matcher

enum Kind { LIT, DOT, CLS, NCLS, BOL, EOL, CAT, ALT, GRP, STAR, PLUS, OPT, LSTAR, LOPT, AHEAD, NAHEAD, BREF };
struct Node {
    Kind k;
    std::string lit;
    std::unique_ptr<Node> a, b;
    int group = 0;
};
using NodeP = std::unique_ptr<Node>;

static NodeP gen(Ctx &c, int size, int &groups, bool rich) {
    auto mk = [](Kind k) {
        NodeP n(new Node);
        n->k = k;
        return n;
    };
    if(size == 1) {
        static const char *const lits[] = {"a", "b", "\xc3\xa9"};
        int i = c.choose(rich ? 7 : 4);
        if(i < 2 || (i == 6)) {
            NodeP n = mk(LIT);
            n->lit = lits[i == 6 ? 1 : i == 1 ? 2 : 0];
            return n;
        }
        return mk(i == 2 ? DOT : i == 3 ? EOL : i == 4 ? BOL : CLS);
    }
    // unary
    static const Kind un[] = {GRP, STAR, OPT, LSTAR, PLUS, LOPT, AHEAD, NAHEAD};
    int nun = rich ? 8 : 5;
    int nbin = size >= 3 ? 2 : 0;
    int i = c.choose(nun + nbin);
    if(i < nun) {
        NodeP n = mk(un[i]);
        if(n->k == GRP)
            n->group = ++groups;
        n->a = gen(c, size - 1, groups, rich);
        return n;
    }
    NodeP n = mk(i == nun ? CAT : ALT);
    int left = size - 2 > 1 ? 1 + c.choose(size - 2) : 1;
    n->a = gen(c, left, groups, rich);
    n->b = gen(c, size - 1 - left, groups, rich);
    return n;
}

static std::string render(const Node &n) {
    auto atom = [](const Node &x) {
        std::string s = render(x);
        return x.k == LIT || x.k == DOT || x.k == CLS || x.k == GRP ? s : "(?:" + s + ")";
    };
    auto piece = [](const Node &x) {
        std::string s = render(x);
        return x.k == ALT ? "(?:" + s + ")" : s;
    };
    switch(n.k) {
    case LIT:
        return n.lit;
    case DOT:
        return ".";
    case CLS:
        return "[a\xc3\xa9]";
    case NCLS:
        return "[^a]";
    case BOL:
        return "^";
    case EOL:
        return "$";
    case CAT:
        return piece(*n.a) + piece(*n.b);
    case ALT:
        return render(*n.a) + "|" + render(*n.b);
    case GRP:
        return "(" + render(*n.a) + ")";
    case STAR:
        return atom(*n.a) + "*";
    case PLUS:
        return atom(*n.a) + "+";
    case OPT:
        return atom(*n.a) + "?";
    case LSTAR:
        return atom(*n.a) + "*?";
    case LOPT:
        return atom(*n.a) + "??";
    case AHEAD:
        return "(?=" + render(*n.a) + ")";
    case NAHEAD:
        return "(?!" + render(*n.a) + ")";
    case BREF:
        break;
    }
    return "";
}

static int charlen(unsigned char ch) { return ch < 0x80 ? 1 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : 4; }

struct Matcher {
    const std::string &t;
    Cap caps;
    using K = std::function<bool(int)>;
    bool rep(const Node &x, int pos, bool lazy, const K &k) {
        auto again = [&] {
            Cap saved = caps;
            if(m(x, pos, [&](int p) { return p == pos ? k(p) : rep(x, p, lazy, k); }))
                return true;
            caps = saved;
            return false;
        };
        if(lazy)
            return k(pos) || again();
        return again() || k(pos);
    }
    bool m(const Node &n, int pos, const K &k) {
        int size = (int)t.size();
        switch(n.k) {
        case LIT:
            return t.compare(pos, n.lit.size(), n.lit) == 0 && k(pos + (int)n.lit.size());
        case DOT:
            return pos < size && t[pos] != '\n' && k(pos + charlen(t[pos]));
        case CLS:
            return pos < size && (t[pos] == 'a' || t.compare(pos, 2, "\xc3\xa9") == 0) && k(pos + charlen(t[pos]));
        case NCLS:
            return pos < size && t[pos] != 'a' && k(pos + charlen(t[pos]));
        case BOL:
            return pos == 0 && k(pos);
        case EOL:
            return (pos == size || (pos == size - 1 && t[pos] == '\n')) && k(pos);
        case CAT:
            return m(*n.a, pos, [&](int p) { return m(*n.b, p, k); });
        case ALT: {
            Cap saved = caps;
            if(m(*n.a, pos, k))
                return true;
            caps = saved;
            return m(*n.b, pos, k);
        }
        case GRP: {
            auto old = caps[n.group];
            if(m(*n.a, pos, [&](int p) {
                   auto before = caps[n.group];
                   caps[n.group] = {pos, p};
                   if(k(p))
                       return true;
                   caps[n.group] = before;
                   return false;
               }))
                return true;
            caps[n.group] = old;
            return false;
        }
        case STAR:
            return rep(*n.a, pos, false, k);
        case LSTAR:
            return rep(*n.a, pos, true, k);
        case PLUS:
            return m(*n.a, pos, [&](int p) { return p == pos ? k(p) : rep(*n.a, p, false, k); });
        case OPT: {
            Cap saved = caps;
            if(m(*n.a, pos, k))
                return true;
            caps = saved;
            return k(pos);
        }
        case LOPT: {
            Cap saved = caps;
            if(k(pos))
                return true;
            caps = saved;
            return m(*n.a, pos, k);
        }
        case AHEAD: {
            Cap saved = caps;
            if(m(*n.a, pos, [](int) { return true; }) && k(pos))
                return true;
            caps = saved;
            return false;
        }
        case NAHEAD: {
            Cap saved = caps;
            bool hit = m(*n.a, pos, [](int) { return true; });
            caps = saved;
            return !hit && k(pos);
        }
        case BREF:
            break;
        }
        return false;
    }
};

static Expect own(const Node &n, int groups, const std::string &t) {
    Expect e;
    e.groups = groups;
    for(int s = 0; s <= (int)t.size(); s += s < (int)t.size() ? charlen(t[s]) : 1) {
        Matcher mm{t, Cap(groups + 1, {-1, -1})};
        int end = -1;
        if(mm.m(n, s, [&](int p) {
               end = p;
               return true;
           })) {
            e.match = true;
            e.caps = mm.caps;
            e.caps[0] = {s, end};
            return e;
        }
    }
    return e;
}

static std::vector<std::string> texts(int maxlen) {
    static const char *const al[] = {"a", "b", "\xc3\xa9"};
    std::vector<std::string> r{""}, cur{""};
    for(int l = 0; l < maxlen; ++l) {
        std::vector<std::string> next;
        for(auto &x : cur)
            for(auto y : al)
                next.push_back(x + y);
        r.insert(r.end(), next.begin(), next.end());
        cur = next;
    }
    for(auto s : {"\n", "a\n", "\na", "a\nb", "a\n\n", "\xf0\x9f\x98\x80", "a\xf0\x9f\x98\x80\xc3\xa9"})
        r.push_back(s);
    return r;
}

static void grammar(Ctx &c, int size, bool rich) {
    int groups = 0;
    NodeP n = gen(c, size, groups, rich);
    std::string pat = render(*n);
    c.op("pattern %s", esc(pat).c_str());
    c.state(mc::Hash().str(pat).h);
    P::U8Regex re(P::U8String(pat.data(), pat.size()));
    for(auto &t : texts(c.bound(2, 3)))
        check_one(c, re, pat, t, own(*n, groups, t));
}

// ------------------------------------------------------------------ any pattern text

static void direct(Ctx &c, const std::string &pat, const std::vector<std::string> &ts) {
    int ec;
    PCRE2_SIZE eo;
    pcre2_code *code = pcre2_compile((PCRE2_SPTR)pat.data(), pat.size(), PCRE2_UTF, &ec, &eo, nullptr);
    std::unique_ptr<pcre2_code, void (*)(pcre2_code *)> own_code(code, pcre2_code_free);
    std::unique_ptr<P::U8Regex> re;
    bool threw = throws([&] { re.reset(new P::U8Regex(P::U8String(pat.data(), pat.size()))); });
    MC_CHECK(c, threw == !code, "the pattern %s is %s", esc(pat).c_str(), code ? "valid but refused" : "invalid but accepted");
    if(!code)
        return;
    uint32_t ng;
    pcre2_pattern_info(code, PCRE2_INFO_CAPTURECOUNT, &ng);
    std::unique_ptr<pcre2_match_data, void (*)(pcre2_match_data *)> md(pcre2_match_data_create_from_pattern(code, nullptr),
                                                                      pcre2_match_data_free);
    for(auto &t : ts) {
        Expect e;
        e.groups = (int)ng;
        int rc = pcre2_match(code, (PCRE2_SPTR)t.data(), t.size(), 0, 0, md.get(), nullptr);
        e.match = rc >= 0;
        if(e.match) {
            auto ov = pcre2_get_ovector_pointer(md.get());
            for(uint32_t g = 0; g <= ng; ++g)
                e.caps.push_back(ov[2 * g] == PCRE2_UNSET ? std::pair<int, int>{-1, -1}
                                                          : std::pair<int, int>{(int)ov[2 * g], (int)ov[2 * g + 1]});
        }
        check_one(c, *re, pat, t, e);
    }
}

static void any_text(Ctx &c) {
    static const char al[] = {'a', '(', ')', '*', '|', '[', ']', '\\', '?', '{', '1', '}', '^', '.', '-', ':', '+'};
    int n = c.choose(c.bound(5, 6));
    std::string p;
    for(int i = 0; i < n; ++i)
        p += al[c.choose(17)];
    c.op("pattern %s", esc(p).c_str());
    c.state(mc::Hash().str(p).h);
    static const std::vector<std::string> ts{"", "a", "1a(", "aa\\"};
    direct(c, p, ts);
}

static const char *const patterns[] = {
    "(a)|(b)", "(a)|b", "(a)?(b)?", "((a)|(b))*", "(a(b)?)+", "(?:(a)|b)*", "(?<x>a)(?<y>b)?", "(?P<n>\\w+)", "\\bfoo\\b", "a\\Kb",
    "(?=ab\\K)a", "(a)(?=b\\K)", "(?<=a)b", "(?<!a)b", "(a)\\1", "(a|b)\\1", "(?>a+)b", "a++b", "(?i)AB", "(?i)\xc3\x89", "\\d+", "\\D",
    "\\p{L}+", "\\p{Lu}", "\\x{e9}", "\xc3\xa9+", "[\xc3\xa9-\xc3\xb6]", "[^\xc3\xa9]", "\\R", "\\X", "^$", "(?m)^b$", "(?s)a.b", "a.b", "()",
    "()()", "(()|a)+", "(a*)*", "(a*)+", "(a|)*b", "a{2}", "a{2,}", "a{,2}", "(a){0}", "(a){0}(b)", "(?1)(a)", "(a(?1)?b)", "(?(1)a|b)",
    "(a)?(?(1)b|c)", "(*ACCEPT)a", "a(*FAIL)|b", "(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)?", "(?|(a)|(b))", "(?<n>a)|(?<m>b)", "\\Qa.b\\E",
    "(?x) a b # c", "\\A\\z", "\\Ga", "(?:", "(", ")", "a**", "[b-a]", "\\", "(?<n>a)(?<n>b)", "\\1", "(?<=a+)b", "*a", "(?z)",
    "[[:alpha:]]+", "[[:foo:]]", "\\p{Foo}", "\\x{110000}", "\\x{d800}", "(?#c)a", "a|", "|a", "", "(?:a|ab)(?:c|bcd)(d*)", "(.)(.)?(.)?",
    "((((((((((((a))))))))))))", "(*UTF)a", "(*NO_SUCH)a", "(?C1)a", "\\N", "(a+|b+)+c", "(?:a?){3}a{3}", "x*"};
static const char *const subjects[] = {
    "", "a", "b", "ab", "ba", "aab", "abb", "aba", "abab", "\xc3\xa9", "\xc3\x89", "\xc3\xa9\xc3\xb6x", "foo bar", "xfoo foo", "12 a3", "\n", "a\n",
    "a\nb", "b\na", "\r\n", "e\xcc\x81", "AB", "abcdefghij", "abcdefghijk", "aaaa", "\xf0\x9f\x98\x80", "\xe2\x82\xac" "a", "a.b", "abcd",
    "aaaaaaaaaaaaaaaaaaaa", "\\", "()"};

static void curated(Ctx &c) {
    int i = c.choose(sizeof patterns / sizeof *patterns);
    c.op("pattern %s", esc(patterns[i]).c_str());
    c.state(mc::Hash().add(i).h);
    std::vector<std::string> ts(subjects, subjects + sizeof subjects / sizeof *subjects);
    for(int n : {100, 1000, 5000})
        ts.push_back(std::string(n, 'a') + "b");
    direct(c, patterns[i], ts);
}

// Matches that begin, end or run beyond the sizes at which an offset or a count could be cut short.
static void long_subjects(Ctx &c) {
    static const char *const pats[] = {"x", "x+", "(q)(x*)(y)", "(x)|(y)", ".$", "(?s).*", "y(z)?", "^(?:.*)(y)$", "\xc3\xa9x", "q?(x{2})(x+)y",
                                       "zz", "(?<=x)y", "\\w+", "(.)(.)$"};
    static const char *const fill[] = {"c", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\n"};
    static const int sizes[] = {13, 14, 15, 16, 22, 23, 24, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 70000};
    std::string pat = pats[c.choose(sizeof pats / sizeof *pats)];
    int before = c.pick(sizes), f = c.choose(5);
    c.op("%s after %d of character %d", esc(pat).c_str(), before, f);
    c.state(mc::Hash().str(pat).add(before).add(f).h);
    std::string head, mid;
    for(int i = 0; i < before; ++i)
        head += fill[f];
    for(int i = 0; i < before; ++i)
        mid += 'x';
    direct(c, pat, {head + "qxy", head + "x", "q" + mid + "y", head + "q" + mid + "y", mid, head, "y" + mid, head + "yz\n"});
}

// Expressions with many groups.
static void many_groups(Ctx &c) {
    static const int counts[] = {1, 2, 3, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300, 1000};
    int n = c.pick(counts), kind = c.choose(4);
    c.op("%d groups, kind %d", n, kind);
    c.state(mc::Hash().add(n).add(kind).h);
    std::string pat, text;
    if(kind == 3 && n > 100) // nested too deeply
        return;
    for(int i = 0; i < n; ++i) {
        pat += kind == 0 ? "(.)" : kind == 1 ? "(a)?(?:.)" : kind == 2 ? (i ? "|(b{" : "(b{") + std::to_string(i) + "}a)" : "(";
        text += kind == 1 ? "ab" : std::string(1, 'a' + i % 26);
    }
    if(kind == 3)
        pat += "a" + std::string(n, ')');
    direct(c, pat, {text, text + text, text.substr(0, text.size() - 1), "ba", std::string(n / 2, 'b') + "a", ""});
}

// Every character, as a literal, as any character and as one of a class.
static void characters(Ctx &c) {
    int block = c.choose(64);
    for(int i = 0; i < 128; ++i) {
        // the first 8192 (thorough: every) code points, and the others sparsely
        for(int k = 0; k < c.bound(2, 136); ++k) {
            unsigned cp = k == 0 ? block * 128 + i : c.bound(0, 1) ? k * 8192 + block * 128 + i : 8192 + (block * 128 + i) * 131;
            if(cp == 0 || (cp >= 0xd800 && cp < 0xe000) || cp > 0x10ffff)
                continue;
            std::string ch;
            if(cp < 0x80)
                ch += (char)cp;
            else if(cp < 0x800)
                ch += (char)(0xc0 | cp >> 6), ch += (char)(0x80 | (cp & 63));
            else if(cp < 0x10000)
                ch += (char)(0xe0 | cp >> 12), ch += (char)(0x80 | (cp >> 6 & 63)), ch += (char)(0x80 | (cp & 63));
            else
                ch += (char)(0xf0 | cp >> 18), ch += (char)(0x80 | (cp >> 12 & 63)), ch += (char)(0x80 | (cp >> 6 & 63)),
                    ch += (char)(0x80 | (cp & 63));
            c.state(mc::Hash().add(cp).h);
            std::string lit = cp < 0x80 && !isalnum((int)cp) ? "\\" + ch : ch;
            direct(c, lit, {"a" + ch + ch + "b", "ab", ch});
            static const P::U8Regex any{P::U8String("a((?s:.))b")};
            std::string t = "a" + ch + "b";
            Expect e;
            e.match = true;
            e.groups = 1;
            e.caps = {{0, (int)t.size()}, {1, (int)(1 + ch.size())}};
            check_one(c, any, "a((?s:.))b", t, e);
        }
    }
}

// Two matches of one expression in different texts do not disturb each other.
static void interleaved(Ctx &c) {
    static const char *const pats[] = {"(a)|(b)", "(a+)(b)?", "x*", "(\xc3\xa9)?a"};
    int p = c.choose(4), i = c.choose(9), j = c.choose(9);
    c.op("%s in %s and in %s", pats[p], subjects[i], subjects[j]);
    P::U8Regex re{P::U8String(pats[p])};
    P::U8String t1(subjects[i]), t2(subjects[j]);
    auto all = [](const P::U8Match &m) {
        std::string s;
        for(size_t g = 0; g <= m.num_groups(); ++g) {
            try {
                auto v = m.group(g);
                s += "<" + std::string(vd(v) ? vd(v) : "", v.size_bytes()) + ">";
            } catch(const P::PyException &) {
                s += "<>-";
            } catch(const char *) {
                s += "<>-";
            }
        }
        return s;
    };
    try {
        P::U8Match m1 = P::regex_search(re, t1);
        std::string s1 = all(m1);
        try {
            P::U8Match m2 = P::regex_search(re, t2);
            std::string s2 = all(m2);
            MC_CHECK(c, all(m1) == s1 && all(m2) == s2, "a second search changes the result of the first");
        } catch(const P::PyException &) {
        }
        MC_CHECK(c, all(m1) == s1, "a second search changes the result of the first");
    } catch(const P::PyException &) {
    }
    c.state(mc::Hash().add(p).add(i).add(j).h);
}

void mc::mc_register() {
    for(int n = 1; n <= 7; ++n) {
        std::string name = "grammar-" + std::to_string(n);
        mc::add(name.c_str(), "every expression of that size over 2 characters, ., $, group, *, ?, *?, +, concatenation, alternation; "
                              "all texts of up to 2 (thorough: 3) of 3 characters and 7 others",
                [n](Ctx &c) { grammar(c, n, n <= 3); }, n < 3 ? 1 : 3, n > 5);
    }
    mc::add("grammar-rich-4", "every expression of size 4 with lookaheads, classes and anchors as well", [](Ctx &c) { grammar(c, 4, true); }, 3);
    mc::add("any-text", "every pattern text of up to 4 (thorough: 5) of 17 characters, in 4 texts, against PCRE2 itself", any_text, 2);
    mc::add("curated", "90 patterns in 35 texts, against PCRE2 itself", curated, 1);
    mc::add("long-subjects", "14 patterns, 28 lengths up to 70000 of 5 characters before and within the match, 8 texts each", long_subjects, 2);
    mc::add("many-groups", "25 numbers of groups up to 1000, in sequence, unset, alternatives, nested; 6 texts each", many_groups, 1);
    mc::add("characters", "each of 16384 (thorough: all) code points as a literal and as any character", characters, 1);
    mc::add("interleaved", "4 expressions, 9 texts each way", interleaved, 2);
}
