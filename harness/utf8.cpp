// UTF-8 validation (PART_VALID), code point iteration (PART_ITER), U8String operations (PART_OPS)
// and case conversion (PART_CASE).
#include <memory>
#include "common.hpp"

using Ref = std::string;
using Text = std::u32string;

static std::string q(const Ref &r) {
    std::string s = "\"";
    for(unsigned char ch : r) {
        char b[8];
        snprintf(b, sizeof(b), ch >= 32 && ch < 127 && ch != '"' ? "%c" : "\\x%02x", ch);
        s += b;
    }
    return s + "\"";
}

// The reference encoder and the reference validator (Unicode 3.9, table 3-7).
static void enc(Ref &r, uint32_t cp) {
    if(cp < 0x80) {
        r += (char)cp;
    } else if(cp < 0x800) {
        r += (char)(0xC0 + cp / 64);
        r += (char)(0x80 + cp % 64);
    } else if(cp < 0x10000) {
        r += (char)(0xE0 + cp / 4096);
        r += (char)(0x80 + cp / 64 % 64);
        r += (char)(0x80 + cp % 64);
    } else {
        r += (char)(0xF0 + cp / 262144);
        r += (char)(0x80 + cp / 4096 % 64);
        r += (char)(0x80 + cp / 64 % 64);
        r += (char)(0x80 + cp % 64);
    }
}
static Ref enc(const Text &t) {
    Ref r;
    for(char32_t cp : t)
        enc(r, cp);
    return r;
}

static bool well_formed(const unsigned char *p, size_t n) {
    static const struct {
        unsigned char l0, l1, s0, s1;
        int more;
    } rows[] = {{0x00, 0x7F, 0, 0, 0},       {0xC2, 0xDF, 0x80, 0xBF, 1}, {0xE0, 0xE0, 0xA0, 0xBF, 2},
                {0xE1, 0xEC, 0x80, 0xBF, 2}, {0xED, 0xED, 0x80, 0x9F, 2}, {0xEE, 0xEF, 0x80, 0xBF, 2},
                {0xF0, 0xF0, 0x90, 0xBF, 3}, {0xF1, 0xF3, 0x80, 0xBF, 3}, {0xF4, 0xF4, 0x80, 0x8F, 3}};
    size_t i = 0;
    while(i < n) {
        bool ok = false;
        for(auto &r : rows) {
            if(p[i] < r.l0 || p[i] > r.l1)
                continue;
            if(i + r.more >= n)
                return false;
            for(int k = 1; k <= r.more; ++k) {
                unsigned char lo = k == 1 ? r.s0 : 0x80, hi = k == 1 ? r.s1 : 0xBF;
                if(p[i + k] < lo || p[i + k] > hi)
                    return false;
            }
            i += r.more + 1;
            ok = true;
            break;
        }
        if(!ok)
            return false;
    }
    return true;
}
static bool well_formed(const Ref &r) {
    return well_formed((const unsigned char *)r.data(), r.size());
}
static bool scalar(uint32_t cp) { return cp < 0x110000 && !(cp >= 0xD800 && cp < 0xE000); }

struct HeapText { // exactly the bytes, so that reading past them is caught
    std::unique_ptr<char[]> p;
    size_t n;
    explicit HeapText(const Ref &r, bool term = false) : p(new char[r.size() + (term ? 1 : 0)]), n(r.size()) {
        memcpy(p.get(), r.data(), n);
        if(term)
            p[n] = 0;
    }
};

static P::U8String u8(const Ref &r) { return P::U8String(r.data(), r.size()); }

static void holds(Ctx &c, const P::U8String &s, const Ref &r, const char *what) {
    MC_CHECK(c, s.size_bytes() == r.size(), "%s: %zu bytes, expected %s", what, s.size_bytes(), q(r).c_str());
    MC_CHECK(c, memcmp(s.c_str(), r.data(), r.size()) == 0 && s.c_str()[r.size()] == 0,
             "%s: holds %s, expected %s", what, q(Ref(s.c_str(), s.size_bytes())).c_str(), q(r).c_str());
    MC_CHECK(c, s.is_empty() == r.empty(), "%s: is_empty() of %s", what, q(r).c_str());
}

// ------------------------------------------------------------------ C13

#ifdef PART_VALID
// The same bytes through every way a text can be made from bytes.
static void accept(Ctx &c, const Ref &r, unsigned ways) {
    const bool ok = well_formed(r);
    const bool nul = r.find('\0') != Ref::npos;
    HeapText h(r), z(r, true);
    const bool fits = ok && !nul;
    auto verdict = [&](bool threw, bool expect_ok, const char *way) {
        MC_CHECK(c, threw == !expect_ok, "%s %s well-formed=%d bytes %s", way,
                 threw ? "rejects" : "accepts", ok, q(r).c_str());
    };
    c.ops(1);
    if(ways & 1)
        verdict(throws([&] {
                    P::U8String s(h.p.get(), h.n);
                    holds(c, s, r, "U8String(bytes,size)");
                }),
                fits, "U8String(bytes,size)");
    if(ways & 2 && !nul)
        verdict(throws([&] {
                    P::U8String s(z.p.get());
                    holds(c, s, r, "U8String(c string)");
                }),
                fits, "U8String(c string)");
    if(ways & 4)
        verdict(throws([&] {
                    P::Bytes b(h.p.get(), h.n);
                    P::U8String s(P::move(b));
                    holds(c, s, r, "U8String(Bytes)");
                }),
                fits, "U8String(Bytes)");
#if EPOCH == 2026
    if(ways & 8 && !nul) // whether a view may hold U+0000 is left open
        verdict(throws([&] {
                    P::U8StringView v(h.p.get(), h.n);
                    MC_CHECK(c, v.size_bytes() == r.size() && v.data() == h.p.get(),
                             "U8StringView(bytes,size): is not those bytes");
                }),
                fits, "U8StringView(bytes,size)");
#endif
}

static const unsigned char CLASS[] = {0x41, 0x01, 0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0,
                                      0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1,
                                      0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff};
static const int NCLASS = sizeof(CLASS);

static void by_class(Ctx &c) {
    int len = c.choose(5);
    if(len == 0) {
        accept(c, Ref(), 15);
        return;
    }
    Ref r;
    for(int i = 0; i + 1 < len; ++i)
        r += (char)CLASS[c.choose(NCLASS)];
    c.op("bytes %s + each last byte", q(r).c_str());
    r += ' ';
    for(int i = 0; i < NCLASS; ++i) {
        r.back() = (char)CLASS[i];
        accept(c, r, len <= 2 ? 15 : len == 3 ? 5 : 1);
    }
    c.state(mc::Hash().str(r).h);
}

static void five_bytes(Ctx &c) { // thorough: a further byte behind every class sequence
    Ref r;
    for(int i = 0; i < 4; ++i)
        r += (char)CLASS[c.choose(NCLASS)];
    c.op("bytes %s + each last byte", q(r).c_str());
    r += ' ';
    for(int i = 0; i < NCLASS; ++i) {
        r.back() = (char)CLASS[i];
        accept(c, r, 1);
    }
}

static void all_short(Ctx &c) { // every byte sequence of length 1 and 2 (thorough: 3)
    int len = 1 + c.choose(c.bound(2, 3));
    Ref r;
    for(int i = 0; i + 1 < len; ++i)
        r += (char)c.choose(256);
    c.op("all sequences starting with %s", q(r).c_str());
    r += ' ';
    for(int i = 0; i < 256; ++i) {
        r.back() = (char)i;
        accept(c, r, len < 3 ? 15 : 1);
    }
    c.state(mc::Hash().str(r).h);
}

// Every value in every encoded length that can carry it: only the shortest one of a scalar is text.
static void every_value(Ctx &c) {
    static const uint32_t top[] = {0x800, 0x10000, 0x200000};
    int len = 2 + c.choose(3);
    uint32_t step = 512;
    uint32_t base = step * c.choose(top[len - 2] / step);
    c.op("values %x..%x in %d bytes", base, base + step - 1, len);
    for(uint32_t cp = base; cp < base + step; ++cp) {
        // Values that are not text cost an exception each: sample those by their boundaries.
        bool text = scalar(cp) && cp >= (len == 2 ? 0x80u : len == 3 ? 0x800u : 0x10000u);
        if(!text && !c.thorough && (cp & 0x3f) != 0 && (cp & 0x3f) != 0x3f)
            continue;
        unsigned char b[4];
        uint32_t v = cp;
        for(int i = len - 1; i > 0; --i) {
            b[i] = 0x80 + v % 64;
            v /= 64;
        }
        b[0] = (len == 2 ? 0xC0 : len == 3 ? 0xE0 : 0xF0) + v;
        Ref r((char *)b, len);
        MC_CHECK(c, well_formed(r) == text, "reference encoder and validator disagree");
        accept(c, r, (cp & 0xff) == 0 ? 15 : 1);
    }
    c.state(mc::Hash().add(len).add(base).h);
}

static const char *const UNITS[] = {"a", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80",
                                    // not text:
                                    "\x80", "\xbf\xbf", "\xc3", "\xe2\x82", "\xe2", "\xf0\x9f\x98", "\xf0\x9f", "\xf0",
                                    "\xc0\x80", "\xc1\xbf", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x8f\xbf\xbf",
                                    "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff"};

// Every unit in every neighbourhood of a longer text, around the buffer sizes.
static void placement(Ctx &c) {
    Ref pre, post;
    int fill = c.choose(4);
    static const int fills[] = {0, 1, 14, 61};
    pre.assign(fills[fill], 'x');
    int a = c.choose(4), b = c.choose(5), cc = c.choose(5);
    pre += UNITS[a];
    if(b < 4)
        post += UNITS[b];
    if(cc < 4)
        post += UNITS[cc];
    c.op("%s + unit + %s", q(pre).c_str(), q(post).c_str());
    for(const char *u : UNITS)
        accept(c, pre + u + post, 15);
    for(const char *u : UNITS)
        for(const char *w : UNITS)
            if(c.thorough || fill == 0)
                accept(c, pre + u + w + post, 1);
    c.state(mc::Hash().str(pre).str(post).h);
}

// The message of an exception is text too, whatever bytes it was made from.
static void messages(Ctx &c) {
    Ref r;
    int n = c.choose(4);
    for(int i = 0; i < n; ++i)
        r += "a\x80\xc3\xe2\xff\xa4\x7f"[c.choose(7)];
    c.op("PyException(%s)", q(r).c_str());
    HeapText z(r, true);
    try {
        P::PyException e(z.p.get());
        const auto &m = e.what();
        Ref got(m.c_str(), m.size_bytes());
        MC_CHECK(c, well_formed(got), "PyException(%s) holds %s", q(r).c_str(), q(got).c_str());
        if(r.find_first_not_of("a\x7f") == Ref::npos)
            MC_CHECK(c, got == r, "PyException(%s) holds %s", q(r).c_str(), q(got).c_str());
    } catch(const P::PyException &) {
        c.fail("making an exception from the message %s throws another one", q(r).c_str());
    }
}
#endif

// ------------------------------------------------------------------ C14

#if defined(PART_ITER) || defined(PART_OPS)
static std::vector<uint32_t> points(const Ref &r) { // r is well-formed
    std::vector<uint32_t> v;
    for(size_t i = 0; i < r.size();) {
        unsigned char b = r[i];
        int n = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
        uint32_t cp = n == 1 ? b : b & (0x7F >> n);
        for(int k = 1; k < n; ++k)
            cp = cp * 64 + (r[i + k] & 63);
        v.push_back(cp);
        i += n;
    }
    return v;
}
static int units(uint32_t cp) { return cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4; }

// Walks s in every way and compares with t.
static void walks(Ctx &c, const P::U8String &s, const Text &t) {
    const char *base = s.c_str();
    size_t pos = 0;
    {
        auto it = s.cbegin();
        for(size_t i = 0; i < t.size(); ++i) {
            MC_CHECK(c, it != s.cend() && !(it == s.cend()), "forward: ends after %zu of %zu", i, t.size());
            auto here = it;
            uint32_t got = *it, again = *it;
            MC_CHECK(c, got == t[i] && again == t[i], "forward: code point %zu is %x, expected %x", i, got, (unsigned)t[i]);
            ++it;
#if EPOCH == 2026
            P::U8StringView piece(here, it);
            MC_CHECK(c, here.data() == base + pos, "forward: code point %zu is not at byte %zu", i, pos);
            MC_CHECK(c, here < it && it > here && here <= here && !(it < here), "forward: iterator order");
#else
            P::U8StringView piece{here, it};
#endif
            auto raw = piece.raw_view();
            MC_CHECK(c, raw.data() == base + pos && raw.size() == (size_t)units(t[i]) &&
                            piece.size_bytes() == raw.size(),
                     "forward: code point %zu (%x) covers %zu bytes at %zd, expected %d at %zu", i, (unsigned)t[i],
                     raw.size(), raw.data() - base, units(t[i]), pos);
            pos += units(t[i]);
        }
        MC_CHECK(c, it == s.cend(), "forward: does not end after %zu code points", t.size());
        for(size_t i = t.size(); i-- > 0;) {
            --it;
            MC_CHECK(c, *it == t[i], "decrement: code point %zu is %x, expected %x", i, *it, (unsigned)t[i]);
        }
        MC_CHECK(c, it == s.cbegin(), "decrement: does not return to the start");
    }
    {
        auto it = s.cbegin();
        for(size_t i = 0; i < t.size(); ++i) {
            auto old = it++;
            uint32_t got = *old;
            MC_CHECK(c, got == t[i], "post-increment: code point %zu is %x, expected %x", i, got, (unsigned)t[i]);
        }
        MC_CHECK(c, it == s.cend(), "post-increment: does not end after %zu code points", t.size());
    }
    for(int deref = 0; deref < 3; ++deref) {
        auto it = s.crbegin();
        for(size_t i = t.size(); i-- > 0;) {
            MC_CHECK(c, it != s.crend() && !(it == s.crend()), "reverse: ends before code point %zu", i);
            if(deref == 2) {
                auto old = it++;
                MC_CHECK(c, *old == t[i], "reverse post-increment: code point %zu is %x, expected %x", i, *old, (unsigned)t[i]);
                continue;
            }
            if(deref) {
                uint32_t got = *it, again = *it;
                MC_CHECK(c, got == t[i] && again == t[i], "reverse: code point %zu is %x, expected %x", i, got, (unsigned)t[i]);
            }
            ++it;
        }
        MC_CHECK(c, it == s.crend(), "reverse: does not end after %zu code points", t.size());
    }
    {
        P::U8String back;
        for(char32_t cp : t)
            back.append_codepoint(cp);
        Ref r = enc(t);
        holds(c, back, r, "appended code points");
        MC_CHECK(c, back == s, "appended code points: does not equal the text");
    }
}
#endif

#ifdef PART_ITER
static void every_scalar(Ctx &c) {
    uint32_t step = 256;
    uint32_t base = step * c.choose(0x110000 / step);
    int around = c.choose(3);
    static const char32_t neigh[] = {0, 0xe4, 0x1f600};
    c.op("U+%04X..U+%04X, surrounded by U+%04X", base, base + step - 1, (unsigned)neigh[around]);
    for(uint32_t cp = base; cp < base + step; ++cp) {
        if(cp == 0 || !scalar(cp))
            continue;
        Text t;
        if(around)
            t += neigh[around];
        t += (char32_t)cp;
        if(around)
            t += neigh[around];
        Ref r = enc(t);
        HeapText h(r);
        P::U8String s(h.p.get(), h.n);
        walks(c, s, t);
        c.ops(1);
    }
    c.state(mc::Hash().add(base).add(around).h);
}

static void not_scalar(Ctx &c) {
    static const uint32_t cps[] = {0, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x110001,
                                   0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000041, 0xFFFFFFFF};
    uint32_t cp;
    int k = c.choose(13 + (c.thorough ? 2048 : 0));
    cp = k < 13 ? cps[k] : 0xD800 + (k - 13);
    Ref r = c.choose(2) ? "a\xc3\xa4" : "";
    auto s = u8(r);
    c.op("append_codepoint(0x%x)", cp);
    MC_CHECK(c, throws([&] { s.append_codepoint(cp); }), "append_codepoint(0x%x) is accepted; bytes now %s", cp,
             q(Ref(s.c_str(), s.size_bytes())).c_str());
    holds(c, s, r, "after a rejected append_codepoint");
}

static const char32_t REP[] = {'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff};

static void sequences(Ctx &c) {
    int n = c.choose(c.bound(5, 6));
    Text t;
    for(int i = 0; i < n; ++i)
        t += REP[c.choose(10)];
    Ref r = enc(t);
    HeapText h(r);
    c.op("walk %s", q(r).c_str());
    P::U8String s(h.p.get(), h.n);
    walks(c, s, t);
    auto v = s.view();
    MC_CHECK(c, v.size_bytes() == r.size() && v.raw_view().size() == r.size(), "view: size");
    c.state(mc::Hash().str(r).h);
}

// Any mix of steps: forward and reverse iterators are where a cursor in the abstract text is.
static void mixed(Ctx &c) {
    static const Text texts[] = {U"a\u00e4\u20ac\U0001F600b", U"\U0001F600\U0001F600", U"\u00e4a\u00e4", U""};
    const Text &t = texts[c.choose(4)];
    Ref r = enc(t);
    auto s = u8(r);
    bool reverse = c.choose(2);
    size_t at = reverse ? t.size() : 0;
    auto fwd = s.cbegin();
    auto rev = s.crbegin();
    int depth = c.bound(8, 11);
    for(int i = 0; i < depth; ++i) {
        if(reverse) {
            switch(c.choose(3)) {
            case 0:
                if(!at)
                    c.abandon();
                c.op("*reverse");
                MC_CHECK(c, *rev == t[at - 1], "reverse: %x, expected %x", *rev, (unsigned)t[at - 1]);
                break;
            case 1:
                if(!at)
                    c.abandon();
                c.op("++reverse");
                ++rev;
                --at;
                break;
            case 2:
                if(!at)
                    c.abandon();
                c.op("reverse++");
                rev++;
                --at;
                break;
            }
            MC_CHECK(c, (rev == s.crend()) == (at == 0), "reverse: end test is wrong with %zu to go", at);
        } else {
            switch(c.choose(4)) {
            case 0:
                if(at == t.size())
                    c.abandon();
                c.op("*it");
                MC_CHECK(c, *fwd == t[at], "forward: %x, expected %x", *fwd, (unsigned)t[at]);
                break;
            case 1:
                if(at == t.size())
                    c.abandon();
                c.op("++it");
                ++fwd;
                ++at;
                break;
            case 2:
                if(at == t.size())
                    c.abandon();
                c.op("it++");
                fwd++;
                ++at;
                break;
            case 3:
                if(!at)
                    c.abandon();
                c.op("--it");
                --fwd;
                --at;
                break;
            }
            MC_CHECK(c, (fwd == s.cend()) == (at == t.size()) && (fwd == s.cbegin()) == (at == 0),
                     "forward: position test is wrong at %zu", at);
        }
    }
}
#endif

// ------------------------------------------------------------------ C15

#ifdef PART_OPS
static const Text PIECES[] = {U"", U"b", U"\u00e4", U" \u20ac", U"\U0001F600 ", U"\u00a0x"};
static const int NPIECES = 6;

// An iterator at the i-th code point.
static auto at(const P::U8String &s, size_t i) {
    auto it = s.cbegin();
    while(i--)
        ++it;
    return it;
}
static P::U8StringView sub(const P::U8String &s, size_t i, size_t j) {
    return P::U8StringView{at(s, i), at(s, j)};
}

static int sgn(int i) { return i < 0 ? -1 : i > 0; }

static void same(Ctx &c, const P::U8String &s, const Text &t) {
    Ref r = enc(t);
    holds(c, s, r, "U8String");
    MC_CHECK(c, well_formed((const unsigned char *)s.c_str(), s.size_bytes()), "U8String: bytes are not UTF-8");
    MC_CHECK(c, s == r.c_str(), "U8String: does not equal its own text %s", q(r).c_str());
    walks(c, s, t);
    auto v = s.view();
    MC_CHECK(c, v == r.c_str(), "U8StringView: does not equal its own text %s", q(r).c_str());
    auto raw = v.raw_view();
    MC_CHECK(c, raw.data() == s.c_str() && raw.size() == r.size(), "U8String::view is not the text");
    MC_CHECK(c, s.contains(v), "U8String: does not contain its own view");
}

static void edits_from(Ctx &c, Text ta, Text tb, int depth, bool large) {
    P::U8String a = u8(enc(ta)), b = u8(enc(tb));
    for(int step = 0; step < depth; ++step) {
        size_t n = ta.size();
        auto pos = [&](size_t lo) -> size_t { // lo..n, thinned out for longer texts
            if(n - lo <= 3)
                return lo + c.choose((int)(n - lo) + 1);
            size_t cand[] = {lo, lo + 1, n - 1, n, lo + (n - lo) / 2};
            return cand[c.choose(large ? 5 : 4)];
        };
        switch(c.choose(19)) {
        case 0: {
            static const char32_t cps[] = {'c', 0xe9, 0x20ac, 0x1f601};
            char32_t cp = c.pick(cps);
            c.op("append_codepoint(U+%04X)", (unsigned)cp);
            a.append_codepoint(cp);
            ta += cp;
            break;
        }
        case 1:
            c.op("+= other");
            MC_CHECK(c, &(a += b) == &a, "+= does not return the string");
            ta += tb;
            break;
        case 2:
            if(n > 20 && !large)
                c.abandon();
            c.op("+= itself");
            a += a;
            ta += Text(ta);
            break;
        case 3: {
            int which = c.choose(large ? NPIECES + 1 : NPIECES);
            const Text &p = which == NPIECES ? tb : PIECES[which];
            size_t i = pos(0);
            auto ps = u8(enc(p));
            c.op("insert(at %zu, %s)", i, q(enc(p)).c_str());
            a.insert(at(a, i), ps.view());
            ta.insert(i, p);
            break;
        }
        case 4: {
            size_t i = pos(0), j = pos(i), k = pos(0);
            if(n > 20 && !large)
                c.abandon();
            c.op("insert(at %zu, own %zu..%zu)", k, i, j);
            a.insert(at(a, k), sub(a, i, j));
            ta.insert(k, Text(ta, i, j - i));
            break;
        }
        case 5: {
            size_t i = pos(0), j = pos(i);
            c.op("remove(%zu..%zu)", i, j);
            a.remove(sub(a, i, j));
            ta.erase(i, j - i);
            break;
        }
        case 6: {
            P::U8String foreign(a);
            c.op("remove(a view of another string)");
            if(n)
                MC_CHECK(c, throws([&] { a.remove(foreign.view()); }), "remove of a foreign view is accepted");
            break;
        }
        case 7:
            c.op("pop_front");
            a.pop_front();
            if(n)
                ta.erase(0, 1);
            break;
        case 8:
            c.op("pop_back");
            a.pop_back();
            if(n)
                ta.pop_back();
            break;
        case 9: {
            size_t i = pos(0), j = pos(i);
            Ref r = enc(ta), head = enc(ta.substr(0, i)), mid = enc(ta.substr(i, j - i));
            c.op("a = a.substr(%zu bytes, %zu bytes)", head.size(), mid.size());
            a = a.substr(head.size(), mid.size());
            ta = ta.substr(i, j - i);
            break;
        }
        case 10:
            c.op("copy assign");
            b = a;
            tb = ta;
            same(c, b, tb);
            break;
        case 11:
            c.op("move assign");
            b = P::move(a);
            tb = ta;
            a = P::U8String();
            ta.clear();
            same(c, b, tb);
            break;
        case 12: {
            c.op("self assign");
            auto &alias = a;
            a = alias;
            a = P::move(alias);
            break;
        }
        case 13: {
            c.op("move construct and back");
            P::U8String t(P::move(a));
            same(c, t, ta);
            a = t;
            break;
        }
        case 14: {
            size_t i = pos(0), j = pos(i);
            c.op("construct from own %zu..%zu", i, j);
            P::U8String t(sub(a, i, j));
            same(c, t, ta.substr(i, j - i));
#if EPOCH == 2026
            a = sub(a, i, j);
            ta = ta.substr(i, j - i);
#endif
            break;
        }
        case 15:
            c.op("reserve");
            a.reserve(c.choose(2) ? 100 : 0);
            break;
        case 16:
            c.op("swap with other");
            {
                P::U8String t(P::move(a));
                a = P::move(b);
                b = P::move(t);
                std::swap(ta, tb);
            }
            break;
        case 17: {
            // A substr that is not inside the text, or that cuts a code point.
            Ref r = enc(ta);
            size_t off, len;
            static const size_t huge[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2};
            switch(c.choose(5)) {
            case 0:
                off = r.size() + 1;
                len = 0;
                break;
            case 1:
                off = 0;
                len = r.size() + 1;
                break;
            case 2:
                off = r.size();
                len = 1;
                break;
            case 3:
                off = c.choose(2) && r.size() ? 1 : 0;
                len = c.pick(huge);
                if(len == SIZE_MAX)
                    c.abandon(); // the library's "to the end"
                break;
            default:
                off = r.size() ? c.choose((int)std::min<size_t>(r.size(), 4)) : 0;
                len = r.size() ? 1 + c.choose((int)std::min<size_t>(r.size() - off, 4)) : 0;
                if(well_formed(r.substr(off, len)))
                    c.abandon();
            }
            c.op("substr(%zu bytes, %zu bytes) must be refused", off, len);
            MC_CHECK(c, throws([&] { auto x = a.substr(off, len); }), "substr(%zu,%zu) of %s is accepted", off, len, q(r).c_str());
            break;
        }
        case 18:
            c.op("assign the empty text");
            a = P::U8String();
            ta.clear();
            break;
        }
        if(c.fresh()) {
            same(c, a, ta);
            MC_CHECK(c, (a == b) == (ta == tb), "== is wrong for %s, %s", q(enc(ta)).c_str(), q(enc(tb)).c_str());
        }
        c.visit(mc::Hash().str(enc(ta)).str(enc(tb)).add(step == 0 ? 0 : 1).h, depth - 1 - step);
    }
}

static void edits(Ctx &c) {
    static const Text starts[] = {U"", U"a\u00e4\u20ac", U"\U0001F600", U"0123456789abcd\u00e4"};
    const Text &t = starts[c.choose(4)];
    edits_from(c, t, U"\u00e4", c.bound(3, 4), false);
}
// Texts of many sizes: 5 mixes of code points.
static const int SIZES[] = {5,  6,  7,  8,  9,  10,  11,  13,  14,  15,  16,  17,  20,  21,  22,   23,   24,   25,   30,   31,    32,
                            33, 42, 43, 47, 48,  49,  63,  64,  65,  85,  86,  96,  100,  127,  128,  129,  170,   171, 255, 256, 257,
                            300, 341, 342, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 21845, 21846, 65536};
static Text mix(int n, int kind) {
    static const char32_t of[] = {'a', 0xe4, 0x20ac, 0x1f600};
    Text t;
    for(int i = 0; i < n; ++i)
        t += kind < 4 ? (kind == 0 ? (char32_t)('a' + i % 26) : of[kind]) : of[(i * 7 + i / 5) % 4];
    return t;
}
static void long_edits(Ctx &c) {
    int n = c.pick(SIZES), kind = c.choose(5);
    if(!c.thorough && n > 2000 && kind != 4)
        return;
    Text tb = mix(n % 2 ? n : 70, 4);
    edits_from(c, mix(n, kind), tb, c.bound(1, n < 300 ? 2 : 1), true);
}
static void long_compares(Ctx &c) {
    int n = c.pick(SIZES), kind = c.choose(5);
    Text t = mix(n, kind);
    static const char32_t other[] = {'b', 0xe5, 0x20ad, 0x1f601, ' '};
    size_t where[] = {0, 1, (size_t)n / 2, (size_t)n - 2, (size_t)n - 1, (size_t)n};
    Ref rx = enc(t);
    auto a = u8(rx);
    c.op("%d code points, kind %d, compared with near ones", n, kind);
    c.state(mc::Hash().add(n).add(kind).h);
    for(size_t w : where)
        for(int k = 0; k < 9; ++k) {
            Text y = t;
            if(k < 5) {
                if(w == (size_t)n)
                    y += other[k];
                else
                    y[w] = other[k];
            } else if(k == 5)
                y = t.substr(0, w);
            else if(k == 6)
                y = t.substr(w);
            else if(k == 7)
                y.insert(w, 1, U'z');
            Ref ry = enc(y);
            auto b = u8(ry);
            int want = sgn(rx.compare(ry));
            MC_CHECK(c, (a == b) == (want == 0) && (b == a) == (want == 0), "== is wrong for texts that differ at %zu (%d)", w, k);
            MC_CHECK(c, (a < b) == (want < 0) && (b < a) == (want > 0), "< is wrong for texts that differ at %zu (%d)", w, k);
            MC_CHECK(c, (a == ry.c_str()) == (want == 0) && (a.view() == ry.c_str()) == (want == 0), "== with a literal is wrong at %zu (%d)", w, k);
#if EPOCH == 2026
            MC_CHECK(c, sgn(a <=> b) == want, "<=> is wrong for texts that differ at %zu (%d)", w, k);
            MC_CHECK(c, (a.view() == b.view()) == (want == 0), "== of views is wrong at %zu (%d)", w, k);
#endif
        }
}
static Text gen(Ctx &c, int maxlen, const Text &alphabet) {
    int n = c.choose(maxlen + 1);
    Text t;
    for(int i = 0; i < n; ++i)
        t += alphabet[c.choose((int)alphabet.size())];
    return t;
}

static bool ws(char32_t cp) { return cp == ' ' || cp == '\t' || cp == '\n' || cp == '\r'; }
static bool euro(uint32_t cp) { return cp == 0x20ac; }

static std::vector<Text> fields(const Text &t, bool (*sep)(char32_t)) {
    std::vector<Text> v;
    Text cur;
    for(char32_t cp : t) {
        if(sep(cp)) {
            if(!cur.empty())
                v.push_back(cur);
            cur.clear();
        } else
            cur += cp;
    }
    if(!cur.empty())
        v.push_back(cur);
    return v;
}

struct Pieces {
    const P::U8String *of;
    std::vector<Ref> got;
    size_t stop_after;
    bool inside = true;
};

static void split_one(Ctx &c, const Text &t, bool quiet = false) {
    Ref r = enc(t);
    auto s = u8(r);
    if(!quiet)
        c.op("split %s", q(r).c_str());
    auto want = fields(t, ws);
    auto v = s.split_ascii();
    MC_CHECK(c, v.size() == want.size(), "split_ascii(%s): %zu pieces, expected %zu", q(r).c_str(), v.size(), want.size());
    for(size_t i = 0; i < want.size(); ++i)
        holds(c, v[i], enc(want[i]), "split_ascii piece");
    auto want2 = fields(t, [](char32_t cp) { return cp == 0x20ac; });
    for(size_t stop = 1; stop <= want2.size() + 1; ++stop) {
        if(stop == 3 && want2.size() > 40)
            stop = want2.size() - 1;
        Pieces p{&s, {}, stop};
        s.split(
            [](const P::U8StringView &piece, void *ctx) -> bool {
                auto *p = (Pieces *)ctx;
                auto raw = piece.raw_view();
                p->got.emplace_back(raw.data(), raw.size());
                p->inside = p->inside && p->of->contains(piece);
                return p->got.size() < p->stop_after;
            },
            euro, &p);
        MC_CHECK(c, p.inside, "split: a piece is not part of the string");
        size_t expect = std::min(stop, want2.size());
        MC_CHECK(c, p.got.size() == expect, "split(%s): %zu pieces, expected %zu", q(r).c_str(), p.got.size(), expect);
        for(size_t i = 0; i < expect; ++i)
            MC_CHECK(c, p.got[i] == enc(want2[i]), "split(%s): piece %zu is %s", q(r).c_str(), i, q(p.got[i]).c_str());
    }
#if EPOCH == 2026
    {
        HeapText h(r);
        P::U8StringView view(h.p.get(), h.n);
        auto cl = view.split_ascii();
        size_t i = 0;
        while(auto piece = cl.next()) {
            MC_CHECK(c, i < want.size(), "view split_ascii(%s): too many pieces", q(r).c_str());
            auto raw = piece->raw_view();
            MC_CHECK(c, Ref(raw.data(), raw.size()) == enc(want[i]), "view split_ascii(%s): piece %zu is %s",
                     q(r).c_str(), i, q(Ref(raw.data(), raw.size())).c_str());
            ++i;
        }
        MC_CHECK(c, i == want.size() && !cl.next(), "view split_ascii(%s): %zu pieces, expected %zu", q(r).c_str(), i, want.size());
    }
#endif
    c.state(mc::Hash().str(r).h);
}

// Every operation on every code point between two others.
static void every_cp(Ctx &c) {
    const uint32_t step = 256, base = step * c.choose(0x110000 / step);
    for(uint32_t cp = base; cp < base + step; ++cp) {
        if(cp == 0 || !scalar(cp))
            continue;
        if(!c.thorough && cp >= 0x3000 && !strchr("\x01\x09\x0a\x0d\x20\x41\x7f\x80\xa0\xbf\xc0\xff", cp & 255))
            continue;
        if(cp == base)
            c.op("U+%04X to U+%04X, between a and z", base, base + step - 1);
        const Text one(1, (char32_t)cp), t = U"a" + one + U"z";
        const Ref r = enc(t);
        c.ops(1);
        split_one(c, t, cp != base);
        P::U8String s = u8(enc(U"a"));
        s.append_codepoint(cp);
        holds(c, s, enc(U"a" + one), "append_codepoint");
        s.append_codepoint('z');
        holds(c, s, r, "append_codepoint after it");
        const P::U8String u = u8(r), alone = u8(enc(one));
        MC_CHECK(c, s == u && s == r.c_str() && !(s < u) && !(u < s), "%s is not equal to itself", q(r).c_str());
        MC_CHECK(c, u.contains(sub(u, 1, 2)) && !u.contains(alone.view()) && u.overlaps(sub(u, 1, 2)), "%s does not contain its middle", q(r).c_str());
        s.pop_back();
        holds(c, s, enc(U"a" + one), "pop_back");
        s.pop_back();
        holds(c, s, "a", "pop_back of it");
        s += alone;
        holds(c, s, enc(U"a" + one), "+=");
        s.insert(at(s, 1), alone.view());
        holds(c, s, enc(U"a" + one + one), "insert of it before it");
        s.insert(at(s, 2), u8("m").view());
        holds(c, s, enc(U"a" + one + U"m" + one), "insert after it");
        s.remove(sub(s, 1, 2));
        holds(c, s, enc(U"am" + one), "remove of it");
        s = u;
        s.pop_front();
        holds(c, s, enc(one + U"z"), "pop_front");
        s.pop_front();
        holds(c, s, "z", "pop_front of it");
        s = u.substr(1, enc(one).size());
        holds(c, s, enc(one), "substr");
        s = P::U8String(sub(u, 1, 2));
        holds(c, s, enc(one), "construct from a view");
        P::Vector<P::U8String> parts;
        parts.push_back(u);
        parts.push_back(alone);
        parts.push_back(u);
        holds(c, alone.join(parts), r + enc(one) + enc(one) + enc(one) + r, "join");
    }
}
static void splits(Ctx &c) { split_one(c, gen(c, c.bound(5, 7), U" \n\u20acx\u00a0")); }
static void long_splits(Ctx &c) {
    int n = c.pick(SIZES), kind = c.choose(5);
    if(n > 5000)
        n = 5000 + c.choose(2);
    static const char32_t seps[] = {' ', 0x20ac, '\n', 0xa0};
    char32_t sep = c.pick(seps);
    int where = c.choose(8);
    Text body = mix(n, kind), t;
    if(sep == 0x20ac)
        for(auto &x : body)
            x = x == 0x20ac ? 0x20ad : x;
    Text blanks(n, sep);
    switch(where) {
    case 0:
        t = body;
        break;
    case 1:
        t = sep + body + sep;
        break;
    case 2:
        t = body.substr(0, n / 2) + sep + body.substr(n / 2);
        break;
    case 3:
        t = blanks;
        break;
    case 4:
        t = blanks + body + blanks + body;
        break;
    case 5: // pieces of one
        for(int i = 0; i < n; ++i)
            t += body[i], t += sep;
        break;
    case 6: // pieces of growing size
        for(int i = 0, l = 1; i < n; i += l, ++l)
            t += body.substr(i, l) + sep;
        break;
    default:
        t = body + sep;
    }
    split_one(c, t);
}
static void long_joins(Ctx &c) {
    int n = c.pick(SIZES), kind = c.choose(5), how = c.choose(3);
    if(n > 5000)
        return;
    Text sep = how == 0 ? mix(n, kind) : how == 1 ? Text(U", ") : Text();
    Text want;
    P::Vector<P::U8String> seq;
    int parts = how == 0 ? 3 : n;
    for(int i = 0; i < parts; ++i) {
        Text p = how == 2 && i < 3 ? mix(n, kind) : mix(1 + i % 3, 4);
        want += (i ? sep : Text()) + p;
        seq.push_back(u8(enc(p)));
    }
    c.op("join %d parts with %zu", parts, sep.size());
    auto s = u8(enc(sep));
    same(c, s.join(seq), want);
    c.state(mc::Hash().add(n).add(kind).add(how).h);
}
static void joins(Ctx &c) {
    Text sep = PIECES[c.choose(NPIECES)];
    int n = c.choose(4);
    std::vector<Text> parts;
    Text want;
    P::Vector<P::U8String> seq;
    for(int i = 0; i < n; ++i) {
        parts.push_back(PIECES[c.choose(NPIECES)]);
        if(i)
            want += sep;
        want += parts.back();
        seq.push_back(u8(enc(parts.back())));
    }
    auto s = u8(enc(sep));
    c.op("join %d parts with %s", n, q(enc(sep)).c_str());
    auto got = s.join(seq);
    same(c, got, want);
    same(c, s, sep);
}

static void compares(Ctx &c) {
    const Text alpha = U"ab\u00e4\u20ac\U0001F600\uffff";
    Text x = gen(c, c.bound(2, 3), alpha), y = gen(c, 2, alpha);
    Ref rx = enc(x), ry = enc(y);
    auto a = u8(rx), b = u8(ry);
    c.op("compare %s, %s", q(rx).c_str(), q(ry).c_str());
    int want = sgn(rx.compare(ry));
    MC_CHECK(c, (a == b) == (want == 0) && (b == a) == (want == 0), "==(%s,%s) is wrong", q(rx).c_str(), q(ry).c_str());
    MC_CHECK(c, (a < b) == (want < 0) && (b < a) == (want > 0), "<(%s,%s) is wrong", q(rx).c_str(), q(ry).c_str());
    MC_CHECK(c, (a == ry.c_str()) == (want == 0), "==(%s, literal %s) is wrong", q(rx).c_str(), q(ry).c_str());
    {
        HeapText z(ry, true);
        auto va = a.view();
        MC_CHECK(c, (va == z.p.get()) == (want == 0), "view ==(%s, literal %s) is wrong", q(rx).c_str(), q(ry).c_str());
    }
#if EPOCH == 2026
    MC_CHECK(c, sgn(a <=> b) == want && (a > b) == (want > 0) && (a <= b) == (want <= 0), "<=>(%s,%s) is wrong",
             q(rx).c_str(), q(ry).c_str());
    {
        HeapText hx(rx), hy(ry);
        P::U8StringView vx(hx.p.get(), hx.n), vy(hy.p.get(), hy.n);
        MC_CHECK(c, (vx == vy) == (want == 0) && vx == vx, "view ==(%s,%s) is wrong", q(rx).c_str(), q(ry).c_str());
        P::SimpleHash h1, h2;
        vx.feed_hash(h1);
        a.feed_hash(h2);
        MC_CHECK(c, h1.get_hash_value() == h2.get_hash_value(), "the hashes of %s and of a view of it differ", q(rx).c_str());
        P::U8StringView moved;
        moved = P::move(vx);
        MC_CHECK(c, moved == rx.c_str() && moved.data() == hx.p.get(), "a moved view is not the view");
    }
#endif
    // Prefix literals must not match either.
    if(!ry.empty()) {
        Ref longer = rx + "z";
        MC_CHECK(c, !(a == longer.c_str()) && !(a.view() == longer.c_str()), "%s equals a longer literal", q(rx).c_str());
    }
    c.state(mc::Hash().str(rx).str(ry).h);
}

static void long_containment(Ctx &c) {
    int n = c.pick(SIZES), kind = c.choose(5);
    Text t = mix(n, kind);
    auto s = u8(enc(t));
    P::U8String twin(s);
    c.op("views of %d code points, kind %d", n, kind);
    c.state(mc::Hash().add(n).add(kind).h);
    size_t cand[] = {0, 1, (size_t)n / 2, (size_t)n - 2, (size_t)n - 1, (size_t)n};
    std::map<size_t, decltype(at(s, 0))> its, tits;
    for(size_t i : cand) {
        its.emplace(i, at(s, i));
        tits.emplace(i, at(twin, i));
    }
    for(size_t i : cand)
        for(size_t j : cand)
            for(size_t k : cand)
                for(size_t l : cand) {
                    if(j <= i || l <= k)
                        continue;
                    P::U8StringView v(its.at(i), its.at(j)), w(its.at(k), its.at(l)), o(tits.at(k), tits.at(l));
                    bool want = i < l && k < j;
                    MC_CHECK(c, v.overlaps(w) == want, "%zu..%zu overlaps %zu..%zu: %d", i, j, k, l, !want);
                    MC_CHECK(c, s.contains(v) && s.overlaps(v) && !twin.contains(v) && !twin.overlaps(v) && !v.overlaps(o), "contains or overlaps of %zu..%zu is wrong", i, j);
                }
}
static void containment(Ctx &c) {
    Text t = gen(c, 4, U"a\u00e4\U0001F600");
    auto s = u8(enc(t));
    P::U8String twin(s);
    size_t n = t.size();
    size_t i = c.choose((int)n + 1), j = i + c.choose((int)(n - i) + 1);
    size_t k = c.choose((int)n + 1), l = k + c.choose((int)(n - k) + 1);
    c.op("views %zu..%zu and %zu..%zu of %zu code points", i, j, k, l, n);
    auto v = sub(s, i, j), w = sub(s, k, l);
    MC_CHECK(c, s.contains(v) && s.contains(w), "a string does not contain its own view");
    bool want = i < l && k < j; // share a code point
    if(i != j && k != l)
        MC_CHECK(c, v.overlaps(w) == want && w.overlaps(v) == want, "overlaps is wrong");
    if(i != j) {
        MC_CHECK(c, s.overlaps(v), "a string does not overlap its own view");
        MC_CHECK(c, !twin.contains(v) && !twin.overlaps(v), "a string contains or overlaps a view of another one");
        // A view is not contained in a string it merely overlaps.
        P::U8String other = u8("tail");
        MC_CHECK(c, !other.contains(v), "a string contains a view of another one");
    }
    c.state(mc::Hash().str(enc(t)).add(i).add(j).add(k).add(l).h);
}

#if EPOCH == 2026
static void bad_ranges(Ctx &c) {
    auto s = u8("a\xc3\xa4z");
    size_t i = c.choose(4), j = c.choose(4);
    c.op("view from iterator %zu to %zu", i, j);
    bool threw = throws([&] { P::U8StringView v(at(s, i), at(s, j)); });
    MC_CHECK(c, threw == (j < i), "a view from code point %zu to %zu is %s", i, j, threw ? "rejected" : "accepted");
    P::U8StringView empty;
    MC_CHECK(c, empty.size_bytes() == 0 && empty == "" && empty.begin() == empty.end(), "the default view is not empty");
    P::U8String fromempty(empty);
    holds(c, fromempty, "", "U8String(default view)");
    auto cl = empty.split_ascii();
    MC_CHECK(c, !cl.next(), "the default view has pieces");
    holds(c, empty.upper(), "", "upper() of the default view");
}
#endif
#endif

// ------------------------------------------------------------------ C16

#ifdef PART_CASE
#include "case_oracle.inc"
static Text mapped(uint32_t cp, bool up) {
    const uint32_t(*tab)[4] = up ? oracle_upper : oracle_lower;
    size_t n = up ? sizeof(oracle_upper) / sizeof(oracle_upper[0]) : sizeof(oracle_lower) / sizeof(oracle_lower[0]);
    size_t lo = 0, hi = n;
    while(lo < hi) {
        size_t m = (lo + hi) / 2;
        if(tab[m][0] < cp)
            lo = m + 1;
        else
            hi = m;
    }
    Text t;
    if(lo < n && tab[lo][0] == cp) {
        for(int i = 1; i < 4; ++i)
            if(tab[lo][i])
                t += (char32_t)tab[lo][i];
    } else
        t += (char32_t)cp;
    return t;
}
static Text mapped(const Text &t, bool up) {
    Text r;
    for(char32_t cp : t)
        r += mapped(cp, up);
    return r;
}

static void convert(Ctx &c, const Text &t, bool views = true) {
    Ref r = enc(t);
    HeapText h(r);
    P::U8String s(h.p.get(), h.n);
    holds(c, s.upper(), enc(mapped(t, true)), "upper()");
    holds(c, s.lower(), enc(mapped(t, false)), "lower()");
    c.ops(1);
    if(!views)
        return;
    auto v = s.view();
    holds(c, v.upper(), enc(mapped(t, true)), "view upper()");
    holds(c, v.lower(), enc(mapped(t, false)), "view lower()");
    holds(c, s, r, "the converted string itself");
#if EPOCH == 2026
    P::U8StringView hv(h.p.get(), h.n); // nothing behind the view
    holds(c, hv.upper(), enc(mapped(t, true)), "view upper()");
    holds(c, hv.lower(), enc(mapped(t, false)), "view lower()");
#endif
}

static void every_point(Ctx &c) {
    uint32_t step = 256;
    uint32_t base = step * c.choose(0x110000 / step);
    c.op("U+%04X..U+%04X", base, base + step - 1);
    Text all;
    for(uint32_t cp = base; cp < base + step; ++cp) {
        if(cp == 0 || !scalar(cp))
            continue;
        convert(c, Text(1, cp), c.thorough || (cp & 0xff) == 0x41);
        all += (char32_t)cp;
    }
    convert(c, all); // the whole block as one text
    c.state(mc::Hash().add(base).h);
}

static void pairs(Ctx &c) {
    // Code points whose mappings change length, have several code points, or are at table edges.
    std::vector<uint32_t> pts = {'a', 'Z', '1', 0xb5, 0xdf, 0xe4, 0xff, 0x130, 0x131, 0x149, 0x17f, 0x1c4, 0x1c5, 0x1f0, 0x23a, 0x250,
                                 0x390, 0x3a3, 0x3c2, 0x3c3, 0x587, 0x10d0, 0x1c90, 0x1e9e, 0x1fb3, 0x1fe4, 0x2126, 0x212a, 0x2c65, 0xab70,
                                 0xfb03, 0xfb17, 0x20ac, 0x10400, 0x10428, 0x1e900, 0x1e943, 0x1f600, 0x10ffff};
    uint32_t a = pts[c.choose((int)pts.size())];
    c.op("pairs starting with U+%04X", a);
    for(uint32_t b : pts) {
        Text t;
        t += (char32_t)a;
        t += (char32_t)b;
        convert(c, t);
        t += (char32_t)a;
        convert(c, t);
        if(c.thorough)
            for(uint32_t d : pts) {
                t.back() = (char32_t)d;
                convert(c, t);
            }
    }
    c.state(mc::Hash().add(a).h);
}

static void long_text(Ctx &c) { // many code points, growing over the buffer sizes
    uint32_t cp = "a\xdfz"[c.choose(3)] & 0xff;
    int n = c.choose(c.bound(70, 300));
    c.op("%d times U+%04X", n, cp);
    convert(c, Text(n, cp));
    c.state(mc::Hash().add(cp).add(n).h);
}
#endif

void mc::mc_register() {
#ifdef PART_VALID
    mc::add("bytes/classes", "every sequence of up to 4 bytes over 31 boundary bytes", by_class, 3);
    mc::add("bytes/five", "every sequence of 5 boundary bytes", five_bytes, 2, true);
    mc::add("bytes/all", "every sequence of 1 and 2 bytes (thorough: 3)", all_short, 2);
    mc::add("values", "every value in every encoded length (quick: refused values at block edges)", every_value, 2);
    mc::add("placement", "23 units in every neighbourhood of a longer text", placement, 2);
    mc::add("messages", "exception messages of up to 3 bytes", messages, 2);
#endif
#ifdef PART_ITER
    mc::add("scalars", "every Unicode scalar value, alone and between longer ones, all walks", every_scalar, 1);
    mc::add("not-scalars", "values that are not encodable", not_scalar, 1);
    mc::add("sequences", "all texts of up to 4 (thorough: 5) of 10 boundary code points, all walks", sequences, 2);
    mc::add("mixed", "all mixes of 8 (thorough: 11) iterator steps on four texts", mixed, 3);
#endif
#ifdef PART_OPS
    mc::add("edits", "all sequences of 3 (thorough: 4) edits from 4 texts", edits, 3);
    mc::add("long-edits", "56 sizes up to 65536 code points, 5 mixes, every edit (thorough: two below 300)", long_edits, 2);
    mc::add("long-compare", "the same texts and ones that differ in 6 places in 9 ways", long_compares, 1);
    mc::add("long-split", "the same sizes, 4 separators in 8 arrangements", long_splits, 2);
    mc::add("long-join", "separators, parts and numbers of parts of the same sizes", long_joins, 2);
    mc::add("long-contain", "views between 6 places of the same texts", long_containment, 1);
    mc::add("every-code-point", "every operation on every Unicode scalar value below U+3000 (thorough: every one; quick: 13 in every 256 above), between two letters", every_cp, 1);
    mc::add("split", "all texts of up to 5 (thorough: 7) code points over space, newline, euro, x, nbsp", splits, 2);
    mc::add("join", "all joins of up to 3 of 6 pieces with 6 separators", joins, 2);
    mc::add("compare", "all pairs of texts of up to 2 (thorough: 3) of 6 code points", compares, 2);
    mc::add("contain", "all pairs of views of all texts of up to 4 code points", containment, 2);
#if EPOCH == 2026
    mc::add("ranges", "views from iterator pairs, the default view", bad_ranges, 1);
#endif
#endif
#ifdef PART_CASE
    mc::add("points", "every Unicode scalar value", every_point, 1);
    mc::add("pairs", "all pairs (thorough: triples) of 39 code points", pairs, 1);
    mc::add("long", "texts of up to 69 (thorough: 299) code points", long_text, 2);
#endif
}
