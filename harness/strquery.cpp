// Queries on byte strings, natural order, FixedCString.
#include <memory>
#include "common.hpp"

using Ref = std::string;

static std::string q(const Ref &r) {
    std::string s = "\"";
    for(unsigned char ch : r) {
        char b[8];
        if(ch >= 32 && ch < 127 && ch != '"')
            snprintf(b, sizeof(b), "%c", ch);
        else
            snprintf(b, sizeof(b), "\\x%02x", ch);
        s += b;
    }
    return s + "\"";
}

// The text in a heap block of exactly its size: a read beyond it is an error.
struct Exact {
    std::unique_ptr<char[]> p;
    size_t n;
    Exact(const Ref &r) : p(new char[r.size() ? r.size() : 1]), n(r.size()) {
        memcpy(p.get(), r.data(), n);
    }
    P::CStringView view() const { return P::CStringView((const char *)p.get(), n); }
};
// The text in the middle of a longer one, with neighbours that would change the answers.
struct Middle {
    Ref all;
    size_t n;
    Middle(const Ref &r, const char *before, const char *after) : all(before + r + after), n(r.size()) {
        off = strlen(before);
    }
    size_t off;
    P::CStringView view() const { return P::CStringView(all.c_str() + off, n); }
};

// All strings over an alphabet in length order.
static Ref nth(const char *al, int k, int i) {
    int len = 0;
    long count = 1;
    while(i >= count) {
        i -= count;
        count *= k;
        ++len;
    }
    Ref r;
    for(int j = 0; j < len; ++j) {
        r.push_back(al[i % k]);
        i /= k;
    }
    return r;
}
static int count_upto(int k, int len) {
    int t = 0, p = 1;
    for(int i = 0; i <= len; ++i) {
        t += p;
        p *= k;
    }
    return t;
}

static std::vector<Ref> split_ref(const Ref &r, const char *sep) {
    std::vector<Ref> out;
    size_t i = 0;
    while(true) {
        i = r.find_first_not_of(sep, i);
        if(i == Ref::npos)
            return out;
        size_t e = r.find_first_of(sep, i);
        if(e == Ref::npos)
            e = r.size();
        out.push_back(r.substr(i, e - i));
        i = e;
    }
}

struct Pieces {
    std::vector<Ref> v;
    size_t stop_after = (size_t)-1;
    static bool cb(const P::CStringView &p, void *ctx) {
        auto *self = (Pieces *)ctx;
        self->v.push_back(Ref(p.data(), p.size()));
        return self->v.size() < self->stop_after;
    }
};

static int sgn(int i) { return i < 0 ? -1 : i > 0; }

// ------------------------------------------------------------ single strings
template<typename V> static void unary(Ctx &c, const V &v, const Ref &r, const char *al) {
    MC_CHECK(c, v.size() == r.size() && v.is_empty() == r.empty(), "view size of %s", q(r).c_str());
    MC_CHECK(c, Ref(v.begin(), v.end()) == r, "view iteration of %s", q(r).c_str());
    for(size_t i = 0; i < r.size(); ++i)
        MC_CHECK(c, v[i] == r[i] && v.at(i) == r[i], "view index %zu of %s", i, q(r).c_str());
    MC_CHECK(c, v == P::CStringView(r.data(), r.size()) && v == r.c_str(), "view equality of %s",
             q(r).c_str());
    if(!r.empty())
        MC_CHECK(c, v.front() == r.front(), "view front of %s", q(r).c_str());
    for(const char *p = al; *p; ++p) {
        size_t want = r.find(*p);
        MC_CHECK(c, v.find(*p) == want, "find('%c') in %s is %zd, expected %zd", *p, q(r).c_str(),
                 (ssize_t)v.find(*p), (ssize_t)want);
    }
    MC_CHECK(c, v.find('\0') == Ref::npos && v.find('~') == r.find('~'),
             "find of an absent character in %s", q(r).c_str());
    // substr
    for(size_t pos = 0; pos < r.size(); ++pos) {
        auto s = v.substr(pos);
        MC_CHECK(c, Ref(s.data(), s.size()) == r.substr(pos), "substr(%zu) of %s", pos, q(r).c_str());
        for(size_t n = 0; n <= r.size() + 1; ++n) {
            auto t = v.substr(pos, n);
            MC_CHECK(c, Ref(t.data(), t.size()) == r.substr(pos, n), "substr(%zu, %zu) of %s", pos, n,
                     q(r).c_str());
        }
        for(size_t big : {(size_t)-2, (size_t)1 << 63, (size_t)0 - pos}) {
            if(big <= r.size())
                continue;
            auto t = v.substr(pos, big);
            MC_CHECK(c, Ref(t.data(), t.size()) == r.substr(pos), "substr(%zu, huge) of %s", pos,
                     q(r).c_str());
        }
    }
    auto up = v.upper();
    auto low = v.lower();
    Ref ru, rl;
    for(char ch : r) {
        ru.push_back(ch >= 'a' && ch <= 'z' ? ch - 32 : ch);
        rl.push_back(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch);
    }
    MC_CHECK(c, up == ru.c_str() && low == rl.c_str(), "upper/lower of %s", q(r).c_str());
#if EPOCH == 2026
    {
        auto want = split_ref(r, " \t\n\r");
        Pieces p;
        v.split(Pieces::cb, &p);
        MC_CHECK(c, p.v == want, "split of %s yields %zu pieces, expected %zu", q(r).c_str(),
                 p.v.size(), want.size());
        if(want.size() > 1) {
            Pieces p1;
            p1.stop_after = 1;
            v.split(Pieces::cb, &p1);
            MC_CHECK(c, p1.v.size() == 1, "split of %s continues after being stopped", q(r).c_str());
        }
    }
#endif
}

static void cstring_unary(Ctx &c, const Ref &r, const char *al) {
    P::CString s(r.c_str());
    MC_CHECK(c, s.size() == r.size() && s.is_empty() == r.empty(), "CString size of %s", q(r).c_str());
    for(const char *p = al; *p; ++p) {
        size_t want = r.rfind(*p);
        MC_CHECK(c, s.rfind(*p) == want, "rfind('%c') in %s is %zd, expected %zd", *p, q(r).c_str(),
                 (ssize_t)s.rfind(*p), (ssize_t)want);
    }
    MC_CHECK(c, s.rfind('~') == r.rfind('~'), "rfind of an absent character in %s", q(r).c_str());
    MC_CHECK(c, s.rfind('\0') == Ref::npos, "rfind finds a zero byte in %s", q(r).c_str());
    for(size_t pos = 0; pos <= r.size(); ++pos) {
        for(size_t n : {(size_t)0, (size_t)1, (size_t)2, r.size() - pos, r.size() + 1, (size_t)-1,
                        (size_t)-2}) {
            if(pos == r.size()) {
                // Whether the end is a valid position is left open.
                bool threw = throws([&] {
                    auto t = s.substr(pos, n);
                    MC_CHECK(c, t.is_empty(), "substr at the end of %s is not empty", q(r).c_str());
                });
                if(threw)
                    continue;
            } else {
                auto t = s.substr(pos, n);
                MC_CHECK(c, t == r.substr(pos, n).c_str(), "CString substr(%zu, %zd) of %s", pos,
                         (ssize_t)n, q(r).c_str());
            }
        }
    }
    MC_CHECK(c, s.upper() == s.view().upper() && s.lower() == s.view().lower(),
             "CString upper/lower of %s", q(r).c_str());
    {
        auto want = split_ref(r, " \t\n\r");
        auto got = s.split();
        bool ok = got.size() == want.size();
        for(size_t i = 0; ok && i < want.size(); ++i)
            ok = got[i] == want[i].c_str();
        MC_CHECK(c, ok, "CString split of %s", q(r).c_str());
        Pieces p;
        s.split(Pieces::cb, &p);
        MC_CHECK(c, p.v == want, "CString split (callback) of %s", q(r).c_str());
    }
    for(const char *sp = al; *sp; ++sp) {
        char sep[2] = {*sp, 0};
        auto want = split_ref(r, sep);
        auto got = s.split_by(*sp);
        bool ok = got.size() == want.size();
        for(size_t i = 0; ok && i < want.size(); ++i)
            ok = got[i] == want[i].c_str();
        MC_CHECK(c, ok, "split_by('%c') of %s", *sp, q(r).c_str());
        if(want.size() > 1) {
            Pieces p1;
            p1.stop_after = 1;
            s.split_by(*sp, Pieces::cb, &p1);
            MC_CHECK(c, p1.v.size() == 1 && p1.v[0] == want[0],
                     "split_by of %s continues after being stopped", q(r).c_str());
        }
    }
#if EPOCH == 2026
    auto z = s.zview();
    for(size_t i = 0; i <= r.size(); ++i) {
        auto t = z.subview(i);
        MC_CHECK(c, t == r.substr(i).c_str() && t.size() == r.size() - i && t.view() == r.substr(i).c_str(),
                 "ZStringView subview(%zu) of %s", i, q(r).c_str());
    }
    P::SimpleHash h1, h2, h3;
    s.feed_hash(h1);
    s.view().feed_hash(h2);
    z.feed_hash(h3);
    MC_CHECK(c, h1.get_hash_value() == h2.get_hash_value() && h1.get_hash_value() == h3.get_hash_value(),
             "hash of %s differs between the string and its views", q(r).c_str());
#endif
}

static void singles(Ctx &c, const char *al, int maxlen) {
    int k = strlen(al);
    Ref r = nth(al, k, c.choose(count_upto(k, maxlen)));
    c.op("queries on %s", q(r).c_str());
    Exact e(r);
    unary(c, e.view(), r, al);
    Middle m(r, "ab b", "ab c");
    unary(c, m.view(), r, al);
    cstring_unary(c, r, al);
    c.state(mc::Hash().str(r).h);
}

// ------------------------------------------------------------ pairs of strings
static void pair_check(Ctx &c, P::CStringView h, const Ref &rh, P::CStringView n, const Ref &rn) {
    size_t want = rh.find(rn);
    MC_CHECK(c, h.find(n) == want, "find(%s) in %s is %zd, expected %zd", q(rn).c_str(),
             q(rh).c_str(), (ssize_t)h.find(n), (ssize_t)want);
    bool sw = rh.compare(0, rn.size(), rn) == 0 && rn.size() <= rh.size();
    MC_CHECK(c, h.starts_with(n) == sw, "%s starts_with(%s) is %d", q(rh).c_str(), q(rn).c_str(),
             (int)!sw);
    MC_CHECK(c, h.starts_with(rn.c_str()) == sw, "%s starts_with(C string %s) is %d", q(rh).c_str(),
             q(rn).c_str(), (int)!sw);
    MC_CHECK(c, (h == n) == (rh == rn) && (h == rn.c_str()) == (rh == rn), "%s == %s is wrong",
             q(rh).c_str(), q(rn).c_str());
    MC_CHECK(c, (h < n) == (rh < rn), "%s < %s is %d", q(rh).c_str(), q(rn).c_str(), (int)(h < n));
}

static void pairs(Ctx &c, const char *al, int hl, int nl) {
    int k = strlen(al);
    Ref rh = nth(al, k, c.choose(count_upto(k, hl)));
    c.op("%s against every needle", q(rh).c_str());
    Exact eh(rh);
    Middle mh(rh, "a", "ab");
    P::CString sh(rh.c_str());
    int n = count_upto(k, nl);
    for(int i = 0; i < n; ++i) {
        Ref rn = nth(al, k, i);
        Exact en(rn);
        pair_check(c, eh.view(), rh, en.view(), rn);
        pair_check(c, mh.view(), rh, en.view(), rn);
        if(rn.size() == 0)
            pair_check(c, eh.view(), rh, P::CStringView(), rn);
        if(rh.size() == 0)
            pair_check(c, P::CStringView(), rh, en.view(), rn);
        MC_CHECK(c, sh.find(en.view()) == rh.find(rn), "CString find(%s) in %s", q(rn).c_str(),
                 q(rh).c_str());
        P::CString sn(rn.c_str());
        MC_CHECK(c, (sh == sn) == (rh == rn) && (sh == rn.c_str()) == (rh == rn) &&
                        (sh == en.view()) == (rh == rn),
                 "CString %s == %s", q(rh).c_str(), q(rn).c_str());
        MC_CHECK(c, (sh < sn) == (rh < rn), "CString %s < %s", q(rh).c_str(), q(rn).c_str());
#if EPOCH == 2026
        MC_CHECK(c, sgn(sh <=> sn) == sgn(rh.compare(rn)), "CString %s <=> %s is %d", q(rh).c_str(),
                 q(rn).c_str(), sh <=> sn);
        MC_CHECK(c, (sh.zview() == sn.zview()) == (rh == rn), "ZStringView %s == %s", q(rh).c_str(),
                 q(rn).c_str());
#endif
        c.ops(1);
    }
    c.state(mc::Hash().str(rh).h);
}

// ------------------------------------------------------------ every byte value, long texts
// Every text of one or two bytes (no zero bytes), every query.
static void all_bytes(Ctx &c) {
    int x = 1 + c.choose(255);
    c.op("texts of byte 0x%02x and any other", x);
    static Ref al;
    if(al.empty())
        for(int i = 1; i < 256; ++i)
            al.push_back((char)i);
    for(int y = 0; y < 256; ++y) {
        Ref r(1, (char)x);
        if(y)
            r.push_back((char)y);
        // '\v' and '\f' may or may not count as blanks when splitting.
        bool open = x == '\v' || x == '\f' || y == '\v' || y == '\f';
        Exact e(r);
        if(!open) {
            unary(c, e.view(), r, "");
            cstring_unary(c, r, y == 0 ? al.c_str() : r.c_str());
        }
        for(int i = 1; i < 256; ++i)
            MC_CHECK(c, e.view().find((char)i) == r.find((char)i), "find(0x%02x) in %s", i, q(r).c_str());
        if(y) {
            Ref a(1, (char)x), b(1, (char)y);
            for(const char *tail : {"", "\xff", "a"}) {
                Ref ra = a + tail, rb = b + tail;
                Exact ea(ra), eb(rb);
                pair_check(c, ea.view(), ra, eb.view(), rb);
                P::CString sa(ra.c_str()), sb(rb.c_str());
                MC_CHECK(c, (sa < sb) == (ra < rb) && (sa == sb) == (ra == rb), "CString %s < %s",
                         q(ra).c_str(), q(rb).c_str());
            }
        }
        c.ops(1);
    }
    c.state(x);
}

static const std::vector<int> &long_sizes() {
    static std::vector<int> r;
    if(r.empty()) {
        for(int i = 0; i <= 70; ++i)
            r.push_back(i);
        for(int i : {127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537})
            r.push_back(i);
    }
    return r;
}
// One character that is found at one position of a long text.
static void long_find(Ctx &c) {
    int n = long_sizes()[c.choose(long_sizes().size())];
    int style = c.choose(3);
    Ref r;
    for(int i = 0; i < n; ++i)
        r.push_back(style == 0 ? 'a' : style == 1 ? "ab"[i % 2] : "abcdefg"[(long)i * i % 7]);
    c.op("long text of %d, style %d", n, style);
    std::vector<int> at;
    for(int i = 0; i < n; ++i)
        if(n <= 300 || i < 3 || i >= n - 3 || i == n / 2 || i == 256 || i == 1024 || i == 4095)
            at.push_back(i);
    for(int p : at) {
        Ref t = r;
        t[p] = 'X';
        Exact e(t);
        P::CString s(t.c_str());
        MC_CHECK(c, e.view().find('X') == (size_t)p && s.rfind('X') == (size_t)p,
                 "find/rfind of a character at %d of %d", p, n);
        MC_CHECK(c, s.rfind('a') == t.rfind('a') && e.view().find('a') == t.find('a'),
                 "find/rfind of 'a' in a text of %d", n);
        for(int k : {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 32, 33, 100}) {
            int b = p - k / 2 < 0 ? 0 : p - k / 2;
            Ref nd = t.substr(b, k);
            Exact en(nd);
            MC_CHECK(c, e.view().find(en.view()) == t.find(nd) && s.find(en.view()) == t.find(nd),
                     "find of %s in a text of %d with X at %d is %zd", q(nd).c_str(), n, p,
                     (ssize_t)e.view().find(en.view()));
            nd.back() ^= 1;
            Exact em(nd);
            MC_CHECK(c, e.view().find(em.view()) == t.find(nd), "find of %s in a text of %d with X at %d",
                     q(nd).c_str(), n, p);
            MC_CHECK(c, e.view().starts_with(en.view()) == (t.compare(0, k, Ref(en.p.get(), en.n)) == 0),
                     "starts_with of a long needle");
        }
        // A difference in that position decides.
        Exact er(r);
        pair_check(c, e.view(), t, er.view(), r);
        pair_check(c, er.view(), r, e.view(), t);
        MC_CHECK(c, Ref(e.view().substr(p).data(), e.view().substr(p).size()) == t.substr(p) &&
                        s.substr(p) == t.substr(p).c_str() && s.substr(0, p) == t.substr(0, p).c_str(),
                 "substr at %d of %d", p, n);
        c.ops(1);
    }
    auto up = P::CString(r.c_str()).upper();
    for(int i = 0; i < n; ++i)
        MC_CHECK(c, up[i] == r[i] - 32, "upper of a text of %d at %d", n, i);
    MC_CHECK(c, (int)up.size() == n && up.lower() == r.c_str(), "upper/lower of a text of %d", n);
    c.state(n * 4 + style);
}
// Pieces and separators of many lengths.
static void long_split(Ctx &c) {
    static const std::vector<int> L = {0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257, 1000, 70000};
    int a = L[c.choose(L.size())], w = L[c.choose(L.size())], b = L[c.choose(L.size())];
    int count = c.choose(2) ? 40 : 1;
    if(count > 1 && a + w + b > 3000)
        c.abandon();
    Ref r;
    for(int k = 0; k < count; ++k)
        r += Ref(a, ' ') + Ref(w, 'w') + Ref(b, ' ') + (k % 2 ? "z" : "\t");
    c.op("split of %d times %d blanks, %d others, %d blanks", count, a, w, b);
    P::CString s(r.c_str());
    auto check = [&](auto got, const std::vector<Ref> &want, const char *what) {
        MC_CHECK(c, got.size() == want.size(), "%s yields %zu pieces, expected %zu", what, got.size(), want.size());
        for(size_t i = 0; i < want.size(); ++i)
            MC_CHECK(c, got[i].size() == want[i].size() && got[i] == want[i].c_str(), "%s: piece %zu", what, i);
    };
    check(s.split(), split_ref(r, " \t\n\r"), "split");
    check(s.split_by('w'), split_ref(r, "w"), "split_by");
    check(s.split_by(' '), split_ref(r, " "), "split_by");
    Pieces p;
    s.split(Pieces::cb, &p);
    MC_CHECK(c, p.v == split_ref(r, " \t\n\r"), "split (callback)");
    c.state(mc::Hash().str(r).h);
}

static void overlap(Ctx &c) {
    Ref buf = "0123456789";
    int a = c.choose(11), b = a + c.choose(11 - a), x = c.choose(11), y = x + c.choose(11 - x);
    P::CStringView v(buf.c_str() + a, (size_t)(b - a)), w(buf.c_str() + x, (size_t)(y - x));
    c.op("overlap of %d..%d and %d..%d", a, b, x, y);
    if(a == b || x == y)
        c.abandon(); // for an empty view the definition is open
    bool want = std::max(a, x) < std::min(b, y);
    MC_CHECK(c, v.overlaps(w) == want, "views %d..%d and %d..%d: overlaps() is %d", a, b, x, y,
             (int)!want);
    c.state(((a * 16 + b) * 16 + x) * 16 + y);
}

// Every way to make a view.
static void constructions(Ctx &c) {
    static const int sizes[] = {0, 1, 2, 3, 14, 15, 16, 17, 70, 255, 256, 257, 4095, 4096, 65535, 65536, 70000};
    size_t n = c.pick(sizes);
    int kind = c.choose(7);
    static const char *const names[] = {"C string", "C string and length", "C string and no length", "range", "CString", "span", "default or null"};
    c.op("%zu characters: %s", n, names[kind]);
    Ref r;
    for(size_t i = 0; i < n; ++i)
        r += (char)(1 + (i * 7) % 255);
    auto check = [&](const P::CStringView &v, const char *at) {
        c.ops(1);
        MC_CHECK(c, v.size() == r.size() && v.is_empty() == r.empty(), "the view of %zu characters has %zu", r.size(), v.size());
        MC_CHECK(c, (v.data() == at || r.empty()) && v.begin() == v.data() && (size_t)(v.end() - v.begin()) == r.size(), "the view does not cover the text");
        for(size_t i = 0; i < r.size(); ++i) {
            MC_CHECK(c, v[i] == r[i] && v.at(i) == r[i], "character %zu", i);
#if EPOCH == 2026
            MC_CHECK(c, v.unsafe_at(i) == r[i], "unsafe_at(%zu)", i);
#endif
        }
        P::CStringView copy(v), assigned;
        assigned = copy;
        MC_CHECK(c, assigned.data() == v.data() && assigned.size() == v.size(), "a copy differs");
    };
#if EPOCH == 2026
    auto zcheck = [&](const P::ZStringView &z, const char *at) {
        MC_CHECK(c, z.size() == r.size() && (z.c_str() == at || r.empty()) && z.view().size() == r.size(), "the terminated view of %zu characters has %zu", r.size(), z.size());
        MC_CHECK(c, z == z && (!at || z == r.c_str()), "the terminated view is not equal to its text");
        check(z.view(), at);
    };
#endif
    const char *t = r.c_str();
    P::CString s(t);
    Exact e(r);
    switch(kind) {
    case 0:
        check(P::CStringView(t), t);
#if EPOCH == 2026
        zcheck(P::ZStringView(t), t);
#endif
        break;
    case 1:
        check(P::CStringView((const char *)e.p.get(), n), e.p.get());
#if EPOCH == 2026
        zcheck(P::ZStringView(t, n), t);
#endif
        break;
    case 2:
        check(P::CStringView(t, (size_t)-1), t);
#if EPOCH == 2026
        zcheck(P::ZStringView(t, (size_t)-1), t);
#endif
        break;
    case 3:
        check(P::CStringView((const char *)e.p.get(), (const char *)e.p.get() + n), e.p.get());
        break;
    case 4:
        check(P::CStringView(s), s.c_str());
        check(s.view(), s.c_str());
        break;
    case 5:
#if EPOCH == 2026
        check(P::CStringView(P::Span<const char>((const char *)e.p.get(), n)), e.p.get());
        zcheck(s.zview(), s.c_str());
#endif
        break;
    case 6:
        r.clear();
        check(P::CStringView(), nullptr);
        check(P::CStringView(nullptr, (size_t)-1), nullptr);
        check(P::CStringView(t, (size_t)0), t);
        check(P::CStringView(t, t), t);
#if EPOCH == 2026
        zcheck(P::ZStringView(), nullptr);
        zcheck(P::ZStringView(nullptr), nullptr);
        zcheck(P::ZStringView(nullptr, 0), nullptr);
#endif
        break;
    }
    c.state(mc::Hash().add(n).add(kind).h);
}
static void query_misuse(Ctx &c) {
    int w = c.choose(11);
    Ref text = "abc";
    Exact e(text);
    P::CStringView v = e.view(), empty;
    P::CString s("abc");
    auto rep = [&](auto fn, const char *what) {
        bool reported = false;
        try {
            fn();
        } catch(const P::PyException &) {
            reported = true;
        }
        MC_CHECK(c, reported, "%s is not reported by an exception", what);
    };
    c.op("misuse %d", w);
    switch(w) {
    case 0:
        rep([&] { (void)v[3]; }, "view index at the end");
        break;
    case 1:
        rep([&] { (void)v[100]; }, "view index far outside");
        break;
    case 2:
        rep([&] { (void)empty[0]; }, "index into an empty view");
        break;
    case 3:
        rep([&] { (void)v.substr(4); }, "view substr outside");
        break;
    case 4:
        rep([&] { (void)s.substr(4); }, "CString substr outside");
        break;
    case 5:
        rep([&] { (void)s.substr(100, 2); }, "CString substr far outside");
        break;
    case 6:
        rep([&] { (void)empty.front(); }, "front of an empty view");
        break;
    case 7:
        rep([&] { P::CStringView b(text.c_str() + 2, text.c_str()); }, "reversed view range");
        break;
    case 8:
        rep([&] { (void)v.at(3); }, "at() at the end");
        break;
    case 9:
#if EPOCH == 2026
        rep([&] { (void)s.zview().subview(4); }, "zero-terminated subview outside");
#endif
        break;
    case 10:
        rep([&] { (void)s.substr((size_t)-1, 1); }, "CString substr at -1");
        break;
    }
    c.state(w);
}

// ------------------------------------------------------------ natural order
#if EPOCH == 2026
static int natural_ref(const Ref &a, const Ref &b) {
    size_t i = 0, j = 0;
    auto dig = [](char ch) { return ch >= '0' && ch <= '9'; };
    while(true) {
        if(i == a.size() || j == b.size())
            return i == a.size() ? (j == b.size() ? 0 : -1) : 1;
        bool da = dig(a[i]), db = dig(b[j]);
        if(da != db)
            return da ? -1 : 1; // numbers come first
        if(da) {
            size_t ie = i, je = j;
            while(ie < a.size() && dig(a[ie]))
                ++ie;
            while(je < b.size() && dig(b[je]))
                ++je;
            Ref na = a.substr(i, ie - i), nb = b.substr(j, je - j);
            na.erase(0, std::min(na.find_first_not_of('0'), na.size()));
            nb.erase(0, std::min(nb.find_first_not_of('0'), nb.size()));
            if(na.size() != nb.size())
                return na.size() < nb.size() ? -1 : 1;
            if(na != nb)
                return na < nb ? -1 : 1;
            i = ie;
            j = je;
        } else {
            unsigned char x = a[i++], y = b[j++];
            if(x != y)
                return x < y ? -1 : 1;
        }
    }
}

static void natural_pairs(Ctx &c, const char *al, int maxlen) {
    int k = strlen(al);
    int n = count_upto(k, maxlen);
    Ref ra = nth(al, k, c.choose(n));
    c.op("natural order of %s against every string", q(ra).c_str());
    Exact ea(ra);
    Middle ma(ra, "1", "1");
    for(int i = 0; i < n; ++i) {
        Ref rb = nth(al, k, i);
        Exact eb(rb);
        int want = natural_ref(ra, rb);
        int got = sgn(ea.view().natural_order(eb.view()));
        int got2 = sgn(ma.view().natural_order(eb.view()));
        int got3 = sgn(eb.view().natural_order(ma.view()));
        MC_CHECK(c, got == want && got2 == want, "natural order of %s and %s is %d, expected %d",
                 q(ra).c_str(), q(rb).c_str(), got == want ? got2 : got, want);
        MC_CHECK(c, got3 == -want, "natural order of %s and %s is not antisymmetric", q(ra).c_str(),
                 q(rb).c_str());
        c.ops(1);
    }
    c.state(mc::Hash().str(ra).h);
}

// The laws themselves, without the reference.
static void natural_laws(Ctx &c, const char *al, int maxlen) {
    int k = strlen(al);
    int n = count_upto(k, maxlen);
    Ref ra = nth(al, k, c.choose(n));
    Exact ea(ra);
    c.op("laws with %s", q(ra).c_str());
    MC_CHECK(c, ea.view().natural_order(ea.view()) == 0, "%s differs from itself", q(ra).c_str());
    std::vector<int> cmp(n);
    std::vector<std::unique_ptr<Exact>> all;
    for(int i = 0; i < n; ++i) {
        all.emplace_back(new Exact(nth(al, k, i)));
        cmp[i] = sgn(ea.view().natural_order(all[i]->view()));
    }
    for(int i = 0; i < n; ++i)
        for(int j = 0; j < n; ++j) {
            if(cmp[i] > 0 || cmp[j] < 0)
                continue;
            // all[i] >= a >= ... : a <= i is cmp[i] <= 0; j <= a is cmp[j] >= 0, so j <= i
            int ij = sgn(all[j]->view().natural_order(all[i]->view()));
            bool strict = cmp[i] < 0 || cmp[j] > 0;
            MC_CHECK(c, strict ? ij < 0 : ij == 0, "not transitive: %s, %s, %s",
                     q(Ref(all[j]->p.get(), all[j]->n)).c_str(), q(ra).c_str(),
                     q(Ref(all[i]->p.get(), all[i]->n)).c_str());
            c.ops(1);
        }
    c.state(mc::Hash().str(ra).h);
}

static void natural_numbers(Ctx &c) {
    static const char *const N[] = {"0", "00", "1", "01", "2", "9", "10", "099", "100", "255", "256",
        "4294967295", "4294967296", "04294967296", "9223372036854775807", "9223372036854775808",
        "18446744073709551614", "18446744073709551615", "18446744073709551616",
        "18446744073709551617", "36893488147419103232", "99999999999999999999",
        "100000000000000000000", "00000000000000000000000000000001",
        "340282366920938463463374607431768211456", "340282366920938463463374607431768211457"};
    static const char *const D[] = {"", "a", "-", " ", "+", ".", "\xff", "7x", "a7"};
    const int n = sizeof(N) / sizeof(N[0]), d = sizeof(D) / sizeof(D[0]);
    Ref a = Ref(D[c.choose(d)]) + N[c.choose(n)] + D[c.choose(d)];
    c.op("numbers: %s", q(a).c_str());
    Exact ea(a);
    for(int i = 0; i < d; ++i)
        for(int j = 0; j < n; ++j)
            for(int l = 0; l < d; ++l) {
                Ref b = Ref(D[i]) + N[j] + D[l];
                Exact eb(b);
                int want = natural_ref(a, b);
                MC_CHECK(c, sgn(ea.view().natural_order(eb.view())) == want,
                         "natural order of %s and %s is not %d", q(a).c_str(), q(b).c_str(), want);
                c.ops(1);
            }
    c.state(mc::Hash().str(a).h);
}

// Every pair of byte values, alone, before and after digits.
static void natural_bytes(Ctx &c) {
    int x = 1 + c.choose(255);
    c.op("natural order of byte 0x%02x against every byte", x);
    for(int y = 1; y < 256; ++y)
        for(const char *pre : {"", "7", "q"})
            for(const char *post : {"", "3", "\xff"}) {
                Ref a = Ref(pre) + (char)x + post, b = Ref(pre) + (char)y + post;
                Exact ea(a), eb(b);
                int want = natural_ref(a, b);
                MC_CHECK(c, sgn(ea.view().natural_order(eb.view())) == want,
                         "natural order of %s and %s is not %d", q(a).c_str(), q(b).c_str(), want);
                c.ops(1);
            }
    c.state(x);
}
// Long runs of digits, zeros and letters.
static void natural_long(Ctx &c) {
    static const std::vector<int> L = {0, 1, 2, 8, 9, 10, 18, 19, 20, 38, 39, 64, 127, 128, 255, 256, 257, 300, 5000};
    int z = L[c.choose(L.size())], d = L[c.choose(L.size())];
    c.op("natural order of %d zeros and %d digits against others", z, d);
    for(int pre : {0, 1, 16, 255, 256, 300}) {
        Ref p(pre, 'p');
        Ref a = p + Ref(z, '0') + Ref(d, '5') + "x";
        Exact ea(a);
        for(int z2 : L)
            for(int d2 : {d - 1, d, d + 1, 2 * d}) {
                if(d2 < 0)
                    continue;
                for(int k = 0; k < 5; ++k) {
                    Ref dig(d2, '5');
                    if(k == 1 && d2)
                        dig[d2 - 1] = '6';
                    if(k == 2 && d2)
                        dig[0] = '4';
                    if(k == 3 && d2)
                        dig[d2 / 2] = '6';
                    Ref b = p + Ref(z2, '0') + dig + (k == 4 ? "y" : "x");
                    Exact eb(b);
                    int want = natural_ref(a, b);
                    MC_CHECK(c, sgn(ea.view().natural_order(eb.view())) == want &&
                                    sgn(eb.view().natural_order(ea.view())) == -want,
                             "natural order of %d zeros and %d digits against %d zeros and %d digits (%d) is not %d",
                             z, d, z2, d2, k, want);
                    c.ops(1);
                }
            }
    }
    c.state(z * 100000 + d);
}
#endif

// ------------------------------------------------------------ FixedCString
template<size_t N> static void fixed_same(Ctx &c, P::FixedCString<N> &f, const Ref &r) {
    const P::FixedCString<N> &k = f;
    MC_CHECK(c, k.size() == r.size() && k.is_empty() == r.empty(),
             "FixedCString<%zu>: size %zu, expected %s", N, k.size(), q(r).c_str());
    MC_CHECK(c, k.c_str()[r.size()] == '\0', "FixedCString<%zu>: not terminated after %s", N,
             q(r).c_str());
    MC_CHECK(c, r == k.c_str() && f.c_str() == k.c_str(), "FixedCString<%zu>: holds %s, expected %s",
             N, q(k.c_str()).c_str(), q(r).c_str());
    auto v = k.view();
    MC_CHECK(c, Ref(v.data(), v.size()) == r, "FixedCString<%zu>: view differs from %s", N,
             q(r).c_str());
    for(size_t i = 0; i < r.size(); ++i)
        MC_CHECK(c, f[i] == r[i] && k[i] == r[i], "FixedCString<%zu>: index %zu", N, i);
    MC_CHECK(c, f == r.c_str(), "FixedCString<%zu>: not equal to its text %s", N, q(r).c_str());
    Exact e(r);
    MC_CHECK(c, f == e.view(), "FixedCString<%zu>: not equal to a view of its text", N);
    Ref longer = r + "x";
    for(uint32_t bad : {(uint32_t)N + 1, (uint32_t)N + 2, (uint32_t)N + 256, ~0u / 2, ~0u}) {
        auto refused = [&](auto &&access) {
            try {
                access();
            } catch(const P::PyException &) {
                return true;
            }
            return false;
        };
        MC_CHECK(c, refused([&] { (void)const_cast<P::FixedCString<N> &>(f)[bad]; }) && refused([&] { (void)k[bad]; }), "FixedCString<%zu>: index %u is accepted", N, bad);
    }
    MC_CHECK(c, !(f == longer.c_str()) && !(f == P::CStringView(longer.c_str(), longer.size())),
             "FixedCString<%zu>: %s equals a longer text", N, q(r).c_str());
    if(!r.empty()) {
        Ref shorter = r.substr(0, r.size() - 1), other = r;
        other[0] ^= 1;
        MC_CHECK(c, !(f == shorter.c_str()) && !(f == other.c_str()),
                 "FixedCString<%zu>: %s equals another text", N, q(r).c_str());
    }
}

static Ref fixed_text(Ctx &c, int n) {
    int len = c.choose(n + 3);
    int salt = c.choose(2);
    Ref r;
    for(int i = 0; i < len; ++i)
        r.push_back("abc\xff xyz"[(i + salt * 3) % 8]);
    return r;
}

template<size_t N> static void fixed(Ctx &c, int depth) {
    struct Guarded {
        unsigned char before[8];
        P::FixedCString<N> f;
        unsigned char after[8];
    };
    std::unique_ptr<Guarded> g(new Guarded());
    memset(g->before, 0xa5, 8);
    memset(g->after, 0xa5, 8);
    auto &f = g->f;
    std::unique_ptr<P::FixedCString<N>> f2(new P::FixedCString<N>());
    Ref r, r2;
    fixed_same<N>(c, f, r);
    for(int s = 0; s < depth; ++s) {
        switch(c.choose(11)) {
        case 0: {
            Ref t = fixed_text(c, N);
            std::unique_ptr<char[]> p(new char[t.size() + 1]);
            memcpy(p.get(), t.c_str(), t.size() + 1);
            c.op("FixedCString(%s)", q(t).c_str());
            bool threw = throws([&] {
                P::FixedCString<N> k((const char *)p.get());
                fixed_same<N>(c, k, t);
                f = P::move(k);
            });
            MC_CHECK(c, threw == (t.size() > N), "FixedCString<%zu>: %s is %s", N, q(t).c_str(),
                     threw ? "rejected" : "accepted");
            if(!threw)
                r = t;
            break;
        }
        case 1: {
            Ref t = fixed_text(c, N);
            Exact e(t);
            c.op("FixedCString(%zu bytes of %s)", t.size(), q(t).c_str());
            bool threw = throws([&] {
                P::FixedCString<N> k((const char *)e.p.get(), (uint32_t)t.size());
                fixed_same<N>(c, k, t);
                f = k;
            });
            MC_CHECK(c, threw == (t.size() > N), "FixedCString<%zu>: %s is %s", N, q(t).c_str(),
                     threw ? "rejected" : "accepted");
            if(!threw)
                r = t;
            break;
        }
        case 2: {
            Ref t = fixed_text(c, N);
            Exact e(t);
            c.op("= view of %s", q(t).c_str());
            bool threw = throws([&] { f = e.view(); });
            MC_CHECK(c, threw == (t.size() > N), "FixedCString<%zu>: %s is %s", N, q(t).c_str(),
                     threw ? "rejected" : "accepted");
            if(!threw)
                r = t;
            break;
        }
        case 3:
            c.op("copy");
            *f2 = f;
            r2 = r;
            break;
        case 4:
            c.op("move");
            f = P::move(*f2);
            r = r2;
            r2.clear();
            break;
        case 5:
            c.op("copy and move construction");
            {
                P::FixedCString<N> k(f);
                fixed_same<N>(c, k, r);
                P::FixedCString<N> m(P::move(k));
                fixed_same<N>(c, m, r);
                fixed_same<N>(c, k, Ref());
            }
            break;
        case 6:
            c.op("pop_back");
            f.pop_back();
            if(!r.empty())
                r.pop_back();
            break;
        case 7: {
            P::FixedCString<N + 2> big;
            Ref t = fixed_text(c, N);
            big = P::CStringView(t.c_str(), t.size());
            c.op("= larger FixedCString %s", q(t).c_str());
            bool threw = throws([&] { f = big; });
            MC_CHECK(c, threw == (t.size() > N), "FixedCString<%zu>: %s is %s", N, q(t).c_str(),
                     threw ? "rejected" : "accepted");
            if(!threw)
                r = t;
            break;
        }
        case 8: {
            c.op("self assignment");
            P::FixedCString<N> &alias = f;
            f = alias;
            f = P::move(alias);
            f = f.view();
            break;
        }
        case 9: {
            size_t i = r.empty() ? 0 : c.choose(r.size() + 1), j = i + c.choose(r.size() - i + 1);
            c.op("= own part %zu..%zu", i, j);
            P::CStringView v(f.c_str() + i, j - i);
            bool threw = throws([&] { f = v; });
            if(!threw) // refusing is allowed
                r = r.substr(i, j - i);
            break;
        }
        case 10: {
            if(r.empty())
                c.abandon();
            c.op("write through []");
            f[0] = 'W';
            r[0] = 'W';
            break;
        }
        }
        if(c.fresh()) {
            fixed_same<N>(c, f, r);
            fixed_same<N>(c, *f2, r2);
            for(int i = 0; i < 8; ++i)
                MC_CHECK(c, g->before[i] == 0xa5 && g->after[i] == 0xa5,
                         "FixedCString<%zu>: wrote outside the object", N);
            c.visit(mc::Hash().str(r).str(r2).h, depth - s - 1);
        }
    }
}

void mc::mc_register() {
#ifdef PART_QUERY
    mc::add("singles", "every string of up to 6 (7) characters over {a,B,b,' ',\\xff}: every query, every position",
            [](Ctx &c) { singles(c, "aBb \xff", c.bound(6, 7)); });
    mc::add("blanks", "every string of up to 6 (7) characters over {a,' ',\\t,\\n,\\r}",
            [](Ctx &c) { singles(c, "a \t\n\r", c.bound(6, 7)); });
    mc::add("pairs-2", "every haystack of up to 10 (12), every needle of up to 7 (8) characters over {a,b}",
            [](Ctx &c) { pairs(c, "ab", c.bound(10, 12), c.bound(7, 8)); });
    mc::add("pairs-4", "every haystack of up to 6 (7), every needle of up to 4 (5) characters over {a,b,\\x7f,\\xff}",
            [](Ctx &c) { pairs(c, "ab\x7f\xff", c.bound(6, 7), c.bound(4, 5)); });
    mc::add("bytes", "every text of up to 2 bytes of any value, every pair of bytes", all_bytes, 1);
    mc::add("long-find", "texts of 0 to 70 and around powers of two up to 65537 bytes, a character in every position, 26 needles around it", long_find, 2);
    mc::add("long-split", "blanks and pieces of 17 lengths up to 70000", long_split, 2);
    mc::add("overlap", "every pair of views into a buffer of 10", overlap);
    mc::add("constructions", "every way to make a view of 17 lengths up to 70000", constructions);
    mc::add("misuse", "indexing and substrings outside are reported", query_misuse);
#endif
#ifdef PART_NATURAL
    mc::add("pairs-digits", "every pair of strings of up to 6 (7) characters over {0,1,9,a}",
            [](Ctx &c) { natural_pairs(c, "019a", c.bound(6, 7)); });
    mc::add("pairs-signs", "every pair of strings of up to 4 (5) characters over {0,2,' ',-,+,a,\\xff}",
            [](Ctx &c) { natural_pairs(c, "02 -+a\xff", c.bound(4, 5)); });
    mc::add("laws", "reflexive, antisymmetric, transitive over every triple of strings of up to 4 (5) over {0,1,a,\\xff}",
            [](Ctx &c) { natural_laws(c, "01a\xff", c.bound(4, 5)); });
    mc::add("bytes", "every pair of byte values in 9 contexts", natural_bytes, 1);
    mc::add("long", "runs of up to 5000 zeros, digits and up to 300 letters", natural_long, 2);
    mc::add("numbers", "numbers around the word sizes, with prefixes and suffixes, every pair", natural_numbers);
#endif
#ifdef PART_FIXEDC
    mc::add("fixed-1", "capacity 1, every sequence of 3 (4) operations, by state", [](Ctx &c) { fixed<1>(c, c.bound(3, 4)); });
    mc::add("fixed-5", "capacity 5, every sequence of 3 (4) operations, by state", [](Ctx &c) { fixed<5>(c, c.bound(3, 4)); });
    mc::add("fixed-64", "capacity 64, every sequence of 2 operations, by state", [](Ctx &c) { fixed<64>(c, 2); });
    mc::add("fixed-300", "capacity 300, every operation with every length (thorough: 2 operations)", [](Ctx &c) { fixed<300>(c, c.bound(1, 2)); });
    mc::add("fixed-16", "capacity 16, every sequence of 3 operations, by state", [](Ctx &c) { fixed<16>(c, c.bound(2, 3)); });
#endif
}
