// CString edits against an abstract string.
#include <memory>
#include "common.hpp"

using Ref = std::string;

static std::string q(const Ref &r) {
    std::string s = "\"";
    for(unsigned char ch : r) {
        char b[8];
        if(ch >= 32 && ch < 127 && ch != '"')
            snprintf(b, sizeof(b), "%c", ch);
        else
            snprintf(b, sizeof(b), "\\x%02x", ch);
        s += b;
    }
    return s + "\"";
}

static void same(Ctx &c, P::CString &s, const Ref &r) {
    const P::CString &k = s;
    MC_CHECK(c, k.size() == r.size() && k.length() == r.size(), "CString: size %zu, expected %s",
             k.size(), q(r).c_str());
    MC_CHECK(c, k.is_empty() == r.empty(), "CString: is_empty() is wrong for %s", q(r).c_str());
    const char *p = k.c_str();
    for(size_t i = 0; i < r.size(); ++i)
        MC_CHECK(c, p[i] == r[i] && k[i] == r[i], "CString: character %zu is 0x%02x, expected %s", i,
                 (unsigned char)p[i], q(r).c_str());
    MC_CHECK(c, p[r.size()] == '\0', "CString: no terminator after %s", q(r).c_str());
    MC_CHECK(c, k.data() == p && s.mutable_data() == p, "CString: data() is not the text");
    auto v = k.view();
    MC_CHECK(c, v.data() == p && v.size() == r.size(), "CString: view() is not the text");
#if EPOCH == 2026
    auto z = k.zview();
    MC_CHECK(c, z.c_str() == p && z.size() == r.size() && z == r.c_str(),
             "CString: zview() of %s has size %zu", q(r).c_str(), z.size());
#endif
    MC_CHECK(c, k == r.c_str(), "CString: does not compare equal to its own text %s", q(r).c_str());
    if(!r.empty())
        MC_CHECK(c, k.front() == r.front() && k.back() == r.back(), "CString: front()/back() of %s",
                 q(r).c_str());
}

static std::unique_ptr<char[]> heap(const Ref &r, bool term) {
    std::unique_ptr<char[]> p(new char[r.size() + (term ? 1 : 0) + (r.empty() && !term ? 1 : 0)]);
    memcpy(p.get(), r.data(), r.size());
    if(term)
        p[r.size()] = 0;
    return p;
}

// Set by the scenarios that start from many sizes: longer arguments, more positions.
static bool big_sizes;
static int length(Ctx &c, const std::vector<int> &usual) {
    static const std::vector<int> more = {15, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 70000};
    int i = c.choose(usual.size() + (big_sizes ? more.size() : 0));
    return i < (int)usual.size() ? usual[i] : more[i - usual.size()];
}
static std::vector<int> many_sizes() {
    std::vector<int> r;
    for(int i = 0; i <= 300; ++i)
        if(mc::thorough() || i <= 70 || i % 16 == 0 || i % 16 == 1 || i % 16 == 15)
            r.push_back(i);
    for(int i : {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537})
        r.push_back(i);
    return r;
}

static size_t position(Ctx &c, size_t n, bool with_bad) {
    size_t cand[24];
    int k = 0;
    auto put = [&](size_t v) {
        for(int i = 0; i < k; ++i)
            if(cand[i] == v)
                return;
        cand[k++] = v;
    };
    put(0);
    put(n);
    if(n) {
        put(1);
        put(n - 1);
        put(n / 2);
    }
    if(big_sizes && n <= 300)
        for(size_t v : {(size_t)2, (size_t)15, (size_t)16, (size_t)17, (size_t)64, (size_t)128,
                        (size_t)255, (size_t)256, (size_t)257, n - 16})
            if(v < n)
                put(v);
    if(with_bad) {
        put(n + 1);
        put(n + 2);
    }
    return cand[c.choose(k)];
}

static const char *const TEXTS[] = {"", "x", " y ", "0123456789abcdef", "\xc3\xa4z"};
static Ref text(Ctx &c) {
    if(!big_sizes)
        return TEXTS[c.choose(5)];
    static const std::vector<int> L = {0, 1, 2};
    Ref r;
    int n = length(c, L);
    for(int i = 0; i < n; ++i)
        r.push_back(" Xy\xe4z\t"[i % 6]);
    return r;
}

static void stripref(Ref &r) {
    const char *ws = " \t\n\r";
    size_t a = r.find_first_not_of(ws);
    if(a == Ref::npos) {
        r.clear();
        return;
    }
    r = r.substr(a, r.find_last_not_of(ws) - a + 1);
}

static void one_op(Ctx &c, P::CString &a, Ref &ra, P::CString &b, Ref &rb) {
    size_t n = ra.size();
    switch(c.choose(27)) {
    case 0: {
        char ch = "k \xff"[c.choose(3)];
        c.op("append(0x%02x)", (unsigned char)ch);
        a.append(ch);
        ra.push_back(ch);
        break;
    }
    case 1:
        c.op("append('\\0')");
        MC_CHECK(c, throws([&] { a.append('\0'); }), "CString: append of a zero byte is accepted");
        break;
    case 2: {
        char ch = "k\n"[c.choose(2)];
        c.op("+= 0x%02x", (unsigned char)ch);
        a += ch;
        ra.push_back(ch);
        break;
    }
    case 3:
        c.op("push_back");
        a.push_back('p');
        ra.push_back('p');
        break;
    case 4: {
        Ref t = text(c);
        auto p = heap(t, true);
        c.op("append(%s)", q(t).c_str());
        a.append(p.get());
        ra += t;
        break;
    }
    case 5: {
        Ref t = text(c);
        auto p = heap(t, false);
        bool range = c.choose(2);
        c.op("append(%zu characters of %s)", t.size(), q(t).c_str());
        if(range)
            a.append((const char *)p.get(), (const char *)p.get() + t.size());
        else
            a.append(p.get(), t.size());
        ra += t;
        break;
    }
    case 6: {
        size_t i = position(c, n, false), j = position(c, n, false);
        if(i > j)
            c.abandon();
        bool range = c.choose(2);
        c.op("append(own %zu..%zu)", i, j);
        Ref t(ra, i, j - i);
        if(range)
            a.append(a.c_str() + i, a.c_str() + j);
        else
            a.append(a.c_str() + i, j - i);
        ra += t;
        break;
    }
    case 7:
        c.op("a += b");
        a += b;
        ra += rb;
        break;
    case 8:
        c.op("a += a");
        a += a;
        ra += Ref(ra);
        break;
    case 9: {
        Ref t = text(c);
        auto p = heap(t, true);
        c.op("a += %s", q(t).c_str());
        a += (const char *)p.get();
        ra += t;
        break;
    }
    case 10: {
        size_t i = position(c, n, false);
        c.op("a += own text from %zu", i);
        Ref t(ra, i);
        a += a.c_str() + i;
        ra += t;
        break;
    }
    case 11: {
        Ref t = text(c);
        auto p = heap(t, true);
        c.op("a = %s", q(t).c_str());
        a = (const char *)p.get();
        ra = t;
        break;
    }
    case 12: {
        size_t i = position(c, n, false);
        c.op("a = own text from %zu", i);
        a = a.c_str() + i;
        ra = Ref(ra, i);
        break;
    }
    case 13: {
        size_t i = position(c, n, true);
        Ref t = text(c);
        auto p = heap(t, false);
        c.op("insert(%zu, %s)", i, q(t).c_str());
        P::CStringView v((const char *)p.get(), t.size());
        bool threw = throws([&] { a.insert(i, v); });
        MC_CHECK(c, threw == (i > n), "CString: insert at %zu of %zu %s", i, n,
                 threw ? "is rejected" : "is accepted");
        if(!threw)
            ra.insert(i, t);
        break;
    }
    case 14: {
        size_t i = position(c, n, false), j = position(c, n, false), at = position(c, n, false);
        if(i > j)
            c.abandon();
        c.op("insert(%zu, own %zu..%zu)", at, i, j);
        Ref t(ra, i, j - i);
        a.insert(at, P::CStringView(a.c_str() + i, j - i));
        ra.insert(at, t);
        break;
    }
    case 15: {
        size_t i = position(c, n, true), j = position(c, n, true);
        c.op("remove(%zu, %zu)", i, j);
        bool ok = i <= j && j <= n;
        bool threw = throws([&] { a.remove(i, j); });
        MC_CHECK(c, i == j || threw != ok, "CString: remove(%zu, %zu) of %zu characters is %s", i, j,
                 n, threw ? "rejected" : "accepted");
        if(ok)
            ra.erase(i, j - i);
        break;
    }
    case 16:
        if(!n)
            c.abandon();
        c.op("pop_back");
        a.pop_back();
        ra.pop_back();
        break;
    case 17: {
        static const std::vector<int> L = {0, 1, 5, 15, 16, 17, 33};
        size_t k = length(c, L);
        c.op("resize(%zu) and fill", k);
        a.resize(k);
        MC_CHECK(c, a.size() == k, "CString: resize(%zu) yields size %zu", k, a.size());
        MC_CHECK(c, a.c_str()[k] == '\0', "CString: no terminator after resize(%zu)", k);
        for(size_t i = n; i < k; ++i)
            a.mutable_data()[i] = (char)('k' + i % 3);
        ra.resize(k < n ? k : n);
        for(size_t i = n; i < k; ++i)
            ra.push_back((char)('k' + i % 3));
        break;
    }
    case 18: {
        static const std::vector<int> L = {0, 1, 16, 17, 40};
        size_t k = length(c, L);
        c.op("reserve(%zu)", k);
        a.reserve(k);
        break;
    }
    case 19:
        c.op("clear");
        a.clear();
        ra.clear();
        break;
    case 20:
        c.op("strip");
        a.strip();
        stripref(ra);
        break;
    case 21: {
        int w = c.choose(4);
        c.op("a = b, %d", w);
        if(w == 0) {
            a = b;
            ra = rb;
        } else if(w == 1) {
            a = P::move(b);
            ra = rb;
            b = P::CString("after move"); // a moved-from string can be assigned
            rb = "after move";
        } else if(w == 2) {
            P::CString &alias = a;
            a = alias;
        } else {
            P::CString &alias = a;
            a = P::move(alias);
        }
        break;
    }
    case 22: {
        c.op("copy and move construction");
        P::CString k(a);
        same(c, k, ra);
        MC_CHECK(c, k == a, "CString: a copy is not equal to its source");
        P::CString m(P::move(k));
        same(c, m, ra);
        m += 'z';
        Ref rm = ra + 'z';
        same(c, m, rm);
        MC_CHECK(c, !(m == a), "CString: different strings compare equal");
        b = m;
        rb = rm;
        break;
    }
    case 23: {
        size_t i = position(c, n, false), j = position(c, n, false);
        if(i > j)
            c.abandon();
        c.op("a = CString(view of own %zu..%zu)", i, j);
        a = P::CString(P::CStringView(a.c_str() + i, j - i));
        ra = Ref(ra, i, j - i);
        break;
    }
    case 24: {
        Ref t = text(c);
        int w = c.choose(3);
        c.op("a = CString(%s), %d", q(t).c_str(), w);
        if(w == 0) {
            auto p = heap(t, true);
            a = P::CString(p.get());
        } else if(w == 1) {
            auto p = heap(t, false);
            a = P::CString(p.get(), t.size());
        } else {
            P::Bytes by(t.data(), t.size());
            a = P::CString(P::move(by));
        }
        ra = t;
        break;
    }
    case 25: {
        c.op("a = upper / lower");
        bool up = c.choose(2);
        a = up ? a.upper() : a.lower();
        for(auto &ch : ra) {
            if(up && ch >= 'a' && ch <= 'z')
                ch -= 32;
            if(!up && ch >= 'A' && ch <= 'Z')
                ch += 32;
        }
        break;
    }
    case 26: {
        c.op("write through mutable_data");
        if(!n)
            c.abandon();
        size_t i = position(c, n - 1, false);
        a.mutable_data()[i] = 'W';
        ra[i] = 'W';
        break;
    }
    }
}

static const std::vector<int> SIZES = {0, 1, 2, 14, 15, 16, 30, 31, 32};

static void edits(Ctx &c, int depth, bool prune, int nstart, const std::vector<int> &sizes = SIZES) {
    big_sizes = &sizes != &SIZES;
    P::CString a, b;
    Ref ra, rb;
    int na = sizes[c.choose(nstart)];
    int how = c.choose(3);
    for(int i = 0; i < na; ++i)
        ra.push_back("a b\xe4 \tcD"[(i * 3 + how) % 8]);
    if(how == 0)
        a = P::CString(ra.c_str());
    else if(how == 1)
        for(char ch : ra)
            a.append(ch);
    else {
        a.reserve(64);
        a += ra.c_str();
    }
    if(c.choose(2)) {
        rb = "qw";
        b = P::CString("qw");
    }
    c.note("start: %s, %s", q(ra).c_str(), q(rb).c_str());
    for(int s = 0; s < depth; ++s) {
        one_op(c, a, ra, b, rb);
        if(c.fresh()) {
            same(c, a, ra);
            same(c, b, rb);
            MC_CHECK(c, (a == b) == (ra == rb), "CString: equality is wrong");
            MC_CHECK(c, (a < b) == (ra < rb) && (b < a) == (rb < ra), "CString: %s < %s is wrong",
                     q(ra).c_str(), q(rb).c_str());
            mc::Hash h;
            h.str(ra).str(rb);
            if(prune)
                c.visit(h.add(how).h, depth - s - 1);
            else
                c.state(h.h);
        }
    }
}

static void misuse(Ctx &c) {
    int w = c.choose(7);
    c.op("misuse %d", w);
    P::CString a("ab");
    Ref ra = "ab";
    switch(w) {
    case 0: {
        P::CString e;
        MC_CHECK(c, throws([&] { e.back(); }), "CString: back() of an empty string succeeds");
        break;
    }
    case 1:
        MC_CHECK(c, throws([&] { P::CString s("a\0b", 3); }),
                 "CString: embedded zero bytes are accepted");
        break;
    case 2:
        MC_CHECK(c, throws([&] {
                     P::Bytes b("a\0b", 3);
                     P::CString s(P::move(b));
                 }),
                 "CString: Bytes with embedded zero bytes are accepted");
        break;
    case 3:
        MC_CHECK(c, throws([&] { a += '\0'; }), "CString: += of a zero byte is accepted");
        break;
    case 4:
        MC_CHECK(c, throws([&] { a.insert(100, P::CStringView("x")); }),
                 "CString: insertion far outside is accepted");
        break;
    case 5:
        MC_CHECK(c, throws([&] { a.remove(0, 100); }), "CString: removal far outside is accepted");
        break;
    case 6:
        MC_CHECK(c, throws([&] { a.remove(2, 1); }), "CString: reversed removal is accepted");
        break;
    }
    same(c, a, ra);
    c.state(w);
}

// Every string of up to n characters over a small alphabet: strip.
static void strip_all(Ctx &c, int n) {
    static const char AL[] = {' ', 'a', '\t', '\n', '\r', 'b'};
    Ref r;
    int len = c.choose(n + 1);
    for(int i = 0; i < len; ++i)
        r.push_back(AL[c.choose(i < 3 || i >= len - 2 ? 6 : 2)]);
    c.op("strip %s", q(r).c_str());
    P::CString s(r.c_str());
    s.strip();
    stripref(r);
    same(c, s, r);
    s += "zz";
    r += "zz";
    same(c, s, r);
    c.state(mc::Hash().str(r).h);
}

// Blanks of any number before and after words of any length.
static void strip_sizes(Ctx &c) {
    static const std::vector<int> L = {0, 1, 2, 3, 15, 16, 17, 64, 127, 128, 129, 255, 256, 257, 300, 70000};
    int a = L[c.choose(L.size())], w = L[c.choose(L.size())], b = L[c.choose(L.size())];
    Ref r;
    for(int i = 0; i < a; ++i)
        r.push_back(" \t\n\r"[i % 4]);
    for(int i = 0; i < w; ++i)
        r.push_back(i > 0 && i < w - 1 && i % 3 == 0 ? ' ' : 'w');
    for(int i = 0; i < b; ++i)
        r.push_back("\n\r \t"[i % 4]);
    c.op("strip %d blanks, %d others, %d blanks", a, w, b);
    P::CString s(r.c_str());
    s.strip();
    stripref(r);
    same(c, s, r);
    s += "zz";
    r += "zz";
    same(c, s, r);
    c.state(mc::Hash().add(a).add(w).add(b).h);
}
// Every byte value through every way to put it into a string.
static void byte_values(Ctx &c) {
    char ch = (char)(1 + c.choose(255));
    c.op("byte 0x%02x", (unsigned char)ch);
    Ref r = Ref("a") + ch + "b";
    P::CString s(r.c_str());
    same(c, s, r);
    s.append(ch);
    s += ch;
    s.push_back(ch);
    r += Ref(3, ch);
    same(c, s, r);
    P::CString t(r.c_str(), r.size());
    same(c, t, r);
    s += t;
    r += Ref(r);
    same(c, s, r);
    Ref one(1, ch);
    P::CString u(one.c_str()), v(one.c_str());
    same(c, u, one);
    Ref st = one + "x" + one, want = st;
    P::CString w(st.c_str());
    w.strip();
    stripref(want);
    // Other characters that C calls blank may or may not be stripped.
    if(ch != '\v' && ch != '\f')
        same(c, w, want);
    u.pop_back();
    one.clear();
    same(c, u, one);
    for(int i = 1; i < 256; ++i) {
        Ref x(1, ch), y(1, (char)i);
        P::CString sx(x.c_str()), sy(y.c_str());
        MC_CHECK(c, (sx == sy) == (x == y) && (sx < sy) == (x < y), "CString: %s against %s",
                 q(x).c_str(), q(y).c_str());
        c.ops(1);
    }
    c.state((unsigned char)ch);
}

void mc::mc_register() {
    static const std::vector<int> many = many_sizes();
    mc::add("sizes", "start sizes 0-70, around multiples of 16 up to 300 (thorough: all), around 512, 1024, 4096 and 65536; every operation with arguments of up to 70000 characters",
            [](Ctx &c) { edits(c, 1, true, many.size(), many); });
    if(mc::thorough())
        mc::add("sizes-2", "start sizes 0-70, 2 operations", [](Ctx &c) { edits(c, 2, true, 71, many); });
    mc::add("strip-sizes", "up to 70000 blanks before and after up to 70000 characters", strip_sizes);
    mc::add("byte-values", "every byte value", byte_values);
    mc::add("edits-all", "2 strings, start sizes 0-2,14-15, 3 construction kinds; every sequence of 2 operations, unpruned",
            [](Ctx &c) { edits(c, 2, false, c.bound(5, 9)); });
    mc::add("edits-deep", "start sizes 0-2,14-16,30-32; all states reachable in 2 (3) ops",
            [](Ctx &c) { edits(c, c.bound(2, 3), true, 9); });
    mc::add("edits-small", "start sizes 0-2; all states reachable in 3 (4) ops",
            [](Ctx &c) { edits(c, c.bound(3, 4), true, 3); });
    mc::add("strip", "every string of up to 6 (8) characters, blanks of 4 kinds", [](Ctx &c) { strip_all(c, c.bound(6, 8)); });
    mc::add("misuse", "invalid positions and zero bytes are reported and change nothing", misuse);
}
