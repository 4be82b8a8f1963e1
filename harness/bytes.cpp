// Bytes against an abstract byte string.
#include <memory>
#include "common.hpp"

using Ref = std::string;

static std::string hex(const Ref &r) {
    std::string s = "\"";
    for(unsigned char ch : r) {
        char b[8];
        if(ch >= 32 && ch < 127 && ch != '"')
            snprintf(b, sizeof(b), "%c", ch);
        else
            snprintf(b, sizeof(b), "\\x%02x", ch);
        s += b;
    }
    return s + "\"";
}

static void same(Ctx &c, P::Bytes &b, const Ref &r) {
    const P::Bytes &k = b;
    MC_CHECK(c, k.size() == r.size(), "Bytes: size %zu, expected %zu (%s)", k.size(), r.size(),
             hex(r).c_str());
    MC_CHECK(c, k.is_empty() == r.empty(), "Bytes: is_empty() is wrong");
    MC_CHECK(c, k.capacity() >= r.size(), "Bytes: capacity below size");
    for(size_t i = 0; i < r.size(); ++i) {
        MC_CHECK(c, k[i] == r[i] && k.data()[i] == r[i] && b.data()[i] == r[i],
                 "Bytes: byte %zu is 0x%02x, expected %s", i, (unsigned char)k[i], hex(r).c_str());
#if EPOCH == 2026
        MC_CHECK(c, k.unsafe_at(i) == r[i], "Bytes: unsafe_at(%zu) is wrong", i);
#endif
        MC_CHECK(c, k.is_ptr_within(k.data() + i), "Bytes: is_ptr_within denies its own byte");
    }
    MC_CHECK(c, !k.is_ptr_within(k.data() + r.size()), "Bytes: is_ptr_within accepts the end");
    MC_CHECK(c, Ref(k.begin(), k.end()) == r, "Bytes: iteration is wrong");
#if EPOCH == 2026
    auto s1 = b.span();
    auto s2 = k.span();
    MC_CHECK(c, s1.size() == r.size() && s2.size() == r.size() && s1.data() == b.data() &&
                     s2.data() == b.data(),
             "Bytes: span() is not the content");
#else
    auto s1 = k.view();
    MC_CHECK(c, s1.size() == r.size() && s1.data() == b.data(), "Bytes: view() is not the content");
#endif
    if(!r.empty()) {
        MC_CHECK(c, k.front() == r.front(), "Bytes: front() is wrong");
        MC_CHECK(c, k.back() == r.back(), "Bytes: back() is 0x%02x of %s", (unsigned char)k.back(),
                 hex(r).c_str());
    }
}

static void check_order(Ctx &c, const P::Bytes &a, const Ref &ra, const P::Bytes &b,
                        const Ref &rb) {
    int want = ra.compare(rb); // char_traits<char> compares as unsigned char
    want = want < 0 ? -1 : want > 0;
    MC_CHECK(c, (a == b) == (want == 0), "Bytes: %s == %s is wrong", hex(ra).c_str(),
             hex(rb).c_str());
    MC_CHECK(c, (a < b) == (want < 0), "Bytes: %s < %s is %d", hex(ra).c_str(), hex(rb).c_str(),
             (int)(a < b));
#if EPOCH == 2026
    int got = (a <=> b);
    got = got < 0 ? -1 : got > 0;
    MC_CHECK(c, got == want, "Bytes: %s <=> %s is %d", hex(ra).c_str(), hex(rb).c_str(), got);
    if(want == 0) {
        P::SimpleHash h1, h2;
        a.feed_hash(h1);
        b.feed_hash(h2);
        MC_CHECK(c, h1.get_hash_value() == h2.get_hash_value(), "Bytes: equal buffers hash differently");
    }
#endif
}

// Source bytes with a recognisable pattern, in an exactly sized heap block.
struct Src {
    std::unique_ptr<char[]> p;
    size_t n;
    Src(size_t n_, int salt) : p(new char[n_ ? n_ : 1]), n(n_) {
        static const unsigned char pat[] = {'x', 0x00, 0xff, 0x80, 0x7f, 'y', 0x01};
        for(size_t i = 0; i < n; ++i)
            p[i] = (char)pat[(i + salt) % sizeof(pat)];
    }
    Ref ref() const { return Ref(p.get(), n); }
};

static const std::vector<int> SIZES = {0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33};
static Ref pattern(int n, int salt) {
    Ref r;
    for(int i = 0; i < n; ++i)
        r.push_back((char)("abc\x80\xff\0de"[(i * 3 + salt) % 8] + 0));
    return r;
}

// Set by the scenarios that start from many sizes: longer arguments, more positions.
static bool big_sizes;
static int length(Ctx &c, const std::vector<int> &usual) {
    static const std::vector<int> more = {15, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 70000};
    int i = c.choose(usual.size() + (big_sizes ? more.size() : 0));
    return i < (int)usual.size() ? usual[i] : more[i - usual.size()];
}
static std::vector<int> many_sizes() {
    std::vector<int> r;
    for(int i = 0; i <= 300; ++i)
        if(mc::thorough() || i <= 70 || i % 16 == 0 || i % 16 == 1 || i % 16 == 15)
            r.push_back(i);
    for(int i : {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537})
        r.push_back(i);
    return r;
}

// A position in [0, n], from the ends and the middle.
static size_t position(Ctx &c, size_t n, bool with_bad) {
    size_t cand[24];
    int k = 0;
    auto put = [&](size_t v) {
        for(int i = 0; i < k; ++i)
            if(cand[i] == v)
                return;
        cand[k++] = v;
    };
    put(0);
    put(n);
    if(n) {
        put(1);
        put(n - 1);
        put(n / 2);
    }
    if(big_sizes && n <= 300)
        for(size_t v : {(size_t)2, (size_t)15, (size_t)16, (size_t)17, (size_t)64, (size_t)128,
                        (size_t)255, (size_t)256, (size_t)257, n - 16})
            if(v < n)
                put(v);
    if(with_bad) {
        put(n + 1);
    }
    return cand[c.choose(k)];
}

template<typename F> static void may_reject(Ctx &c, bool ok, bool optional, F &&fn, P::Bytes &b,
                                            Ref &r, const Ref &after, const char *what) {
    bool threw = throws(fn);
    if(threw) {
        MC_CHECK(c, !ok || optional, "Bytes: %s is rejected although valid", what);
        same(c, b, r);
    } else {
        MC_CHECK(c, ok || optional, "Bytes: invalid %s is accepted", what);
        r = after;
    }
}

static void one_op(Ctx &c, P::Bytes &a, Ref &ra, P::Bytes &b, Ref &rb) {
    size_t n = ra.size();
    switch(c.choose(26)) {
    case 0: {
        char ch = "a\0\x80\xff"[c.choose(4)];
        c.op("append(0x%02x)", (unsigned char)ch);
        a.append(ch);
        ra.push_back(ch);
        break;
    }
    case 1:
        c.op("push_back");
        a.push_back('q');
        ra.push_back('q');
        break;
    case 2: {
        static const std::vector<int> L = {0, 1, 3, 17};
        Src s(length(c, L), 0);
        c.op("append(range of %zu)", s.n);
        a.append(s.p.get(), s.p.get() + s.n);
        ra += s.ref();
        break;
    }
    case 3: {
        size_t i = position(c, n, false), j = position(c, n, false);
        if(i > j)
            c.abandon();
        c.op("append(own bytes %zu..%zu)", i, j);
        const char *d = a.data();
        a.append(d + i, d + j);
        ra += Ref(ra, i, j - i);
        break;
    }
    case 4: {
        static const std::vector<int> L = {0, 1, 5, 16, 17, 40};
        Src s(length(c, L), 1);
        c.op("assign(%zu bytes)", s.n);
        a.assign(s.p.get(), s.n);
        ra = s.ref();
        break;
    }
    case 5: {
        size_t i = position(c, n, false), j = position(c, n, false);
        if(i > j)
            c.abandon();
        c.op("assign(own bytes %zu..%zu)", i, j);
        a.assign(a.data() + i, j - i);
        ra = Ref(ra, i, j - i);
        break;
    }
    case 6: {
        static const std::vector<int> L = {0, 1, 3, 16};
        size_t i = position(c, n, true);
        Src s(length(c, L), 2);
        c.op("insert(%zu, %zu bytes)", i, s.n);
        Ref after = ra;
        if(i <= n)
            after.insert(i, s.ref());
        // Whether the end is a valid place for an insertion is left open.
        may_reject(c, i <= n, i == n, [&] { a.insert(i, s.p.get(), s.n); }, a, ra, after,
                   "insert position");
        break;
    }
    case 7: {
        size_t k = position(c, n, true);
        c.op("pop_back(%zu)", k);
        a.pop_back(k);
        ra.resize(k > n ? 0 : n - k);
        break;
    }
    case 8: {
        size_t k = position(c, n, true);
        c.op("pop_front(%zu)", k);
        a.pop_front(k);
        ra.erase(0, k > n ? n : k);
        break;
    }
    case 9: {
        size_t i = position(c, n, true), j = position(c, n, true);
        c.op("remove(%zu, %zu)", i, j);
        Ref after = ra;
        bool ok = i <= j && j <= n;
        if(ok)
            after.erase(i, j - i);
        may_reject(c, ok, i == j, [&] { a.remove(i, j); }, a, ra, ok ? after : ra,
                   "range to remove");
        break;
    }
    case 10: {
        static const std::vector<int> L = {0, 1, 5, 17};
        int k = length(c, L);
        c.op("extend(%d) and fill", k);
        a.extend(k);
        MC_CHECK(c, a.size() == n + k, "Bytes: extend(%d) yields size %zu", k, a.size());
        for(int i = 0; i < k; ++i) {
            a.data()[n + i] = (char)('A' + i);
            ra.push_back((char)('A' + i));
        }
        break;
    }
    case 11: {
        size_t k = position(c, n, true);
        c.op("shrink(%zu)", k);
        a.shrink(k);
        ra.resize(k > n ? 0 : n - k);
        break;
    }
    case 12: {
        static const std::vector<int> L = {0, 1, 5, 15, 16, 17, 33};
        size_t k = length(c, L);
        bool other = c.choose(2);
        c.op("%s(%zu) and fill", other ? "resize" : "resize_to", k);
        if(other)
            a.resize(k);
        else
            a.resize_to(k);
        MC_CHECK(c, a.size() == k, "Bytes: resize(%zu) yields size %zu", k, a.size());
        for(size_t i = n; i < k; ++i)
            a.data()[i] = (char)('k' + i % 3);
        ra.resize(k < n ? k : n);
        for(size_t i = n; i < k; ++i)
            ra.push_back((char)('k' + i % 3));
        break;
    }
    case 13: {
        static const std::vector<int> L = {0, 1, 16, 17, 40};
        size_t k = length(c, L);
        c.op("reserve(%zu)", k);
        a.reserve(k);
        MC_CHECK(c, a.capacity() >= k, "Bytes: reserve(%zu) leaves capacity %zu", k, a.capacity());
        break;
    }
    case 14:
        c.op("clear");
        a.clear();
        ra.clear();
        break;
    case 15:
        c.op("a += b");
        a += b;
        ra += rb;
        break;
    case 16:
        c.op("a += a");
        a += a;
        ra += Ref(ra);
        break;
    case 17:
        c.op("a = b");
        a = b;
        ra = rb;
        break;
    case 18:
        c.op("a = move(b)");
        a = P::move(b);
        ra = rb;
        rb.clear();
        break;
    case 19: {
        c.op("a = a, then a = move(a)");
        P::Bytes &alias = a;
        a = alias;
        same(c, a, ra);
        a = P::move(alias);
        break;
    }
    case 20: {
        c.op("copy construction");
        P::Bytes k(a);
        same(c, k, ra);
        check_order(c, k, ra, a, ra);
        k.append('z');
        Ref rk = ra + 'z';
        same(c, k, rk);
        b = P::move(k);
        rb = rk;
        break;
    }
    case 21: {
        c.op("move construction and back");
        P::Bytes k(P::move(a));
        same(c, k, ra);
        Ref empty;
        same(c, a, empty);
        a = k;
        break;
    }
    case 22: {
        static const std::vector<int> L = {0, 1, 16, 17};
        Src s(length(c, L), 3);
        bool two = c.choose(2);
        c.op("a = Bytes(%zu source bytes)", s.n);
        if(two)
            a = P::Bytes((const char *)s.p.get(), (const char *)s.p.get() + s.n);
        else
            a = P::Bytes((const char *)s.p.get(), s.n);
        ra = s.ref();
        break;
    }
    case 23: {
        static const std::vector<int> L = {0, 1, 16, 17};
        size_t k = length(c, L);
        bool filled = c.choose(2);
        c.op("a = Bytes(%zu%s)", k, filled ? ", 0xff" : "");
        if(filled) {
            a = P::Bytes(k, (char)0xff);
            ra = Ref(k, (char)0xff);
        } else {
            a = P::Bytes(k);
            ra.clear();
        }
        break;
    }
    case 25: {
        size_t i = position(c, n, false), j = position(c, n, false), at = position(c, n, false);
        if(i > j || at == n)
            c.abandon();
        c.op("insert(%zu, own bytes %zu..%zu)", at, i, j);
        Ref part(ra, i, j - i);
        const char *d = a.data();
        a.insert(at, d + i, j - i);
        ra.insert(at, part);
        break;
    }
    case 24:
        c.op("swap roles");
        {
            P::Bytes t(P::move(a));
            a = P::move(b);
            b = P::move(t);
            ra.swap(rb);
        }
        break;
    }
}

static void edits(Ctx &c, int depth, bool prune, int nstart, const std::vector<int> &sizes = SIZES) {
    big_sizes = &sizes != &SIZES;
    P::Bytes a, b;
    Ref ra, rb;
    int how = c.choose(3);
    int na = sizes[c.choose(nstart)];
    int nb = c.choose(2) ? 2 : 0;
    ra = pattern(na, 0);
    rb = pattern(nb, 5);
    if(how == 0)
        a = P::Bytes(ra.data(), ra.size());
    else if(how == 1)
        for(char ch : ra)
            a.append(ch);
    else {
        a = P::Bytes(64, 'Z');
        a.assign(ra.data(), ra.size());
    }
    b = P::Bytes(rb.data(), rb.size());
    c.note("start: %s, %s", hex(ra).c_str(), hex(rb).c_str());
    for(int s = 0; s < depth; ++s) {
        one_op(c, a, ra, b, rb);
        if(c.fresh()) {
            same(c, a, ra);
            same(c, b, rb);
            check_order(c, a, ra, b, rb);
            mc::Hash h;
            h.str(ra).str(rb).add(a.capacity()).add(b.capacity());
            if(prune)
                c.visit(h.h, depth - s - 1);
            else
                c.state(h.h);
        }
    }
}

static const unsigned char ALPHA[] = {0x00, 0x01, 'a', 0x7f, 0x80, 0xff};
static Ref nth_string(int i) { // all strings over ALPHA in length order
    Ref r;
    int len = 0, count = 1;
    while(i >= count) {
        i -= count;
        count *= 6;
        ++len;
    }
    for(int k = 0; k < len; ++k) {
        r.push_back((char)ALPHA[i % 6]);
        i /= 6;
    }
    return r;
}
static void ordering(Ctx &c, int n) {
    Ref ra = nth_string(c.choose(n));
    P::Bytes a(ra.data(), ra.size());
    c.op("compare %s with every string", hex(ra).c_str());
    for(int j = 0; j < n; ++j) {
        Ref rb = nth_string(j);
        P::Bytes b(rb.data(), rb.size());
        check_order(c, a, ra, b, rb);
        c.ops(1);
    }
    c.state(mc::Hash().str(ra).h);
}

// Texts that agree up to one position, or one of which is a prefix of the other, of any two sizes.
static void ordering_sizes(Ctx &c) {
    static const std::vector<int> S = many_sizes();
    int na = S[c.choose(S.size())];
    Ref ra(na, 'x');
    P::Bytes a(ra.data(), ra.size());
    c.op("compare %d bytes with every size", na);
    for(int nb : S) {
        Ref rb(nb, 'x');
        P::Bytes b(rb.data(), rb.size());
        check_order(c, a, ra, b, rb);
        int m = na < nb ? na : nb;
        for(int p : {0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, m / 2, m - 2, m - 1, nb - 1}) {
            if(p < 0 || p >= nb)
                continue;
            for(char ch : {'w', 'y', '\xff'}) {
                rb[p] = ch;
                b.data()[p] = ch;
                check_order(c, a, ra, b, rb);
                check_order(c, b, rb, a, ra);
                rb[p] = b.data()[p] = 'x';
                c.ops(2);
            }
        }
    }
    c.state(na);
}
// Every pair of single bytes, alone and in the middle.
static void ordering_bytes(Ctx &c) {
    int x = c.choose(256);
    c.op("compare byte 0x%02x with every byte", x);
    for(int y = 0; y < 256; ++y)
        for(int k = 0; k < 4; ++k) {
            Ref ra(1, (char)x), rb(1, (char)y);
            if(k & 1) {
                ra = "q" + ra;
                rb = "q" + rb;
            }
            if(k & 2) {
                ra += "\x80";
                rb += "\x01";
            }
            P::Bytes a(ra.data(), ra.size()), b(rb.data(), rb.size());
            same(c, a, ra);
            check_order(c, a, ra, b, rb);
            c.ops(1);
        }
    c.state(x);
}

static void misuse(Ctx &c) {
    int w = c.choose(4);
    P::Bytes e;
    c.op("misuse %d", w);
    switch(w) {
    case 0:
        MC_CHECK(c, throws([&] { e.front(); }), "Bytes: front() of an empty buffer succeeds");
        break;
    case 1:
        MC_CHECK(c, throws([&] { e.back(); }), "Bytes: back() of an empty buffer succeeds");
        break;
    case 2: {
        P::Bytes b("abc", 3);
        b.clear();
        MC_CHECK(c, throws([&] { b.back(); }) && throws([&] { b.front(); }),
                 "Bytes: front()/back() of a cleared buffer succeeds");
        break;
    }
    case 3: {
        char buf[4] = {};
        MC_CHECK(c, throws([&] { P::Bytes b((const char *)buf + 2, (const char *)buf); }),
                 "Bytes: a reversed range is accepted");
        break;
    }
    }
    c.state(w);
}

void mc::mc_register() {
    mc::add("edits-all", "2 buffers, start sizes 0-3,7; every sequence of 2 (3) operations, unpruned",
            [](Ctx &c) { edits(c, c.bound(2, 3), false, 5); });
    mc::add("edits-deep", "start sizes 0-3,7,15-17,31-33, 3 kinds of start capacity; all states reachable in 2 (3) ops",
            [](Ctx &c) { edits(c, c.bound(2, 3), true, 11); });
    mc::add("edits-small", "start sizes 0-2; all states reachable in 3 (4) ops",
            [](Ctx &c) { edits(c, c.bound(3, 4), true, 3); });
    mc::add("ordering", "every pair of strings of up to 3 (4) bytes from {00,01,61,7f,80,ff}",
            [](Ctx &c) { ordering(c, c.bound(259, 1555)); });
    static const std::vector<int> many = many_sizes();
    mc::add("sizes", "start sizes 0-70, around multiples of 16 up to 300 (thorough: all), around 512, 1024, 4096 and 65536; every operation with arguments of up to 70000 bytes (thorough: 2 operations from sizes of up to 70)",
            [](Ctx &c) { edits(c, 1, true, many.size(), many); });
    if(mc::thorough())
        mc::add("sizes-2", "start sizes 0-70, 2 operations", [](Ctx &c) { edits(c, 2, true, 71, many); });
    mc::add("ordering-sizes", "texts of any two of those sizes that differ in one position or are a prefix of each other", ordering_sizes, 1);
    mc::add("ordering-bytes", "every pair of byte values", ordering_bytes, 1);
    mc::add("misuse", "front/back of empty buffers, reversed range", misuse);
}
