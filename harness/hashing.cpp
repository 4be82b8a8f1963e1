// C31: what a value contributes to a hash: its content, all of it, and nothing else.
#include <limits>
#include <memory>
#include "common.hpp"
#include "aborts.hpp"

// An algorithm that writes down what it is fed.
static std::string *g_rec;
struct Rec {
    void feed_bytes(const char *b, size_t n) noexcept {
        if(n)
            g_rec->append(b, n);
        ++calls;
    }
    size_t get_hash_value() const noexcept { return g_rec->size(); }
    void reset() noexcept { g_rec->clear(); }
    int calls = 0;
};
template<typename T> static std::string fed(const T &v) {
    std::string r;
    g_rec = &r;
    P::Hasher<Rec> h;
    h.feed_hash(v);
    g_rec = nullptr;
    return r;
}
template<typename T> static std::string fed_member(const T &v) {
    std::string r;
    g_rec = &r;
    Rec h;
    v.feed_hash(h);
    g_rec = nullptr;
    return r;
}
template<typename T> static size_t simple(const T &v) {
    P::SimpleHash h;
    v.feed_hash(h);
    return h.get_hash_value();
}
static std::string hx(const std::string &s) {
    std::string r;
    for(unsigned char ch : s.substr(0, 40)) {
        char b[4];
        snprintf(b, sizeof b, "%02x ", ch);
        r += b;
    }
    return r + (s.size() > 40 ? "..." : "");
}

// What is fed is the content, apart from a terminator that is the same for every value of the type.
static void content(Ctx &c, const std::string &got, const std::string &want, const char *what) {
    bool ok = got == want || (EPOCH == 2025 && got == want + std::string(1, '\0'));
    MC_CHECK(c, ok, "%s with content %s (%zu bytes) feeds %s (%zu bytes)", what, hx(want).c_str(), want.size(), hx(got).c_str(), got.size());
    c.ops(1);
}

static bool ascii(const std::string &s) {
    for(unsigned char ch : s)
        if(ch >= 0x80 || !ch)
            return false;
    return true;
}

// Every way to hold this content, reached on several ways.
static void everywhere(Ctx &c, const std::string &s) {
    bool nul = s.find('\0') != std::string::npos;
    std::unique_ptr<char[]> heap(new char[s.size()]);
    memcpy(heap.get(), s.data(), s.size());
    std::string bytes_rec, cs_rec;
    {
        P::Bytes b(heap.get(), s.size());
        bytes_rec = fed_member(b);
        content(c, bytes_rec, s, "Bytes");
        P::Bytes grown;
        for(char ch : s)
            grown.append(ch);
        grown.append('x');
        grown.pop_back();
        P::Bytes cut(("y" + s).data(), s.size() + 1);
        cut.pop_front();
        P::Bytes copy(b), moved(P::move(copy)), assigned("something longer than that", 20);
        assigned = moved;
        P::Bytes roomy(s.size() + 500);
        roomy.append(heap.get(), heap.get() + s.size());
        for(auto *x : {&grown, &cut, &moved, &assigned, &roomy})
            MC_CHECK(c, fed_member(*x) == bytes_rec && simple(*x) == simple(b) && *x == b, "equal Bytes of %zu feed different content", s.size());
    }
    if(nul)
        return;
    {
        P::CString a(heap.get(), s.size());
        cs_rec = fed_member(a);
        content(c, cs_rec, s, "CString");
        P::CString grown;
        for(char ch : s)
            grown.append(ch);
        P::CString cut((" " + s + "tail").c_str());
        cut.remove(0, 1);
        for(int i = 0; i < 4; ++i)
            cut.pop_back();
        P::CString copy(a), moved(P::move(copy)), assigned("something longer than that");
        assigned = moved;
        P::CString roomy;
        roomy.reserve(s.size() + 300);
        roomy += a;
        for(auto *x : {&grown, &cut, &moved, &assigned, &roomy})
            MC_CHECK(c, fed_member(*x) == cs_rec && simple(*x) == simple(a) && *x == a, "equal CStrings of %zu feed different content", s.size());
#if EPOCH == 2026
        P::CStringView v(heap.get(), s.size());
        content(c, fed_member(v), s, "CStringView");
        MC_CHECK(c, simple(v) == simple(a), "a CString of %zu and a view of it hash differently", s.size());
        P::ZStringView z(s.c_str());
        content(c, fed_member(z), s, "ZStringView");
        content(c, fed(a), s, "CString through the Hasher");
        content(c, fed(v), s, "CStringView through the Hasher");
#endif
    }
    if(!ascii(s))
        return;
    {
        P::U8String a(s.c_str(), s.size());
        std::string rec = fed_member(a);
        content(c, rec, s, "U8String");
        content(c, fed(a), s, "U8String through the Hasher");
        P::U8String grown;
        for(char ch : s)
            grown.append_codepoint((unsigned char)ch);
        P::U8String copy(a), moved(P::move(copy)), assigned("something longer than that");
        assigned = moved;
        for(auto *x : {&grown, &moved, &assigned})
            MC_CHECK(c, fed_member(*x) == rec && simple(*x) == simple(a) && *x == a, "equal U8Strings of %zu feed different content", s.size());
#if EPOCH == 2026
        P::U8StringView v = a.view();
        content(c, fed_member(v), s, "U8StringView");
        content(c, fed(v), s, "U8StringView through the Hasher");
#endif
    }
}
static void short_texts(Ctx &c) {
    static const char AL[] = {'a', 'b', '\0', '\x7f', '\x80', '\xff'};
    std::string s;
    int n = c.choose(c.bound(6, 8));
    for(int i = 0; i < n; ++i)
        s += AL[c.choose(6)];
    c.op("content %s", hx(s).c_str());
    everywhere(c, s);
    c.state(mc::Hash().str(s).h);
}
static void long_texts(Ctx &c) {
    int n = c.choose(c.bound(300, 1100)), big = c.choose(2);
    if(big) {
        static const int sizes[] = {511, 512, 513, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 70000};
        if(n >= 11)
            return;
        n = sizes[n];
    }
    c.op("%d bytes", n);
    for(int kind = 0; kind < 3; ++kind) {
        std::string s;
        for(int i = 0; i < n; ++i)
            s += kind == 0 ? (char)('a' + i % 26) : kind == 1 ? (char)(1 + i % 255) : (char)(i % 251);
        everywhere(c, s);
    }
    c.state(mc::Hash().add(n).h);
}

// Numbers: their bytes, through every door.
template<typename T> static void number(Ctx &c, T v, const char *name) {
    std::string want((const char *)&v, sizeof v);
    std::string got = fed(v);
    MC_CHECK(c, got == want, "%s %lld feeds %s", name, (long long)v, hx(got).c_str());
#if EPOCH == 2026
    std::string r;
    g_rec = &r;
    P::Hasher<Rec> h;
    P::HashFeedInterface &i = h;
    i.feed_hash(v);
    MC_CHECK(c, r == want, "%s %lld feeds %s through the interface", name, (long long)v, hx(r).c_str());
    i.feed_bytes("xy", 2);
    i.feed_hash(v);
    MC_CHECK(c, r == want + "xy" + want, "%s %lld after others feeds %s through the interface", name, (long long)v, hx(r).c_str());
    h.reset();
    MC_CHECK(c, r.empty(), "reset does not reach the algorithm");
    g_rec = nullptr;
#endif
    c.ops(2);
}
static void numbers(Ctx &c) {
    int block = c.choose(256);
    c.op("numbers with low byte %d", block);
    number<int8_t>(c, (int8_t)block, "int8");
    number<uint8_t>(c, (uint8_t)block, "uint8");
    for(int hi = 0; hi < 256; ++hi) {
        number<int16_t>(c, (int16_t)(hi << 8 | block), "int16");
        number<uint16_t>(c, (uint16_t)(hi << 8 | block), "uint16");
    }
    for(int sh = 0; sh < 64; ++sh)
        for(int neg = 0; neg < 2; ++neg) {
            uint64_t v = (uint64_t)block << sh;
            v = neg ? ~v : v;
            number<int64_t>(c, (int64_t)v, "int64");
            number<uint64_t>(c, v, "uint64");
            number<int32_t>(c, (int32_t)v, "int32");
            number<uint32_t>(c, (uint32_t)v, "uint32");
        }
    c.state(mc::Hash().add(block).h);
}

// User types: through a member, or through a specialised feeder.
struct ByMember {
    int32_t a;
    uint8_t b;
    template<typename H> void feed_hash(H &h) const {
        h.feed_hash(a);
        h.feed_hash(b);
    }
};
struct ByFeeder {
    P::CString s;
    uint64_t n;
};
#if EPOCH == 2025
template<typename H> struct P::HashFeeder<H, ByMember> {
    void operator()(H &h, const ByMember &o) noexcept { o.feed_hash(h); }
};
#endif
template<typename H> struct P::HashFeeder<H, ByFeeder> {
    void operator()(H &h, const ByFeeder &o) noexcept {
        h.feed_bytes(o.s.c_str(), o.s.size());
        h.feed_hash(o.n);
    }
};
// Sequences of feeds: the algorithm sees all of it in that order.
static void sequences(Ctx &c) {
    std::string r, want;
    g_rec = &r;
    P::Hasher<Rec> h;
    int n = c.bound(5, 6);
    auto raw = [&](auto v) { want.append((const char *)&v, sizeof v); };
    std::string text = "sequence of ";
    for(int i = 0; i < n; ++i) {
        int k = c.choose(9);
        c.op("feed %d", k);
        switch(k) {
        case 0:
            h.feed_hash((int8_t)-3);
            raw((int8_t)-3);
            break;
        case 1:
            h.feed_hash((uint64_t)1 << 60);
            raw((uint64_t)1 << 60);
            break;
        case 2:
            h.feed_hash((int32_t)-70000);
            raw((int32_t)-70000);
            break;
        case 3:
            h.feed_bytes("", 0);
            break;
        case 4:
            h.feed_bytes("a\0b", 3);
            want.append("a\0b", 3);
            break;
        case 5:
            h.feed_hash(P::U8String("\xc3\xa9z"));
            want.append("\xc3\xa9z");
            break;
        case 6:
            h.feed_hash(ByMember{7, 200});
            raw((int32_t)7);
            raw((uint8_t)200);
            break;
        case 7:
            h.feed_hash(ByFeeder{P::CString("key"), 9});
            want.append("key");
            raw((uint64_t)9);
            break;
        default:
#if EPOCH == 2026
            h.reset();
            want.clear();
#else
        {
            static const char x = 0;
            const char *p = &x;
            h.feed_hash(p);
            raw(p);
        }
#endif
        }
        if(EPOCH == 2025 && r != want && r.size() == want.size() + 1 && k == 5) // its terminator
            want.push_back('\0');
        MC_CHECK(c, r == want, "after %d feeds the algorithm has seen %s, expected %s", i + 1, hx(r).c_str(), hx(want).c_str());
        MC_CHECK(c, h.get_hash_value() == want.size(), "the hasher's value is not the algorithm's");
    }
    c.state(mc::Hash().str(want).h);
    g_rec = nullptr;
}

// The algorithm that comes with the library: a function of the bytes, however they are cut into pieces, and of every one of them.
static void simple_hash(Ctx &c) {
    int n = 1 + c.choose(c.bound(9, 12)), fill = c.choose(6);
    static const char fills[] = {'\0', 'a', '\x7f', '\x80', '\xff', 1};
    std::string s;
    for(int i = 0; i < n; ++i)
        s += i & 1 ? fills[fill] : (char)(i * 37);
    c.op("%d bytes %s", n, hx(s).c_str());
    auto of = [&](const std::string &x) {
        P::SimpleHash h;
        h.feed_bytes(x.data(), x.size());
        return h.get_hash_value();
    };
    size_t whole = of(s);
    for(unsigned cuts = 0; cuts < 1u << (n - 1); ++cuts) {
        P::SimpleHash h;
        int from = 0;
        for(int i = 1; i <= n; ++i)
            if(i == n || (cuts >> (i - 1) & 1)) {
                h.feed_bytes(s.data() + from, i - from);
                from = i;
            }
        h.feed_bytes(nullptr, 0);
        MC_CHECK(c, h.get_hash_value() == whole, "%s hashes differently in pieces %x", hx(s).c_str(), cuts);
        P::SimpleHash copy(h);
        MC_CHECK(c, copy.get_hash_value() == whole, "a copy has another value");
#if EPOCH == 2026
        h.reset();
        h.feed_bytes(s.data(), n);
        MC_CHECK(c, h.get_hash_value() == whole, "a reset object has another value");
#endif
        c.ops(1);
    }
    for(int i = 0; i < n; ++i)
        for(int b = 1; b < 256; ++b) {
            std::string t = s;
            t[i] = (char)(t[i] ^ b);
            MC_CHECK(c, of(t) != whole, "byte %d of %s does not matter", i, hx(s).c_str());
        }
    // The Hasher that everybody uses is that algorithm.
    P::Hasher<> h;
    h.feed_bytes(s.data(), n);
    MC_CHECK(c, h.get_hash_value() == whole, "the default hasher has another value");
    P::Bytes b(s.data(), n);
    MC_CHECK(c, simple(b) == whole, "Bytes hash differently from their bytes");
    c.state(mc::Hash().str(s).h);
}
static void simple_long(Ctx &c) {
    static const int sizes[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096};
    int n = c.pick(sizes);
    c.op("%d bytes", n);
    std::string s;
    for(int i = 0; i < n; ++i)
        s += (char)(i * 7 + i / 64);
    auto of = [&](const std::string &x) {
        P::SimpleHash h;
        h.feed_bytes(x.data(), x.size());
        return h.get_hash_value();
    };
    size_t whole = of(s);
    int step = n > 300 ? 13 : 1;
    for(int i = 0; i < n; i += step) {
        P::SimpleHash h;
        h.feed_bytes(s.data(), i);
        h.feed_bytes(s.data() + i, n - i);
        MC_CHECK(c, h.get_hash_value() == whole, "%d bytes hash differently when cut at %d", n, i);
        for(int b : {1, 0x80, 0xff}) {
            std::string t = s;
            t[i] = (char)(t[i] ^ b);
            MC_CHECK(c, of(t) != whole, "byte %d of %d does not matter", i, n);
        }
        c.ops(2);
    }
    c.state(mc::Hash().add(n).h);
}

void mc::mc_register() {
    mc::add("short", "every content of up to 5 (thorough: 7) of 6 bytes in every type that holds text, reached on several ways", short_texts, 3);
    mc::add("long", "every length to 299 (thorough: 1099) and 11 up to 70000, 3 contents", long_texts, 1);
    mc::add("numbers", "every 8 and 16 bit number, 64-bit and 32-bit ones of every byte at every position, by every interface", numbers, 1);
    mc::add("sequences", "all sequences of 5 (thorough: 6) of 9 feeds", sequences, 3);
    mc::add("simple-hash", "texts of 1 to 9 (thorough: 12) bytes cut into pieces in every way, every single byte changed to every other", simple_hash, 1);
    mc::add("simple-hash-long", "17 sizes up to 4096, cut in two everywhere, every byte changed", simple_long, 1);
}
