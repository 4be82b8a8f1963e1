// C30: operations on objects of their own, built with the accesses instrumented.
#include <new>
#if EPOCH == 2026
#include <pystd2026.hpp>
#include <pystd2026_argparse.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_regex.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_stablepartition.hpp>
#include <pystd2026_variant.hpp>
namespace P = pystd2026;
#else
#include <pystd2025.hpp>
#include <pystd2025_btree.hpp>
namespace P = pystd2025;
#endif
#include <stdarg.h>
#include "conc_ops.hpp"

static void add(ConcEnv &e, uint64_t v) {
    v ^= e.h + 0x9e3779b97f4a7c15ull;
    v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9ull;
    v = (v ^ (v >> 27)) * 0x94d049bb133111ebull;
    e.h = v ^ (v >> 31);
}
static void add(ConcEnv &e, const char *s, size_t n) {
    add(e, n);
    for(size_t i = 0; i < n; ++i)
        add(e, (unsigned char)s[i]);
}
static void add(ConcEnv &e, const P::CString &s) { add(e, s.c_str(), s.size()); }
static void add(ConcEnv &e, const P::U8String &s) { add(e, s.c_str(), s.size_bytes()); }
static void add(ConcEnv &e, const P::Bytes &b) { add(e, b.data(), b.size()); }
static void add(ConcEnv &e, const P::Vector<int> &v) {
    add(e, v.size());
    for(size_t i = 0; i < v.size(); ++i)
        add(e, v[i]);
}
static int rnd(ConcEnv &e, int i) { return (int)((uint32_t)(e.seed * 7919 + i) * 2654435761u >> 20); }

static bool take_piece(const P::CStringView &v, void *ctx) {
    add(*(ConcEnv *)ctx, v.data(), v.size());
    return true;
}
static bool take_u8(const P::U8StringView &v, void *ctx) {
    P::CString s(v.raw_view());
    add(*(ConcEnv *)ctx, s);
    return true;
}
static bool is_comma(uint32_t c) { return c == ','; }

static void bytes(ConcEnv &e) {
    P::Bytes b("hello", 5);
    for(int i = 0; i < 12; ++i)
        b.append((char)('a' + rnd(e, i) % 26));
    b.insert(3, "xyz", 3);
    b.pop_front(2);
    b.pop_back();
    P::Bytes c(b);
    c.assign(b.data() + 1, 4);
    c.extend(3);
    for(int i = 0; i < 3; ++i)
        c.data()[c.size() - 1 - i] = 'z';
    add(e, b);
    add(e, c);
}
static void cstring(ConcEnv &e) {
    P::CString s("  some words, and some more ");
    s.append((char)('a' + e.seed % 26));
    s.strip();
    s.insert(2, P::CStringView("INS"));
    P::CString t = s.substr(1, 9);
    t += s;
    s.split(take_piece, &e);
    s.split_by(',', take_piece, &e);
    add(e, s.find(P::CStringView("and")));
    add(e, s.rfind('o'));
    add(e, t);
    t.pop_back();
    t.remove(1, 3);
    add(e, t);
    add(e, t == s);
    add(e, t < s);
}
static void casing(ConcEnv &e) {
    P::CString s("Mixed Case");
    s.append((char)('A' + e.seed % 26));
    add(e, s.view().upper());
    add(e, s.view().lower());
    P::U8String u("Stra\xc3\x9f\x65 \xc3\x84\xef\xac\x83 \xc7\x86");
    P::U8String v(e.seed % 2 ? "\xce\xa3\xce\xb1" : "\xc4\xb0i");
    u += v;
    add(e, u.view().upper());
    add(e, u.view().lower());
    for(uint32_t c = 'A' + e.seed % 7; c < 0x600; c += 37) {
        auto r = P::uppercase_unicode(c);
        auto q = P::lowercase_unicode(c);
        add(e, r.codepoints[0] * 3 + q.codepoints[0]);
    }
}
static void u8(ConcEnv &e) {
    P::U8String s("a\xc3\xa4,b\xe2\x82\xac,\xf0\x9f\x98\x80 c d");
    s.split(take_u8, is_comma, &e);
    auto v = s.split_ascii();
    for(size_t i = 0; i < v.size(); ++i)
        add(e, v[i]);
    P::U8String sep(e.seed % 2 ? "--" : "\xc3\xa5");
    P::U8String j = sep.join(v);
    add(e, j);
    for(auto it = j.cbegin(); it != j.cend(); ++it)
        add(e, *it);
    try {
        P::U8String bad("\xff\xfe");
        add(e, bad);
    } catch(const P::PyException &x) {
        add(e, x.what());
    }
#if EPOCH == 2026
    j.append_codepoint(0x1f600 + e.seed);
    j.pop_front();
    add(e, j);
    P::CString n1("file10"), n2("file9");
    add(e, n1.view().natural_order(n2.view()));
#endif
}
static void vectors(ConcEnv &e) {
    P::Vector<int> v;
    for(int i = 0; i < 30; ++i)
        v.push_back(rnd(e, i));
    P::Vector<int> w(v);
    w.pop_back();
    v.append(w.begin(), w.end());
    add(e, v);
    P::Vector<P::CString> s;
    for(int i = 0; i < 6; ++i)
        s.push_back(P::cformat("%d-%d", e.seed, i));
    P::Vector<P::CString> t(s);
    for(auto &x : t)
        add(e, x);
    P::FixedVector<P::CString, 5> f;
    f.push_back(P::CString("one"));
    f.try_push_back(P::cformat("%d", e.seed));
    f.pop_front();
    add(e, f[0]);
    P::Stack<int> st;
    st.push(e.seed);
    st.push(2);
    st.pop();
    add(e, st.top());
    try {
        add(e, v[100000]);
    } catch(const P::PyException &x) {
        add(e, x.what());
    } catch(const char *) {
        add(e, 77);
    }
}
#if EPOCH == 2026
using Key = P::CString;
static Key key(int i) { return P::cformat("key%d", i); }
#else
using Key = P::U8String;
static Key key(int i) { return Key(P::cformat("key%d", i).c_str()); }
#endif
static void hashes(ConcEnv &e) {
    P::HashMap<Key, int> m;
    for(int i = 0; i < 25; ++i)
        m.insert(key(rnd(e, i)), i);
    for(int i = 0; i < 10; ++i)
        m.remove(key(rnd(e, i)));
    add(e, m.size());
    for(int i = 0; i < 25; ++i) {
        int *p = m.lookup(key(rnd(e, i)));
        add(e, p ? *p : -1);
    }
    uint64_t sum = 0;
    for(auto kv : m)
        sum += *kv.value;
    add(e, sum);
    P::HashSet<int> s;
    for(int i = 0; i < 30; ++i)
        s.insert(rnd(e, i) % 16);
    add(e, s.size());
    P::Hasher<P::SimpleHash> h;
    h.feed_hash(P::U8String("abc"));
    h.feed_hash((int)e.seed);
    add(e, h.get_hash_value());
}
static void btree(ConcEnv &e) {
    P::BTree<int, 3> t;
    for(int i = 0; i < 25; ++i)
        t.insert(rnd(e, i) % 40);
    for(int i = 0; i < 12; ++i)
        t.remove(rnd(e, i * 2) % 40);
    add(e, t.size());
    for(int i = 0; i < 40; ++i)
        add(e, t.lookup(i) != nullptr);
}
static void wrappers(ConcEnv &e) {
#if EPOCH == 2026
    P::Variant<int, P::CString, double> v(P::cformat("v%d", e.seed));
    const auto &cv = v;
    P::Variant<int, P::CString, double> w(cv);
    w = 5 + e.seed;
    add(e, v.get<P::CString>());
    add(e, w.get<int>());
    add(e, v.index());
#endif
    P::Optional<P::CString> o(P::CString("opt")), q(o);
    o.reset();
    add(e, q.value());
    P::unique_ptr<P::CString> u(new P::CString(P::cformat("%d", e.seed)));
    add(e, *u);
    P::unique_arr<int> a(8);
    for(int i = 0; i < 8; ++i)
        a[i] = rnd(e, i);
    add(e, a[7]);
    try {
        add(e, o.value());
    } catch(const P::PyException &x) {
        add(e, x.what());
    } catch(const char *) {
        add(e, 78);
    }
    P::FixedCString<10> fs("fixed");
    P::FixedCString<10> ft(fs);
    ft.pop_back();
    add(e, ft.view().data(), ft.view().size());
}
static void formats(ConcEnv &e) {
    add(e, P::cformat("%d %s %5.2f", e.seed, "txt", 1.5 * e.seed));
    add(e, P::cformat("%*d", 1500 + e.seed, e.seed)); // longer than any internal buffer
    P::CString s("start ");
    P::format_append(s, "%x %c", rnd(e, 1), 'a' + e.seed % 26);
    P::Bytes b("b", 1);
    P::format_append(b, "%08d|", e.seed);
    P::format_append(b, "%*s|", 1100, "w");
    add(e, s);
    add(e, b);
}
static void ranges(ConcEnv &e) {
    for(int64_t i : P::Loopsume(P::Range(e.seed, 20 + e.seed, 3)))
        add(e, i);
    P::Vector<int> v;
    for(int i = 0; i < 5; ++i)
        v.push_back(rnd(e, i));
    P::LoopView<P::Range> *none = nullptr;
    (void)none;
    add(e, P::clamp((int64_t)e.seed, (int64_t)2, (int64_t)5));
    add(e, P::clamp(0.5 * e.seed, 1.0, 2.0) * 100);
#if EPOCH == 2026
    add(e, P::total_order_compare(1.0 * e.seed, 3.0));
#endif
}
static void fill(ConcEnv &e, P::Vector<int> &v, int n) {
    for(int i = 0; i < n; ++i)
        v.push_back(rnd(e, i) % 50);
}
#if EPOCH == 2026
static void sorts1(ConcEnv &e) {
    P::DefaultComparator<int> cmp;
    P::Vector<int> v;
    fill(e, v, 70);
    P::Vector<int> w(v), x(v), y(v);
    P::introsort(v.begin(), v.end(), cmp);
    P::mergesort(w.begin(), w.end(), cmp);
    P::heapsort(x.begin(), x.end(), cmp);
    P::shell_sort(y.begin(), y.end(), cmp);
    add(e, v);
    add(e, w);
    add(e, x);
    add(e, y);
    P::Vector<P::CString> s;
    for(int i = 0; i < 20; ++i)
        s.push_back(P::cformat("%d", rnd(e, i)));
    P::introsort(s.begin(), s.end());
    for(auto &t : s)
        add(e, t);
}
static void sorts2(ConcEnv &e) {
    P::Vector<int> v, w;
    P::Vector<uint32_t> x;
    fill(e, v, 40);
    for(int i = 0; i < 60; ++i)
        x.push_back(rnd(e, i));
    P::Vector<uint32_t> y(x);
    P::insertion_sort(v.begin(), v.end());
    P::radix_sort(x.begin(), x.end());
    P::bucketsort(y.begin(), y.end());
    add(e, v);
    for(size_t i = 0; i < x.size(); ++i)
        add(e, x[i] * 31 + y[i]);
    fill(e, w, 40);
    auto idx = P::indirect_stable_sort(w.begin(), w.end());
    for(size_t i = 0; i < idx.size(); ++i)
        add(e, idx[i]);
    P::DefaultComparator<int> cmp;
    v.clear();
    fill(e, v, 50);
    P::nth_element(v.begin(), v.end(), 20, cmp);
    add(e, v[20]);
    v.clear();
    fill(e, v, 50);
    P::partial_sort(v.begin(), v.end(), 10, cmp);
    for(int i = 0; i < 10; ++i)
        add(e, v[i]);
    P::rotate(w.begin(), w.begin() + 7, w.end());
    P::stable_partition(w.begin(), w.end(), [](int i) { return i % 2; });
    add(e, w);
    P::partition(w.begin(), w.end(), [](int i) { return i > 20; });
    uint64_t sum = 0;
    for(int i : w)
        sum = sum * 3 + i;
    add(e, sum);
    add(e, P::is_sorted(w.begin(), w.end(), cmp));
}
static void args(ConcEnv &e) {
    P::ArgParse p{P::U8String("does things")};
    P::Argument a;
    a.name = P::CString("level");
    a.long_arg = P::CString("--level");
    a.short_arg = 'l';
    a.type = P::ArgumentType::Integer;
    a.help = P::U8String("help");
    p.add_argument(P::move(a));
    P::Argument b;
    b.name = P::CString("name");
    b.long_arg = P::CString("--name");
    b.help = P::U8String("help");
    p.add_argument(P::move(b));
    p.permit_posargs();
    P::CString num = P::cformat("--level=%d", e.seed);
    const char *argv[] = {"prog", num.c_str(), "--name", "xyz", "pos"};
    auto r = p.parse_args(5, argv);
    add(e, (bool)r);
    auto *v = r->value_of(P::CStringView("level"));
    add(e, v ? v->get<int64_t>() : -1);
    auto *n = r->value_of(P::CStringView("name"));
    if(n)
        add(e, n->get<P::CString>());
}
#else
static void sorts1(ConcEnv &e) {
    P::Vector<int> v;
    fill(e, v, 40);
    P::insertion_sort(v.begin(), v.end());
    add(e, v);
}
#endif
static void regexes(ConcEnv &e) {
    P::U8Regex re(P::U8String(e.seed % 2 ? "([a-z]+)(\\d+)" : "(\\d)(\\d)?"));
    P::U8String t("abc 123 def456");
    try {
        P::U8Match m = P::regex_search(re, t);
        add(e, m.num_groups());
        add(e, m.get_submatch(0));
        add(e, m.get_submatch(1));
    } catch(const P::PyException &x) {
        add(e, x.what());
    }
    try {
        P::U8Regex bad(P::U8String(e.seed % 2 ? "(" : "[b"));
    } catch(const P::PyException &x) {
        add(e, x.what());
    }
}
static P::Path at(ConcEnv &e, const char *rest) { return P::Path(P::cformat("%s/%s", e.dir, rest)); }
static void paths(ConcEnv &e) {
    P::Path p(e.seed % 2 ? "/usr/lib/some.tar.gz" : "rel/dir/other.txt");
    add(e, p.extension());
    add(e, p.filename().c_str(), P::CString(p.filename().c_str()).size());
    auto v = p.split();
    for(size_t i = 0; i < v.size(); ++i)
        add(e, v[i]);
    p.replace_extension(".zip");
    P::Path q = p / "sub";
    add(e, P::CString(q.c_str()));
    add(e, at(e, "a.txt").is_file() * 4 + at(e, "sub").is_dir() * 2 + at(e, "none").exists());
}
static void globs(ConcEnv &e) {
    auto g = at(e, "").glob(e.seed % 2 ? "*.txt" : "s*/*.txt");
    uint64_t sum = 0;
    while(true) {
        auto r = g.next();
        if(!r)
            break;
        ConcEnv one{e.dir, 0, 0};
        add(one, P::CString(r->c_str()));
        sum += one.h; // the order is that of the directory
    }
    add(e, sum);
}
static void loads(ConcEnv &e) {
    auto b = at(e, e.seed % 2 ? "a.txt" : "b.txt").load_bytes();
    if(b)
        add(e, *b);
    auto t = at(e, e.seed % 2 ? "b.txt" : "sub/c.txt").load_text();
    if(t)
        add(e, *t);
    auto n = at(e, "none").load_bytes();
    add(e, (bool)n);
    P::CString name = P::cformat("%s/a.txt", e.dir);
    P::File f(name.c_str(), "r");
    for(auto &&line : f)
        add(e, line);
    auto m = P::mmap_file(name.c_str());
    if(m) {
#if EPOCH == 2026
        auto v = m->span();
#else
        auto v = m->view();
#endif
        add(e, v.data(), v.size());
    }
}
static void renames(ConcEnv &e) {
    P::Path from(P::cformat("%s/ren/own-%d.tmp", e.dir, e.seed)), to(P::cformat("%s/ren/own-%d.new", e.dir, e.seed));
    add(e, from.rename_to(to));
    add(e, from.exists() * 2 + to.exists());
    add(e, to.rename_to(from));
    add(e, from.exists() * 2 + to.exists());
    add(e, from.rename_to(P::Path("/nonexistent/dir/x")));
}
static void exceptions(ConcEnv &e) {
    for(int i = 0; i < 2; ++i) {
        try {
            throw P::PyException(P::cformat("number %d", e.seed + i).c_str());
        } catch(const P::PyException &x) {
            add(e, x.what());
        }
    }
    P::CString s("abc");
    try {
        s.insert(100, P::CStringView("q"));
    } catch(const P::PyException &x) {
        add(e, x.what());
    } catch(const char *) {
        add(e, 80);
    }
}
static const ConcOp g_ops[] = {
    {"Bytes", bytes},       {"CString", cstring},   {"casing", casing}, {"U8String", u8},     {"vectors", vectors},
    {"hash tables", hashes}, {"BTree", btree},       {"wrappers", wrappers}, {"formatting", formats}, {"ranges", ranges},
    {"sorting", sorts1},
#if EPOCH == 2026
    {"sorting 2", sorts2},  {"ArgParse", args},
#endif
    {"regex", regexes},     {"Path", paths},        {"glob", globs},    {"files", loads},     {"rename", renames},
    {"exceptions", exceptions},
};
extern "C" const ConcOp *conc_ops(size_t *n) {
    *n = sizeof(g_ops) / sizeof(g_ops[0]);
    return g_ops;
}

// ---- copies and shared objects
template<typename T> static void destroy(void *p) { delete(T *)p; }
template<typename T> static void *copy_of(const void *p) { return new T(*(const T *)p); }

static void *mk_bytes(ConcEnv &) { return new P::Bytes("0123456789abcdefghijklmnopqrstuvwxyz", 36); }
static void mut_bytes(void *p, ConcEnv &e) {
    auto &b = *(P::Bytes *)p;
    b.append((char)('A' + e.seed));
    b.data()[3] = (char)e.seed;
    b.pop_front(2);
    add(e, b);
}
static void rd_bytes(const void *p, ConcEnv &e) {
    auto &b = *(const P::Bytes *)p;
    add(e, b);
    P::Bytes c(b);
    add(e, c == b);
}
static void *mk_cs(ConcEnv &) { return new P::CString("shared words, and commas, here"); }
static void mut_cs(void *p, ConcEnv &e) {
    auto &s = *(P::CString *)p;
    s += P::cformat("+%d", e.seed);
    s.insert(1, P::CStringView("zz"));
    s.pop_back();
    add(e, s);
}
static void rd_cs(const void *p, ConcEnv &e) {
    auto &s = *(const P::CString *)p;
    add(e, s);
    add(e, s.view().upper());
    s.split(take_piece, &e);
    add(e, s.find(P::CStringView(e.seed % 2 ? "and" : "here")));
    add(e, s.substr(3, 5));
    P::CString t(s);
    add(e, t == s);
    P::Hasher<P::SimpleHash> h;
    h.feed_hash(P::U8String(s.c_str()));
    add(e, h.get_hash_value());
}
static void *mk_u8(ConcEnv &) { return new P::U8String("\xc3\xa4shared \xe2\x82\xac text"); }
static void mut_u8(void *p, ConcEnv &e) {
    auto &s = *(P::U8String *)p;
    s += P::U8String(e.seed % 2 ? "odd" : "\xc3\xa5");
    add(e, s);
}
static void rd_u8(const void *p, ConcEnv &e) {
    auto &s = *(const P::U8String *)p;
    add(e, s);
    add(e, s.view().upper());
    for(auto it = s.cbegin(); it != s.cend(); ++it)
        add(e, *it);
    auto v = s.split_ascii();
    add(e, v.size());
    P::U8String t(s);
    add(e, t == s);
}
static void *mk_vec(ConcEnv &) {
    auto *v = new P::Vector<P::CString>();
    for(int i = 0; i < 8; ++i)
        v->push_back(P::cformat("element %d", i));
    return v;
}
static void mut_vec(void *p, ConcEnv &e) {
    auto &v = *(P::Vector<P::CString> *)p;
    v.push_back(P::cformat("%d", e.seed));
    v[0].append('x');
    v.pop_back();
    for(auto &s : v)
        add(e, s);
}
static void rd_vec(const void *p, ConcEnv &e) {
    auto &v = *(const P::Vector<P::CString> *)p;
    for(size_t i = 0; i < v.size(); ++i)
        add(e, v[i]);
    add(e, v.front());
    P::Vector<P::CString> w(v);
    add(e, w.size());
}
static void *mk_opt(ConcEnv &) { return new P::Optional<P::CString>(P::CString("optional")); }
static void mut_opt(void *p, ConcEnv &e) {
    auto &o = *(P::Optional<P::CString> *)p;
    o.value().append('x');
    add(e, o.value());
    o.reset();
}
static void rd_opt(const void *p, ConcEnv &e) {
    auto &o = *(const P::Optional<P::CString> *)p;
    add(e, o.value());
    P::Optional<P::CString> q(o);
    add(e, q.value());
}
static void *mk_path(ConcEnv &) { return new P::Path("/some/dir/file.tar.gz"); }
static void mut_path(void *p, ConcEnv &e) {
    auto &q = *(P::Path *)p;
    q.replace_extension(e.seed % 2 ? ".odd" : ".even");
    add(e, P::CString(q.c_str()));
}
static void rd_path(const void *p, ConcEnv &e) {
    auto &q = *(const P::Path *)p;
    add(e, P::CString(q.c_str()));
    add(e, q.extension());
    add(e, P::CString(q.filename().c_str()));
    auto v = q.split();
    add(e, v.size());
    add(e, q.is_abs() * 2 + q.exists());
}
static void *mk_map(ConcEnv &) {
    auto *m = new P::HashMap<Key, int>();
    for(int i = 0; i < 12; ++i)
        m->insert(key(i), i);
    m->remove(key(3));
    return m;
}
static void rd_map(const void *p, ConcEnv &e) {
    auto &m = *(const P::HashMap<Key, int> *)p;
    for(int i = 0; i < 14; ++i) {
        int *v = m.lookup(key((i + e.seed) % 14));
        add(e, v ? *v : -1);
    }
    uint64_t sum = 0;
    for(auto kv : m)
        sum += *kv.value;
    add(e, sum);
    add(e, m.contains(key(5)) + m.size());
}
static void *mk_tree(ConcEnv &) {
    auto *t = new P::BTree<int, 3>();
    for(int i = 0; i < 20; ++i)
        t->insert(i * 7 % 20);
    return t;
}
static void rd_tree(const void *p, ConcEnv &e) {
    auto &t = *(const P::BTree<int, 3> *)p;
    for(int i = 0; i < 22; ++i)
        add(e, t.lookup((i + e.seed) % 22) != nullptr);
    add(e, t.size());
}
static void *mk_re(ConcEnv &) { return new P::U8Regex(P::U8String("([a-z]+)-(\\d+)|x(y)?")); }
static void rd_re(const void *p, ConcEnv &e) {
    auto &re = *(const P::U8Regex *)p;
    P::U8String t(e.seed % 2 ? "say abc-123" : "xy then q-5");
    P::U8Match m = P::regex_search(re, t);
    add(e, m.num_groups());
    for(size_t i = 0; i <= m.num_groups(); ++i) {
        try {
            add(e, m.get_submatch(i));
        } catch(const P::PyException &x) {
            add(e, x.what());
        }
    }
}
static void *mk_exc(ConcEnv &) { return new P::PyException("what went wrong"); }
static void rd_exc(const void *p, ConcEnv &e) {
    auto &x = *(const P::PyException *)p;
    add(e, x.what());
    P::PyException y(x);
    add(e, y.what());
}
#if EPOCH == 2026
using Var = P::Variant<int, P::CString, P::Vector<int>>;
static void *mk_var(ConcEnv &) { return new Var(P::CString("variant")); }
static void mut_var(void *p, ConcEnv &e) {
    auto &v = *(Var *)p;
    v.get<P::CString>().append('x');
    add(e, v.get<P::CString>());
    v = 5 + e.seed;
    add(e, v.get<int>());
}
static void rd_var(const void *p, ConcEnv &e) {
    auto &v = *(const Var *)p;
    add(e, v.index());
    add(e, v.get<P::CString>());
    Var w(v);
    add(e, w.get<P::CString>());
}
#endif
static const ConcObj g_objs[] = {
    {"Bytes", mk_bytes, copy_of<P::Bytes>, mut_bytes, rd_bytes, destroy<P::Bytes>},
    {"CString", mk_cs, copy_of<P::CString>, mut_cs, rd_cs, destroy<P::CString>},
    {"U8String", mk_u8, copy_of<P::U8String>, mut_u8, rd_u8, destroy<P::U8String>},
    {"Vector", mk_vec, copy_of<P::Vector<P::CString>>, mut_vec, rd_vec, destroy<P::Vector<P::CString>>},
    {"Optional", mk_opt, copy_of<P::Optional<P::CString>>, mut_opt, rd_opt, destroy<P::Optional<P::CString>>},
    {"Path", mk_path, copy_of<P::Path>, mut_path, rd_path, destroy<P::Path>},
    {"HashMap", mk_map, nullptr, nullptr, rd_map, destroy<P::HashMap<Key, int>>},
    {"BTree", mk_tree, nullptr, nullptr, rd_tree, destroy<P::BTree<int, 3>>},
    {"U8Regex", mk_re, nullptr, nullptr, rd_re, destroy<P::U8Regex>},
    {"PyException", mk_exc, copy_of<P::PyException>, nullptr, rd_exc, destroy<P::PyException>},
#if EPOCH == 2026
    {"Variant", mk_var, copy_of<Var>, mut_var, rd_var, destroy<Var>},
#endif
};
extern "C" const ConcObj *conc_objs(size_t *n) {
    *n = sizeof(g_objs) / sizeof(g_objs[0]);
    return g_objs;
}
