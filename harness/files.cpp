// C24: what the file APIs deliver for every content and every failure of the calls below them.
#include <fcntl.h>
#include <filesystem>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "common.hpp"
#include "aborts.hpp"

// ---- the environment: streams that deliver short counts, fail, or cannot tell their size
struct Env {
    bool active = false;
    std::string data;
    int size_mode = 0;      // 0 true size, 1 claims to be empty, 2 cannot seek, 3 claims to be huge
    bool deviations = false; // ask the explorer at every read
    int open_files = 0, opened = 0;
    bool failed = false;    // some call has failed
    std::set<FILE *> files;
    std::map<void *, size_t> maps;
};
static Env *g_env;
struct Cookie {
    size_t pos = 0;
};
static ssize_t ck_read(void *v, char *buf, size_t n) {
    auto *k = (Cookie *)v;
    size_t left = g_env->data.size() - std::min(g_env->data.size(), k->pos);
    n = std::min(n, left);
    if(g_env->deviations) {
        int d = g_ctx->deviate(3);
        if(d == 1) {
            g_env->failed = true;
            errno = EIO;
            return -1;
        }
        if(d == 2 && n > 1)
            n = 1;
    }
    memcpy(buf, g_env->data.data() + k->pos, n);
    k->pos += n;
    return n;
}
static int ck_seek(void *v, off64_t *off, int whence) {
    auto *k = (Cookie *)v;
    if(g_env->size_mode == 2) {
        errno = ESPIPE;
        return -1;
    }
    if(g_env->deviations && g_ctx->deviate(2)) {
        g_env->failed = true;
        errno = EIO;
        return -1;
    }
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)k->pos : g_env->size_mode == 1 ? 0 : g_env->size_mode == 3 ? (1ll << 62) : (off64_t)g_env->data.size();
    if(base + *off < 0) {
        errno = EINVAL;
        return -1;
    }
    k->pos = *off = base + *off;
    return 0;
}
static int ck_close(void *v) {
    delete(Cookie *)v;
    --g_env->open_files;
    return 0;
}
extern "C" {
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
FILE *__wrap_fopen(const char *n, const char *m) {
    if(!g_env || !g_env->active)
        return __real_fopen(n, m);
    ++g_env->opened;
    if(g_env->deviations && g_ctx->deviate(2)) {
        g_env->failed = true;
        errno = EACCES;
        return nullptr;
    }
    FILE *f;
    if(g_env->deviations || g_env->size_mode) {
        cookie_io_functions_t fn = {ck_read, nullptr, ck_seek, ck_close};
        ++g_env->open_files;
        f = fopencookie(new Cookie, "r", fn);
    } else
        f = __real_fopen(n, m);
    if(f)
        g_env->files.insert(f);
    return f;
}
FILE *__wrap_fopen64(const char *n, const char *m) { return __wrap_fopen(n, m); }
int __wrap_fclose(FILE *f) {
    if(g_env && g_env->active && !g_env->files.erase(f))
        g_ctx->fail("fclose of a stream that is not open");
    return __real_fclose(f);
}
void *__wrap_mmap(void *a, size_t n, int p, int fl, int fd, off_t o) {
    if(!g_env || !g_env->active)
        return __real_mmap(a, n, p, fl, fd, o);
    if(g_env->deviations && g_ctx->deviate(2)) {
        g_env->failed = true;
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void *r = __real_mmap(a, n, p, fl, fd, o);
    if(r != MAP_FAILED)
        g_env->maps[r] = n;
    return r;
}
void *__wrap_mmap64(void *a, size_t n, int p, int fl, int fd, off_t o) { return __wrap_mmap(a, n, p, fl, fd, o); }
int __wrap_munmap(void *a, size_t n) {
    if(g_env && g_env->active) {
        auto it = g_env->maps.find(a);
        if(it == g_env->maps.end() || it->second != n)
            g_ctx->fail("munmap of something that is not mapped, or of another size");
        g_env->maps.erase(it);
    }
    return __real_munmap(a, n);
}
}

// Watches one call, and that it closes what it opened.
struct Watched {
    Env env;
    Ctx &c;
    int fd0;
    static int next_fd() {
        int fd = open("/dev/null", O_RDONLY);
        close(fd);
        return fd;
    }
    explicit Watched(Ctx &c_) : c(c_), fd0(next_fd()) {
        g_ctx = &c;
        g_env = &env;
        env.active = true;
    }
    void done(const char *what) {
        env.active = false;
        MC_CHECK(c, env.files.empty() && env.open_files == 0, "%s leaves %zu streams open", what, env.files.size());
        MC_CHECK(c, env.maps.empty(), "%s leaves %zu mappings", what, env.maps.size());
        MC_CHECK(c, next_fd() == fd0, "%s leaves a file descriptor open", what);
        g_env = nullptr;
    }
    ~Watched() { g_env = nullptr; }
};

static std::string str(const P::Bytes &b) { return b.size() ? std::string(b.data(), b.size()) : std::string(); }
static std::vector<std::string> lines_of(const std::string &s) {
    std::vector<std::string> r;
    size_t i = 0;
    while(i < s.size()) {
        size_t e = s.find('\n', i);
        e = e == std::string::npos ? s.size() : e + 1;
        r.push_back(s.substr(i, e - i));
        i = e;
    }
    return r;
}
static bool valid_utf8(const std::string &s) {
    size_t i = 0;
    while(i < s.size()) {
        unsigned char c = s[i];
        if(c < 0x80) {
            ++i;
            continue;
        }
        int n = c >= 0xC2 && c <= 0xDF ? 1 : c >= 0xE0 && c <= 0xEF ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : -1;
        if(n < 0 || i + n >= s.size())
            return false;
        for(int k = 1; k <= n; ++k) {
            unsigned char d = s[i + k];
            if((d & 0xC0) != 0x80)
                return false;
            if(k == 1 && ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F)))
                return false;
        }
        i += n + 1;
    }
    return true;
}
static std::string shw(const std::string &s) {
    std::string r;
    for(unsigned char ch : s.substr(0, 60)) {
        char b[8];
        if(ch >= 32 && ch < 127)
            r += (char)ch;
        else {
            snprintf(b, sizeof b, "\\x%02x", ch);
            r += b;
        }
    }
    return r + (s.size() > 60 ? "..." : "");
}

static std::string content(const P::MMapping &m) {
#if EPOCH == 2026
    auto s = m.span();
    return s.size_bytes() ? std::string(s.data(), s.size_bytes()) : std::string();
#else
    auto s = m.view();
    return s.size() ? std::string(s.data(), s.size()) : std::string();
#endif
}

static const char *const API[] = {"load_bytes", "load_text", "readline_bytes", "line iteration", "mmap_file"};

// One API on one file. faulty: failures and short counts are possible, and have to be reported.
static void read_api(Ctx &c, int api, const std::string &path, const std::string &data, int size_mode, bool deviations) {
    Watched w(c);
    w.env.data = data;
    w.env.size_mode = size_mode;
    w.env.deviations = deviations;
    std::string d = shw(data);
    const char *name = API[api];
    bool odd = deviations || size_mode;
    c.ops(1);
    switch(api) {
    case 0: {
        P::Path p(path.c_str());
        P::Optional<P::Bytes> r;
        bool rep = reported([&] { r = p.load_bytes(); });
        if(rep || !r) {
            MC_CHECK(c, w.env.failed || (odd && size_mode >= 1), "%s does not deliver '%s'", name, d.c_str());
            if(rep)
                c.no_leak_check = true;
            break;
        }
        MC_CHECK(c, str(*r) == data, "%s of '%s' delivers '%s' (%zu bytes)", name, d.c_str(), shw(str(*r)).c_str(), r->size());
        break;
    }
    case 1: {
        P::Path p(path.c_str());
        auto r = p.load_text();
        bool valid = valid_utf8(data);
        if(!r) {
            MC_CHECK(c, w.env.failed || !valid || data.find(char(0)) != std::string::npos || size_mode, "%s does not deliver '%s'", name, d.c_str());
            break;
        }
        MC_CHECK(c, valid, "%s delivers '%s', which is not UTF-8", name, d.c_str());
        MC_CHECK(c, std::string(r->c_str(), r->size_bytes()) == data, "%s of '%s' delivers something else", name, d.c_str());
        break;
    }
    case 2: {
        auto want = lines_of(data);
        std::vector<std::string> got;
        bool rep = reported([&] {
            P::File f(path.c_str(), "rb");
            for(size_t n = 0; n < data.size() + 3; ++n) {
                P::Bytes b = f.readline_bytes();
                got.push_back(str(b));
                if(f.eof())
                    break;
            }
        });
        if(rep) {
            MC_CHECK(c, w.env.failed, "%s fails on '%s'", name, d.c_str());
            c.no_leak_check = true;
            w.env.active = false;
            for(auto *f : w.env.files)
                __real_fclose(f);
            w.env.files.clear();
            while(!got.empty() && got.back().empty())
                got.pop_back();
            MC_CHECK(c, got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "%s of '%s' delivers wrong lines before it fails", name, d.c_str());
            return;
        }
        MC_CHECK(c, !w.env.failed, "%s of '%s' does not report the failure", name, d.c_str());
        // At the end of the file there is one empty line.
        if(!got.empty() && got.back().empty())
            got.pop_back();
        MC_CHECK(c, got == want, "%s of '%s' delivers %zu lines, expected %zu, or others; last '%s'", name, d.c_str(), got.size(), want.size(),
                 got.empty() ? "" : shw(got.back()).c_str());
        break;
    }
    case 3: {
        auto want = lines_of(data);
        std::vector<std::string> got;
        int style = odd ? 0 : c.choose_inner(3);
        bool rep = reported([&] {
            P::File f(path.c_str(), "rb");
            if(style == 0) {
                for(auto &&line : f) {
                    got.push_back(str(line));
                    if(got.size() > want.size() + 2)
                        break;
                }
            } else if(style == 1) {
                auto e = f.end();
                for(auto it = f.begin(); it != e; ++it) {
                    P::Bytes line = *it;
                    got.push_back(str(line));
                    if(got.size() > want.size() + 2)
                        break;
                }
            } else { // half by iterating, the rest by reading
                for(auto &&line : f) {
                    got.push_back(str(line));
                    if(got.size() * 2 >= want.size())
                        break;
                }
                while(!f.eof() && got.size() < want.size() + 2) {
                    auto l = str(f.readline_bytes());
                    if(l.empty())
                        break;
                    got.push_back(l);
                }
            }
        });
        if(rep) {
            MC_CHECK(c, w.env.failed, "%s fails on '%s'", name, d.c_str());
            c.no_leak_check = true;
            w.env.active = false;
            for(auto *f : w.env.files)
                __real_fclose(f);
            w.env.files.clear();
            MC_CHECK(c, got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "%s of '%s' delivers wrong lines before it fails", name, d.c_str());
            return;
        }
        MC_CHECK(c, !w.env.failed, "%s of '%s' does not report the failure", name, d.c_str());
        MC_CHECK(c, got == want, "%s of '%s' delivers %zu lines, expected %zu, or others; last '%s'", name, d.c_str(), got.size(), want.size(),
                 got.empty() ? "" : shw(got.back()).c_str());
        break;
    }
    case 4: {
        auto r = P::mmap_file(path.c_str());
        if(!r) {
            MC_CHECK(c, w.env.failed || data.empty() || odd, "%s does not deliver '%s'", name, d.c_str());
            break;
        }
        MC_CHECK(c, !odd, "%s maps a stream that has no file", name);
        MC_CHECK(c, content(*r) == data, "%s of '%s' delivers '%s'", name, d.c_str(), shw(content(*r)).c_str());
        P::MMapping m(P::move(*r));
        MC_CHECK(c, content(m) == data && content(*r).empty(), "a moved mapping is wrong");
        auto r2 = P::mmap_file(path.c_str());
        if(r2) {
            m = P::move(*r2);
            auto &alias = m;
            m = P::move(alias);
            MC_CHECK(c, content(m) == data && content(*r2).empty(), "a move-assigned mapping is wrong");
        }
        break;
    }
    }
    if(api != 2 && api != 3 && odd && w.env.opened == 0)
        w.env.failed = false;
    w.done(name);
}

static void write_file(const std::string &path, const std::string &data) {
    int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    if(write(fd, data.data(), data.size()) != (ssize_t)data.size())
        _exit(99);
    close(fd);
}

// Every short content, on a real file and every way to move it about.
static void contents(Ctx &c) {
    static const char AL[] = {'a', '\n', '\xc3', '\xa9', '\0', '\r'};
    std::string s;
    int n = c.choose(c.bound(7, 9));
    for(int i = 0; i < n; ++i)
        s += AL[c.choose(6)];
    c.op("content '%s'", shw(s).c_str());
    std::string path = mc::workdir() + "/f";
    write_file(path, s);
    for(int api = 0; api < 5; ++api)
        read_api(c, api, path, s, 0, false);
    c.state(mc::Hash().str(s).h);
}

// Contents whose size is near a buffer size.
static void sizes(Ctx &c) {
    static const int around[] = {64, 128, 160, 256, 320, 512, 1024, 4096, 8192, 12288, 65536};
    int size = c.pick(around) + c.choose(5) - 2;
    int kind = c.choose(4);
    std::string s(size, 'x');
    for(int i = 0; i < size; ++i)
        s[i] = 'a' + i % 23;
    if(kind == 1)
        s.back() = '\n';
    if(kind == 2)
        s[size / 2] = '\n';
    if(kind == 3)
        for(int i = 0; i < size; i += 163)
            s[i] = '\n';
    std::string path = mc::workdir() + "/f";
    write_file(path, s);
    int api = c.choose(5);
    c.op("%s of a file of %d bytes, kind %d", API[api], size, kind);
    read_api(c, api, path, s, 0, false);
    c.state(mc::Hash().add(size).add(kind).h);
}

// Large files.
static void large(Ctx &c) {
    static const int around[] = {100000, 131072, 262144, 1 << 20, 2 << 20, 5 << 20};
    int size = c.pick(around) + c.choose(3) - 1;
    int kind = c.choose(3);
    std::string s(size, 'x');
    uint32_t r = 1;
    for(int i = 0; i < size; ++i)
        s[i] = 'a' + (r = r * 1103515245 + 12345) / 65536 % 23;
    if(kind == 1)
        for(int i = 70000; i < size; i += 70001)
            s[i] = '\n';
    if(kind == 2)
        for(int i = 9; i < size; i += 10)
            s[i] = '\n';
    std::string path = mc::workdir() + "/f";
    write_file(path, s);
    int api = c.choose(5);
    c.op("%s of a file of %d bytes, kind %d", API[api], size, kind);
    read_api(c, api, path, s, 0, false);
    c.state(mc::Hash().add(size).add(kind).h);
}

// Every failure and short count of the calls below.
static void faults(Ctx &c) {
    static const int lens[] = {0, 1, 2, 7, 4095, 4096, 4097, 9000};
    int size = c.pick(lens);
    int kind = c.choose(2);
    std::string s;
    for(int i = 0; i < size; ++i)
        s += kind && i % 3 == 1 ? '\n' : 'a' + i % 23;
    int api = c.choose(5);
    int mode = c.choose(4);
    std::string path = mc::workdir() + "/f";
    write_file(path, s);
    c.deviation_budget = c.bound(3, 5);
    c.op("%s of %d bytes, kind %d, size mode %d", API[api], size, kind, mode);
    read_api(c, api, path, s, mode, true);
    c.state(mc::Hash().add(size).add(kind).add(api).add(mode).h);
}

// Things that are not ordinary files.
static void special(Ctx &c) {
    int api = c.choose(5), k = c.choose(6);
    std::string dir = mc::workdir() + "/sub", path;
    mkdir(dir.c_str(), 0700);
    c.op("%s on special file %d", API[api], k);
    switch(k) {
    case 0:
        path = dir;
        break;
    case 1:
        path = dir + "/none";
        break;
    case 2:
        path = "/dev/null";
        break;
    case 3:
        path = "/proc/self/comm"; // reports size 0 but has content
        break;
    case 4:
        path = "";
        break;
    default:
        path = dir + "/none/none";
    }
    if(k == 2) {
        read_api(c, api, path, "", 0, false);
        return;
    }
    if(k == 3) {
        std::string s;
        FILE *f = fopen(path.c_str(), "r");
        char b[100];
        s = fgets(b, sizeof b, f);
        fclose(f);
        if(api == 4) // cannot be mapped
            return;
        read_api(c, api, path, s, 0, false);
        return;
    }
    Watched w(c);
    P::Path p(path.c_str());
    bool ok = true;
    switch(api) {
    case 0: {
        bool del = false;
        ok = reported([&] { del = (bool)p.load_bytes(); }) || !del;
        break;
    }
    case 1: {
        bool del = false;
        ok = reported([&] { del = (bool)p.load_text(); }) || !del;
        break;
    }
    case 2:
    case 3: {
        size_t n = 0;
        ok = reported([&] {
            P::File f(path.c_str(), "rb");
            if(api == 2)
                n = f.readline_bytes().size();
            else
                for(auto &&l : f)
                    n += l.size() + 1;
        });
        c.no_leak_check = true;
        w.env.active = false;
        for(auto *f : w.env.files)
            __real_fclose(f);
        w.env.files.clear();
        break;
    }
    default:
        ok = !P::mmap_file(path.c_str());
    }
    MC_CHECK(c, ok, "%s of something unreadable (%d) succeeds", API[api], k);
    w.done(API[api]);
}

// Sequences of operations on mappings.
static void mappings(Ctx &c) {
    std::string path = mc::workdir() + "/f", p2 = mc::workdir() + "/g";
    write_file(path, "one");
    write_file(p2, std::string(5000, 'q'));
    Watched w(c);
    {
        P::MMapping m[2];
        int mod[2] = {0, 0}; // 0 nothing, 1 f, 2 g
        int depth = c.bound(5, 6);
        for(int i = 0; i < depth; ++i) {
            int k = c.choose(8);
            int t = k & 1;
            if(k < 4) {
                c.op("map %d into %d", 1 + k / 2, t);
                auto r = P::mmap_file((k / 2 ? p2 : path).c_str());
                MC_CHECK(c, (bool)r, "mapping fails");
                m[t] = P::move(*r);
                mod[t] = 1 + k / 2;
            } else if(k < 6) {
                c.op("move %d to %d", t, 1 - t);
                m[1 - t] = P::move(m[t]);
                mod[1 - t] = mod[t];
                mod[t] = 0;
            } else {
                c.op("drop %d", t);
                m[t] = P::MMapping();
                mod[t] = 0;
            }
            for(int j = 0; j < 2; ++j) {
                std::string want = mod[j] == 0 ? "" : mod[j] == 1 ? "one" : std::string(5000, 'q');
                MC_CHECK(c, content(m[j]) == want, "mapping %d has other content", j);
            }
            MC_CHECK(c, w.env.maps.size() == (size_t)!!mod[0] + !!mod[1], "%zu mappings exist, %d are held", w.env.maps.size(), !!mod[0] + !!mod[1]);
            c.visit(mc::Hash().add(mod[0]).add(mod[1]).h, depth - i);
        }
    }
    w.done("mappings");
}

void mc::mc_register() {
    mc::add("contents", "every content of up to 6 (thorough: 8) bytes of a \\n \\xc3 \\xa9 \\0 \\r, 5 ways to read it", contents, 3);
    mc::add("sizes", "sizes within 2 of 11 buffer sizes, 4 layouts, 5 ways to read it", sizes, 2);
    mc::add("large", "sizes within 1 of 6 sizes up to 5 MiB, 3 layouts, 5 ways to read it", large, 1);
    mc::add("faults", "8 sizes, 2 layouts, 4 kinds of stream, 5 ways to read: up to 3 (thorough: 5) failing or short calls anywhere", faults, 4);
    mc::add("special", "directories, missing files, devices, files that do not know their size", special, 1);
    mc::add("mappings", "all sequences of 5 (thorough: 6) mapping, moving and dropping steps on two objects", mappings, 2);
}
