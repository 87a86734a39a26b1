// Native side of vp.h.
//
//   driver <harness> replay FILE          inputs read from FILE (kind name value...)
//   driver <harness> search SEED SECONDS OUT   random search; a failing input goes to OUT
//
// exit 0: nothing failed, 10: an assertion failed, 11: the inputs do not meet the
// precondition (replay only), anything else: crash.
#include "vp.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

struct VpDiscard {};
struct VpFailed {};

static bool g_replay;
static std::vector<std::string> g_in;
static size_t g_pos;
static uint64_t g_s[2];
static FILE *g_rec;
static std::vector<void*> g_bufs;
static const char *g_out;
// journal of the current run in shared memory so that it survives a crash
static char *g_jrn;
static size_t g_jlen;
static const size_t JMAX = 1 << 22;

static void jr(const char *fmt, const char *kind, const char *name, unsigned long long v)
{
    (void)fmt;
    if (g_jrn != nullptr && g_jlen + 200 < JMAX)
    {
        g_jlen += snprintf(g_jrn + g_jlen, 200, "%s %s %llu\n", kind, name, v);
    }
}

static uint64_t rnd()
{
    uint64_t a = g_s[0], b = g_s[1];
    g_s[0] = b;
    a ^= a << 23;
    g_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return g_s[1] + b;
}

static uint64_t g_last[16];
static unsigned g_nlast;

static uint64_t biased(int w)
{
    uint64_t m = w == 64 ? ~0ULL : ((1ULL << w) - 1);
    uint64_t r;
    switch (rnd() % 12)
    {
        case 0: r = rnd() % 4; break;
        case 1: r = rnd() % 300; break;
        case 2: r = 0 - (rnd() % 300); break;
        case 3: { int s = rnd() % w; r = (1ULL << s) + (rnd() % 3) - 1; break; }
        case 4: { int s = rnd() % w; r = 0 - (1ULL << s) + (rnd() % 3) - 1; break; }
        case 5: r = (1ULL << (w - 1)) + (rnd() % 3) - 1; break;
        case 6: r = rnd() >> (rnd() % 64); break;
        case 7: r = 0 - (rnd() >> (rnd() % 64)); break;
        case 8: if (g_nlast) { r = g_last[rnd() % (g_nlast < 16 ? g_nlast : 16)] + (rnd() % 5) - 2; break; }
        // fall through
        case 9: if (g_nlast) { r = g_last[rnd() % (g_nlast < 16 ? g_nlast : 16)]; break; }
        // fall through
        default: r = rnd(); break;
    }
    return r & m;
}

static uint64_t note(uint64_t v) { g_last[g_nlast++ % 16] = v; return v; }

static uint64_t get(const char *kind, const char *name, int w)
{
    uint64_t v;
    if (g_replay)
    {
        if (g_pos >= g_in.size()) v = 0;
        else v = strtoull(g_in[g_pos++].c_str(), nullptr, 10);
    }
    else v = biased(w);
    uint64_t m = w == 64 ? ~0ULL : ((1ULL << w) - 1);
    v &= m;
    note(v);
    jr("", kind, name, v);
    return v;
}

extern "C" {
uint8_t vp_u8(const char *n) { return get("u8", n, 8); }
uint16_t vp_u16(const char *n) { return get("u16", n, 16); }
uint32_t vp_u32(const char *n) { return get("u32", n, 32); }
uint64_t vp_u64(const char *n) { return get("u64", n, 64); }
int8_t vp_i8(const char *n) { return get("i8", n, 8); }
int16_t vp_i16(const char *n) { return get("i16", n, 16); }
int32_t vp_i32(const char *n) { return get("i32", n, 32); }
int64_t vp_i64(const char *n) { return get("i64", n, 64); }
bool vp_bool(const char *n)
{
    uint64_t v = g_replay ? get("bool", n, 8) : (rnd() & 1);
    if (!g_replay) jr("", "bool", n, v);
    return v != 0;
}
double vp_f64(const char *n)
{
    uint64_t v;
    if (g_replay) { v = get("f64", n, 64); }
    else
    {
        double d;
        switch (rnd() % 12)
        {
            case 0: d = 0.0; break;
            case 10:
            case 11:
            {
                static const double pw[] = { 1, 10, 100, 1000, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12 };
                static const int sz[] = { 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 63 };
                double b = (double)(1ULL << (rnd() % 2 ? sz[rnd() % 15] : rnd() % 64)) + ((double)(int)(rnd() % 3) - 1);
                d = (rnd() % 2 ? b : -b) / pw[rnd() % 13];
                break;
            }
            case 1: d = (double)(int64_t)(rnd() % 2000) - 1000; break;
            case 2: d = ((double)(int64_t)(rnd() % 2000000) - 1000000) / 1000.0; break;
            case 3: d = (double)(int64_t)rnd(); break;
            case 4: d = 1.0 / (1 + rnd() % 1000); break;
            case 5: d = -(double)(rnd() % 100); break;
            case 6: if (g_nlast) { d = vp_dbl(g_last[rnd() % (g_nlast < 16 ? g_nlast : 16)]); break; }
            // fall through
            default: d = vp_dbl(biased(64)); break;
        }
        v = vp_bits(d);
        note(v);
        jr("", "f64", n, v);
    }
    return vp_dbl(v);
}
uint64_t vp_range(const char *n, uint64_t lo, uint64_t hi)
{
    uint64_t v;
    if (g_replay) { v = get("range", n, 64); if (v < lo || v > hi) throw VpDiscard(); return v; }
    uint64_t span = hi - lo;
    switch (rnd() % 6)
    {
        case 0: v = lo + (span < 3 ? rnd() % (span + 1) : rnd() % 3); break;
        case 1: v = hi - (span < 3 ? rnd() % (span + 1) : rnd() % 3); break;
        case 2: { uint64_t b = biased(64); v = (span == ~0ULL) ? b : lo + b % (span + 1); break; }
        case 3: { uint64_t b = rnd() % 300; v = (span == ~0ULL) ? b : lo + b % (span + 1); break; }
        case 4: if (g_nlast) { uint64_t b = g_last[rnd() % (g_nlast < 16 ? g_nlast : 16)] + rnd() % 5 - 2; if (b >= lo && b <= hi) { v = b; break; } }
        // fall through
        default: v = (span == ~0ULL) ? rnd() : lo + rnd() % (span + 1); break;
    }
    note(v);
    jr("", "range", n, v);
    return v;
}
int64_t vp_srange(const char *n, int64_t lo, int64_t hi)
{
    if (g_replay) { int64_t v = (int64_t)get("srange", n, 64); if (v < lo || v > hi) throw VpDiscard(); return v; }
    uint64_t v = vp_range(n, 0, (uint64_t)hi - (uint64_t)lo) + (uint64_t)lo;
    // rewrite the journal entry
    if (g_jrn) { while (g_jlen > 1 && g_jrn[g_jlen - 2] != '\n') g_jlen--; if (g_jlen > 0) g_jlen--; }
    jr("", "srange", n, v);
    return (int64_t)v;
}
static void *mkbuf(const char *kind, const char *n, uint64_t size, bool fill)
{
    if (size > (1 << 20)) throw VpDiscard();
    uint8_t *p = (uint8_t*)malloc(size ? size : 1);
    g_bufs.push_back(p);
    if (!fill) { memset(p, 0xA5, size); return p; }
    if (g_replay)
    {
        if (g_pos < g_in.size())
        {
            std::string &h = g_in[g_pos++];
            for (uint64_t i = 0; i < size; i++)
                p[i] = 2*i + 1 < h.size() ? (uint8_t)strtoul(h.substr(2*i, 2).c_str(), nullptr, 16) : 0;
        }
        else memset(p, 0, size);
    }
    else
    {
        int mode = rnd() % 4;
        for (uint64_t i = 0; i < size; i++) p[i] = mode == 0 ? 0 : mode == 1 ? 0xff : rnd();
    }
    if (g_jrn && g_jlen + 2*size + 100 < JMAX)
    {
        g_jlen += snprintf(g_jrn + g_jlen, 100, "%s %s ", kind, n);
        for (uint64_t i = 0; i < size; i++) g_jlen += snprintf(g_jrn + g_jlen, 4, "%02x", p[i]);
        g_jlen += snprintf(g_jrn + g_jlen, 4, "\n");
    }
    return p;
}
void *vp_buf(const char *n, uint64_t size) { return mkbuf("buf", n, size, true); }
void *vp_words(const char *n, uint64_t k) { return mkbuf("buf", n, 8 * k, true); }
void *vp_records(const char *n, uint64_t k, uint64_t w) { return mkbuf("buf", n, w * k, true); }
void *vp_bytes(const char *n, uint64_t size) { return mkbuf("bytes", n, size, true); }
void *vp_alloc(const char *n, uint64_t size) { return mkbuf("", n, size, false); }
void *vp_obj(const char *n, uint64_t size) { void *p = mkbuf("", n, size, false); memset(p, 0, size); return p; }
void vp_free(void *) {}
void vp_assume(bool c) { if (!c) throw VpDiscard(); }
static const char *g_what;
static void on_fail()
{
    if (g_jrn && g_out)
    {
        FILE *f = fopen(g_out, "w");
        if (f) { fwrite(g_jrn, 1, g_jlen, f); fprintf(f, "# failed: %s\n", g_what); fclose(f); }
    }
}
void vp_assert(bool c, const char *what)
{
    if (!c)
    {
        g_what = what;
        on_fail();
        printf("ASSERTION FAILED: %s\n", what);
        fflush(stdout);
        _exit(10);
    }
}
void vp_requires(bool c, const char *what) { vp_assert(c, what); }
void vp_cover(const char *) {}
bool vp_symbolic() { return false; }
uint64_t vp_split(uint64_t v, uint64_t, uint64_t) { return v; }
uint64_t vp_ghost_u64() { abort(); }
bool vp_ghost_bool() { abort(); }
bool vp_same_object(const void *, const void *) { return true; }
uint64_t vp_offset(const void *) { return 0; }
uint64_t vp_size(const void *) { return 0; }
void vp_havoc(void *, uint64_t) { abort(); }
void vp_unreachable() { abort(); }
}

extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void death() { static bool once; if (once) return; once = true; g_what = "crash (memory error)"; on_fail(); }
static void sig(int s) { g_what = "crash (signal)"; on_fail(); signal(s, SIG_DFL); raise(s); }

typedef void (*fn_t)();

static int once(fn_t fn)
{
    g_jlen = 0;
    g_pos = 0;
    g_nlast = 0;
    int r = 0;
    try { fn(); }
    catch (VpDiscard&) { r = 11; }
    catch (std::exception& e)
    {
        g_what = "uncaught exception";
        on_fail();
        printf("UNCAUGHT EXCEPTION: %s\n", e.what());
        fflush(stdout);
        _exit(10);
    }
    for (void *p : g_bufs) free(p);
    g_bufs.clear();
    return r;
}

extern "C" void vp_setup() __attribute__((weak));

int main(int argc, char **argv)
{
    if (argc < 4) { fprintf(stderr, "usage\n"); return 99; }
    std::string nm = std::string("vp_h_") + argv[1];
    fn_t fn = (fn_t)dlsym(RTLD_DEFAULT, nm.c_str());
    if (!fn) { fprintf(stderr, "no harness %s\n", argv[1]); return 98; }
    g_jrn = (char*)malloc(JMAX);
    if (__asan_set_death_callback) __asan_set_death_callback(death);
    else { signal(SIGSEGV, sig); signal(SIGABRT, sig); signal(SIGFPE, sig); signal(SIGBUS, sig); }
    if (vp_setup) vp_setup();
    if (!strcmp(argv[2], "replay"))
    {
        g_replay = true;
        std::ifstream f(argv[3]);
        std::string l;
        while (std::getline(f, l))
        {
            if (l.empty() || l[0] == '#') continue;
            std::istringstream is(l);
            std::string k, n, v;
            is >> k >> n >> v;
            g_in.push_back(v);
        }
        int r = once(fn);
        printf(r == 11 ? "PRECONDITION NOT MET\n" : "PASSED\n");
        return r;
    }
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    double secs = atof(argv[4]);
    g_out = argc > 5 ? argv[5] : nullptr;
    g_s[0] = seed * 0x9E3779B97F4A7C15ULL + 1;
    g_s[1] = seed ^ 0xD1B54A32D192ED03ULL;
    for (int i = 0; i < 20; i++) rnd();
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t runs = 0, disc = 0;
    while (true)
    {
        for (int i = 0; i < 64; i++) { if (once(fn) == 11) disc++; runs++; }
        clock_gettime(CLOCK_MONOTONIC, &t);
        if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9 > secs) break;
    }
    printf("RUNS %llu DISCARDED %llu\n", (unsigned long long)runs, (unsigned long long)disc);
    return 0;
}
