#include "vp.h"
#include "mmap.h"
#include "global.h"
#include "type.h"
#include <new>
#include <sys/mman.h>
#include <unistd.h>
using namespace tt;

enum { ES = sizeof(struct index_entry) };

// what is known about one series
struct View { FileIndex f1, f2; HeaderIndex h1, h2; bool o1, o2; };

static IndexFile *g_file;
static uint64_t g_k, g_old, g_len;          // an arbitrary series; entries of the file before; length asked for
static uint8_t g_entry[ES];                 // its entry before
static bool g_moved;

static View look(IndexFile *f, TimeSeriesId id)
{
    View v;
    f->get_indices(id, v.f1, v.h1);
    f->get_indices2(id, v.f2, v.h2);
    v.o1 = f->get_out_of_order(id);
    v.o2 = f->get_out_of_order2(id);
    return v;
}

static IndexFile *any_file(uint64_t entries)
{
    IndexFile *f = (IndexFile*)vp_obj("file", sizeof(IndexFile));
    if (vp_symbolic())
    {
        f->m_pages = vp_records("pages", entries, ES);
        f->m_fd = 3;
    }
    else
    {
        new (f) IndexFile("/nonexistent/index");
        f->m_fd = memfd_create("index", 0);
        if (ftruncate(f->m_fd, entries * ES)) vp_assume(false);
        f->m_pages = mmap(nullptr, entries * ES, PROT_READ|PROT_WRITE, MAP_SHARED, f->m_fd, 0);
        uint64_t x = vp_u64("fill");
        for (uint64_t i = 0; i < entries * ES; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; ((uint8_t*)f->m_pages)[i] = x >> 56; }
    }
    f->m_length = entries * ES;
    g_file = f;
    return f;
}

static void drop(IndexFile *f)
{
    if (!vp_symbolic()) { munmap(f->m_pages, f->m_length); ::close(f->m_fd); f->m_pages = nullptr; f->m_fd = -1; f->~IndexFile(); }
}

static uint64_t any_count() { return vp_symbolic() ? vp_range("entries", 1, 0x100001000ULL) : vp_range("entries", 1, 9000); }
static TimeSeriesId any_id(const char *n) { return (TimeSeriesId)(vp_symbolic() ? vp_range(n, 0, 0xfffffffeULL) : vp_range(n, 0, 14000)); }

#ifdef VP_IR
#include "vpm.h"
extern "C" int stub_ftruncate(int fd, long len)
{
    vp_requires(fd == 3, "the index file");
    g_len = len;
    return vp_ghost_bool() ? 0 : -1;
}
// the file grows by zeroes and may be mapped elsewhere; known of the contents: the entry of series g_k
extern "C" void *stub_mremap(void *p, size_t olen, size_t nlen, int flags)
{
    vp_requires(p == g_file->m_pages && olen == (size_t)g_file->m_length, "maps all of the file again");
    vp_requires(nlen == g_len, "maps as much as the file has");
    if (vp_ghost_bool()) return MAP_FAILED;
    vp_requires(nlen % ES == 0, "a whole number of entries");
    uint8_t *q = (uint8_t*)vp_records("grown", nlen / ES, ES);
    for (int i = 0; i < ES; i++)
        if ((g_k + 1) * ES <= nlen)
            vp_assume(q[g_k * ES + i] == ((g_k + 1) * ES <= olen ? ((uint8_t*)p)[g_k * ES + i] : 0));
    g_moved = true;
    return q;
}
#endif

// ---- loops initialising entries ----
static bool is_none(const index_entry *e)
{
    return (e->flags & 3) == 0 && e->file_index == TT_INVALID_FILE_INDEX && e->file_index2 == TT_INVALID_FILE_INDEX &&
        e->header_index == TT_INVALID_HEADER_INDEX && e->header_index2 == TT_INVALID_HEADER_INDEX;
}

#define ARGS uint64_t *old_idx, uint64_t *new_idx, index_entry **entries
extern "C" bool grow_range(ARGS)
{
    return *entries == g_file->m_pages && *new_idx * ES == (uint64_t)g_file->m_length && *new_idx <= 0x100002000ULL &&
        g_old <= *old_idx && *old_idx <= *new_idx;
}
extern "C" bool grow_behind(ARGS)
{
    return !(g_old <= g_k && g_k < *old_idx) || is_none(*entries + g_k);
}
extern "C" bool grow_before(ARGS)
{
    if (g_k >= g_old) return true;
    for (int i = 0; i < ES; i++) if (((uint8_t*)*entries)[g_k * ES + i] != g_entry[i]) return false;
    return true;
}
extern "C" uint64_t grow_var(ARGS) { return *new_idx - *old_idx; }

static void observe(uint64_t n)
{
    g_old = n;
    g_moved = false;
    if (g_k < n) for (int i = 0; i < ES; i++) g_entry[i] = ((uint8_t*)g_file->m_pages)[g_k * ES + i];
}

// what is stored for one series is found again, nothing changes for any other
HARNESS(store)
{
    uint64_t n = any_count();
    TimeSeriesId id = any_id("id"), k = any_id("other");
    if (!vp_symbolic() && vp_bool("same")) k = id;
    FileIndex fi = vp_u16("file_index");
    HeaderIndex hi = vp_u16("header_index");
    uint64_t what = vp_split(vp_range("what", 0, 3), 0, 3);
    bool ooo = vp_bool("ooo");
    g_k = k;
    IndexFile *f = any_file(n);
    observe(n);
    View a = look(f, k);
    bool ok = true;
    if (what == 0) ok = f->set_indices(id, fi, hi);
    else if (what == 1) ok = f->set_indices2(id, fi, hi);
    else if (what == 2) f->set_out_of_order(id, ooo);
    else f->set_out_of_order2(id, ooo);
    bool grown = n > id || g_moved || !vp_symbolic();
    ENSURES(what > 1 || ok == grown, "storing succeeds unless the file cannot grow");
    ENSURES(!grown || (uint64_t)f->m_length >= ((uint64_t)id + 1) * ES, "the file has the entry");
    View b = look(f, k);
    if (k == id && grown)
    {
        COVER("same series");
        ENSURES(b.f1 == (what == 0 ? fi : a.f1) && b.h1 == (what == 0 ? hi : a.h1), "first index");
        ENSURES(b.f2 == (what == 1 ? fi : a.f2) && b.h2 == (what == 1 ? hi : a.h2), "second index");
        ENSURES(b.o1 == (what == 2 ? ooo : a.o1), "out of order flag");
        ENSURES(b.o2 == (what == 3 ? ooo : a.o2), "out of order flag of rollup data");
    }
    else
    {
        COVER("other series");
        ENSURES(b.f1 == a.f1 && b.h1 == a.h1, "first index of another series unchanged");
        ENSURES(b.f2 == a.f2 && b.h2 == a.h2, "second index of another series unchanged");
        ENSURES(b.o1 == a.o1 && b.o2 == a.o2, "flags of another series unchanged");
    }
    drop(f);
}

// lookups in any file, including one whose length is not a whole number of entries
HARNESS(lookup)
{
    uint64_t len = vp_symbolic() ? vp_range("length", 1, 0x100001000ULL * ES) : vp_range("length", 1, 90000);
    TimeSeriesId k = any_id("id");
    IndexFile *f = any_file(1);
    if (vp_symbolic())
        f->m_pages = vp_buf("any", len);
    else
    {
        munmap(f->m_pages, ES);
        if (ftruncate(f->m_fd, len)) vp_assume(false);
        f->m_pages = mmap(nullptr, len, PROT_READ|PROT_WRITE, MAP_SHARED, f->m_fd, 0);
    }
    f->m_length = len;
    View v = look(f, k);
    uint64_t off = (uint64_t)k * ES;
    if (off + ES <= len)
    {
        COVER("in the file");
        const uint8_t *p = (const uint8_t*)f->m_pages + off;
        ENSURES((v.o1 ? 1 : 0) == (p[0] & 1) && (v.o2 ? 2 : 0) == (p[0] & 2), "flags of the entry");
        ENSURES(v.f1 == (p[1] | p[2] << 8) && v.h1 == (p[3] | p[4] << 8), "first index of the entry");
        ENSURES(v.f2 == (p[5] | p[6] << 8) && v.h2 == (p[7] | p[8] << 8), "second index of the entry");
    }
    else
    {
        COVER("beyond the file");
        ENSURES(v.f1 == TT_INVALID_FILE_INDEX && v.f2 == TT_INVALID_FILE_INDEX, "no index");
        ENSURES(!v.o1 && !v.o2, "no flags");
    }
    drop(f);
}

HARNESS(closed)
{
    TimeSeriesId k = any_id("id");
    IndexFile *f = any_file(1);
    if (!vp_symbolic()) munmap(f->m_pages, ES);
    f->m_pages = nullptr;
    f->m_length = vp_range("length", 0, 1 << 30);
    View v = look(f, k);
    COVER("closed");
    ENSURES(v.f1 == TT_INVALID_FILE_INDEX && v.f2 == TT_INVALID_FILE_INDEX && !v.o1 && !v.o2, "nothing in a closed file");
    drop(f);
}

// ---- a new file ----
#ifdef VP_IR
extern "C" bool stub_file_exists(const std::string&) { return false; }
extern "C" void stub_open(MmapFile *f, long length, bool ro, bool append, bool resize)
{
    vp_requires(length > 0 && !ro && resize, "a new file is given its length");
    vp_requires(length % ES == 0, "a whole number of entries");
    uint8_t *q = (uint8_t*)vp_records("new", length / ES, ES);
    for (int i = 0; i < ES; i++)
        if ((g_k + 1) * ES <= (uint64_t)length) vp_assume(q[g_k * ES + i] == 0);
    f->m_pages = q;
    f->m_length = length;
}
#endif
#define ARGS2 uint64_t *i, uint64_t *max_idx, index_entry **entries
extern "C" bool new_range(ARGS2)
{
    return *entries == g_file->m_pages && *max_idx == (uint64_t)g_file->m_length / ES && *i <= *max_idx;
}
extern "C" bool new_entry(ARGS2)
{
    index_entry *e = *entries + g_k;
    return g_k >= *max_idx || ((e->flags & 3) == 0 &&
        (g_k >= *i || (e->file_index == TT_INVALID_FILE_INDEX && e->file_index2 == TT_INVALID_FILE_INDEX)));
}
extern "C" uint64_t new_var(ARGS2) { return *max_idx - *i; }

HARNESS(create)
{
    TimeSeriesId k = any_id("id");
    g_k = k;
    IndexFile *f;
    char dir[] = "/tmp/vp-index-XXXXXX";
    std::string *name = nullptr;
    if (vp_symbolic())
    {
        f = (IndexFile*)vp_obj("file", sizeof(IndexFile));
        g_file = f;
        f->IndexFile::open(false);
    }
    else
    {
        f = (IndexFile*)vp_obj("file", sizeof(IndexFile));
        if (!mkdtemp(dir)) vp_assume(false);
        name = new std::string(std::string(dir) + "/index");
        new (f) IndexFile(*name);
        f->open(false);
    }
    COVER("created");
    View v = look(f, k);
    ENSURES(v.f1 == TT_INVALID_FILE_INDEX && v.f2 == TT_INVALID_FILE_INDEX, "nothing stored yet");
    ENSURES(!v.o1 && !v.o2, "no flags yet");
    ENSURES((uint64_t)f->m_length >= ES && f->m_length % ES == 0, "a whole number of entries");
    if (!vp_symbolic()) { drop(f); unlink(name->c_str()); rmdir(dir); delete name; }
}
