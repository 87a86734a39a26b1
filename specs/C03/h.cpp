#include "tape.h"
#include <climits>
#include "seq.h"
using namespace tt;

Tape g_tape;

static const uint64_t TMAX = 9999999999999ULL;

// ---------------------------------------------------------------- XOR bit format

// what the encoder remembers about the points stored so far
struct V2 { uint64_t tstamp, delta; double value; uint8_t lz, tz, nz; uint64_t count; uint8_t *cursor; uint8_t start; };
static V2 g_before, g_after;
static bool g_more;

static bool v2_window(uint8_t lz, uint8_t tz, uint8_t nz)
{
    return (lz == 0) | (lz == 65) | ((lz <= 31) & (tz <= 32) & (nz == 64 - lz - tz));
}

static void v2_get(V2 &s, Compressor_v2 &c)
{
    s.tstamp = c.m_prev_tstamp; s.delta = c.m_prev_delta; s.value = c.m_prev_value;
    s.lz = c.m_prev_leading_zeros; s.tz = c.m_prev_trailing_zeros; s.nz = c.m_prev_none_zeros;
    s.count = c.m_dp_count; s.cursor = c.m_bitset.m_cursor; s.start = c.m_bitset.m_start;
}

#define V2_LOCALS uint64_t *tstamp, uint64_t *delta, double *value, uint64_t *value_be, uint8_t *lz, uint8_t *tz, uint8_t *nz, BitSetCursor *cur
extern "C" void v2_before(V2_LOCALS)
{
    const V2 &s = g_before;
    *tstamp = s.tstamp; *delta = s.delta; *value = s.value; *value_be = __builtin_bswap64(vp_bits(s.value));
    *lz = s.lz == 65 ? 0 : s.lz;
    REQUIRES((*lz == 0) | ((*tz == s.tz) & (*nz == s.nz)));
    g_tape.count = s.count; cur->m_cursor = s.cursor; cur->m_start = s.start;
}
extern "C" bool v2_time(V2_LOCALS) { return (*tstamp == g_after.tstamp) & (*delta == g_after.delta) & (g_tape.count == g_after.count); }
extern "C" bool v2_value(V2_LOCALS) { return vp_same(*value, g_after.value); }
extern "C" bool v2_value_be(V2_LOCALS) { return *value_be == __builtin_bswap64(vp_bits(*value)); }
extern "C" bool v2_zeros(V2_LOCALS) { return ((*lz == 0) & ((g_after.lz == 0) | (g_after.lz == 65))) | ((*lz == g_after.lz) & (*tz == g_after.tz) & (*nz == g_after.nz)); }
extern "C" bool v2_place(V2_LOCALS) { return (cur->m_cursor == g_after.cursor) & (cur->m_start == g_after.start); }
extern "C" bool v2_last(V2_LOCALS)
{ return !g_more; }

static void v2_any(Compressor_v2 &c, uint64_t start, uint8_t *buf, uint64_t cap, uint64_t q, unsigned s)
{
    c.init(start, buf, cap);
    c.m_bitset.m_cursor = buf + q; c.m_bitset.m_start = s;
}

// storing one more point and reading it back, from any state of a page
HARNESS(v2_step)
{
    uint64_t start = vp_range("start", 0, TMAX);
    uint64_t cap = vp_range("cap", 12, 65535);
    uint64_t pd = vp_range("pd", 0, INT_MAX), d = vp_range("d", 0, INT_MAX);
    uint64_t pt = vp_range("pt", 0, 2 * TMAX), t = pt + d;
    double pv = vp_f64("pv"), v = vp_f64("v");
    uint8_t lz = vp_u8("lz"), tz = vp_u8("tz"), nz = vp_u8("nz");
    uint64_t q = vp_range("q", 12, 65535);
    unsigned s = vp_split(vp_range("s", 0, 7), 0, 7);
    uint64_t count = vp_range("count", 1, 65534);
    uint64_t further = vp_range("further", 0, 65535);
    g_more = further != 0;
    if (vp_symbolic())
    {
        REQUIRES(v2_window(lz, tz, nz));
        REQUIRES(q * 8 + s <= cap * 8);
        uint8_t *buf = (uint8_t*)vp_buf("buf", cap);
        Compressor_v2 c;
        v2_any(c, start, buf, cap, q, s);
        c.m_prev_tstamp = pt; c.m_prev_delta = pd; c.m_prev_value = pv;
        c.m_prev_leading_zeros = lz; c.m_prev_trailing_zeros = tz; c.m_prev_none_zeros = nz;
        c.m_dp_count = count;
        v2_get(g_before, c);
        g_tape.base_cursor = buf + q; g_tape.base_start = s;
        bool ok = c.compress(t, v);
        if (!ok)
        {
            COVER("refused");
            ENSURES(c.is_full(), "page is marked full");
            ENSURES((c.m_bitset.m_cursor == buf + q) & (c.m_bitset.m_start == s) & (c.m_dp_count == count), "nothing stored");
            ENSURES(q * 8 + s + 113 > cap * 8, "refused only if there is no room");
            ENSURES(!c.compress(vp_u64("t2"), vp_f64("v2")), "a full page stays full");
            ENSURES((c.m_bitset.m_cursor == buf + q) & (c.m_bitset.m_start == s) & (c.m_dp_count == count), "nothing stored in a full page");
            return;
        }
        COVER("stored");
        ENSURES(!c.is_full() & (c.get_dp_count() == count + 1), "point is counted");
        ENSURES(c.get_last_tstamp() == t, "last timestamp");
        v2_get(g_after, c);
        ENSURES(v2_window(g_after.lz, g_after.tz, g_after.nz), "window is valid");
        // more points may follow
        c.m_bitset.m_cursor += further;
        REQUIRES(c.m_bitset.m_cursor <= c.m_bitset.m_end);
        DataPointVector *dps = (DataPointVector*)vp_obj("dps", sizeof(DataPointVector));
        c.uncompress(*dps, true);
        COVER("read back");
        ENSURES(g_tape.count == count + 1, "one more point is read back");
        ENSURES(g_tape.tstamp == t, "timestamp is read back");
        ENSURES(vp_same(g_tape.value, v), "value is read back");
        ENSURES((c.get_dp_count() == count + 1) & (c.get_last_tstamp() == t) & (c.m_prev_delta == g_after.delta) & vp_same(c.m_prev_value, v), "state is restored");
        ENSURES((((g_after.lz == 0) | (g_after.lz == 65)) & ((c.m_prev_leading_zeros == 0) | (c.m_prev_leading_zeros == 65))) |
                ((c.m_prev_leading_zeros == g_after.lz) & (c.m_prev_trailing_zeros == g_after.tz) & (c.m_prev_none_zeros == g_after.nz)), "window is restored");
    }
    else
    {
        // two points that bring a page into the state, the point, and some more
        if (pt < pd) pt = pd;
        uint64_t w = lz == 65 ? 0 : (1ULL << (63 - (lz & 31))) | 1ULL << (tz % 33);
        std::vector<seq::Point> pts = { { pt - pd, vp_dbl(vp_bits(pv) ^ w) }, { pt, pv } };
        size_t n = seq::length(2, pt - pd, pts);
        pts.push_back({ pt + d, v });
        uint64_t x = vp_u64("tail"), k = x % 64, u = pt + d;
        for (unsigned i = 0; i < k; i++)
        {
            u += seq::rnd(x) >> (seq::rnd(x) % 50 + 5);
            uint64_t y = seq::rnd(x) % 4 ? vp_bits(pts.back().v) ^ (seq::rnd(x) << (seq::rnd(x) % 64)) : vp_bits(pts.back().v);
            pts.push_back({ u, vp_dbl(y) });
        }
        uint64_t room = q * 8 + s <= cap * 8 ? (cap - q) * 8 - s : q % 1000;
        size_t bytes = (n + room + 7) / 8;
        seq::run(2, pt - pd, bytes > 65535 ? 65535 : bytes < 12 ? 12 : bytes, pts, vp_range("cut", 0, 20));
    }
}

// the first point of a page
HARNESS(v2_first)
{
    uint64_t start = vp_range("start", 0, TMAX);
    uint64_t cap = vp_range("cap", 12, 65535);
    uint64_t t = start + vp_range("d", 0, INT_MAX);
    double v = vp_f64("v");
    bool used = vp_bool("used");
    if (vp_symbolic())
    {
        uint8_t *buf = (uint8_t*)vp_buf("buf", cap);
        Compressor_v2 c;
        c.init(start, buf, cap);
        if (used)
        {
            // a page that has been used before
            c.m_prev_tstamp = vp_u64("pt"); c.m_prev_delta = vp_u64("pd"); c.m_prev_value = vp_f64("pv"); c.m_dp_count = vp_u16("n");
            c.m_prev_leading_zeros = vp_u8("lz"); c.m_prev_trailing_zeros = vp_u8("tz"); c.m_prev_none_zeros = vp_u8("nz"); c.m_is_full = vp_bool("full");
            c.m_bitset.m_cursor = buf + vp_range("q", 0, cap); c.m_bitset.m_start = vp_range("s", 0, 7);
            c.recycle();
            c.init(start, buf, cap);
        }
        ENSURES(c.is_empty() & !c.is_full() & (c.size() == 0), "a new page is empty");
        DataPointVector *dps = (DataPointVector*)vp_obj("dps", sizeof(DataPointVector));
        c.uncompress(*dps);
        ENSURES(g_tape.count == 0, "nothing is read from an empty page");
        g_tape.base_cursor = buf; g_tape.base_start = 0;
        bool ok = c.compress(t, v);
        COVER("first point");
        ENSURES(ok & !c.is_full() & !c.is_empty() & (c.get_dp_count() == 1) & (c.get_last_tstamp() == t), "first point is stored");
        v2_get(g_after, c);
        ENSURES((g_after.delta <= INT_MAX) & v2_window(g_after.lz, g_after.tz, g_after.nz) & (g_after.cursor == buf + 12), "state is valid");
        c.uncompress(*dps, true);
        COVER("read back");
        ENSURES((g_tape.count == 1) & (g_tape.tstamp == t) & vp_same(g_tape.value, v), "first point is read back");
        ENSURES((c.get_dp_count() == 1) & (c.get_last_tstamp() == t) & (c.m_prev_delta == g_after.delta) & vp_same(c.m_prev_value, v), "state is restored");
        ENSURES((c.m_prev_leading_zeros == 0) | (c.m_prev_leading_zeros == 65), "window is restored");
    }
    else
    {
        std::vector<seq::Point> pts = { { t, v }, { t + start % 1000, -v } };
        seq::run(2, start, cap, pts, start % 3);
    }
}

// saving a page and restoring it
static bool g_restored;
extern "C" void v2_uncompress(Compressor_v2 *c, DataPointVector *dps, bool restore) { g_restored = restore; }

HARNESS(v2_save)
{
    uint64_t start = vp_range("start", 0, TMAX);
    uint64_t cap = vp_range("cap", 12, 65535), cap2 = vp_range("cap2", 12, 65535);
    uint64_t q = vp_range("q", 12, 65535);
    unsigned s = vp_range("s", 0, 7);
    REQUIRES(q * 8 + s <= cap * 8 && q * 8 + s <= cap2 * 8);
    uint64_t j = vp_range("j", 0, 65535);
    if (vp_symbolic())
    {
        uint8_t *buf = (uint8_t*)vp_buf("buf", cap), *buf2 = (uint8_t*)vp_buf("buf2", cap2), *disk = (uint8_t*)vp_buf("disk", cap);
        Compressor_v2 c, c2;
        v2_any(c, start, buf, cap, q, s);
        CompressorPosition pos;
        c.save(pos);
        c.save(disk);
        ENSURES(pos.m_offset == q && pos.m_start == s, "position is saved");
        c2.init(start, buf2, cap2);
        DataPointVector *dps = (DataPointVector*)vp_obj("dps", sizeof(DataPointVector));
        g_restored = false;
        bool in_place = vp_bool("in place");
        if (in_place)
        {
            // the page is still where it was
            c2.init(start, buf, cap);
            c2.restore(*dps, pos, buf);
        }
        else c2.restore(*dps, pos, disk);
        COVER("restored");
        ENSURES(g_restored, "the points are read from the restored page");
        ENSURES(c2.m_bitset.size_in_bits() == q * 8 + s && c2.size() == c.size(), "size is restored");
        ENSURES(c2.get_start_tstamp() == start, "start is restored");
        if (j < c.size()) ENSURES((in_place ? buf : buf2)[j] == buf[j], "contents are restored");
    }
}

// ---------------------------------------------------------------- byte oriented format

struct V1 { uint64_t tstamp, delta; double value; uint64_t count; uint8_t *cursor; };
static V1 g1_before, g1_after;

static void v1_get(V1 &s, Compressor_v1 &c)
{
    s.tstamp = c.m_prev_tstamp; s.delta = c.m_prev_delta; s.value = c.m_prev_value; s.count = c.m_dp_count; s.cursor = c.m_cursor;
}

#define V1_LOCALS uint64_t *tstamp, uint64_t *delta, double *value, uint8_t **b
extern "C" void v1_before(V1_LOCALS)
{
    *tstamp = g1_before.tstamp; *delta = g1_before.delta; *value = g1_before.value; *b = g1_before.cursor;
    g_tape.count = g1_before.count;
}
extern "C" bool v1_time(V1_LOCALS) { return (*tstamp == g1_after.tstamp) & (*delta == g1_after.delta) & (g_tape.count == g1_after.count); }
extern "C" bool v1_value(V1_LOCALS) { return vp_same(*value, g1_after.value); }
extern "C" bool v1_place(V1_LOCALS) { return *b == g1_after.cursor; }
extern "C" bool v1_last(V1_LOCALS) { return !g_more; }

HARNESS(v1_step)
{
    uint64_t start = vp_range("start", 0, TMAX);
    uint64_t cap = vp_range("cap", 12, 65535);
    uint64_t pd = vp_range("pd", 0, INT_MAX), d = vp_range("d", 0, INT_MAX);
    uint64_t pt = vp_range("pt", 0, 2 * TMAX), t = pt + d;
    double pv = vp_f64("pv"), v = vp_f64("v");
    uint64_t q = vp_range("q", 12, 65535);
    if (vp_symbolic()) REQUIRES(q <= cap);
    else if (q > cap) q = cap;
    uint64_t count = vp_range("count", 1, 65534);
    uint64_t further = vp_range("further", 0, 65535);
    g_more = further != 0;
    bool ms = vp_bool("ms"), old_ms = g_tstamp_resolution_ms;
    g_tstamp_resolution_ms = ms;
    if (vp_symbolic())
    {
        uint64_t x = vp_bits(v) ^ vp_bits(pv);
        vp_split((x >> 56 != 0) | (uint64_t)((x << 8) >> 56 != 0) << 1 | (uint64_t)((x << 16) >> 56 != 0) << 2, 0, 7);
        uint8_t *buf = (uint8_t*)vp_buf("buf", cap);
        uint64_t j = vp_range("j", 0, 65535);
        REQUIRES(j < q);
        uint8_t old = buf[j];
        Compressor_v1 c;
        c.init(start, buf, cap);
        c.m_prev_tstamp = pt; c.m_prev_delta = pd; c.m_prev_value = pv; c.m_dp_count = count; c.m_cursor = buf + q;
        v1_get(g1_before, c);
        bool ok = c.compress(t, v);
        ENSURES(buf[j] == old, "points stored before are kept");
        if (!ok)
        {
            COVER("refused");
            ENSURES(c.is_full(), "page is marked full");
            ENSURES((c.m_cursor == buf + q) & (c.m_dp_count == count), "nothing stored");
            ENSURES(q + 15 > cap, "refused only if there is no room");
            return;
        }
        COVER("stored");
        ENSURES(!c.is_full() & (c.get_dp_count() == count + 1) & (c.get_last_tstamp() == t), "point is counted");
        v1_get(g1_after, c);
        ENSURES(c.m_cursor <= buf + cap, "inside the page");
        c.m_cursor += further;
        REQUIRES(c.m_cursor <= buf + cap);
        DataPointVector *dps = (DataPointVector*)vp_obj("dps", sizeof(DataPointVector));
        c.uncompress(*dps, true);
        COVER("read back");
        ENSURES((g_tape.count == count + 1) & (g_tape.tstamp == t), "timestamp is read back");
        ENSURES(vp_same(g_tape.value, v), "value is read back");
        ENSURES((c.get_dp_count() == count + 1) & (c.get_last_tstamp() == t) & (c.m_prev_delta == g1_after.delta) & vp_same(c.m_prev_value, v), "state is restored");
    }
    else
    {
        if (pt < pd) pt = pd;
        std::vector<seq::Point> pts = { { pt - pd, v }, { pt, pv } };
        size_t n = seq::length(1, pt - pd, pts) / 8;
        pts.push_back({ pt + d, v });
        uint64_t x = vp_u64("tail"), k = x % 64, u = pt + d;
        for (unsigned i = 0; i < k; i++)
        {
            u += seq::rnd(x) >> (seq::rnd(x) % 50 + 5);
            uint64_t y = seq::rnd(x) % 4 ? vp_bits(pts.back().v) ^ (seq::rnd(x) << (seq::rnd(x) % 64)) : vp_bits(pts.back().v);
            pts.push_back({ u, vp_dbl(y) });
        }
        size_t bytes = n + cap - q;
        seq::run(1, pt - pd, bytes > 65535 ? 65535 : bytes < 12 ? 12 : bytes, pts, vp_range("cut", 0, 20));
    }
    g_tstamp_resolution_ms = old_ms;
}

HARNESS(v1_first)
{
    uint64_t start = vp_range("start", 0, TMAX);
    uint64_t cap = vp_range("cap", 12, 65535);
    uint64_t t = start + vp_range("d", 0, INT_MAX);
    double v = vp_f64("v");
    if (vp_symbolic())
    {
        uint8_t *buf = (uint8_t*)vp_buf("buf", cap);
        Compressor_v1 c;
        c.init(start, buf, cap);
        if (vp_bool("used"))
        {
            c.m_prev_tstamp = vp_u64("pt"); c.m_prev_delta = vp_u64("pd"); c.m_prev_value = vp_f64("pv"); c.m_dp_count = vp_u16("n");
            c.m_is_full = vp_bool("full"); c.m_cursor = buf + vp_range("q", 0, cap);
            c.recycle();
            c.init(start, buf, cap);
        }
        ENSURES(c.is_empty() & !c.is_full() & (c.size() == 0), "a new page is empty");
        DataPointVector *dps = (DataPointVector*)vp_obj("dps", sizeof(DataPointVector));
        c.uncompress(*dps);
        ENSURES(g_tape.count == 0, "nothing is read from an empty page");
        bool ok = c.compress(t, v);
        COVER("first point");
        ENSURES(ok & !c.is_full() & !c.is_empty() & (c.get_dp_count() == 1) & (c.get_last_tstamp() == t), "first point is stored");
        v1_get(g1_after, c);
        ENSURES((g1_after.delta <= INT_MAX) & (g1_after.cursor == buf + 12), "state is valid");
        c.uncompress(*dps, true);
        COVER("read back");
        ENSURES((g_tape.count == 1) & (g_tape.tstamp == t) & vp_same(g_tape.value, v), "first point is read back");
        ENSURES((c.get_dp_count() == 1) & (c.get_last_tstamp() == t) & (c.m_prev_delta == g1_after.delta) & vp_same(c.m_prev_value, v), "state is restored");
    }
    else
    {
        std::vector<seq::Point> pts = { { t, v }, { t + start % 1000, -v } };
        seq::run(1, start, cap, pts, start % 3);
    }
}

extern "C" void v1_uncompress(Compressor_v1 *c, DataPointVector *dps, bool restore) { g_restored = restore; }

HARNESS(v1_save)
{
    uint64_t start = vp_range("start", 0, TMAX);
    uint64_t cap = vp_range("cap", 12, 65535), cap2 = vp_range("cap2", 12, 65535);
    uint64_t q = vp_range("q", 12, 65535);
    REQUIRES(q <= cap && q <= cap2);
    uint64_t j = vp_range("j", 0, 65535);
    if (vp_symbolic())
    {
        uint8_t *buf = (uint8_t*)vp_buf("buf", cap), *buf2 = (uint8_t*)vp_buf("buf2", cap2), *disk = (uint8_t*)vp_buf("disk", cap);
        Compressor_v1 c, c2;
        c.init(start, buf, cap);
        c.m_cursor = buf + q;
        CompressorPosition pos;
        c.save(pos);
        c.save(disk);
        ENSURES(pos.m_offset == q && pos.m_start == 0, "position is saved");
        c2.init(start, buf2, cap2);
        DataPointVector *dps = (DataPointVector*)vp_obj("dps", sizeof(DataPointVector));
        g_restored = false;
        c2.restore(*dps, pos, disk);
        COVER("restored");
        ENSURES(g_restored, "the points are read from the restored page");
        ENSURES(c2.m_cursor == buf2 + q && c2.size() == c.size(), "size is restored");
        ENSURES(c2.get_start_tstamp() == start, "start is restored");
        if (j < q) ENSURES(buf2[j] == buf[j], "contents are restored");
    }
}
