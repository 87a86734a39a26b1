#include "vp.h"
#include <cmath>
#include <limits>
#include "compress.h"
#include "mmap.h"
using namespace tt;

// the original value, or the original rounded to the precision
static bool same_or_rounded(double got, double orig, double p)
{
    return vp_same(got, orig) || vp_same(got, (double)(int64_t)std::llround(orig * p) / p);
}
static bool rounded(double got, double orig, double p)
{
    return vp_same(got, (double)(int64_t)std::llround(orig * p) / p);
}

struct Rec
{
    uint32_t tid, cnt;
    double min, max, sum, p;
    Rec()
    {
        tid = vp_u32("tid");
        cnt = vp_u32("cnt");
        min = vp_f64("min");
        max = vp_f64("max");
        sum = vp_f64("sum");
        if (vp_symbolic())
            p = vp_f64("precision");
        else
            p = std::pow(10, (double)vp_range("pexp", 0, 12));
    }
};

template<int V>
static void roundtrip()
{
    Rec r;
    uint8_t *buf = (uint8_t*)vp_bytes("buf", 64);
    uint8_t keep[64];
    memcpy(keep, buf, 64);
    int n = V == 1 ? RollupCompressor_v1::compress(buf, r.tid, r.cnt, r.min, r.max, r.sum, r.p)
                   : RollupCompressor_v1::compress2(buf, r.tid, r.cnt, r.min, r.max, r.sum, r.p);
    COVER("encoded");
    ENSURES(6 <= n && n <= 33, "record size");
    bool untouched = true;
    for (int k = n; k < 64; k++) untouched = untouched & (buf[k] == keep[k]);
    ENSURES(untouched, "nothing written after the record");
    int extra = vp_range("extra", 0, 24);
    struct rollup_entry e;
    int m = V == 1 ? RollupCompressor_v1::uncompress(buf, n + extra, &e, r.p)
                   : RollupCompressor_v1::uncompress2(buf, n + extra, &e, r.p);
    ENSURES(m == n, "decoder consumes what the encoder produced");
    ENSURES(e.tid == r.tid, "series id");
    ENSURES(e.cnt == r.cnt, "count");
    if (r.cnt != 0)
    {
        COVER("non-empty record");
        ENSURES(V == 1 ? rounded(e.min, r.min, r.p) : same_or_rounded(e.min, r.min, r.p), "min");
        ENSURES(V == 1 ? rounded(e.max, r.max, r.p) : same_or_rounded(e.max, r.max, r.p), "max");
        ENSURES(V == 1 ? rounded(e.sum, r.sum, r.p) : same_or_rounded(e.sum, r.sum, r.p), "sum");
    }
    else
    {
        COVER("empty record");
        ENSURES(e.sum == 0.0 && e.min == std::numeric_limits<double>::max() && e.max == std::numeric_limits<double>::lowest(), "empty record");
    }
}

// the decoder gives up on every proper prefix of what it would consume
template<int V>
static int decode(uint8_t *buf, int size, double p)
{
    struct rollup_entry e;
    struct rollup_entry_ext x;
    return V == 1 ? RollupCompressor_v1::uncompress(buf, size, &e, p)
         : V == 2 ? RollupCompressor_v1::uncompress2(buf, size, &e, p)
                  : RollupCompressor_v1::uncompress3(buf, size, &x, p, 0);
}

template<int V>
static void truncated()
{
    uint8_t *buf = (uint8_t*)vp_bytes("buf", 40);
    double p = vp_symbolic() ? vp_f64("precision") : 1000.0;
    int n = decode<V>(buf, 40, p);
    ENSURES(0 < n && n <= 34, "40 bytes are always enough");
    int size = vp_range("size", V == 3 ? 1 : 0, 33);
    REQUIRES(size < n);
    size = vp_split(size, V == 3 ? 1 : 0, 33);
    ENSURES(decode<V>(buf, size, p) == 0, "not enough data");
}

template<int V>
static void any_bytes()
{
    uint64_t size = vp_split(vp_range("size", 0, 40), 0, 40);
    uint8_t *buf = (uint8_t*)vp_buf("buf", size);
    double p = vp_symbolic() ? vp_f64("precision") : 1000.0;
    struct rollup_entry e;
    int m = V == 1 ? RollupCompressor_v1::uncompress(buf, size, &e, p)
                   : RollupCompressor_v1::uncompress2(buf, size, &e, p);
    COVER("decoded");
    ENSURES(0 <= m && (uint64_t)m <= size, "consumes no more than there is");
}

HARNESS(v1)
{
    roundtrip<1>();
    COVER("end");
}

HARNESS(v2)
{
    roundtrip<2>();
    COVER("end");
}

HARNESS(v1_truncated)
{
    truncated<1>();
    COVER("end");
}

HARNESS(v2_truncated)
{
    truncated<2>();
    COVER("end");
}

HARNESS(v1_any)
{
    any_bytes<1>();
    COVER("end");
}

HARNESS(v2_any)
{
    any_bytes<2>();
    COVER("end");
}

// daily records: the series id may be left out, the day is relative to the beginning of the file
HARNESS(v3)
{
    Rec r;
    REQUIRES(r.cnt != 0);
    uint64_t day = vp_range("day", 0, 365);
    uint64_t begin = vp_range("begin", 0, 4000000000ULL);
    bool same = vp_bool("same_tid");
    struct rollup_entry_ext in;
    in.tid = r.tid; in.cnt = r.cnt; in.min = r.min; in.max = r.max; in.sum = r.sum; in.tstamp = day;
    uint8_t *buf = (uint8_t*)vp_bytes("buf", 64);
    uint8_t keep[64];
    memcpy(keep, buf, 64);
    int n = RollupCompressor_v1::compress3(buf, in, r.p, same);
    COVER("encoded");
    ENSURES(n > 0 && n <= 34, "record size");
    bool untouched = true;
    for (int k = n; k < 64; k++) untouched = untouched & (buf[k] == keep[k]);
    ENSURES(untouched, "nothing written after the record");
    int extra = vp_range("extra", 0, 24);
    struct rollup_entry_ext e;
    uint32_t last = vp_u32("last_tid");
    if (same) REQUIRES(last == r.tid);
    e.tid = last;
    int m = RollupCompressor_v1::uncompress3(buf, n + extra, &e, r.p, begin);
    ENSURES(m == n, "decoder consumes what the encoder produced");
    ENSURES(e.tid == r.tid, "series id");
    ENSURES(e.cnt == r.cnt, "count");
    ENSURES(e.tstamp == begin + day * 86400, "day");
    ENSURES(same_or_rounded(e.min, r.min, r.p), "min");
    ENSURES(same_or_rounded(e.max, r.max, r.p), "max");
    ENSURES(same_or_rounded(e.sum, r.sum, r.p), "sum");
}

HARNESS(v3_truncated)
{
    truncated<3>();
    COVER("end");
}

HARNESS(v3_any)
{
    uint64_t size = vp_split(vp_range("size", 1, 40), 1, 40);
    uint8_t *buf = (uint8_t*)vp_buf("buf", size);
    double p = vp_symbolic() ? vp_f64("precision") : 1000.0;
    struct rollup_entry_ext e;
    int m = RollupCompressor_v1::uncompress3(buf, size, &e, p, vp_range("begin", 0, 4000000000ULL));
    COVER("decoded");
    ENSURES(0 <= m && (uint64_t)m <= size, "consumes no more than there is");
}
