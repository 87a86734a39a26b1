#include "vp.h"
#include "vpm.h"
#include <cmath>
#include <string>
#include <vector>
#include "aggregate.h"
#include "down.h"
#include "global.h"
#include "limit.h"
#include "memmgr.h"
#include "mmap.h"
#include "utils.h"
using namespace tt;

enum Kind { DS_AVG, DS_COUNT, DS_DEV, DS_FIRST, DS_LAST, DS_MAX, DS_MIN, DS_SUM };

static double first_value(int kind, double v)
{
    return kind == DS_COUNT ? 1.0 : v;
}

static double next_value(int kind, double old, double v)
{
    switch (kind)
    {
        case DS_COUNT: return old + 1.0;
        case DS_FIRST: return old;
        case DS_LAST:  return v;
        case DS_MAX:   return (old < v) ? v : old;
        case DS_MIN:   return (v < old) ? v : old;
        default:    return old + v;
    }
}

static double entry_first(int kind, struct rollup_entry_ext &e)
{
    return kind == DS_COUNT ? (double)e.cnt : kind == DS_MAX ? e.max : kind == DS_MIN ? e.min : e.sum;
}

static double entry_next(int kind, double old, struct rollup_entry_ext &e)
{
    switch (kind)
    {
        case DS_COUNT: return old + (double)e.cnt;
        case DS_MAX:   return (old < e.max) ? e.max : old;
        case DS_MIN:   return (e.min < old) ? e.min : old;
        default:    return old + e.sum;
    }
}

// ---------------------------------------------------------------- on the real code

static const char *NAMES[] = { "avg", "count", "dev", "first", "last", "max", "min", "sum" };

static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b) + 1); }

// downsamples a series and compares with the statistics of each interval
static void run(int kind, bool ru)
{
    bool res = vp_bool("resolution"), ms = vp_bool("ms"), old_res = g_tstamp_resolution_ms;
    g_tstamp_resolution_ms = res;
    uint64_t unit = res ? 1000 : 1;
    int u = vp_range("unit", 0, 4);
    const char *units[] = { "s", "m", "h", "d", "w" };
    const uint64_t secs[] = { 1, 60, 3600, 86400, 604800 };
    uint64_t k = vp_range("interval", 1, 30), iv = k * secs[u] * unit;
    int fill = vp_range("fill", 0, 3);
    const char *fills[] = { "", "-zero", "-nan", "-null" };
    uint64_t from = vp_range("from", 1, 60) * vp_range("scale", 1, 1000000) * unit + (res ? 20000000000ULL : ms ? 10000000 : 0);
    if (!res && !ms && vp_range("epoch", 0, 7) == 0) from = 0;
    uint64_t to = from + vp_range("length", 0, 40) * iv + vp_range("rest", 0, iv) ;
    std::string s = std::to_string(k) + units[u] + "-" + NAMES[kind] + fills[fill];
    Downsampler *d = Downsampler::create(s.c_str(), TimeRange(from, to), ms);
    DataPointVector out;
    uint64_t n = vp_range("n", 0, 60), t = from > iv ? from - vp_range("before", 0, iv) : from, x = vp_u64("seed");
    struct Iv { uint64_t t; std::vector<double> v; double cnt, sum, min, max; };
    std::vector<Iv> want;
    for (uint64_t i = 0; i < n; i++)
    {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        uint64_t step = ((x >> 33) % 4 == 0) ? 3 * iv : iv / 3 + 1;
        t += (x >> 40) % step;
        if (ru) t -= t % unit;
        // the query keeps the points of the range
        TimeRange r = d->get_expanded_range();
        if (t > to && r.in_range(t) != 0) break;
        if (t - t % iv > to) break;
        double v = (double)(int64_t)((x >> 20) % 1000) - 500.0;
        uint64_t g = t - t % iv;
        rollup_entry_ext e;
        e.tstamp = ru ? t / unit : t; e.cnt = (x >> 50) % 9 + 1; e.min = v; e.max = v + 7; e.sum = v * e.cnt;
        if (ru) d->add_data_point(&e, d->get_rollup_type(), out);
        else { DataPointPair dp(t, v); d->add_data_point(dp, out); }
        if (g < from) continue;
        if (want.empty() || want.back().t != g)
            want.push_back(Iv{ g, {}, 0, 0, e.min, e.max });
        Iv &w = want.back();
        w.v.push_back(v);
        w.cnt += ru ? e.cnt : 1;
        w.sum += ru ? e.sum : v;
        if (e.min < w.min) w.min = e.min;
        if ((ru ? e.max : v) > w.max || (!ru && w.v.size() == 1)) w.max = ru ? e.max : v;
    }
    d->fill_if_needed(out);
    uint64_t g = from % iv == 0 ? from : from - from % iv + iv, i = 0, j = 0;
    for (; g <= to || j < want.size(); g += iv)
    {
        bool hit = j < want.size() && want[j].t == g;
        if (!hit && fill == 0) { if (j == want.size()) break; continue; }
        ENSURES(i < out.size(), "a point for each interval");
        ENSURES(out[i].first == validate_resolution(g, ms), "stamped with the start of the interval");
        if (hit)
        {
            Iv &w = want[j++];
            double m = w.sum / w.cnt, q = 0;
            for (double y : w.v) q += (y - m) * (y - m);
            double r = kind == DS_AVG ? m : kind == DS_COUNT ? w.cnt : kind == DS_DEV ? std::sqrt(q / w.cnt) : kind == DS_FIRST ? w.v.front()
                : kind == DS_LAST ? w.v.back() : kind == DS_MAX ? w.max : kind == DS_MIN ? w.min : w.sum;
            ENSURES(close(out[i].second, r), "statistic of the points of the interval");
        }
        else ENSURES(fill == 1 ? out[i].second == 0 : std::isnan(out[i].second), "fill value");
        i++;
    }
    ENSURES(i == out.size(), "no further points");
    MemoryManager::free_recyclable(d);
    g_tstamp_resolution_ms = old_res;
}

// ---------------------------------------------------------------- one step from any state

static Downsampler *g_d;
static uint64_t g_curr, g_k;
static bool g_filled, g_fill_ok;

// contract of fill_to, proved in `gap`: appends some points
extern "C" void ds_fill_to(Downsampler *d, Timestamp to, DataPointVector *dps)
{
    if (d->m_fill == DownsampleFillPolicy::DFP_NONE) return;
    g_fill_ok = !g_filled & (to == g_curr);
    g_filled = true;
    dps->_M_impl._M_finish += g_k;
}

static const uint64_t CAP = 1ULL << 40;

struct Vec
{
    DataPointPair *p;
    uint64_t n;
    DataPointVector *v;
    uint64_t size() { return v->_M_impl._M_finish - v->_M_impl._M_start; }
};

static Vec any_vec()
{
    Vec x;
    x.n = vp_range("n", 0, CAP - 8);
    x.p = (DataPointPair*)vp_words("points", 2 * CAP);
    x.v = (DataPointVector*)vp_obj("vec", sizeof(DataPointVector));
    x.v->_M_impl._M_start = x.p;
    x.v->_M_impl._M_finish = x.p + x.n;
    x.v->_M_impl._M_end_of_storage = x.p + CAP;
    return x;
}

static void any_state(Downsampler *d)
{
    g_tstamp_resolution_ms = vp_bool("resolution");
    d->m_start = vp_u64("start");
    d->m_interval = vp_range("interval", 1, 1ULL << 50);
    d->m_all = vp_bool("all");
    d->m_ms = vp_bool("ms");
    d->m_fill = vp_bool("fill") ? DownsampleFillPolicy::DFP_ZERO : DownsampleFillPolicy::DFP_NONE;
    d->m_last_tstamp = vp_u64("last");
    g_k = vp_range("k", 0, 1ULL << 30);
    g_filled = false;
    g_fill_ok = true;
    g_d = d;
}

static uint64_t grid(Downsampler *d, uint64_t t) { return d->m_all ? d->m_start : t - t % d->m_interval; }

template<class D> static void eager(int kind, bool ru)
{
    if (!vp_symbolic()) { run(kind, ru); return; }
    D dd;
    Downsampler *d = &dd;
    any_state(d);
    Vec x = any_vec();
    REQUIRES(x.n + g_k + 8 < CAP);
    uint64_t t = vp_u64("t");
    DataPointPair dp(t, vp_f64("v"));
    rollup_entry_ext e;
    e.tstamp = t; e.cnt = vp_u32("cnt"); e.min = vp_f64("min"); e.max = vp_f64("max"); e.sum = vp_f64("sum");
    uint64_t curr = grid(d, ru ? validate_resolution(t) : t), last = d->m_last_tstamp;
    g_curr = curr;
    REQUIRES(curr != TT_INVALID_TIMESTAMP);
    // the last point of the output is that of the interval in progress
    REQUIRES((last == TT_INVALID_TIMESTAMP) | ((last <= curr) & (x.n >= 1)));
    double old = x.n ? x.p[x.n - 1].second : 0;
    uint64_t old_t = x.n ? x.p[x.n - 1].first : 0;
    if (ru) d->add_data_point(&e, RollupType::RU_SUM, *x.v);
    else d->add_data_point(dp, *x.v);
    ENSURES(g_fill_ok, "gap is filled once, up to the new interval");
    if (curr < d->m_start)
    {
        ENSURES((x.size() == x.n) & (d->m_last_tstamp == last), "points before the first interval are left out");
        if (x.n) ENSURES((x.p[x.n - 1].first == old_t) & vp_same(x.p[x.n - 1].second, old), "result is unchanged");
    }
    else if (curr == last)
    {
        ENSURES((x.size() == x.n) & (d->m_last_tstamp == last) & !g_filled, "no new point inside an interval");
        ENSURES(x.p[x.n - 1].first == old_t, "timestamp stays");
        ENSURES(vp_same(x.p[x.n - 1].second, ru ? entry_next(kind, old, e) : next_value(kind, old, dp.second)), "statistic of the points of the interval");
    }
    else
    {
        uint64_t m = x.n + (g_filled ? g_k : 0);
        ENSURES((x.size() == m + 1) & (d->m_last_tstamp == curr), "one new point for a new interval");
        ENSURES(x.p[m].first == validate_resolution(curr, d->m_ms), "stamped with the start of the interval");
        ENSURES(vp_same(x.p[m].second, ru ? entry_first(kind, e) : first_value(kind, dp.second)), "statistic of the first point of the interval");
        if (x.n) ENSURES((x.p[x.n - 1].first == old_t) & vp_same(x.p[x.n - 1].second, old), "the interval before is complete");
    }
}

HARNESS(count) { eager<DownsamplerCount>(DS_COUNT, false); if (vp_symbolic()) COVER("done"); }
HARNESS(first) { eager<DownsamplerFirst>(DS_FIRST, false); if (vp_symbolic()) COVER("done"); }
HARNESS(last) { eager<DownsamplerLast>(DS_LAST, false); if (vp_symbolic()) COVER("done"); }
HARNESS(max) { eager<DownsamplerMax>(DS_MAX, false); if (vp_symbolic()) COVER("done"); }
HARNESS(min) { eager<DownsamplerMin>(DS_MIN, false); if (vp_symbolic()) COVER("done"); }
HARNESS(sum) { eager<DownsamplerSum>(DS_SUM, false); if (vp_symbolic()) COVER("done"); }
HARNESS(count_rollup) { eager<DownsamplerCount>(DS_COUNT, true); if (vp_symbolic()) COVER("done"); }
HARNESS(max_rollup) { eager<DownsamplerMax>(DS_MAX, true); if (vp_symbolic()) COVER("done"); }
HARNESS(min_rollup) { eager<DownsamplerMin>(DS_MIN, true); if (vp_symbolic()) COVER("done"); }
HARNESS(sum_rollup) { eager<DownsamplerSum>(DS_SUM, true); if (vp_symbolic()) COVER("done"); }

// the average is known when the interval is over
static void average(bool ru)
{
    if (!vp_symbolic()) { run(DS_AVG, ru); return; }
    DownsamplerAvg dd, *d = &dd;
    any_state(d);
    Vec x = any_vec();
    REQUIRES(x.n + g_k + 8 < CAP);
    double sum = vp_f64("total");
    uint64_t count = vp_range("count", 0, 1ULL << 40);
    d->m_sum = sum; d->m_count = count;
    uint64_t t = vp_u64("t");
    DataPointPair dp(t, vp_f64("v"));
    rollup_entry_ext e;
    e.tstamp = t; e.cnt = vp_range("cnt", 1, UINT32_MAX); e.sum = vp_f64("sum");
    uint64_t curr = grid(d, ru ? validate_resolution(t) : t), last = d->m_last_tstamp;
    g_curr = curr;
    REQUIRES(curr != TT_INVALID_TIMESTAMP);
    REQUIRES((last == TT_INVALID_TIMESTAMP) ? count == 0 : (last <= curr) & (count > 0));
    if (ru) d->add_data_point(&e, RollupType::RU_AVG, *x.v);
    else d->add_data_point(dp, *x.v);
    ENSURES(g_fill_ok, "gap is filled once, up to the new interval");
    if (curr < d->m_start)
        ENSURES((x.size() == x.n) & (d->m_last_tstamp == last) & (d->m_count == count) & vp_same(d->m_sum, sum), "points before the first interval are left out");
    else if (curr == last)
    {
        ENSURES((x.size() == x.n) & (d->m_last_tstamp == last) & !g_filled, "no new point inside an interval");
        ENSURES((d->m_count == count + (ru ? e.cnt : 1)) & vp_same(d->m_sum, sum + (ru ? e.sum : dp.second)), "count and sum of the points of the interval");
    }
    else
    {
        bool one = last != TT_INVALID_TIMESTAMP;
        ENSURES(x.size() == x.n + one + (g_filled ? g_k : 0), "one point for the interval that is over");
        if (one)
        {
            ENSURES(x.p[x.n].first == validate_resolution(last, d->m_ms), "stamped with the start of the interval");
            ENSURES(vp_same(x.p[x.n].second, sum / (double)count), "average of the points of the interval");
        }
        ENSURES((d->m_last_tstamp == curr) & (d->m_count == (ru ? e.cnt : 1)) & vp_same(d->m_sum, ru ? e.sum : dp.second), "new interval holds the point");
    }
    uint64_t m = x.size();
    sum = d->m_sum; count = d->m_count; last = d->m_last_tstamp;
    d->add_last_point(*x.v);
    ENSURES(x.size() == m + (count != 0), "one point for the last interval");
    if (count)
    {
        ENSURES(x.p[m].first == validate_resolution(last, d->m_ms), "last interval is stamped with its start");
        ENSURES(vp_same(x.p[m].second, sum / (double)count), "average of the points of the last interval");
    }
    m = x.size();
    d->add_last_point(*x.v);
    ENSURES(x.size() == m, "the last interval is reported once");
}

HARNESS(avg) { average(false); if (vp_symbolic()) COVER("done"); }
HARNESS(avg_rollup) { average(true); if (vp_symbolic()) COVER("done"); }

HARNESS(dev)
{
    if (!vp_symbolic()) { run(DS_DEV, false); return; }
    DownsamplerDev dd, *d = &dd;
    any_state(d);
    Vec x = any_vec();
    REQUIRES(x.n + g_k + 8 < CAP);
    double mean = vp_f64("mean"), m2 = vp_f64("m2");
    uint64_t count = vp_range("count", 0, 1ULL << 40);
    d->m_mean = mean; d->m_m2 = m2; d->m_count = count;
    uint64_t t = vp_u64("t");
    DataPointPair dp(t, vp_f64("v"));
    double v = dp.second;
    uint64_t curr = grid(d, t), last = d->m_last_tstamp;
    g_curr = curr;
    REQUIRES(curr != TT_INVALID_TIMESTAMP);
    REQUIRES((last == TT_INVALID_TIMESTAMP) ? count == 0 : (last <= curr) & (count > 0));
    d->add_data_point(dp, *x.v);
    ENSURES(g_fill_ok, "gap is filled once, up to the new interval");
    if (curr < d->m_start)
        ENSURES((x.size() == x.n) & (d->m_last_tstamp == last) & (d->m_count == count) & vp_same(d->m_mean, mean) & vp_same(d->m_m2, m2), "points before the first interval are left out");
    else if (curr == last)
    {
        ENSURES((x.size() == x.n) & (d->m_last_tstamp == last) & (d->m_count == count + 1) & !g_filled, "no new point inside an interval");
        double mean1 = mean + (v - mean) / (double)(count + 1);
        ENSURES(vp_same(d->m_mean, mean1) & vp_same(d->m_m2, m2 + (v - mean) * (v - mean1)), "running mean and squares");
    }
    else
    {
        bool one = last != TT_INVALID_TIMESTAMP;
        ENSURES(x.size() == x.n + one + (g_filled ? g_k : 0), "one point for the interval that is over");
        if (one)
        {
            ENSURES(x.p[x.n].first == validate_resolution(last, d->m_ms), "stamped with the start of the interval");
            ENSURES(vp_same(x.p[x.n].second, std::sqrt(m2 / (double)count)), "deviation of the points of the interval");
        }
        ENSURES((d->m_last_tstamp == curr) & (d->m_count == 1) & vp_same(d->m_mean, v) & vp_same(d->m_m2, 0.0), "new interval holds the point");
    }
    uint64_t m = x.size();
    m2 = d->m_m2; count = d->m_count; last = d->m_last_tstamp;
    d->add_last_point(*x.v);
    ENSURES(x.size() == m + (count != 0), "one point for the last interval");
    if (count)
    {
        ENSURES(x.p[m].first == validate_resolution(last, d->m_ms), "last interval is stamped with its start");
        ENSURES(vp_same(x.p[m].second, std::sqrt(m2 / (double)count)), "deviation of the points of the last interval");
    }
    m = x.size();
    d->add_last_point(*x.v);
    ENSURES(x.size() == m, "the last interval is reported once");
    COVER("done");
}

// ---------------------------------------------------------------- fill policies

// what has been emitted: the next interval, the next input point
static uint64_t g_expect, g_iv, g_to, g_i, g_n, g_from;
static double g_value;
static DataPointPair *g_in;
static bool g_out_ms;

// contract of the output vector: every point appended is the next one expected
extern "C" void ds_gap_emplace(DataPointVector *v, uint64_t *t, double *x)
{
    ENSURES(g_expect < g_to, "only intervals before the new one");
    ENSURES(*t == validate_resolution(g_expect, g_out_ms), "next interval");
    ENSURES(vp_same(*x, g_value), "fill value");
    g_expect += g_iv;
}
extern "C" bool gap_inv(uint64_t *tstamp, uint64_t *to) { return (*tstamp == g_expect) & (*to == g_to); }

// intervals between the last one and the new one
HARNESS(gap)
{
    if (!vp_symbolic()) { run(vp_range("kind", 0, 7), false); return; }
    DownsamplerSum dd, *d = &dd;
    any_state(d);
    d->m_fill_value = vp_f64("value");
    d->m_time_range.m_from = vp_range("range", 0, 1ULL << 62);
    REQUIRES(d->m_last_tstamp <= 1ULL << 62 || d->m_last_tstamp == TT_INVALID_TIMESTAMP);
    // the range begins with the first interval that begins inside it
    REQUIRES(d->m_start <= d->m_time_range.m_from);
    uint64_t to = vp_range("to", 0, 1ULL << 62);
    g_iv = d->m_interval; g_to = to; g_value = d->m_fill_value; g_out_ms = d->m_ms;
    uint64_t begin = d->m_last_tstamp == TT_INVALID_TIMESTAMP ? d->m_time_range.m_from : d->m_last_tstamp + d->m_interval;
    g_expect = begin;
    DataPointVector *v = (DataPointVector*)vp_obj("vec", sizeof(DataPointVector));
    d->fill_to(to, *v);
    COVER("done");
    if (d->m_fill == DownsampleFillPolicy::DFP_NONE) ENSURES(g_expect == begin, "nothing is filled in without a policy");
    else ENSURES(g_expect >= to, "every interval before the new one");
}

// differences of interval starts: multiples of the interval (lemma in lemma.smt2)
static bool multiple(uint64_t d, uint64_t iv) { return d % iv == 0; }
static void lemma(uint64_t d, uint64_t iv)
{
    REQUIRES((!multiple(d, iv)) | (d == 0) | ((d >= iv) & multiple(d - iv, iv)));
}

static bool in_unit(uint64_t t) { return g_out_ms ? (t >= MAX_SEC_SINCE_EPOCH) & (t < MAX_MS_SINCE_EPOCH) : t < MAX_SEC_SINCE_EPOCH; }

extern "C" void ds_fill_emplace(DataPointVector *v, uint64_t *t, double *x)
{
    bool hit = false;
    double val = g_value;
    if (g_i < g_n)
    {
        hit = g_in[g_i].first == g_expect;
        if (hit) val = g_in[g_i].second;
    }
    ENSURES((g_i < g_n) | (g_expect <= g_to), "only intervals of the range");
    ENSURES(*t == g_expect, "next interval");
    ENSURES(vp_same(*x, val), "value of the interval");
    if (hit) g_i++;
    g_expect += g_iv;
}
extern "C" void ds_swap(DataPointVector *a, DataPointVector *b) {}

#define FILL uint64_t *ts, uint64_t *interval, DataPointPair **it, DataPointPair **end
extern "C" bool fill_sync(FILL) { return (*end == g_in + g_n) & (*ts >= g_from) & (*ts == g_expect) & (*interval == g_iv) & (g_i <= g_n); }
// one interval after the last point
extern "C" bool fill_place(FILL) { return g_i == 0 ? *ts == g_from : *ts == g_in[g_i - 1].first + g_iv; }
// the points are in order, inside the range, at starts of intervals
extern "C" void fill_ordered(FILL)
{
    *it = g_in + g_i;
    REQUIRES(g_i <= g_n);
    if (g_i > 0) REQUIRES(in_unit(g_in[g_i - 1].first) & (g_in[g_i - 1].first >= g_from));
    if (g_i < g_n)
    {
        uint64_t t = g_in[g_i].first, p = g_i ? g_in[g_i - 1].first : 0;
        REQUIRES(in_unit(t));
        if (g_i == 0) { REQUIRES((t >= g_from) & multiple(t - g_from, g_iv)); }
        else
        {
            REQUIRES((t > p) & multiple(t - p, g_iv));
            lemma(t - p, g_iv);
        }
    }
}
extern "C" bool fill_ahead(FILL)
{
    if (g_i == g_n) return false;
    return (*ts <= g_in[g_i].first) & multiple(g_in[g_i].first - *ts, g_iv) & in_unit(g_in[g_i].first) & in_unit(*ts);
}
extern "C" void fill_lemma(FILL) { if (g_i < g_n) lemma(g_in[g_i].first - *ts, g_iv); }
extern "C" bool fill_rest(FILL) { return g_i == g_n; }

HARNESS(fill)
{
    if (!vp_symbolic()) { run(vp_range("kind", 0, 7), false); return; }
    DownsamplerSum dd, *d = &dd;
    any_state(d);
    d->m_fill_value = vp_f64("value");
    bool same = d->m_ms == g_tstamp_resolution_ms;
    // intervals that can be told apart in the unit of the output
    uint64_t w = vp_range("width", 1, 1ULL << 40);
    d->m_interval = (!same & !d->m_ms) ? w * 1000 : w;
    g_iv = (!same & d->m_ms) ? w * 1000 : w;
    g_out_ms = d->m_ms;
    uint64_t from = vp_range("range", 0, MAX_MS_SINCE_EPOCH - 1), to = vp_range("to", 0, MAX_MS_SINCE_EPOCH - 1);
    REQUIRES(g_tstamp_resolution_ms ? (from >= MAX_SEC_SINCE_EPOCH) & (to >= MAX_SEC_SINCE_EPOCH) : (from < MAX_SEC_SINCE_EPOCH) & (to < MAX_SEC_SINCE_EPOCH) & (!d->m_ms | ((from >= 10000000) & (to >= 10000000))));
    d->m_time_range.m_from = from; d->m_time_range.m_to = to;
    g_from = validate_resolution(from, g_out_ms);
    g_to = validate_resolution(to, g_out_ms);
    g_value = d->m_fill_value;
    g_expect = g_from;
    g_i = 0;
    g_n = vp_range("n", 0, 1ULL << 30);
    g_in = (DataPointPair*)vp_words("points", g_n * 2);
    DataPointVector *v = (DataPointVector*)vp_obj("vec", sizeof(DataPointVector));
    v->_M_impl._M_start = g_in;
    v->_M_impl._M_finish = g_in + g_n;
    v->_M_impl._M_end_of_storage = g_in + g_n;
    d->fill_if_needed(*v);
    COVER("done");
    if (d->m_fill == DownsampleFillPolicy::DFP_NONE) ENSURES(g_expect == g_from, "nothing is filled in without a policy");
    else ENSURES((g_i == g_n) & (g_expect > g_to), "every point and every interval of the range");
}

// ---------------------------------------------------------------- intervals

// remainders (lemma2.smt2)
static void remainders(uint64_t t, uint64_t iv)
{
    if (!vp_symbolic()) return;
    uint64_t r = t % iv;
    REQUIRES((r < iv) & (r <= t));
    REQUIRES((t == 0) | ((t - 1) % iv == (r == 0 ? iv - 1 : r - 1)));
    REQUIRES((t == 0) | ((t + iv - 1) % iv == (r == 0 ? iv - 1 : r - 1)));
}

HARNESS(intervals)
{
    DownsamplerSum dd, *d = &dd;
    d->m_interval = vp_range("interval", 1, 1ULL << 50);
    d->m_all = vp_bool("all");
    d->m_start = vp_u64("start");
    uint64_t t = vp_range("t", 0, 1ULL << 62), iv = d->m_interval;
    remainders(t, iv);
    uint64_t a = d->step_down(t), b = d->step_up(t);
    COVER("done");
    if (d->m_all) { ENSURES((a == d->m_start) & (b == d->m_start), "a single interval"); return; }
    ENSURES((a <= t) & (t - a < iv) & (a == t - t % iv), "last start not after the timestamp");
    ENSURES((b >= t) & (b - t < iv) & (b == a + (t % iv != 0 ? iv : 0)), "first start not before the timestamp");
}

static int64_t g_num;
extern "C" long long ds_atoll(const char *s) { return g_num; }

HARNESS(setup)
{
    DownsamplerAvg dd, *d = &dd;
    const char *units[] = { "7ms", "7s", "7m", "7h", "7d", "7w", "0all" };
    const uint64_t mult[] = { 1, 1000, 60000, 3600000, 86400000, 604800000 };
    const char *fills[] = { nullptr, "nan", "null", "zero" };
    unsigned u = vp_split(vp_range("unit", 0, 6), 0, 6), f = vp_split(vp_range("fill", 0, 3), 0, 3);
    g_tstamp_resolution_ms = vp_split(vp_range("resolution", 0, 1), 0, 1) != 0;
    g_num = vp_symbolic() ? vp_range("num", 1, 1 << 20) : 7;
    REQUIRES((u != 0) | g_tstamp_resolution_ms);
    uint64_t from = vp_range("from", 0, MAX_MS_SINCE_EPOCH), to = vp_range("to", 0, MAX_MS_SINCE_EPOCH);
    REQUIRES(from <= to);
    char interval[8], fill[8];
    strcpy(interval, units[u]);
    if (f) strcpy(fill, fills[f]);
    bool ms = vp_bool("ms");
    uint64_t iv = g_num * (u == 6 ? 1 : g_tstamp_resolution_ms ? mult[u] : mult[u] / 1000);
    if (u != 6) { remainders(from, iv); remainders(to, iv); }
    d->initialize(interval, f ? fill : nullptr, TimeRange(from, to), ms);
    COVER("done");
    ENSURES((d->m_start == from) & (d->m_ms == ms) & (d->m_last_tstamp == TT_INVALID_TIMESTAMP) & (d->m_count == 0), "begins empty");
    ENSURES(d->m_all == (u == 6), "interval 'all'");
    ENSURES(d->m_fill == (f == 0 ? DownsampleFillPolicy::DFP_NONE : f == 1 ? DownsampleFillPolicy::DFP_NAN : f == 2 ? DownsampleFillPolicy::DFP_NULL : DownsampleFillPolicy::DFP_ZERO), "fill policy");
    if (f) ENSURES(f == 3 ? vp_same(d->m_fill_value, 0.0) : vp_isnan(d->m_fill_value), "fill value");
    if (u == 6)
    {
        ENSURES((d->m_time_range.m_from == from) & (d->m_time_range.m_to == to) & (d->m_interval > to - from), "one interval for the whole range");
        return;
    }
    ENSURES(d->m_interval == iv, "length of the interval");
    ENSURES(d->m_time_range.m_from == (from % iv == 0 ? from : from - from % iv + iv), "first interval that begins in the range");
    ENSURES(d->m_time_range.m_to == (to % iv == 0 ? to : to - to % iv + iv - 1), "last interval that begins in the range");
}
