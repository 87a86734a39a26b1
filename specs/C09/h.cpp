// Aggregation of series.
#include "vp.h"
#include "vpm.h"
#include <cfloat>
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "aggregate.h"
#include "global.h"
#include "memmgr.h"
#include "query.h"
#include "utils.h"
using namespace tt;

typedef std::reference_wrapper<DataPointVector> Ref;

// ---------------------------------------------------------------- on the real code

static double value_of(int kind, std::vector<double> &v)
{
    double s = 0, lo = v[0], hi = v[0];
    for (double x : v) { s += x; if (x < lo) lo = x; if (x > hi) hi = x; }
    switch (kind)
    {
        case 0: return s / (double)v.size();
        case 1: return (double)v.size();
        case 2: return hi;
        case 3: return lo;
        case 4: return s;
    }
    double mean = s / (double)v.size(), q = 0;
    for (double x : v) q += (x - mean) * (x - mean);
    return std::sqrt(q / (double)v.size());
}

static const char *NAMES[] = { "avg", "count", "max", "min", "sum", "dev" };

static void run(int kind)
{
    uint64_t n = vp_range("series", 0, 6), x = vp_u64("seed"), step = vp_range("step", 1, 6);
    std::vector<DataPointVector> s(n);
    std::map<uint64_t, std::vector<double>> want;
    for (uint64_t i = 0; i < n; i++)
    {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        uint64_t m = (x >> 40) % 12, t = (x >> 50) % 5;
        for (uint64_t k = 0; k < m; k++)
        {
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            double v = (double)(int64_t)((x >> 20) % 2001) - 1000.0;
            s[i].emplace_back(t, v);
            want[t].push_back(v);
            t += 1 + (x >> 45) % step;
        }
    }
    std::vector<Ref> src;
    for (uint64_t i = 0; i < n; i++) src.push_back(s[i]);
    DataPointVector dst;
    static Aggregator *kept[6];
    Aggregator *&a = kept[kind];
    if (a == nullptr) a = Aggregator::create(NAMES[kind]);
    a->merge(src, dst);
    ENSURES(dst.size() == want.size(), "one point per timestamp");
    uint64_t i = 0;
    for (auto &w : want)
    {
        ENSURES(dst[i].first == w.first, "timestamps in order");
        double r = value_of(kind, w.second), d = dst[i].second;
        ENSURES(r == d || std::fabs(r - d) <= 1e-9 * (std::fabs(r) + 1000.0), "value at the timestamp");
        i++;
    }
}

// ---------------------------------------------------------------- merging

// Series i is the g_n[i] points from g_d[i * MOST] on, times increasing. (g_j, g_p) is any point of any series, g_t and
// g_v are its time and value. Facts proved for it hold for all points; they are used for the points being looked at.
static const uint64_t BITS = 28, MOST = 1ULL << BITS;
static uint64_t g_size, g_j, g_p, g_t, g_w, g_nw, g_ts, g_next, g_k, g_last, g_cur;
static uint64_t *g_n, *g_refs;
static double g_v;
static int *g_idx;
static bool g_pass, g_added, g_seen, g_any, g_out;
static DataPointPair *g_d;
static DataPointVector *g_vec;

static DataPointPair &at(uint64_t i, uint64_t k) { return g_d[(i << BITS) + k]; }
static void series(uint64_t i) { REQUIRES(g_n[i] < MOST); }
static void ordered(uint64_t i, uint64_t a, uint64_t b) { REQUIRES(!((a < b) & (b < g_n[i])) | (at(i, a).first < at(i, b).first)); }

#define NONE TT_INVALID_TIMESTAMP

extern "C" DataPointVector *ag_series(Ref *r)
{
    uint64_t i = vp_offset(r) >> 3;
    ENSURES((vp_offset(r) == i << 3) & (i < g_size), "a series of the query");
    g_cur = i;
    series(i);
    if (!g_pass)
    {
        ENSURES(i == g_k, "the next series");
        g_k = i + 1;
        REQUIRES(g_idx[i] == 0);
        if (i == g_j) ordered(i, 0, g_p);
    }
    else
    {
        REQUIRES((g_idx[i] >= 0) & ((uint64_t)(int64_t)g_idx[i] <= g_n[i]));
        uint64_t a = (uint64_t)(int64_t)g_idx[i], b = (uint64_t)(int64_t)(g_idx[i] + 1);
        REQUIRES((a == g_n[i]) | (at(i, a).first >= g_ts));
        ordered(i, a, b);
        if (i == g_j)
        {
            ordered(i, a, g_p);
            ordered(i, b, g_p);
            if (a == g_p) ENSURES(at(i, a).first == g_t, "the point as it was");
            if (b == g_p) ENSURES(at(i, b).first == g_t, "the point as it was");
        }
    }
    g_vec->_M_impl._M_start = g_d + (i << BITS);
    g_vec->_M_impl._M_finish = g_vec->_M_impl._M_end_of_storage = g_d + (i << BITS) + g_n[i];
    return g_vec;
}

struct Ghost : public Aggregator
{
    void init() override { g_pass = true; g_added = false; g_next = NONE; }
    void add_data_point(DataPointPair &dp) override
    {
        ENSURES(dp.first == g_ts, "a point at the timestamp");
        ENSURES(vp_offset(&dp) == ((g_cur << BITS) + (uint64_t)(int64_t)g_idx[g_cur]) << 4, "the next point of the series");
        g_added = true;
        if ((g_cur == g_j) & (vp_offset(&dp) == ((g_j << BITS) + g_p) << 4))
        {
            ENSURES(!g_seen, "a point is combined once");
            ENSURES((dp.first == g_t) & vp_same(dp.second, g_v), "the point as it was");
            g_seen = true;
        }
    }
    bool has_data() override { return g_added; }
    void add_aggregated(Timestamp ts, DataPointVector &dps) override
    {
        ENSURES(ts == g_ts, "the timestamp of the points");
        ENSURES(g_added, "at least one point");
        ENSURES(!g_any | (g_last < ts), "timestamps increase");
        ENSURES((g_t != ts) | g_seen, "every point at the timestamp");
        if (g_t == ts) g_out = true;
        g_any = true;
        g_last = ts;
    }
};

static bool unread() { return (at(g_j, g_p).first == g_t) & vp_same(at(g_j, g_p).second, g_v); }
static bool waits(uint64_t w, uint64_t ts) { return (w < g_size) & (g_idx[w] >= 0) & ((uint64_t)(int64_t)g_idx[w] < g_n[w]) & (at(w, (uint64_t)(int64_t)g_idx[w]).first == ts); }

// loop 1
extern "C" bool ag_zero(int *idx, int *i) { return (*i >= 0) & ((uint64_t)*i <= g_size) & ((g_j >= (uint64_t)*i) | (idx[g_j] == 0)); }
extern "C" uint64_t ag_zero_var(int *idx, int *i) { return g_size - (uint64_t)(int64_t)*i; }

// loop 2
extern "C" void ag_first_ghost(int *idx, uint64_t *ts, uint64_t **begin, uint64_t **end)
{
    g_idx = idx;
    if (*ts != g_ts) { g_w = g_k - 1; g_ts = *ts; }
}
extern "C" void ag_first_fix(int *idx, uint64_t *ts, uint64_t **begin, uint64_t **end) { REQUIRES((g_k <= g_size) & (g_w < g_size)); g_idx = idx; *begin = g_refs + g_k; *end = g_refs + g_size; series(g_w); series(g_j); }
extern "C" bool ag_first(int *idx, uint64_t *ts, uint64_t **begin, uint64_t **end)
{
    return (g_k <= g_size) & (g_ts == *ts) & (idx[g_j] == 0) & (g_w < g_size) & ((g_j >= g_k) | (g_t >= *ts)) & unread() & ((*ts == NONE) | (waits(g_w, *ts) & (g_w < g_k)));
}
extern "C" uint64_t ag_first_var(int *idx, uint64_t *ts, uint64_t **begin, uint64_t **end) { return g_size - g_k; }

// loop 3
extern "C" void ag_time_ghost(int *idx, uint64_t *ts) { if (*ts != g_ts) { g_w = g_nw; g_ts = *ts; } }
extern "C" void ag_time_fix(int *idx, uint64_t *ts) { REQUIRES((g_w < g_size) & (g_nw < g_size)); series(g_w); series(g_j); }
extern "C" bool ag_time_point(int *idx, uint64_t *ts)
{
    uint64_t a = (uint64_t)(int64_t)idx[g_j];
    return (idx[g_j] >= 0) & (a <= g_n[g_j]) & (g_seen == (a > g_p)) & (g_seen | (unread() & (g_t >= *ts))) & (!g_seen | (g_t < *ts)) & (g_out == g_seen);
}
extern "C" bool ag_time_next(int *idx, uint64_t *ts) { return (g_ts == *ts) & (g_w < g_size) & (g_nw < g_size) & ((*ts == NONE) | waits(g_w, *ts)) & (!g_any | (g_last < *ts)); }
extern "C" uint64_t ag_time_var(int *idx, uint64_t *ts) { return NONE - *ts; }

// loop 4
#define PASS int *idx, uint64_t *ts, uint64_t *next, int *i
extern "C" void ag_pass_ghost(PASS) { if (*next != g_next) { g_nw = (uint64_t)(int64_t)*i - 1; g_next = *next; } }
extern "C" void ag_pass_fix(PASS) { REQUIRES((g_w < g_size) & (g_nw < g_size)); series(g_w); series(g_j); series(g_nw); }
extern "C" bool ag_pass_range(PASS) { return (*i >= 0) & ((uint64_t)*i <= g_size) & g_pass & (g_w < g_size) & (g_nw < g_size); }
extern "C" bool ag_pass_times(PASS) { return (*next > *ts) & (g_ts == *ts) & (g_next == *next); }
extern "C" bool ag_pass_place(PASS)
{
    uint64_t a = (uint64_t)(int64_t)idx[g_j];
    return (idx[g_j] >= 0) & (a <= g_n[g_j]) & (g_seen == (a > g_p));
}
extern "C" bool ag_pass_kept(PASS) { return g_seen | unread(); }
extern "C" bool ag_pass_before(PASS) { return !g_seen | (g_j < (uint64_t)*i ? g_t <= *ts : g_t < *ts); }
extern "C" bool ag_pass_after(PASS) { return g_seen | (g_t >= (g_j < (uint64_t)*i ? *next : *ts)); }
extern "C" bool ag_pass_out(PASS) { return g_out == (g_seen & (g_t < *ts)); }
extern "C" bool ag_pass_data(PASS) { return (uint64_t)*i > g_w ? g_added : waits(g_w, *ts); }
extern "C" bool ag_pass_next(PASS) { return (*next == NONE) | (waits(g_nw, *next) & (g_nw < (uint64_t)*i)); }
extern "C" uint64_t ag_pass_var(PASS) { return g_size - (uint64_t)(int64_t)*i; }

HARNESS(merge)
{
    if (!vp_symbolic()) { run(vp_range("kind", 0, 5)); return; }
    g_size = vp_range("series", 1, MOST - 1);
    g_n = (uint64_t*)vp_words("sizes", g_size);
    g_refs = (uint64_t*)vp_words("refs", g_size);
    g_d = (DataPointPair*)vp_words("points", MOST * MOST * 2);
    g_j = vp_u64("series_of_point");
    g_p = vp_u64("point");
    REQUIRES(g_j < g_size);
    series(g_j);
    REQUIRES(g_p < g_n[g_j]);
    g_t = at(g_j, g_p).first;
    g_v = at(g_j, g_p).second;
    REQUIRES(g_t != NONE);
    g_vec = (DataPointVector*)vp_obj("vec", sizeof(DataPointVector));
    g_vec->_M_impl._M_start = g_vec->_M_impl._M_finish = g_vec->_M_impl._M_end_of_storage = g_d;
    std::vector<Ref> *src = (std::vector<Ref>*)vp_obj("src", sizeof(std::vector<Ref>));
    src->_M_impl._M_start = (Ref*)g_refs;
    src->_M_impl._M_finish = src->_M_impl._M_end_of_storage = (Ref*)(g_refs + g_size);
    DataPointVector *dst = (DataPointVector*)vp_obj("dst", sizeof(DataPointVector));
    g_w = g_nw = g_k = 0;
    g_ts = NONE;
    Ghost g;
    g.merge(*src, *dst);
    COVER("merged");
    ENSURES(g_seen, "every point is combined");
    ENSURES(g_out, "a result at the time of every point");
}

// no series at all
HARNESS(none)
{
    std::vector<Ref> src;
    DataPointVector dst;
    Ghost g;
    g.merge(src, dst);
    COVER("merged");
    ENSURES(dst.empty(), "nothing");
}

// ---------------------------------------------------------------- functions

static const uint64_t CAP = 1ULL << 40;

struct Out { DataPointPair *p; uint64_t n; DataPointVector *v; };
static Out any_out()
{
    Out x;
    x.n = vp_range("n", 0, CAP - 8);
    x.p = (DataPointPair*)vp_words("points", 2 * CAP);
    x.v = (DataPointVector*)vp_obj("vec", sizeof(DataPointVector));
    x.v->_M_impl._M_start = x.p;
    x.v->_M_impl._M_finish = x.p + x.n;
    x.v->_M_impl._M_end_of_storage = x.p + CAP;
    return x;
}
// the result goes behind what is there
static double emitted(Aggregator &a)
{
    Out x = any_out();
    uint64_t t = vp_u64("t"), k = vp_u64("other");
    REQUIRES(k < x.n);
    DataPointPair o = x.p[k];
    a.add_aggregated(t, *x.v);
    ENSURES(x.v->_M_impl._M_finish == x.p + x.n + 1, "one point");
    ENSURES(x.p[x.n].first == t, "at the timestamp");
    ENSURES((x.p[k].first == o.first) & vp_same(x.p[k].second, o.second), "others as they were");
    return x.p[x.n].second;
}
static DataPointPair any_point() { return DataPointPair(vp_u64("time"), vp_f64("value")); }

HARNESS(avg)
{
    if (!vp_symbolic()) { run(0); return; }
    AggregatorAvg a;
    a.m_count = (int)vp_u32("count");
    a.m_sum = vp_f64("sum");
    int c = a.m_count;
    double s = a.m_sum;
    DataPointPair dp = any_point();
    if (vp_bool("init"))
    {
        a.init();
        ENSURES(!a.has_data(), "nothing yet");
        a.add_data_point(dp);
        ENSURES(a.has_data(), "one point");
        ENSURES(vp_same(emitted(a), (0.0 + dp.second) / 1.0), "average of one point");
        COVER("one");
    }
    else
    {
        REQUIRES((c >= 1) & (c < 0x7fffffff));
        a.add_data_point(dp);
        ENSURES(a.has_data(), "has points");
        ENSURES((a.m_count == c + 1) & vp_same(a.m_sum, s + dp.second), "one more point");
        ENSURES(vp_same(emitted(a), (s + dp.second) / (double)(c + 1)), "average");
        COVER("more");
    }
}

HARNESS(count)
{
    if (!vp_symbolic()) { run(1); return; }
    AggregatorCount a;
    a.m_count = (int)vp_u32("count");
    if (vp_bool("init")) { a.init(); ENSURES(!a.has_data() & (a.m_count == 0), "nothing yet"); }
    int c = a.m_count;
    REQUIRES((c >= 0) & (c < 0x7fffffff));
    DataPointPair dp = any_point();
    a.add_data_point(dp);
    ENSURES(a.has_data() & (a.m_count == c + 1), "one more point");
    ENSURES(vp_same(emitted(a), (double)(c + 1)), "number of points");
    COVER("counted");
}

HARNESS(max)
{
    if (!vp_symbolic()) { run(2); return; }
    AggregatorMax a;
    a.m_max = vp_f64("max");
    a.m_has_data = true;
    if (vp_bool("init")) { a.init(); ENSURES(!a.has_data(), "nothing yet"); }
    double m = a.m_max;
    bool some = a.has_data();
    DataPointPair dp = any_point();
    REQUIRES((m == m) & (dp.second == dp.second));
    a.add_data_point(dp);
    ENSURES(a.has_data(), "has points");
    double r = emitted(a);
    ENSURES((r >= dp.second) & (!some | (r >= m)), "not below any value");
    ENSURES((r == dp.second) | (some & (r == m)), "one of the values");
    COVER("max");
}

HARNESS(min)
{
    if (!vp_symbolic()) { run(3); return; }
    AggregatorMin a;
    a.m_min = vp_f64("min");
    a.m_has_data = true;
    if (vp_bool("init")) { a.init(); ENSURES(!a.has_data(), "nothing yet"); }
    double m = a.m_min;
    bool some = a.has_data();
    DataPointPair dp = any_point();
    REQUIRES((m == m) & (dp.second == dp.second));
    a.add_data_point(dp);
    ENSURES(a.has_data(), "has points");
    double r = emitted(a);
    ENSURES((r <= dp.second) & (!some | (r <= m)), "not above any value");
    ENSURES((r == dp.second) | (some & (r == m)), "one of the values");
    COVER("min");
}

HARNESS(sum)
{
    if (!vp_symbolic()) { run(4); return; }
    AggregatorSum a;
    a.m_sum = vp_f64("sum");
    a.m_has_data = true;
    if (vp_bool("init")) { a.init(); ENSURES(!a.has_data() & vp_same(a.m_sum, 0.0), "nothing yet"); }
    double s = a.m_sum;
    DataPointPair dp = any_point();
    a.add_data_point(dp);
    ENSURES(a.has_data(), "has points");
    ENSURES(vp_same(emitted(a), s + dp.second), "sum");
    COVER("sum");
}

static int g_type;
extern "C" Recyclable *ag_alloc(RecyclableType t)
{
    ENSURES(g_type < 0, "one object");
    g_type = (int)t;
    return (Recyclable*)vp_obj("object", 256);
}
HARNESS(create)
{
    static const RecyclableType TYPES[] = { RecyclableType::RT_AGGREGATOR_AVG, RecyclableType::RT_AGGREGATOR_COUNT, RecyclableType::RT_AGGREGATOR_MAX,
                                            RecyclableType::RT_AGGREGATOR_MIN, RecyclableType::RT_AGGREGATOR_SUM, RecyclableType::RT_AGGREGATOR_DEV };
    if (!vp_symbolic()) { run(vp_range("kind", 0, 5)); return; }
    for (int k = 0; k < 6; k++)
    {
        g_type = -1;
        Aggregator *a = Aggregator::create(NAMES[k]);
        COVER("created");
        ENSURES(g_type == (int)TYPES[k], "the function asked for");
    }
}

// the values are kept in order of arrival
static std::vector<double> *any_values(double *&p, uint64_t &n)
{
    n = vp_range("n_values", 0, CAP - 8);
    p = (double*)vp_words("values", CAP);
    std::vector<double> *v = (std::vector<double>*)vp_obj("value_vec", sizeof(std::vector<double>));
    v->_M_impl._M_start = p;
    v->_M_impl._M_finish = p + n;
    v->_M_impl._M_end_of_storage = p + CAP;
    return v;
}

HARNESS(dev)
{
    if (!vp_symbolic()) { run(5); return; }
    double *p;
    uint64_t n;
    AggregatorDev *a = (AggregatorDev*)vp_obj("dev", sizeof(AggregatorDev));
    std::vector<double> *v = any_values(p, n);
    a->m_values._M_impl._M_start = v->_M_impl._M_start;
    a->m_values._M_impl._M_finish = v->_M_impl._M_finish;
    a->m_values._M_impl._M_end_of_storage = v->_M_impl._M_end_of_storage;
    a->m_has_data = vp_bool("some");
    if (vp_bool("init"))
    {
        a->AggregatorDev::init();
        n = 0;
        ENSURES(!a->m_has_data & (a->m_values._M_impl._M_finish == p), "nothing yet");
    }
    DataPointPair dp = any_point();
    uint64_t k = vp_u64("other");
    REQUIRES(k < n);
    double o = p[k];
    a->AggregatorDev::add_data_point(dp);
    bool finite = (dp.second == dp.second) & (std::fabs(dp.second) <= DBL_MAX);
    ENSURES(a->m_has_data, "has points");
    ENSURES(a->m_values._M_impl._M_finish == p + n + (finite ? 1 : 0), "one more value");
    if (finite) ENSURES(vp_same(p[n], dp.second), "the value");
    ENSURES(vp_same(p[k], o), "others as they were");
    COVER("kept");
}

static double g_dev;
static AggregatorDev *g_agg;
extern "C" double dev_stub(const std::vector<double> *v)
{
    ENSURES(v == &g_agg->m_values, "of the values kept");
    return g_dev;
}
HARNESS(dev_out)
{
    if (!vp_symbolic()) { run(5); return; }
    AggregatorDev a;
    g_agg = &a;
    g_dev = vp_f64("dev");
    ENSURES(vp_same(emitted(a), g_dev), "deviation of the values");
    COVER("deviation");
}

// mean and sum of squared differences after the values before n
static double g_mean, g_m2;
static double *g_vals;
static uint64_t g_count, g_seen_n;
extern "C" void dev_ghost(int *n, double *mean, double *m2)
{
    uint64_t k = (uint64_t)(int64_t)*n;
    if (k == 1) { g_mean = g_vals[0]; g_m2 = 0.0; }
    else if (k == g_seen_n + 1)
    {
        double x = g_vals[k - 1], m = g_mean + (x - g_mean) / (double)(int)k;
        g_m2 = g_m2 + (x - g_mean) * (x - m);
        g_mean = m;
    }
    g_seen_n = k;
}
extern "C" bool dev_inv(int *n, double *mean, double *m2)
{
    return (*n >= 1) & ((uint64_t)*n <= g_count) & (g_seen_n == (uint64_t)*n) & vp_same(*mean, g_mean) & vp_same(*m2, g_m2);
}
extern "C" uint64_t dev_var(int *n, double *mean, double *m2) { return g_count - (uint64_t)(int64_t)*n; }

HARNESS(stddev)
{
    if (!vp_symbolic()) { run(5); return; }
    std::vector<double> *v = any_values(g_vals, g_count);
    REQUIRES(g_count < 0x7fffffff);
    double r = AggregatorDev::stddev(*v);
    COVER("calculated");
    if (g_count == 0) ENSURES(r != r, "no values");
    else if (g_count == 1) ENSURES(vp_same(r, 0.0), "one value");
    else ENSURES(vp_same(r, std::sqrt(g_m2 / (double)(int)g_count)), "root of the mean squared difference");
}
