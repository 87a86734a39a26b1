#include "vp.h"
#include "rate.h"
#include "global.h"
using namespace tt;

// ghost state: an arbitrary pair of consecutive points (k-1, k) as they were, and the slot its rate goes to;
// how many pairs are kept before the loop reaches point i, and whether the next one will be
static uint64_t g_n, g_k, g_j, g_cnt, g_pend;
static Timestamp g_t0, g_t1;
static double g_v0, g_v1;
static RateCalculator *g_rc;

static DataPointVector *vec(DataPointPair *p, uint64_t n)
{
    DataPointVector *v = (DataPointVector*)vp_obj("vec", sizeof(DataPointVector));
    v->_M_impl._M_start = p;
    v->_M_impl._M_finish = p + n;
    v->_M_impl._M_end_of_storage = p + n;
    return v;
}

static bool dropped(double v0, double v1)
{
    return g_rc->m_counter && (v1 - v0 < 0) && g_rc->m_drop_resets;
}

static double rate(Timestamp t0, double v0, Timestamp t1, double v1)
{
    double secs = (double)(t1 - t0);
    if (g_tstamp_resolution_ms) secs /= 1000.0;
    double d = v1 - v0;
    if (g_rc->m_counter && d < 0)
    {
        d = (double)g_rc->m_counter_max - v0 + v1;
        double r = d / secs;
        return (g_rc->m_reset_value != 0 && r > g_rc->m_reset_value) ? 0.0 : r;
    }
    return d / secs;
}

#define ARGS int *i, int *j, Timestamp *t0, double *v0, DataPointVector *dps
#define I ((uint64_t)*i)
#define J ((uint64_t)*j)

static bool keep_next(ARGS) { return I < g_n && !dropped(*v0, dps->_M_impl._M_start[I].second); }

extern "C" void rate_ghost(ARGS)
{
    if (I == g_k) g_j = J;
    g_cnt += g_pend;
    g_pend = keep_next(i, j, t0, v0, dps) ? 1 : 0;
}

extern "C" bool rate_range(ARGS)
{
    DataPointPair *d = dps->_M_impl._M_start;
    return (uint64_t)(dps->_M_impl._M_finish - d) == g_n && 1 <= *i && I <= g_n && 0 <= *j && *j < *i;
}

extern "C" bool rate_count(ARGS)
{
    return J == g_cnt && g_pend == (keep_next(i, j, t0, v0, dps) ? 1 : 0);
}

// points that have not been reached are untouched
extern "C" bool rate_ahead(ARGS)
{
    DataPointPair *d = dps->_M_impl._M_start;
    if (I > g_k) return true;
    return d[g_k].first == g_t1 && vp_same(d[g_k].second, g_v1) &&
        (I == g_k ? *t0 == g_t0 && vp_same(*v0, g_v0) && g_j == J
                  : d[g_k - 1].first == g_t0 && vp_same(d[g_k - 1].second, g_v0));
}

// the rate of the pair stays where it was put
extern "C" bool rate_behind(ARGS)
{
    DataPointPair *d = dps->_M_impl._M_start;
    if (I <= g_k || dropped(g_v0, g_v1)) return true;
    return g_j < g_k && g_j < J && d[g_j].first == g_t1 && vp_same(d[g_j].second, rate(g_t0, g_v0, g_t1, g_v1));
}

static RateCalculator *any_calc()
{
    RateCalculator *rc = (RateCalculator*)vp_obj("calc", sizeof(RateCalculator));
    rc->init(vp_bool("counter"), vp_bool("drop_resets"), vp_u64("counter_max"), vp_u64("reset_value"));
    g_tstamp_resolution_ms = vp_bool("ms");
    return rc;
}

static void fill(DataPointPair *p, uint64_t n)
{
    Timestamp t = vp_range("t", 1, 2000000000);
    for (uint64_t i = 0; i < n; i++)
    {
        p[i].first = t;
        t += vp_range("dt", 1, 5000);
        p[i].second = (double)(int64_t)vp_range("v", 0, 50) * 3.5;
    }
}

// any number of points
HARNESS(series)
{
    RateCalculator *rc = any_calc();
    g_rc = rc;
    if (!vp_symbolic())
    {
        uint64_t n = vp_range("n", 1, 40);
        DataPointPair *p = (DataPointPair*)vp_alloc("points", n * 16), *q = (DataPointPair*)vp_alloc("orig", n * 16);
        fill(p, n);
        memcpy(q, p, n * 16);
        DataPointVector *v = vec(p, n);
        rc->calculate(*v);
        uint64_t j = 0;
        for (uint64_t i = 1; i < n; i++)
        {
            if (dropped(q[i - 1].second, q[i].second)) continue;
            ENSURES(j < v->size(), "one rate per pair kept");
            ENSURES((*v)[j].first == q[i].first, "stamped with the later point");
            ENSURES(vp_same((*v)[j].second, rate(q[i - 1].first, q[i - 1].second, q[i].first, q[i].second)), "difference over seconds");
            j++;
        }
        ENSURES(v->size() == j, "one rate per pair kept");
        return;
    }
    g_n = vp_range("n", 1, 0x7ffffff0);
    DataPointPair *p = (DataPointPair*)vp_words("points", g_n * 2);
    g_k = vp_range("k", 0, 0x7ffffff0);
    REQUIRES(1 <= g_k && g_k < g_n);
    g_t0 = p[g_k - 1].first; g_v0 = p[g_k - 1].second;
    g_t1 = p[g_k].first; g_v1 = p[g_k].second;
    g_j = g_cnt = g_pend = 0;
    DataPointVector *v = vec(p, g_n);
    rc->calculate(*v);
    COVER("calculated");
    uint64_t m = v->_M_impl._M_finish - v->_M_impl._M_start;
    ENSURES(m == g_cnt, "one rate per pair kept");
    if (!dropped(g_v0, g_v1))
    {
        COVER("pair kept");
        ENSURES(g_j < m, "the rate of the pair is in the result");
        ENSURES(v->_M_impl._M_start[g_j].first == g_t1, "stamped with the later point");
        ENSURES(vp_same(v->_M_impl._M_start[g_j].second, rate(g_t0, g_v0, g_t1, g_v1)), "difference over seconds");
    }
}

// small series, fully unrolled
HARNESS(small)
{
    RateCalculator *rc = any_calc();
    g_rc = rc;
    uint64_t n = vp_split(vp_range("n", 0, 3), 0, 3);
    DataPointPair *p = (DataPointPair*)vp_buf("points", n * 16), *q = (DataPointPair*)vp_alloc("orig", n * 16);
    for (uint64_t i = 0; i < n; i++) q[i] = p[i];
    DataPointVector *v = vec(p, n);
    rc->calculate(*v);
    COVER("calculated");
    uint64_t m = v->_M_impl._M_finish - v->_M_impl._M_start;
    uint64_t j = 0;
    for (uint64_t i = 1; i < n; i++)
    {
        if (dropped(q[i - 1].second, q[i].second)) continue;
        ENSURES(j < m, "one rate per pair kept");
        ENSURES(p[j].first == q[i].first, "stamped with the later point");
        ENSURES(vp_same(p[j].second, rate(q[i - 1].first, q[i - 1].second, q[i].first, q[i].second)), "difference over seconds");
        j++;
    }
    ENSURES(m == j, "one rate per pair kept");
}
