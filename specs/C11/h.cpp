#include "vp.h"
#include "range.h"
#include "cal.h"
#include "utils.h"
using namespace tt;

static bool in(const TimeRange& r, Timestamp x) { return r.get_from() <= x && x < r.get_to(); }
static bool empty(const TimeRange& r) { return r.get_to() <= r.get_from(); }

HARNESS(merge)
{
    TimeRange a(vp_u64("a0"), vp_u64("a1")), b(vp_u64("b0"), vp_u64("b1")), r(a);
    Timestamp x = vp_u64("x");
    r.merge(b);
    COVER("merged");
    ENSURES(!(in(a, x) || in(b, x)) || in(r, x), "covers both ranges");
    ENSURES(r.get_from() == a.get_from() || r.get_from() == b.get_from(), "starts where one of them starts");
    ENSURES(r.get_to() == a.get_to() || r.get_to() == b.get_to(), "ends where one of them ends");
    ENSURES(r.get_from() <= a.get_from() && r.get_from() <= b.get_from(), "starts with the earlier");
    ENSURES(r.get_to() >= a.get_to() && r.get_to() >= b.get_to(), "ends with the later");
    ENSURES(r.contains(a) && r.contains(b), "contains both");
}

HARNESS(intersect)
{
    TimeRange a(vp_u64("a0"), vp_u64("a1")), b(vp_u64("b0"), vp_u64("b1")), r(a);
    Timestamp x = vp_u64("x");
    r.intersect(b);
    COVER("intersected");
    ENSURES(in(r, x) == (in(a, x) && in(b, x)), "exactly the common instants");
    ENSURES(r.get_from() >= a.get_from() && r.get_from() >= b.get_from(), "starts with the later");
}

HARNESS(add_time)
{
    TimeRange a(vp_u64("a0"), vp_u64("a1")), r(a), m(TimeRange::MIN);
    Timestamp t = vp_u64("t"), x = vp_u64("x");
    REQUIRES(t != ~0ULL);
    r.add_time(t);
    COVER("added");
    ENSURES(!in(a, x) || in(r, x), "keeps what was in the range");
    ENSURES(in(r, t), "covers the instant added");
    ENSURES(r.get_from() == a.get_from() || r.get_from() == t, "no more than needed on the left");
    ENSURES(r.get_to() == a.get_to() || r.get_to() == t + 1, "no more than needed on the right");
    m.add_time(t);
    ENSURES(m.get_from() == t && m.get_to() == t + 1, "the empty range becomes that instant");
}

HARNESS(tests)
{
    TimeRange a(vp_u64("a0"), vp_u64("a1")), b(vp_u64("b0"), vp_u64("b1"));
    Timestamp x = vp_u64("x");
    COVER("tested");
    int s = a.in_range_strictly(x);
    ENSURES((s == 0) == in(a, x), "strict test: exactly the instants of the range");
    ENSURES(s != -1 || x < a.get_from(), "strict test: left");
    ENSURES(s != 1 || (x >= a.get_to() && x >= a.get_from()), "strict test: right");
    ENSURES(s >= -1 && s <= 1, "strict test: three answers");
    int c = a.in_range(x);
    ENSURES((c == 0) == (a.get_from() <= x && x <= a.get_to()), "inclusive test: the range and its end");
    ENSURES((c < 0) == (x < a.get_from()), "inclusive test: left");
    ENSURES(c >= -1 && c <= 1, "inclusive test: three answers");
    bool h = a.has_intersection(b);
    ENSURES(!(in(a, x) && in(b, x)) || h, "a common instant is an intersection");
    Timestamp w = a.get_from() > b.get_from() ? a.get_from() : b.get_from();
    ENSURES(!h || empty(a) || empty(b) || (in(a, w) && in(b, w)), "an intersection has a common instant");
    bool k = a.contains(b);
    ENSURES(!k || !in(b, x) || in(a, x), "containing");
    ENSURES(k || empty(b) || !in(a, b.get_from()) || !in(a, b.get_to() - 1), "not containing");
    ENSURES(a.equals(b) == (a.get_from() == b.get_from() && a.get_to() == b.get_to()), "equality");
    ENSURES(empty(a) || in(a, a.get_middle()), "the middle is inside");
    ENSURES(TimeRange::MAX.get_from() == 0 && TimeRange::MAX.get_to() == ~0ULL, "the widest range");
    ENSURES(TimeRange::MIN.get_from() == ~0ULL && TimeRange::MIN.get_to() == 0, "the empty range");
}

// ---- month table ----
static uint64_t g_n, g_ts, g_i;

#define ARGS int *left, int *right
#define M (Calendar::m_months._M_impl._M_start)

extern "C" bool month_inv(ARGS)
{
    return 0 <= *left && *left < *right && (uint64_t)*right < g_n && M[*left] <= g_ts && g_ts < M[*right] &&
        (uint64_t)(Calendar::m_months._M_impl._M_finish - M) == g_n;
}
extern "C" uint64_t month_var(ARGS) { return (uint64_t)(*right - *left); }

static void table(uint64_t *p, uint64_t n)
{
    M = p;
    Calendar::m_months._M_impl._M_finish = p + n;
    Calendar::m_months._M_impl._M_end_of_storage = p + n;
}

// tables of any length
HARNESS(search)
{
    g_n = vp_range("n", 2, 0x7ffffff0);
    uint64_t *p;
    g_ts = vp_u64("ts");
    if (vp_symbolic())
        p = (uint64_t*)vp_words("months", g_n);
    else
    {
        g_n = 2 + g_n % 30;
        p = (uint64_t*)vp_alloc("months", g_n * 8);
        p[0] = vp_range("m", 0, 1000000);
        for (uint64_t i = 1; i < g_n; i++) p[i] = p[i-1] + vp_range("d", 1, 5);
        if (g_ts & 1) g_ts = p[0] + (g_ts >> 1) % (p[g_n-1] - p[0] + 3) - 1;
    }
    table(p, g_n);
    bool covered = p[0] <= g_ts && g_ts < p[g_n-1];
    int i = Calendar::binary_search(g_ts, (int)g_n);
    if (covered)
    {
        COVER("covered");
        ENSURES(0 <= i && (uint64_t)i + 1 < g_n, "a month of the table");
        REQUIRES(p[i] < p[i+1]);        // the table is sorted
        ENSURES(p[i] <= g_ts && g_ts < p[i+1], "the month that contains the instant");
    }
    else
    {
        COVER("not covered");
        ENSURES(i == -1, "instants outside of the table are not covered");
    }
    table(nullptr, 0);
}

// the lookups given the contract of the search
#ifdef VP_IR
extern "C" int stub_search(Timestamp ts, int n)
{
    vp_requires((uint64_t)n == g_n, "searches the whole table");
    if (n == 0 || ts < M[0] || M[n-1] <= ts) return -1;
    int i = (int)vp_ghost_u64();
    vp_assume(0 <= i && i < n - 1 && M[i] <= ts && ts < M[i+1]);
    g_i = i;
    return i;
}
#endif
HARNESS(lookups)
{
    g_n = vp_range("n", 2, 0x7ffffff0);
    if (!vp_symbolic()) g_n = 2 + g_n % 30;
    uint64_t *p = (uint64_t*)vp_words("months", g_n);
    if (!vp_symbolic()) p[0] >>= 1;
    if (!vp_symbolic()) for (uint64_t i = 1; i < g_n; i++) p[i] = p[i-1] + 1 + p[i] % 5;
    Timestamp ts = vp_u64("ts");
    if (!vp_symbolic()) ts = p[0] + ts % (p[g_n-1] - p[0]);
    REQUIRES(p[0] <= ts && ts < p[g_n-1]);
    COVER("covered");
    bool e = vp_bool("end");
    table(p, g_n);
    g_i = 0;
    Timestamp t = e ? Calendar::end_month_of(ts) : Calendar::begin_month_of(ts);
    if (!vp_symbolic()) while (g_ts = ts, p[g_i+1] <= ts) g_i++;
    ENSURES(t == p[g_i + (e ? 1 : 0)], "the beginning or end of the month found");
    table(nullptr, 0);
}

HARNESS(search_empty)
{
    table(nullptr, 0);
    ENSURES(Calendar::binary_search(vp_u64("ts"), 0) == -1, "the empty table covers nothing");
    COVER("empty");
}

// ---- filling the table: six consecutive months, any part of them in the table ----
enum { NM = 6 };
static uint64_t g_m[NM + 1], g_s;
#ifdef VP_IR
#include "vpm.h"
extern "C" struct tm *stub_gmtime_r(const time_t *t, struct tm *r)
{
    vp_requires((uint64_t)*t >= g_m[0] && (uint64_t)*t < g_m[NM], "an instant of the months considered");
    int k = 0;
    for (int i = 1; i < NM; i++) if ((uint64_t)*t >= g_m[i]) k = i;
    k = (int)vp_split(k, 0, NM - 1);
    r->tm_year = 123 + (k + (int)g_s) / 12;
    r->tm_mon = (k + (int)g_s) % 12;
    return r;
}
extern "C" time_t stub_timegm(struct tm *r)
{
    int k = (r->tm_year - 123) * 12 + r->tm_mon - (int)g_s;
    vp_requires(k >= 0 && k <= NM && r->tm_mday == 1 && r->tm_hour == 0 && r->tm_min == 0 && r->tm_sec == 0 &&
        r->tm_mon >= 0 && r->tm_mon < 12, "the first instant of a month");
    return (time_t)g_m[k];
}
#endif

HARNESS(fill)
{
    // January 2023 to December 2024 for the first of them
    g_s = vp_split(vp_range("start", 0, 23), 0, 23);
    static const uint8_t days[24] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    g_m[0] = 1672531200;
    for (uint64_t i = 0; i < g_s; i++) g_m[0] += 86400 * days[i];
    for (int i = 1; i <= NM; i++) g_m[i] = g_m[i-1] + 86400 * ((g_s + i - 1) == 25 ? 28 : days[(g_s + i - 1) % 24]);
    uint64_t a = vp_split(vp_range("a", 0, 3), 0, 3), n = vp_split(vp_range("n", 0, 3), 0, 3);
    REQUIRES(n != 1);
    Calendar::m_months._M_impl._M_start = Calendar::m_months._M_impl._M_finish = Calendar::m_months._M_impl._M_end_of_storage = nullptr;
    for (uint64_t i = 0; i < n; i++) Calendar::m_months.push_back(g_m[a + i]);
    uint64_t k = vp_split(vp_range("which", 0, NM - 1), 0, NM - 1);
    Timestamp ts = vp_u64("ts");
    if (!vp_symbolic()) ts = g_m[k] + ts % (g_m[k+1] - g_m[k]);
    REQUIRES(g_m[k] <= ts && ts < g_m[k+1]);
    if (vp_bool("end"))
        ENSURES(Calendar::end_month_of(ts) == g_m[k+1], "the end of the month of the instant");
    else
        ENSURES(Calendar::begin_month_of(ts) == g_m[k], "the beginning of the month of the instant");
    COVER("looked up");
    uint64_t m = Calendar::m_months.size(), lo = n == 0 || k < a ? k : a;
    for (uint64_t i = 0; i < m; i++)
        ENSURES(lo + i <= NM && Calendar::m_months[i] == g_m[lo + i], "the table holds consecutive months");
    ENSURES(m >= 2 && lo + m - 1 >= k + 1, "the table covers the instant");
    ENSURES(n == 0 || lo + m - 1 >= a + n - 1, "the table covers what it covered before");
    Calendar::m_months.clear();
    Calendar::m_months.shrink_to_fit();
}
