#include "vp.h"
#include "utils.h"
#include "limit.h"
#include "global.h"
#include "config.h"
#ifdef VP_IR
#include "vpm.h"
#endif
using namespace tt;

// units of absolute timestamps are told apart by magnitude
HARNESS(classify)
{
    uint64_t t = vp_u64("t");
    COVER("end");
    ENSURES(is_sec(t) + is_ms(t) + is_us(t) + is_ns(t) == 1, "exactly one unit");
    uint64_t s = vp_range("s", 10000000, 9999999999ULL);
    ENSURES(is_sec(s) && is_ms(s * 1000) && is_us(s * 1000000) && (s > 9999999999ULL / 2 || is_ns(s * 1000000000)), "the same instant in each unit");
}

HARNESS(to_unit)
{
    uint64_t t = vp_u64("t");
    // seconds or milliseconds
    REQUIRES(t < MAX_MS_SINCE_EPOCH);
    uint64_t ms = to_ms(t), sec = to_sec(t);
    COVER("end");
    ENSURES(ms == (is_sec(t) ? t * 1000 : t), "milliseconds");
    ENSURES(sec == (is_sec(t) ? t : t / 1000), "seconds");
}

HARNESS(validate)
{
    // the same instant given in any unit ends up as the same timestamp
    uint64_t ns = vp_u64("ns");
    REQUIRES(ns >= MAX_US_SINCE_EPOCH);
    bool ms = vp_bool("ms");
    uint64_t us = ns / 1000, mi = ns / 1000000, se = ns / 1000000000;
    uint64_t want = ms ? mi : se;
    uint64_t a = validate_resolution(ns, ms), b = validate_resolution(us, ms), c = validate_resolution(mi, ms),
        s2 = vp_range("sec", MAX_SEC_SINCE_EPOCH / 1000, MAX_SEC_SINCE_EPOCH - 1), d = validate_resolution(s2, ms);
    COVER("end");
    REQUIRES(us >= MAX_MS_SINCE_EPOCH && us < MAX_US_SINCE_EPOCH && mi >= MAX_SEC_SINCE_EPOCH);
    COVER("all units");
    ENSURES(a == want, "from nanoseconds");
    ENSURES(b == want, "from microseconds");
    ENSURES(c == want, "from milliseconds");
    ENSURES(d == (ms ? s2 * 1000 : s2), "from seconds");
    ENSURES(ms ? is_ms(a) && is_ms(b) && is_ms(c) && is_ms(d) : is_sec(a) && is_sec(b) && is_sec(c) && is_sec(d), "result has the unit asked for");
}

HARNESS(validate_default)
{
    uint64_t t = vp_u64("t");
    bool ms = vp_bool("ms");
    g_tstamp_resolution_ms = ms;
    COVER("end");
    ENSURES(validate_resolution(t) == validate_resolution(t, ms), "uses the configured resolution");
}

static const uint64_t H = 3600000ULL;

HARNESS(durations)
{
    const TimeUnit units[] = { TimeUnit::MS, TimeUnit::SEC, TimeUnit::MIN, TimeUnit::HOUR, TimeUnit::DAY, TimeUnit::WEEK, TimeUnit::MONTH, TimeUnit::YEAR };
    const uint64_t size[] = { 1, 1000, 60000, H, 24*H, 7*24*H, 30*24*H, 365*24*H };
    unsigned f = vp_split(vp_range("from", 0, 7), 0, 7), t = vp_split(vp_range("to", 0, 7), 0, 7);
    uint64_t n = vp_u64("n");
    uint64_t a = size[f], b = size[t];
    // common divisor, in two steps
    if (a % (24*H) == 0 && b % (24*H) == 0) { a /= 24*H; b /= 24*H; }
    if (a % b == 0) { a /= b; b = 1; }
    else if (b % a == 0) { b /= a; a = 1; }
    REQUIRES(n <= UINT64_MAX / a);
    uint64_t r = convert_time(n, units[f], units[t]);
    COVER("end");
    ENSURES(r == n * a / b, "same duration, rounded down");
}

HARNESS(buckets)
{
    uint64_t t = vp_u64("t"), iv = vp_range("interval", 1, 1ULL << 40);
    uint64_t r = step_down(t, iv);
    COVER("end");
    ENSURES(r == t - t % iv, "largest multiple of the interval");
    ENSURES(r <= t && t - r < iv, "not after the timestamp, less than an interval away");
}

// unit names as in "2h-ago"
static int first_unit(const char *s, uint64_t n, uint64_t &at)
{
    for (uint64_t i = 0; i < n; i++)
    {
        unsigned char c = s[i];
        if ('A' <= c && c <= 'Z') c += 32;
        if ('d' <= c && c <= 'y') { at = i; return c; }
    }
    return 0;
}

HARNESS(unit_names)
{
    uint64_t n = vp_split(vp_range("n", 0, 6), 0, 6);
    char *s = (char*)vp_buf("s", n);
    TimeUnit u = to_time_unit(s, n);
    uint64_t at = 0;
    int c = first_unit(s, n, at);
    int d = 0;
    if (at + 1 < n) { d = (unsigned char)s[at + 1]; if ('A' <= d && d <= 'Z') d += 32; }
    COVER("end");
    TimeUnit want = c == 'd' ? TimeUnit::DAY : c == 'h' ? TimeUnit::HOUR : c == 's' ? TimeUnit::SEC : c == 'w' ? TimeUnit::WEEK
        : c == 'y' ? TimeUnit::YEAR : c == 'n' ? TimeUnit::MONTH
        : c == 'm' ? (d == 'o' ? TimeUnit::MONTH : d == 's' ? TimeUnit::MS : TimeUnit::MIN) : TimeUnit::UNKNOWN;
    ENSURES(u == want, "unit name");
}
