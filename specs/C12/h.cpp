#include "vp.h"
#include "vpm.h"
#include <cfloat>
#include <cmath>
#include <cstdio>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "cal.h"
#include "compress.h"
#include "config.h"
#include "dp.h"
#include "global.h"
#include "limit.h"
#include "mmap.h"
#include "query.h"
#include "rollup.h"
#include "tsdb.h"
#include "utils.h"
using namespace tt;

static const uint64_t HR = 3600;

// ---------------------------------------------------------------- on the real code

static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-3 * (std::fabs(a) + std::fabs(b) + 1); }

static RollupDataFile *month_file(uint32_t mid, uint64_t t)
{
    uint64_t begin = Calendar::begin_month_of(t);
    uint64_t key = begin * MAX_ROLLUP_BUCKET_COUNT + RollupManager::get_rollup_bucket(mid, nullptr);
    auto it = RollupManager::m_data_files.find(key);
    if (it != RollupManager::m_data_files.end()) return it->second;
    int year, month;
    get_year_month(begin, year, month);
    if (!RollupManager::m_configs.count(year * 100 + month)) RollupManager::m_configs[year * 100 + month] = new Config("/nonexistent/config");
    RollupDataFile *f = new RollupDataFile(mid, begin, RL_LEVEL1);
    f->m_file = std::tmpfile();
    f->m_read_only = false;
    RollupManager::m_data_files[key] = f;
    return f;
}

struct Stat { uint32_t cnt; double min, max, sum; };

// feeds two series over some months and reads the records back
static void run()
{
    if (Config::m_instance == nullptr) { Config::m_instance = new Config("/nonexistent/config"); Config::m_instance->set_value(CFG_TSDB_DATA_DIR, "/nonexistent"); }
    bool old_res = g_tstamp_resolution_ms;
    g_tstamp_resolution_ms = vp_bool("resolution");
    uint64_t unit = g_tstamp_resolution_ms ? 1000 : 1;
    uint32_t mid = vp_range("metric", 0, 3);
    uint64_t x = vp_u64("seed"), t = vp_range("start", 100000000, 2000000000);
    uint64_t version = vp_range("version", 1, 2);
    RollupManager m[2];
    std::map<uint64_t, Stat> want[2];
    std::vector<RollupDataFile*> files;
    uint64_t n = vp_range("points", 1, 60), first = t;
    for (uint64_t i = 0; i < n; i++)
    {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        uint64_t kind = (x >> 33) % 16;
        t += kind == 0 ? (x >> 40) % (70 * 86400) : kind < 4 ? (x >> 40) % (20 * 3600) : (x >> 40) % 2000;
        RollupDataFile *f = month_file(mid, t);
        f->m_compressor_version = version;
        if (files.empty() || files.back() != f) files.push_back(f);
        int s = (x >> 20) & 1;
        double v = (double)(int64_t)((x >> 21) % 1000) - 500.0;
        // hours of a month that is left are filled up: its file has to be known
        if (m[s].m_tstamp != TT_INVALID_TIMESTAMP) month_file(mid, m[s].m_tstamp);
        DataPoint dp(t * unit, v);
        m[s].add_data_point((Tsdb*)(uintptr_t)64, mid, 10 + s, dp);
        auto it = want[s].find(t - t % HR);
        if (it == want[s].end()) want[s][t - t % HR] = Stat{ 1, v, v, v };
        else { Stat &w = it->second; w.cnt++; w.sum += v; if (v < w.min) w.min = v; if (v > w.max) w.max = v; }
    }
    uint64_t lo = first + vp_range("after", 0, 40 * 86400), hi = vp_bool("open") ? t + 7200 : lo + vp_range("length", 0, 50 * 86400);
    RollupType type = (RollupType)(1 << vp_range("type", 0, 4));
    RollupType types[] = { RollupType::RU_AVG, RollupType::RU_CNT, RollupType::RU_MAX, RollupType::RU_MIN, RollupType::RU_SUM };
    int k = vp_range("statistic", 0, 4);
    type = types[k];
    QueryTask task[2];
    std::unordered_map<TimeSeriesId, QueryTask*> map;
    map[10] = &task[0]; map[11] = &task[1];
    TimeRange range(lo * unit, hi * unit);
    for (auto f : files) f->query_level1(range, map, type);
    for (int s = 0; s < 2; s++)
    {
        DataPointPair dp;
        if (m[s].query(type, dp) && dp.first >= lo && dp.first <= hi) { dp.first *= unit; task[s].m_dps.push_back(dp); }
        uint64_t i = 0;
        for (auto &w : want[s])
        {
            if (w.first < lo || w.first > hi) continue;
            ENSURES(i < task[s].m_dps.size(), "a record for every hour with points");
            DataPointPair p = task[s].m_dps[i++];
            ENSURES(p.first == w.first * unit, "record of the hour");
            double r = k == 0 ? w.second.sum / w.second.cnt : k == 1 ? w.second.cnt : k == 2 ? w.second.max : k == 3 ? w.second.min : w.second.sum;
            ENSURES(close(p.second, r), "statistic of the hour");
        }
        ENSURES(i == task[s].m_dps.size(), "no further records");
    }
    for (auto &f : RollupManager::m_data_files) delete f.second;
    RollupManager::m_data_files.clear();
    g_tstamp_resolution_ms = old_res;
}

// ---------------------------------------------------------------- state

static void any_pending(RollupManager &m, Stat &s)
{
    s.cnt = vp_u32("cnt"); s.min = vp_f64("min"); s.max = vp_f64("max"); s.sum = vp_f64("sum");
    m.m_cnt = s.cnt; m.m_min = s.min; m.m_max = s.max; m.m_sum = s.sum;
}
static bool holds(RollupManager &m, Stat &s)
{
    return (m.m_cnt == s.cnt) & vp_same(m.m_min, s.min) & vp_same(m.m_max, s.max) & vp_same(m.m_sum, s.sum);
}
static bool empty(RollupManager &m)
{
    return (m.m_cnt == 0) & vp_same(m.m_min, DBL_MAX) & vp_same(m.m_max, -DBL_MAX) & vp_same(m.m_sum, 0.0);
}

// two months: the one in progress and the one of the new point (contract of the month table, C11)
static uint64_t g_b0, g_e0, g_b1, g_e1;
extern "C" uint64_t ru_begin(uint64_t t)
{
    bool in0 = (g_b0 <= t) & (t < g_e0), in1 = (g_b1 <= t) & (t < g_e1);
    ENSURES(in0 | in1, "month of the pending hour or of the point");
    return in0 ? g_b0 : g_b1;
}
extern "C" uint64_t ru_end(uint64_t t)
{
    bool in0 = (g_b0 <= t) & (t < g_e0), in1 = (g_b1 <= t) & (t < g_e1);
    ENSURES(in0 | in1, "month of the pending hour or of the point");
    return in0 ? g_e0 : g_e1;
}

// ---------------------------------------------------------------- one point

static RollupManager *g_m;
static Stat g_pending;
static bool g_first, g_marked;
static uint64_t g_tid, g_mid;
static uint64_t g_hour, g_next;     // hour of the point, next record

// multiples of an hour (lemma.smt2); the remainder is uninterpreted here
static bool whole(uint64_t t) { return t % (uint64_t)g_rollup_interval_1h == 0; }
static void next_lemma(uint64_t a, uint64_t b) { REQUIRES((!(whole(a) & whole(b) & (a < b))) | ((b - a >= HR) & whole(a + HR))); }
static void hour_lemma(uint64_t t, uint64_t b)
{
    uint64_t r = t % (uint64_t)g_rollup_interval_1h;
    REQUIRES((r < HR) & (r <= t) & whole(t - r));
    REQUIRES((!whole(b)) | (b > t) | (b <= t - r));
}

static uint64_t g_raw, g_sec;

// contract of to_sec (C07)
extern "C" uint64_t ru_sec(uint64_t t) { ENSURES(t == g_raw, "timestamp of the point"); return g_sec; }

// contract of flush, proved in `record`: the pending hour is recorded and the state is empty
extern "C" void ru_flush(RollupManager *m, uint32_t mid, uint32_t tid)
{
    ENSURES((m == g_m) & (mid == g_mid) & (tid == g_tid), "series of the point");
    ENSURES(m->m_tstamp == g_next, "hours are recorded in order, each one once");
    ENSURES(g_next < g_hour, "hour is over");
    if (g_first) ENSURES(holds(*m, g_pending), "record holds the points of the hour");
    else ENSURES(empty(*m), "record of an hour without points is empty");
    g_first = false;
    next_lemma(g_next, g_hour);
    next_lemma(g_next, g_e0);
    g_next += HR;
    if ((g_next == g_e0) & (g_b0 != g_b1)) g_next = g_b1;
    m->m_cnt = 0; m->m_min = DBL_MAX; m->m_max = -DBL_MAX; m->m_sum = 0.0;
}
extern "C" void ru_ooo(Tsdb *t, uint32_t tid, bool ooo)
{
    ENSURES(((uintptr_t)t == 64) & (tid == g_tid) & ooo, "series is marked out of order");
    g_marked = true;
}

#define STEP uint64_t *end, uint64_t *hour, uint64_t *interval
extern "C" bool step_empty(STEP) { return empty(*g_m) & !g_first & (*hour == g_hour) & (*end == g_e0) & (*interval == HR) & whole(g_next); }
extern "C" bool step_here(STEP)
{
    bool over = (g_b0 != g_b1) & (g_next == g_b1);
    return (g_b0 <= g_next) & (g_next <= g_hour) & (over | (g_next < g_e0)) & (g_m->m_tstamp == (over ? g_e0 : g_next));
}
extern "C" bool step_next(STEP) { return (g_b0 != g_b1) & (g_b1 <= g_next) & (g_next <= g_hour) & (g_m->m_tstamp == g_next); }
extern "C" uint64_t step_var(STEP) { return g_hour - g_m->m_tstamp; }

HARNESS(step)
{
    if (!vp_symbolic()) { run(); return; }
    RollupManager m;
    g_m = &m;
    g_rollup_interval_1h = vp_u32("interval");
    REQUIRES(g_rollup_interval_1h == HR);
    g_b0 = vp_range("b0", 0, 1ULL << 34); g_e0 = vp_range("e0", 0, 1ULL << 34); g_b1 = vp_range("b1", 0, 1ULL << 34); g_e1 = vp_range("e1", 0, 1ULL << 34);
    uint64_t h0 = vp_range("h0", 0, 1ULL << 34);
    g_sec = vp_range("sec", 0, 1ULL << 34);
    REQUIRES((g_b0 <= h0) & (h0 < g_e0) & (g_b1 <= g_sec) & (g_sec < g_e1));
    REQUIRES(whole(g_b0) & whole(g_e0) & whole(g_b1) & whole(g_e1) & whole(h0));
    REQUIRES(((g_b0 == g_b1) & (g_e0 == g_e1)) | (g_e0 <= g_b1) | (g_e1 <= g_b0));
    hour_lemma(g_sec, g_b1);
    g_raw = vp_u64("time");
    DataPoint &dp = *(DataPoint*)vp_obj("dp", sizeof(DataPoint));
    dp.m_timestamp = g_raw;
    dp.m_value = vp_f64("value");
    double v = dp.get_value();
    any_pending(m, g_pending);
    bool fresh = vp_bool("fresh");
    m.m_tstamp = fresh ? TT_INVALID_TIMESTAMP : h0;
    RollupDataFile *f = (RollupDataFile*)vp_obj("file", sizeof(RollupDataFile));
    bool has_file = vp_bool("has_file");
    f->m_compressor_version = vp_range("version", 0, 5);
    m.m_data_file = has_file ? f : nullptr;
    if (fresh) REQUIRES((g_b0 == g_b1) & (g_e0 == g_e1));
    uint64_t from = fresh ? g_b1 : h0;
    g_next = from;
    g_hour = g_sec - g_sec % (uint64_t)g_rollup_interval_1h;
    g_first = true;
    g_marked = false;
    g_mid = vp_u32("mid"); g_tid = vp_u32("tid");
    m.add_data_point((Tsdb*)(uintptr_t)64, g_mid, g_tid, dp);
    COVER("done");
    if (has_file & (f->m_compressor_version >= 3))
    {
        ENSURES(g_marked & g_first, "a series whose records are final is marked out of order");
        return;
    }
    if (g_hour < from)
    {
        ENSURES(g_marked & g_first & (m.m_tstamp == from), "a late point marks the series");
        ENSURES(holds(m, g_pending), "a late point leaves the pending hour alone");
        return;
    }
    ENSURES(!g_marked, "series is in order");
    ENSURES((m.m_tstamp == g_hour) & (g_next == g_hour), "every hour before that of the point is recorded");
    ENSURES(g_first == (g_hour == from), "an hour is recorded when it is over");
    Stat s = g_pending;
    if (!g_first) { s.cnt = 0; s.min = DBL_MAX; s.max = -DBL_MAX; s.sum = 0.0; }
    s.cnt++;
    s.min = v < s.min ? v : s.min;
    s.max = s.max < v ? v : s.max;
    s.sum = s.sum + v;
    ENSURES(m.m_cnt == s.cnt, "count");
    ENSURES(vp_same(m.m_min, s.min), "minimum");
    ENSURES(vp_same(m.m_max, s.max), "maximum");
    ENSURES(vp_same(m.m_sum, s.sum), "sum");
}

// ---------------------------------------------------------------- recording an hour

static RollupDataFile *g_old, *g_new;
static int g_opened, g_released, g_recorded;

extern "C" RollupDataFile *ru_file(uint32_t mid, uint64_t t)
{
    ENSURES((mid == g_mid) & (g_b0 <= t) & (t < g_e0), "file of the metric and the month");
    g_opened++;
    return g_new;
}
extern "C" void ru_dec(RollupDataFile *f) { ENSURES(f == g_old, "file that was in use"); g_released++; }
extern "C" void ru_record(RollupDataFile *f, uint32_t tid, uint32_t cnt, double min, double max, double sum)
{
    ENSURES(f->m_begin == g_b0, "file of the month of the hour");
    ENSURES((tid == g_tid) & (cnt == g_pending.cnt) & vp_same(min, g_pending.min) & vp_same(max, g_pending.max) & vp_same(sum, g_pending.sum), "record holds the points of the hour");
    g_recorded++;
}

HARNESS(record)
{
    if (!vp_symbolic()) { run(); return; }
    RollupManager m;
    any_pending(m, g_pending);
    g_b0 = g_b1 = vp_range("begin", 0, 1ULL << 34);
    g_e0 = g_e1 = vp_range("end", 0, 1ULL << 34);
    m.m_tstamp = vp_range("hour", 0, 1ULL << 34);
    REQUIRES((g_b0 <= m.m_tstamp) & (m.m_tstamp < g_e0));
    g_old = (RollupDataFile*)vp_obj("old", sizeof(RollupDataFile));
    g_new = (RollupDataFile*)vp_obj("new", sizeof(RollupDataFile));
    g_old->m_begin = vp_range("old_begin", 0, 1ULL << 34);
    g_new->m_begin = g_b0;
    bool has = vp_bool("has");
    m.m_data_file = has ? g_old : nullptr;
    g_mid = vp_u32("mid"); g_tid = vp_u32("tid");
    uint64_t t = m.m_tstamp;
    bool same = has & (g_old->m_begin == g_b0);
    m.flush(g_mid, g_tid);
    COVER("done");
    ENSURES(g_recorded == 1, "recorded once");
    ENSURES(m.m_data_file == (same ? g_old : g_new), "file of the month is kept");
    ENSURES((g_opened == (same ? 0 : 1)) & (g_released == (has & !same ? 1 : 0)), "files are taken and given back in pairs");
    ENSURES(empty(m) & (m.m_tstamp == t), "next hour begins empty");
}

// ---------------------------------------------------------------- statistics

HARNESS(stat)
{
    RollupType types[] = { RollupType::RU_AVG, RollupType::RU_CNT, RollupType::RU_MAX, RollupType::RU_MIN, RollupType::RU_SUM };
    int k = vp_split(vp_range("statistic", 0, 4), 0, 4);
    RollupManager m;
    ENSURES(empty(m) & (m.m_tstamp == TT_INVALID_TIMESTAMP), "begins empty");
    Stat s;
    any_pending(m, s);
    m.m_tstamp = vp_u64("hour");
    double want = k == 0 ? s.sum / (double)s.cnt : k == 1 ? (double)s.cnt : k == 2 ? s.max : k == 3 ? s.min : s.sum;
    DataPointPair dp(0, 0.0);
    bool ok = m.query(types[k], dp);
    COVER("done");
    ENSURES(ok == (s.cnt != 0), "an hour with points gives a value");
    if (ok) ENSURES((dp.first == m.m_tstamp) & vp_same(dp.second, want), "statistic asked for");
    rollup_entry_ext e;
    ENSURES(m.get(e) == (s.cnt != 0), "an hour with points gives a record");
    if (s.cnt)
    {
        ENSURES((e.cnt == s.cnt) & (e.tstamp == m.m_tstamp), "count of the record");
        ENSURES(vp_same(e.min, s.min) & vp_same(e.max, s.max) & vp_same(e.sum, s.sum), "values of the record");
        rollup_entry r;
        r.tid = 1; r.cnt = s.cnt; r.min = s.min; r.max = s.max; r.sum = s.sum;
        ENSURES(vp_same(RollupManager::query(&r, types[k]), want), "statistic of a record");
    }
}

// ---------------------------------------------------------------- keeping the pending hour over a restart

static uint8_t g_log[sizeof(rollup_append_entry)];
static int g_logged, g_walled;
static uint64_t g_t;
extern "C" size_t ru_fwrite(const void *p, size_t a, size_t b, FILE *f)
{
    ENSURES(a * b == sizeof(g_log), "one record");
    memcpy(g_log, p, sizeof(g_log));
    g_logged++;
    return b;
}
extern "C" void ru_wal(RollupDataFile *f, uint32_t tid, uint64_t t, uint32_t cnt, double min, double max, double sum)
{
    ENSURES((tid == g_tid) & (t == g_t) & (cnt == g_pending.cnt) & vp_same(min, g_pending.min) & vp_same(max, g_pending.max) & vp_same(sum, g_pending.sum), "pending hour is saved");
    g_walled++;
}

HARNESS(keep)
{
    if (!vp_symbolic()) { run(); return; }
    RollupManager m, r;
    any_pending(m, g_pending);
    g_t = m.m_tstamp = vp_u64("hour");
    g_tid = vp_u32("tid");
    Stat s;
    any_pending(r, s);
    m.append(nullptr);
    ENSURES(g_logged == 1, "one record is logged");
    r.restore((rollup_append_entry*)g_log);
    ENSURES(holds(r, g_pending) & (r.m_tstamp == g_t), "pending hour is restored from the log");
    bool has = vp_bool("has");
    RollupManager::m_wal_data_file = has ? (RollupDataFile*)vp_obj("wal", sizeof(RollupDataFile)) : nullptr;
    m.close(g_tid);
    ENSURES(g_walled == (int)(has & (g_t != TT_INVALID_TIMESTAMP) & (g_pending.cnt != 0)), "pending hour is saved once");
    rollup_entry_ext e;
    e.cnt = g_pending.cnt; e.min = g_pending.min; e.max = g_pending.max; e.sum = g_pending.sum; e.tstamp = vp_range("saved", 0, MAX_SEC_SINCE_EPOCH - 1);
    RollupManager q;
    any_pending(q, s);
    q.copy_from(e);
    ENSURES(holds(q, g_pending) & (q.m_tstamp == e.tstamp), "pending hour is restored from its record");
    RollupManager p(q), o;
    o = q;
    ENSURES(holds(p, g_pending) & (p.m_tstamp == q.m_tstamp) & holds(o, g_pending) & (o.m_tstamp == q.m_tstamp), "copies are equal");
    COVER("done");
}

// ---------------------------------------------------------------- reading records

struct Node { void *next; uint32_t key; QueryTask *task; };
static Node *g_node;
static uint32_t g_key;
static int g_found;
static rollup_entry_ext g_ext;
static uint64_t g_type;
static QueryTask *g_task;
extern "C" void *ru_find(void *map, const uint32_t *key) { ENSURES(*key == g_key, "series of the record"); return g_node; }
extern "C" void *ru_find_end(void *map) { return nullptr; }
extern "C" void ru_found(QueryTask *t, rollup_entry_ext *e, RollupType type)
{
    ENSURES((t == g_task) & ((uint64_t)type == g_type), "task of the series");
    g_ext = *e;
    g_found++;
}

HARNESS(entry)
{
    if (!vp_symbolic()) { run(); return; }
    g_tstamp_resolution_ms = vp_bool("resolution");
    RollupDataFile *f = (RollupDataFile*)vp_obj("file", sizeof(RollupDataFile));
    f->m_begin = vp_range("begin", 0, MAX_SEC_SINCE_EPOCH - 1);
    g_task = (QueryTask*)vp_obj("task", sizeof(QueryTask));
    uint64_t last = vp_range("last", 0, MAX_SEC_SINCE_EPOCH - 7200);
    bool none = vp_bool("none");
    g_task->m_last_tstamp = none ? TT_INVALID_TIMESTAMP : last;
    bool asked = vp_bool("asked");
    Node *n = (Node*)vp_obj("node", sizeof(Node));
    g_key = vp_u32("tid");
    n->key = g_key; n->task = g_task;
    g_node = asked ? n : nullptr;
    rollup_entry e;
    e.tid = g_key; e.cnt = vp_u32("cnt"); e.min = vp_f64("min"); e.max = vp_f64("max"); e.sum = vp_f64("sum");
    TimeRange r(vp_u64("from"), vp_u64("to"));
    g_type = (uint64_t)RollupType::RU_SUM;
    void *map = vp_obj("map", 64);
    int found = f->query_entry(r, &e, *(std::unordered_map<TimeSeriesId, QueryTask*>*)map, RollupType::RU_SUM);
    COVER("done");
    if (!asked) { ENSURES((found == 0) & (g_found == 0), "series that are not asked for are left out"); return; }
    // records of a series follow each other hour by hour from the begin of the month
    uint64_t t = none | (last < f->m_begin) ? f->m_begin : last + HR;
    ENSURES(g_task->m_last_tstamp == t, "hour of the record");
    uint64_t tt = validate_resolution(t);
    bool in = (r.m_from <= tt) & (tt <= r.m_to);
    ENSURES((found > 0) == ((tt >= r.m_from) & (tt > r.m_to)), "end of the range");
    ENSURES(g_found == (int)(in & (e.cnt != 0)), "records of the range that hold points");
    if (g_found)
        ENSURES((g_ext.tid == e.tid) & (g_ext.cnt == e.cnt) & vp_same(g_ext.min, e.min) & vp_same(g_ext.max, e.max) & vp_same(g_ext.sum, e.sum) & (g_ext.tstamp == tt), "record");
}

// ---------------------------------------------------------------- reading a file and its buffer

// g_j: any series asked for; g_end: its records are past the range
static uint32_t g_j;
static bool g_end, g_more, g_new_rec, g_read;
static uint64_t g_pos, g_len, g_tasks, g_done;
static rollup_entry *g_rec;
static RollupDataFile *g_rf;
static int g_answer;

static rollup_entry *deliver()
{
    ENSURES(!g_new_rec, "no record is skipped");
    g_more = vp_ghost_bool();
    g_rec->tid = (uint32_t)vp_ghost_u64();
    g_new_rec = g_more;
    return g_more ? g_rec : nullptr;
}
extern "C" rollup_entry *rs_first(RollupDataFile *f, RollupDataFileCursor *c) { return deliver(); }
extern "C" rollup_entry *rs_next(RollupDataFile *f, RollupDataFileCursor *c) { return deliver(); }
extern "C" int rs_query(RollupDataFile *f, const TimeRange *r, rollup_entry *e, void *map, RollupType type)
{
    ENSURES(g_new_rec, "a record is looked at once");
    g_new_rec = false;
    g_answer = (int)(uint32_t)vp_ghost_u64();
    if ((e->tid == g_j) & (g_answer > 0)) g_end = true;
    return g_answer;
}
// series that are past the range: only those asked for get there, so all of them are when the numbers are equal
extern "C" void *rs_find(void *set, const uint32_t *key) { return vp_ghost_bool() ? (void*)g_rec : nullptr; }
extern "C" void *rs_none(void *set) { return nullptr; }
struct Pair { void *p; bool b; };
extern "C" Pair rs_insert(void *set, const uint32_t *key)
{
    ENSURES((g_answer > 0) & (*key == g_rec->tid), "series of the record is past the range");
    g_done++;
    return Pair{ nullptr, true };
}
extern "C" uint64_t rs_done(void *set) { REQUIRES(g_end | (g_done < g_tasks)); return g_done; }
extern "C" uint64_t rs_tasks(void *map) { return g_tasks; }
extern "C" void rs_set(void *set) {}
extern "C" int rs_unpack(uint8_t *b, int n, rollup_entry *e, double p)
{
    if (!g_read) ENSURES((!g_more) | g_end, "file is read to its end");
    g_read = true;
    ENSURES(!g_new_rec, "no record is skipped");
    ENSURES((vp_offset(b) == vp_offset(g_rf->m_buff) + g_pos) & ((uint64_t)n == g_len - g_pos), "next record of the buffer");
    uint64_t l = vp_ghost_u64();
    REQUIRES((l >= 1) & (l <= g_len - g_pos));
    g_pos += l;
    e->tid = (uint32_t)vp_ghost_u64();
    g_new_rec = true;
    return (int)l;
}

extern "C" void scan_at(rollup_entry **entry) { *entry = g_more ? g_rec : nullptr; }
extern "C" bool scan_file(rollup_entry **entry) { return (g_new_rec == g_more) & !g_read & (g_pos == 0); }
extern "C" bool scan_buff(int *i) { return ((uint64_t)(int64_t)*i == g_pos) & (g_pos <= g_len) & !g_new_rec & (g_read | (g_pos == 0)) & (g_read | !g_more | g_end); }

HARNESS(scan)
{
    if (!vp_symbolic()) { run(); return; }
    RollupDataFile *f = (RollupDataFile*)vp_obj("file", sizeof(RollupDataFile));
    g_rf = f;
    f->m_compressor_version = vp_split(vp_range("version", 1, 2), 1, 2);
    g_len = f->m_index = vp_range("index", 0, 4096);
    g_rec = (rollup_entry*)vp_obj("record", sizeof(rollup_entry));
    g_j = vp_u32("series");
    g_tasks = vp_range("tasks", 1, 1 << 30);
    TimeRange r(vp_u64("from"), vp_u64("to"));
    void *map = vp_obj("map", 64);
    f->query_level1(r, *(std::unordered_map<TimeSeriesId, QueryTask*>*)map, RollupType::RU_SUM);
    COVER("done");
    if (!g_read) ENSURES((!g_more) | g_end, "file is read to its end");
    ENSURES((g_pos == g_len) | g_end, "buffer is read to its end");
}

// ---------------------------------------------------------------- writing records

static int g_version, g_size, g_written;
static double g_precision;
static int packed(int version, uint8_t *b, uint32_t tid, uint32_t cnt, double min, double max, double sum, double precision)
{
    ENSURES(version == g_version, "format of the file");
    ENSURES((tid == g_tid) & (cnt == g_pending.cnt) & vp_same(min, g_pending.min) & vp_same(max, g_pending.max) & vp_same(sum, g_pending.sum) & vp_same(precision, g_precision), "values of the record");
    b[0] = 0x5a;
    return g_size;
}
extern "C" int ru_compress(uint8_t *b, uint32_t tid, uint32_t cnt, double min, double max, double sum, double p) { return packed(1, b, tid, cnt, min, max, sum, p); }
extern "C" int ru_compress2(uint8_t *b, uint32_t tid, uint32_t cnt, double min, double max, double sum, double p) { return packed(2, b, tid, cnt, min, max, sum, p); }
extern "C" void ru_write(RollupDataFile *f, uint8_t *b, size_t n)
{
    ENSURES((n == (size_t)g_size) & (b[0] == 0x5a), "packed record is written");
    g_written++;
}

HARNESS(file)
{
    if (!vp_symbolic()) { run(); return; }
    RollupDataFile *f = (RollupDataFile*)vp_obj("file", sizeof(RollupDataFile));
    g_version = f->m_compressor_version = vp_split(vp_range("version", 1, 2), 1, 2);
    g_precision = f->m_compressor_precision = vp_f64("precision");
    RollupManager m;
    any_pending(m, g_pending);
    g_tid = vp_u32("tid");
    g_size = vp_range("size", 1, 64);
    f->add_data_point(g_tid, g_pending.cnt, g_pending.min, g_pending.max, g_pending.sum);
    COVER("done");
    ENSURES(g_written == 1, "written once");
}

static RollupDataFile *g_file;
static uint64_t g_index;
static int g_flushed;
extern "C" void ru_open(RollupDataFile *f, bool read) { *(uint64_t*)&f->m_file = 64; }
extern "C" size_t ru_fwrite_buff(const void *p, size_t a, size_t b, FILE *f)
{
    ENSURES((p == g_file->m_buff) & (a * b == g_index), "all records in the buffer");
    g_flushed++;
    return b;
}
extern "C" int ru_fflush(FILE *f) { return 0; }

extern "C" void *_ZTVN2tt14RollupDataFileE[];

HARNESS(buffer)
{
    if (!vp_symbolic()) { run(); return; }
    RollupDataFile *f = (RollupDataFile*)vp_obj("file", sizeof(RollupDataFile));
    g_file = f;
    g_index = f->m_index = vp_range("index", 0, 4096);
    uint64_t n = vp_range("size", 1, 64);
    uint8_t *b = (uint8_t*)vp_bytes("record", 64);
    *(uint64_t*)&f->m_file = vp_bool("open") ? 64 : 0;
    bool full = g_index + n > 4096;
    if (full) { *(void**)f = _ZTVN2tt14RollupDataFileE + 2; n = vp_split(n, 1, 64); }
    f->write_no_lock(b, n);
    COVER("done");
    uint64_t at = full ? 0 : g_index;
    ENSURES((g_flushed == (int)full) & (f->m_index == (int)(at + n)), "record follows the ones before it");
    if (full) { for (uint64_t i = 0; i < n; i++) ENSURES(f->m_buff[i] == b[i], "record is kept"); return; }
    uint64_t i = vp_range("i", 0, 63);
    REQUIRES(i < n);
    ENSURES(f->m_buff[at + i] == b[i], "record is kept");
}
