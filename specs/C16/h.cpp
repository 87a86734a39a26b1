// Free lists.
#include "vp.h"
#include "vpm.h"
#include <map>
#include <set>
#include <typeinfo>
#include <vector>
#include "aggregate.h"
#include "bitset.h"
#include "compress.h"
#include "down.h"
#include "global.h"
#include "http.h"
#include "json.h"
#include "kv.h"
#include "memmgr.h"
#include "query.h"
#include "rate.h"
#include "tag.h"
#include "task.h"
#include "tcp.h"
using namespace tt;

typedef MemoryManager M;
static const int TYPES = RecyclableType::RT_COUNT;

// ---------------------------------------------------------------- on the real code

static bool fits(int t, Recyclable *r)
{
#define T(x, c) case RecyclableType::x: return dynamic_cast<c*>(r) != nullptr
    switch (t)
    {
        T(RT_AGGREGATOR_AVG, AggregatorAvg); T(RT_AGGREGATOR_BOTTOM, AggregatorBottom); T(RT_AGGREGATOR_COUNT, AggregatorCount); T(RT_AGGREGATOR_DEV, AggregatorDev);
        T(RT_AGGREGATOR_MAX, AggregatorMax); T(RT_AGGREGATOR_MIN, AggregatorMin); T(RT_AGGREGATOR_NONE, AggregatorNone); T(RT_AGGREGATOR_PT, AggregatorPercentile);
        T(RT_AGGREGATOR_SUM, AggregatorSum); T(RT_AGGREGATOR_TOP, AggregatorTop); T(RT_BITSET_CURSOR, BitSetCursor); T(RT_DATA_POINT, DataPoint);
        T(RT_DOWNSAMPLER_AVG, DownsamplerAvg); T(RT_DOWNSAMPLER_COUNT, DownsamplerCount); T(RT_DOWNSAMPLER_DEV, DownsamplerDev); T(RT_DOWNSAMPLER_FIRST, DownsamplerFirst);
        T(RT_DOWNSAMPLER_LAST, DownsamplerLast); T(RT_DOWNSAMPLER_MAX, DownsamplerMax); T(RT_DOWNSAMPLER_MIN, DownsamplerMin); T(RT_DOWNSAMPLER_PT, DownsamplerPercentile);
        T(RT_DOWNSAMPLER_SUM, DownsamplerSum); T(RT_JSON_VALUE, JsonValue); T(RT_KEY_VALUE_PAIR, KeyValuePair); T(RT_QUERY_RESULTS, QueryResults);
        T(RT_QUERY_TASK, QueryTask); T(RT_RATE_CALCULATOR, RateCalculator); T(RT_TAG_MATCHER, TagMatcher);
        default: return r != nullptr;
    }
}
static bool usable(int t) { return fits(t, nullptr) == false && t != RecyclableType::RT_HTTP_CONNECTION && t != RecyclableType::RT_TCP_CONNECTION && t != RecyclableType::RT_DATA_POINT_CONTAINER; }

// a tag matcher owns the objects linked to it
static bool chained(int t) { return t <= RecyclableType::RT_AGGREGATOR_TOP || t == RecyclableType::RT_KEY_VALUE_PAIR || t == RecyclableType::RT_RATE_CALCULATOR; }

static void run()
{
    uint64_t x = vp_u64("seed"), n = vp_range("steps", 1, 200), kinds = vp_range("kinds", 1, 4), t0 = vp_range("type", 0, TYPES - 1);
    std::vector<void*> live[TYPES + 2];
    std::set<void*> all[TYPES + 2];
    if (M::m_network_buffer_len == 0) { M::m_network_buffer_len = 8192; M::m_network_buffer_small_len = 1024; g_page_size = 4096; }
    auto release = [&](int t, size_t k)
    {
        void *p = live[t][k];
        live[t].erase(live[t].begin() + k);
        if (t == TYPES) M::free_network_buffer((char*)p);
        else if (t == TYPES + 1) M::free_network_buffer_small((char*)p);
        else M::free_recyclable((Recyclable*)p);
    };
    std::set<int> used;
    for (uint64_t i = 0; i < n; i++)
    {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        int t = (int)((t0 + (x >> 40) % kinds) % (TYPES + 2));
        if (t < TYPES && !usable(t)) continue;
        used.insert(t);
        if ((x >> 55) % 16 == 0)
        {
            TaskData data;
            data.integer = 1;
            M::collect_garbage(data);
            for (int u : used)      // what is free may have been given up
            {
                all[u].clear();
                for (void *p : live[u]) all[u].insert(p);
            }
        }
        else if ((x >> 50) % 8 == 0 && chained(t) && live[t].size() > 1)
        {
            // give several back at once
            Recyclable *head = nullptr;
            for (void *p : live[t]) { ((Recyclable*)p)->next() = head; head = (Recyclable*)p; }
            live[t].clear();
            M::free_recyclables(head);
        }
        else if ((x >> 33) % 5 < 2 && !live[t].empty())
            release(t, (x >> 20) % live[t].size());
        else
        {
            void *p = t == TYPES ? M::alloc_network_buffer() : t == TYPES + 1 ? M::alloc_network_buffer_small() : (void*)M::alloc_recyclable((RecyclableType)t);
            ENSURES(p != nullptr, "an object");
            if (t < TYPES)
            {
                ENSURES(fits(t, (Recyclable*)p), "an object of the kind asked for");
                ENSURES(((Recyclable*)p)->recyclable_type() == t, "marked with its kind");
                ENSURES(((Recyclable*)p)->next() == nullptr, "not linked");
            }
            for (int u = 0; u < TYPES + 2; u++)
                for (void *q : live[u]) ENSURES(p != q, "handed out to one owner at a time");
            live[t].push_back(p);
            all[t].insert(p);
        }
    }
    for (int t : used)
    {
        ENSURES(M::m_total[t] - M::m_free[t] == (int)live[t].size(), "objects in use");
        while (!live[t].empty()) release(t, 0);
        // all of them are available again
        size_t k = 0;
        if (t < TYPES) for (Recyclable *r = M::m_free_lists[t]; r != nullptr; r = r->next()) { k++; all[t].erase(r); ENSURES(k < 100000, "no cycle"); }
        else for (char *b = t == TYPES ? M::m_network_buffer_free_list : M::m_network_buffer_small_free_list; b != nullptr; b = *(char**)b) { k++; all[t].erase(b); ENSURES(k < 100000, "no cycle"); }
        ENSURES((int)k == M::m_free[t], "free objects counted");
        ENSURES(all[t].empty(), "every object becomes available again");
    }
}

// ---------------------------------------------------------------- network buffers

// a list of any length: only its first two members can be reached without going through a third
static char *any_buffer(const char *nm, char *next)
{
    char *b = (char*)vp_obj(nm, 64);
    *(char**)b = next;
    return b;
}
struct List { char *first, *second, *third; };
static List any_list()
{
    List l;
    l.third = vp_bool("third") ? any_buffer("third_buffer", nullptr) : nullptr;
    l.second = vp_bool("second") ? any_buffer("second_buffer", l.third) : nullptr;
    l.first = vp_bool("first") ? any_buffer("first_buffer", l.second) : nullptr;
    return l;
}
static void same(List &l)
{
    if (l.second != nullptr) ENSURES(*(char**)l.second == l.third, "rest of the list as it was");
}

template<bool SMALL> static void net_alloc()
{
    if (!vp_symbolic()) { run(); return; }
    char *&list = SMALL ? M::m_network_buffer_small_free_list : M::m_network_buffer_free_list;
    char *&other = SMALL ? M::m_network_buffer_free_list : M::m_network_buffer_small_free_list;
    List l = any_list();
    list = l.first;
    char *o = any_buffer("other_buffer", nullptr);
    other = o;
    M::m_network_buffer_len = vp_range("len", 64, 1 << 20);
    M::m_network_buffer_small_len = vp_range("small_len", 64, 1 << 20);
    char *b = SMALL ? M::alloc_network_buffer_small() : M::alloc_network_buffer();
    ENSURES(b != nullptr, "a buffer");
    if (l.first != nullptr)
    {
        ENSURES(b == l.first, "the first free buffer");
        ENSURES(list == l.second, "the others stay free");
    }
    else
    {
        ENSURES(list == nullptr, "none free");
        ENSURES(b != o, "a new buffer");
    }
    ENSURES(other == o, "other list as it was");
    same(l);
}
template<bool SMALL> static void net_free()
{
    if (!vp_symbolic()) { run(); return; }
    char *&list = SMALL ? M::m_network_buffer_small_free_list : M::m_network_buffer_free_list;
    char *&other = SMALL ? M::m_network_buffer_free_list : M::m_network_buffer_small_free_list;
    List l = any_list();
    list = l.first;
    char *o = any_buffer("other_buffer", nullptr);
    other = o;
    char *b = any_buffer("buffer", nullptr);
    if (SMALL) M::free_network_buffer_small(b); else M::free_network_buffer(b);
    ENSURES(list == b, "free again");
    ENSURES(*(char**)b == l.first, "the others stay free");
    ENSURES(other == o, "other list as it was");
    if (l.first != nullptr) ENSURES(*(char**)l.first == l.second, "rest of the list as it was");
    same(l);
}
HARNESS(buffer_alloc) { net_alloc<false>(); COVER("taken"); }
HARNESS(buffer_free) { net_free<false>(); COVER("returned"); }
HARNESS(small_alloc) { net_alloc<true>(); COVER("taken"); }
HARNESS(small_free) { net_free<true>(); COVER("returned"); }

// ---------------------------------------------------------------- objects

static int g_gone;
struct Obj : public Recyclable
{
    bool m_ready, m_keep;
    Obj() : m_ready(false), m_keep(true) { }
    ~Obj() { g_gone++; }
    void init() override { m_ready = true; }
    bool recycle() override { m_ready = false; return m_keep; }
};
static Obj *any_obj(int t, Obj *next)
{
    Obj *o = new Obj();
    o->recyclable_type() = (RecyclableType)t;
    o->next() = next;
    return o;
}

// every list but that of t has one object
static Obj *g_other;
static void lists(int t, Recyclable *first)
{
    g_other = any_obj(0, nullptr);
    for (int i = 0; i < TYPES; i++) M::m_free_lists[i] = g_other;
    M::m_free_lists[t] = first;
}
static void others(int t)
{
    for (int i = 0; i < TYPES; i++) if (i != t) ENSURES(M::m_free_lists[i] == g_other, "other lists as they were");
}

HARNESS(take)
{
    if (!vp_symbolic()) { run(); return; }
    for (int t = 0; t < TYPES; t++)
    {
        Obj *third = any_obj(t, nullptr), *second = any_obj(t, third), *first = any_obj(t, second);
        first->recyclable_type() = (RecyclableType)vp_u8("type");
        lists(t, first);
        int n = M::m_free[t] = 3;
        Recyclable *r = M::alloc_recyclable((RecyclableType)t);
        COVER("taken");
        ENSURES(r == first, "the first free object");
        ENSURES(M::m_free_lists[t] == second, "the others stay free");
        ENSURES(second->next() == third, "rest of the list as it was");
        ENSURES(third->next() == nullptr, "rest of the list as it was");
        ENSURES(first->next() == nullptr, "not linked");
        ENSURES(first->recyclable_type() == t, "marked with its kind");
        ENSURES(first->m_ready & !second->m_ready, "initialised");
        ENSURES(M::m_free[t] == n - 1, "counted");
        others(t);
    }
}

HARNESS(give)
{
    if (!vp_symbolic()) { run(); return; }
    bool keep = vp_bool("keep");
    for (int t = 0; t < TYPES; t++)
    {
        Obj *second = any_obj(t, nullptr), *first = any_obj(t, second), *r = any_obj(t, nullptr);
        lists(t, first);
        r->m_keep = keep;
        g_gone = 0;
        int n = M::m_free[t] = 2, m = M::m_total[t] = 3;
        M::free_recyclable(r);
        COVER("returned");
        if (keep)
        {
            ENSURES(M::m_free_lists[t] == r, "free again");
            ENSURES(r->next() == first, "the others stay free");
            ENSURES(!r->m_ready & (g_gone == 0), "cleaned");
            ENSURES((M::m_free[t] == n + 1) & (M::m_total[t] == m), "counted");
        }
        else
        {
            ENSURES(M::m_free_lists[t] == first, "the others stay free");
            ENSURES(g_gone == 1, "given up");
            ENSURES((M::m_free[t] == n) & (M::m_total[t] == m - 1), "counted");
        }
        ENSURES(first->next() == second, "rest of the list as it was");
        ENSURES(second->next() == nullptr, "rest of the list as it was");
        others(t);
    }
}

// up to three at once
HARNESS(give_all)
{
    if (!vp_symbolic()) { run(); return; }
    for (int t = 0; t < TYPES; t++)
        for (int n = 1; n <= 3; n++)
        {
            Obj *free = any_obj(t, nullptr), *head = nullptr, *o[3];
            lists(t, free);
            g_gone = 0;
            for (int i = 0; i < n; i++)
            {
                head = o[i] = any_obj(t, head);
                o[i]->m_keep = n < 3 || i != 1;
            }
            M::m_free[t] = 1;
            M::m_total[t] = 1 + n;
            M::free_recyclables(head);
            COVER("returned");
            Recyclable *r = M::m_free_lists[t];
            for (int i = 0; i < n; i++)
            {
                if (n == 3 && i == 1) continue;
                ENSURES(r == o[i], "free again");
                r = r->next();
            }
            ENSURES(r == free, "the others stay free");
            ENSURES(r->next() == nullptr, "rest of the list as it was");
            ENSURES(g_gone == (n == 3 ? 1 : 0), "given up");
            others(t);
        }
}
