// The same properties run on the real code with a concrete sequence of data points (used to confirm and to search
// for counterexamples; nothing here is replaced by contracts).
#pragma once
#include "vp.h"
#include <cmath>
#include <vector>
#include "compress.h"
#include "global.h"
#include "memmgr.h"

namespace seq
{

struct Point { uint64_t t; double v; };

static inline uint64_t rnd(uint64_t &x) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return x >> 20; }

static inline void same(tt::DataPointVector &got, std::vector<Point> &want, bool exact)
{
    ENSURES(got.size() == want.size(), "as many points are read back as were stored");
    for (size_t i = 0; i < want.size() && i < got.size(); i++)
    {
        ENSURES(got[i].first == want[i].t, "timestamp is read back");
        if (exact) ENSURES(vp_same(got[i].second, want[i].v), "value is read back");
        else ENSURES(got[i].second == want[i].v, "value is read back");
    }
}

static inline size_t bits(tt::Compressor *c)
{
    tt::CompressorPosition p;
    c->save(p);
    return 8 * (size_t)p.m_offset + p.m_start;
}

// number of bits the points take
static inline size_t length(int version, uint64_t start, std::vector<Point> &pts)
{
    std::vector<uint8_t> buf(1 << 16);
    tt::Compressor *c = tt::Compressor::create(version);
    c->init(start, buf.data(), 65535);
    for (auto &p : pts) if (p.t >= start) c->compress(p.t, p.v);
    size_t n = bits(c);
    delete c;
    return n;
}

// stores the points one by one in a page of `cap` bytes, reading everything back in between; saves and restores the
// page after `cut` points
static inline void run(int version, uint64_t start, size_t cap, std::vector<Point> &pts, size_t cut, bool exact = true)
{
    std::vector<uint8_t> buf(cap + 16, 0xa5), buf2(cap + 16, 0x5a), disk(cap + 16, 0x77);
    std::vector<Point> want;
    tt::Compressor *c = tt::Compressor::create(version), *c2 = nullptr;
    c->init(start, buf.data(), cap);
    uint64_t last = start;
    bool full = false;
    for (size_t i = 0; i < pts.size(); i++)
    {
        if (pts[i].t < last || pts[i].t - start > INT32_MAX) continue;
        bool ok = c->compress(pts[i].t, pts[i].v);
        if (full && version >= 2) ENSURES(!ok, "a full page stays full");
        if (!ok)
        {
            full = true;
            ENSURES(c->is_full(), "page is marked full");
        }
        else
        {
            want.push_back(pts[i]);
            last = pts[i].t;
            ENSURES(c->get_last_tstamp() == last && c->get_dp_count() == (uint16_t)want.size(), "last timestamp and count");
        }
        for (size_t k = cap; k < cap + 16; k++) ENSURES((c2 ? buf2 : buf)[k] == (c2 ? 0x5a : 0xa5), "nothing written past the page");
        if (i < 8 || i % 16 == 0 || i + 1 == pts.size() || full)
        {
            tt::DataPointVector got;
            c->uncompress(got);
            same(got, want, exact);
        }
        if (i == cut && c2 == nullptr && !want.empty() && !full)
        {
            tt::CompressorPosition p;
            c->save(disk.data());
            c->pad();
            c->save(p);
            c2 = tt::Compressor::create(version);
            c2->init(start, buf2.data(), cap);
            tt::DataPointVector got;
            c2->restore(got, p, disk.data());
            same(got, want, exact);
            ENSURES(c2->get_last_tstamp() == last && c2->get_dp_count() == (uint16_t)want.size(), "restored last timestamp and count");
            delete c;
            c = c2;
        }
        if (full && i > 200) break;
    }
    delete c;
}

} // namespace seq
