// Contracts of the bit stream (proved in C01) in terms of a window of the stream.
//
// The bits written from position `base` on are kept in `tape` (128 bits, first bit on top). Positions are kept in
// the fields of the stream and of the cursor as in the real code. Bits before the window are never written and read
// as arbitrary bits.
#pragma once
#include "vp.h"
#include <stdexcept>
#include "bitset.h"
#include "compress.h"

typedef unsigned __int128 tape_t;
struct Tape
{
    tape_t bits;
    uint8_t *base_cursor;
    uint8_t base_start;
    uint64_t count;         // data points decoded
    uint64_t tstamp;        // the last one
    double value;
};
extern Tape g_tape;

static inline int64_t tape_off(uint8_t *cursor, uint8_t start) { return 8 * (int64_t)(cursor - g_tape.base_cursor) + start - g_tape.base_start; }
static inline tape_t tape_mask(unsigned n) { return n == 0 ? 0 : ~(tape_t)0 << (128 - n); }

// the bytes of an object from p on, at most 8, first byte on top
static inline uint64_t tape_load(const uint8_t *p, unsigned n) { uint64_t r = 0; for (unsigned i = 0; i < n; i++) r |= (uint64_t)p[i] << (56 - 8 * i); return r; }
static inline void tape_store(uint8_t *p, unsigned n, uint64_t v) { for (unsigned i = 0; i < n; i++) p[i] = v >> (56 - 8 * i); }
static inline unsigned tape_bytes(const uint8_t *p) { uint64_t n = vp_size(p) - vp_offset(p); return n > 8 ? 8 : n; }

extern "C" void tape_append(tt::BitSet *bs, uint8_t *bits, uint8_t len, uint8_t start)
{
    unsigned n = tape_bytes(bits);
    int64_t off = tape_off(bs->m_cursor, bs->m_start);
    ENSURES((len > 0) & ((unsigned)start + len <= 8 * n), "bits to append are inside the source");
    ENSURES((off >= 0) & (off + len <= 128), "append goes to the end of the stream");
    if (8 * (uint64_t)(bs->m_cursor - bs->m_bits) + bs->m_start + len > 8 * (uint64_t)(bs->m_end - bs->m_bits))
    {
        // part of it may have been written
        g_tape.bits = (g_tape.bits & tape_mask(off)) | (((tape_t)vp_ghost_u64() << 64 | vp_ghost_u64()) & ~tape_mask(off));
        bs->m_cursor = bs->m_end;
        bs->m_start = 0;
        throw std::out_of_range("bitset is full");
    }
    tape_t chunk = ((tape_t)(tape_load(bits, n) << start) << 64) & tape_mask(len);
    g_tape.bits = (g_tape.bits & ~(tape_mask(len) >> off)) | (chunk >> off);
    unsigned e = bs->m_start + len;
    bs->m_cursor += e / 8;
    bs->m_start = e % 8;
}

extern "C" void tape_retrieve(tt::BitSet *bs, tt::BitSetCursor *cur, uint8_t *bits, uint8_t len, uint8_t start)
{
    unsigned n = tape_bytes(bits);
    int64_t off = tape_off(cur->m_cursor, cur->m_start);
    ENSURES((len > 0) & ((unsigned)start + len <= 8 * n), "bits to retrieve fit the destination");
    ENSURES(cur->m_start < 8, "cursor is valid");
    int64_t left = 8 * (int64_t)(bs->m_cursor - cur->m_cursor) + bs->m_start - cur->m_start;
    if (left < len) throw std::out_of_range("end of bitset reached");
    tape_t chunk;
    if (off < 0) chunk = (tape_t)vp_ghost_u64() << 64;
    else
    {
        ENSURES(off + len <= 128, "reads what was written");
        chunk = g_tape.bits << off;
    }
    uint64_t mask = (uint64_t)(tape_mask(len) >> 64) >> start;
    uint64_t old = tape_load(bits, n);
    tape_store(bits, n, (old & ~mask) | (((uint64_t)(chunk >> 64) >> start) & mask));
    unsigned e = cur->m_start + len;
    cur->m_cursor += e / 8;
    cur->m_start = e % 8;
}

extern "C" tt::BitSetCursor *tape_new_cursor(tt::BitSet *bs)
{
    tt::BitSetCursor *c = (tt::BitSetCursor*)vp_obj("cursor", sizeof(tt::BitSetCursor));
    c->m_cursor = bs->m_bits;
    c->m_start = 0;
    return c;
}

// a list of data points is known by its length and its last element
extern "C" void tape_emplace(tt::DataPointVector *dps, const uint64_t *t, const double *v)
{
    g_tape.count++;
    g_tape.tstamp = *t;
    g_tape.value = *v;
}
extern "C" void tape_push(tt::DataPointVector *dps, const tt::DataPointPair *dp)
{
    g_tape.count++;
    g_tape.tstamp = dp->first;
    g_tape.value = dp->second;
}
extern "C" uint64_t tape_size(const tt::DataPointVector *dps) { return g_tape.count; }
