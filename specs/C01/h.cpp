#include "vp.h"
#include <stdexcept>
#include "bitset.h"
using namespace tt;

static inline unsigned bit_at(const uint8_t *p, uint64_t i) { return (p[i/8] >> (7 - i%8)) & 1; }

// an arbitrary reachable BitSet over a buffer of any capacity, cursor anywhere
static void any_bitset(BitSet& bs, uint8_t *buf, uint64_t cap, uint64_t q, unsigned s)
{
    bs.m_bits = buf;
    bs.m_capacity_in_bytes = cap;
    bs.m_end = buf + cap;
    bs.m_cursor = buf + q;
    bs.m_start = s;
    bs.m_cp_cursor = bs.m_cursor;
    bs.m_cp_start = bs.m_start;
    bs.m_own_memory = false;
}

HARNESS(append)
{
    uint64_t cap = vp_range("cap", 1, 1 << 17);
    uint8_t *buf = (uint8_t*)vp_buf("buf", cap);
    uint64_t q = vp_range("q", 0, cap);
    unsigned s = vp_split(vp_range("s", 0, 7), 0, 7);
    uint64_t pos = q * 8 + s;
    REQUIRES(pos <= cap * 8);
    uint8_t *src = (uint8_t*)vp_bytes("src", 10);
    uint8_t len = vp_range("len", 1, 64);
    uint8_t start = vp_split(vp_range("start", 0, 7), 0, 7);
    BitSet bs;
    any_bitset(bs, buf, cap, q, s);
    uint64_t k = vp_u64("k");
    REQUIRES(k < cap * 8);
    unsigned old = bit_at(buf, k);
    bool thrown = false;
    try { bs.append(src, len, start); }
    catch (const std::out_of_range&) { thrown = true; }
    bool fits = pos + len <= cap * 8;
    COVER("append called");
    ENSURES(thrown == !fits, "append fails exactly when the bits do not fit");
    if (fits)
    {
        ENSURES(bs.size_in_bits() == pos + len, "cursor moves by len");
        if (k < pos) ENSURES(bit_at(buf, k) == old, "earlier bits are kept");
        if (pos <= k && k < pos + len) ENSURES(bit_at(buf, k) == bit_at(src, start + (k - pos)), "appended bits are the source bits");
    }
    else if (k < pos) ENSURES(bit_at(buf, k) == old, "earlier bits are kept on overflow");
}

HARNESS(retrieve)
{
    uint64_t cap = vp_range("cap", 1, 1 << 17);
    uint8_t *buf = (uint8_t*)vp_buf("buf", cap);
    uint64_t q = vp_range("q", 0, cap);
    unsigned s = vp_range("s", 0, 7);
    uint64_t pos = q * 8 + s;
    REQUIRES(pos <= cap * 8);
    uint64_t cq = vp_range("cq", 0, cap);
    unsigned cs = vp_split(vp_range("cs", 0, 7), 0, 7);
    uint64_t cpos = cq * 8 + cs;
    REQUIRES(cpos <= pos);
    uint8_t *dst = (uint8_t*)vp_bytes("dst", 10);
    uint8_t dst0[10];
    memcpy(dst0, dst, 10);
    uint8_t len = vp_range("len", 1, 64);
    uint8_t start = vp_split(vp_range("start", 0, 7), 0, 7);
    BitSet bs;
    any_bitset(bs, buf, cap, q, s);
    BitSetCursor *cur = (BitSetCursor*)vp_obj("cur", sizeof(BitSetCursor));
    cur->m_cursor = buf + cq;
    cur->m_start = cs;
    uint64_t k = vp_range("k", 0, 71);
    uint64_t j = vp_u64("j");
    REQUIRES(j < cap);
    uint8_t oldj = buf[j];
    bool thrown = false;
    ENSURES(bs.bits_left(cur) == pos - cpos, "bits left is the distance to the end");
    try { bs.retrieve(cur, dst, len, start); }
    catch (const std::out_of_range&) { thrown = true; }
    bool fits = cpos + len <= pos;
    COVER("retrieve called");
    ENSURES(thrown == !fits, "retrieve fails exactly when fewer bits are left");
    ENSURES(buf[j] == oldj, "retrieve does not change the stream");
    ENSURES(bs.size_in_bits() == pos, "retrieve does not change the size");
    if (fits)
    {
        ENSURES(8 * (uint64_t)(cur->m_cursor - buf) + cur->m_start == cpos + len, "read cursor moves by len");
        if (k < len) ENSURES(bit_at(dst, start + k) == bit_at(buf, cpos + k), "retrieved bits are the stream bits");
        if (k < start) ENSURES(bit_at(dst, k) == bit_at(dst0, k), "bits before start are kept");
    }
}

// checkpoint, overflow, roll back: the stream is what it was at the checkpoint
HARNESS(rollback)
{
    uint64_t cap = vp_range("cap", 1, 1 << 17);
    uint8_t *buf = (uint8_t*)vp_buf("buf", cap);
    uint64_t q = vp_range("q", 0, cap);
    unsigned s = vp_range("s", 0, 7);
    REQUIRES(q * 8 + s <= cap * 8);
    BitSet bs;
    any_bitset(bs, buf, cap, q, s);
    bs.m_cp_cursor = buf + vp_range("q0", 0, q);    // an earlier checkpoint
    bs.m_cp_start = vp_range("s0", 0, 7);
    bs.save_check_point();
    COVER("checkpoint");
    // any later position (appends only move the cursor, see harness append)
    uint64_t q2 = vp_range("q2", 0, cap);
    unsigned s2 = vp_range("s2", 0, 7);
    bs.m_cursor = buf + q2;
    bs.m_start = s2;
    bs.restore_from_check_point();
    ENSURES(bs.size_in_bits() == q * 8 + s, "roll back returns to the checkpoint");
    ENSURES(bs.avail_capacity_in_bits() == cap * 8 - (q * 8 + s), "available bits");
    ENSURES(bs.size_in_bytes() == (q * 8 + s + 7) / 8, "bytes used, rounded up");
    ENSURES(bs.capacity_in_bytes() == cap, "capacity");
    ENSURES(bs.avail_capacity_in_bytes() == cap - (q * 8 + s + 7) / 8, "available bytes");
    ENSURES(bs.is_empty() == (q * 8 + s == 0), "empty iff no bits");
}

HARNESS(init)
{
    uint64_t cap = vp_range("cap", 1, 1 << 17);
    uint8_t *buf = (uint8_t*)vp_buf("buf", cap);
    bool full = vp_bool("full");
    uint64_t j = vp_u64("j");
    REQUIRES(j < cap);
    uint8_t oldj = buf[j];
    BitSet bs;
    bs.init(buf, cap, full);
    COVER("init");
    ENSURES(bs.size_in_bits() == (full ? cap * 8 : 0), "empty or full after init");
    ENSURES(bs.capacity_in_bytes() == cap, "capacity");
    ENSURES(buf[j] == oldj, "init keeps the contents");
    BitSetCursor *cur = (BitSetCursor*)vp_obj("cur", sizeof(BitSetCursor));
    cur->init(&bs);
    ENSURES(bs.bits_left(cur) == bs.size_in_bits(), "a new cursor is at the beginning");
    unsigned s = vp_range("s", 0, 7);
    uint64_t q = vp_range("q", 0, cap - 1);
    cur->m_cursor = buf + q;
    cur->m_start = s;
    cur->ignore_rest_of_byte();
    ENSURES(8 * (uint64_t)(cur->m_cursor - buf) + cur->m_start == (q * 8 + s + 7) / 8 * 8, "cursor skips to the byte boundary");
    if (vp_bool("reset"))
    {
        bs.reset();
        ENSURES(bs.is_empty() && buf[j] == 0, "reset empties and clears");
    }
    else
    {
        bs.recycle();
        ENSURES(bs.is_empty() && buf[j] == oldj, "recycle empties");
    }
}

HARNESS(copy)
{
    uint64_t cap = vp_range("cap", 1, 1 << 17);
    uint8_t *buf = (uint8_t*)vp_buf("buf", cap);
    uint64_t q = vp_range("q", 0, cap);
    unsigned s = vp_range("s", 0, 7);
    REQUIRES(q * 8 + s <= cap * 8);
    BitSet bs;
    any_bitset(bs, buf, cap, q, s);
    uint64_t bytes = (q * 8 + s + 7) / 8;
    uint8_t *out = (uint8_t*)vp_buf("out", cap);
    uint64_t j = vp_u64("j");
    REQUIRES(j < cap);
    uint8_t o0 = out[j];
    bs.copy_to(out);
    COVER("copied out");
    ENSURES(out[j] == (j < bytes ? buf[j] : o0), "exactly the used bytes are copied");
    // and back into another stream
    uint64_t cap2 = vp_range("cap2", 1, 1 << 17);
    REQUIRES(bytes <= cap2);
    uint8_t *buf2 = (uint8_t*)vp_buf("buf2", cap2);
    BitSet bs2;
    bs2.init(buf2, cap2);
    bs2.copy_from(out, q, s);
    COVER("copied in");
    ENSURES(bs2.size_in_bits() == q * 8 + s, "restored size");
    if (j < bytes) ENSURES(buf2[j] == buf[j], "restored contents");
}

HARNESS(set_test)
{
    uint64_t cap = vp_range("cap", 1, 1 << 17);
    uint8_t *buf = (uint8_t*)vp_buf("buf", cap);
    BitSet bs;
    bs.init(buf, cap);
    uint64_t i = vp_range("i", 0, 1 << 24);
    uint64_t k = vp_u64("k");
    REQUIRES(k < cap * 8);
    unsigned old = bit_at(buf, k);
    bool thrown = false, r = false;
    ENSURES(bs.test(k) == (old != 0), "test reads the bit");
    try { bs.set(i); r = bs.test(i); } catch (const std::out_of_range&) { thrown = true; }
    COVER("set");
    ENSURES(thrown == (i >= cap * 8), "index checked");
    if (!thrown) ENSURES(r, "bit is set");
    ENSURES(bit_at(buf, k) == (k == i ? 1 : old), "no other bit changes");
}
