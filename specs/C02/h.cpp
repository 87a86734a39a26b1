#include "vp.h"
#include <stdexcept>
#include "bitset.h"
#include "compress.h"
using namespace tt;

// an arbitrary bit stream: any capacity, any position, any content; the bit offset is a case split
struct Stream
{
    uint64_t cap, pos, end;
    uint8_t *buf;
    BitSet bs;
    BitSetCursor *cur;

    Stream()
    {
        cap = vp_range("cap", 1, 1 << 17);
        buf = (uint8_t*)vp_buf("buf", cap);
        uint64_t q = vp_range("q", 0, cap);
        unsigned s = vp_split(vp_range("s", 0, 7), 0, 7);
        pos = q * 8 + s;
        REQUIRES(pos <= cap * 8);
        bs.init(buf, cap);
        bs.m_cursor = buf + q;
        bs.m_start = s;
        cur = (BitSetCursor*)vp_obj("cur", sizeof(BitSetCursor));
        cur->m_cursor = bs.m_cursor;
        cur->m_start = bs.m_start;
    }
    uint64_t wpos() { return bs.size_in_bits(); }
    uint64_t rpos() { return 8 * (uint64_t)(cur->m_cursor - buf) + cur->m_start; }
};

static inline unsigned bit_at(const uint8_t *p, uint64_t i) { return (p[i/8] >> (7 - i%8)) & 1; }

// signed 64-bit numbers
HARNESS(i4)
{
    Stream s;
    int64_t n = vp_i64("n");
    uint64_t k = vp_u64("k");
    REQUIRES(k < s.pos);
    unsigned old = bit_at(s.buf, k);
    bool thrown = false;
    try { Compressor::compress4(n, s.bs); } catch (const std::out_of_range&) { thrown = true; }
    ENSURES(bit_at(s.buf, k) == old, "earlier bits are kept");
    uint64_t need = n == 0 ? 1 : (n >= -2048 && n <= 2047) ? 14 : (n >= -65536 && n <= 65535) ? 20 : 67;
    if (thrown)
    {
        COVER("number does not fit");
        ENSURES(s.pos + need > s.cap * 8, "refused only when it does not fit");
        return;
    }
    COVER("number encoded");
    s.end = s.wpos();
    ENSURES(s.end > s.pos && s.end <= s.cap * 8, "something was written, inside the buffer");
    int64_t m = Compressor::uncompress_i4(s.cur, s.bs);
    ENSURES(m == n, "decoded number is the encoded number");
    ENSURES(s.rpos() == s.end, "reader stops where the writer stopped");
}

// the reader on arbitrary bits, of which only some are valid: a truncated code is an end-of-data condition
HARNESS(i4_truncated)
{
    Stream s;
    int64_t n = vp_i64("n");
    uint64_t pos0 = s.pos;
    try { Compressor::compress4(n, s.bs); } catch (const std::out_of_range&) { return; }
    uint64_t end = s.wpos();
    uint64_t cut = vp_range("cut", 1, 67);
    REQUIRES(cut <= end - pos0);
    // the stream ends `cut` bits earlier
    uint64_t e = end - cut;
    s.bs.m_cursor = s.buf + e / 8;
    s.bs.m_start = e % 8;
    COVER("truncated");
    bool thrown = false;
    try { Compressor::uncompress_i4(s.cur, s.bs); } catch (const std::out_of_range&) { thrown = true; }
    ENSURES(thrown, "a truncated code is reported as end of data");
}

// unsigned 32-bit numbers
HARNESS(i4a)
{
    Stream s;
    uint32_t n = vp_u32("n");
    uint64_t k = vp_u64("k");
    REQUIRES(k < s.pos);
    unsigned old = bit_at(s.buf, k);
    bool thrown = false;
    try { Compressor::compress4a(n, s.bs); } catch (const std::out_of_range&) { thrown = true; }
    ENSURES(bit_at(s.buf, k) == old, "earlier bits are kept");
    uint64_t need = n < (1u << 8) ? 10 : n < (1u << 16) ? 18 : n < (1u << 24) ? 26 : 34;
    if (thrown)
    {
        COVER("number does not fit");
        ENSURES(s.pos + need > s.cap * 8, "refused only when it does not fit");
        return;
    }
    COVER("number encoded");
    s.end = s.wpos();
    ENSURES(s.end > s.pos && s.end <= s.cap * 8, "something was written, inside the buffer");
    uint32_t m = Compressor::uncompress_i4a(s.cur, s.bs);
    ENSURES(m == n, "decoded number is the encoded number");
    ENSURES(s.rpos() == s.end, "reader stops where the writer stopped");
}

HARNESS(i4a_truncated)
{
    Stream s;
    uint32_t n = vp_u32("n");
    uint64_t pos0 = s.pos;
    try { Compressor::compress4a(n, s.bs); } catch (const std::out_of_range&) { return; }
    uint64_t end = s.wpos();
    uint64_t cut = vp_range("cut", 1, 34);
    REQUIRES(cut <= end - pos0);
    uint64_t e = end - cut;
    s.bs.m_cursor = s.buf + e / 8;
    s.bs.m_start = e % 8;
    COVER("truncated");
    bool thrown = false;
    try { Compressor::uncompress_i4a(s.cur, s.bs); } catch (const std::out_of_range&) { thrown = true; }
    ENSURES(thrown, "a truncated code is reported as end of data");
}

// a number followed by another one: both are read back, in order
HARNESS(pair)
{
    Stream s;
    int64_t a = vp_i64("a");
    uint32_t b = vp_u32("b");
    try { Compressor::compress4(a, s.bs); Compressor::compress4a(b, s.bs); } catch (const std::out_of_range&) { return; }
    COVER("two numbers encoded");
    s.end = s.wpos();
    ENSURES(Compressor::uncompress_i4(s.cur, s.bs) == a, "first number");
    ENSURES(Compressor::uncompress_i4a(s.cur, s.bs) == b, "second number");
    ENSURES(s.rpos() == s.end, "reader stops where the writer stopped");
}
