// Contract language used by the proof harnesses.
//
// The same harness is (a) executed symbolically by the verifier (irvc) over all
// inputs and (b) compiled natively to replay a counterexample or to search for
// one on the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

extern "C" {
// arbitrary inputs
uint8_t  vp_u8(const char *name);
uint16_t vp_u16(const char *name);
uint32_t vp_u32(const char *name);
uint64_t vp_u64(const char *name);
int8_t   vp_i8(const char *name);
int16_t  vp_i16(const char *name);
int32_t  vp_i32(const char *name);
int64_t  vp_i64(const char *name);
double   vp_f64(const char *name);      // any bit pattern
bool     vp_bool(const char *name);
uint64_t vp_range(const char *name, uint64_t lo, uint64_t hi);     // lo <= x <= hi
int64_t  vp_srange(const char *name, int64_t lo, int64_t hi);
void    *vp_buf(const char *name, uint64_t size);      // arbitrary contents, arbitrary size
void    *vp_words(const char *name, uint64_t n);       // n 8-byte words, arbitrary contents
void    *vp_records(const char *name, uint64_t n, uint64_t size);  // n records of `size` bytes, arbitrary contents
void    *vp_bytes(const char *name, uint64_t size);    // arbitrary contents, constant size
void    *vp_alloc(const char *name, uint64_t size);    // uninitialised
void    *vp_obj(const char *name, uint64_t size);      // zeroed
void     vp_free(void *p);
// contracts
void vp_assume(bool c);
void vp_assert(bool c, const char *what);
void vp_requires(bool c, const char *what);
void vp_cover(const char *what);
bool vp_symbolic();                     // true in the verifier, false natively
uint64_t vp_split(uint64_t v, uint64_t lo, uint64_t hi);   // case split, no effect natively
// verifier only
uint64_t vp_ghost_u64();
bool vp_ghost_bool();
bool vp_same_object(const void *a, const void *b);
uint64_t vp_offset(const void *p);
uint64_t vp_size(const void *p);
void vp_havoc(void *p, uint64_t n);
void vp_unreachable();
}

#define REQUIRES(c)      vp_assume(c)
#define ENSURES(c, msg)  vp_assert((c), msg)
#define COVER(msg)       vp_cover(msg)
#define HARNESS(name)    extern "C" void vp_h_##name()

static inline uint64_t vp_bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double vp_dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
// numeric equality of doubles by bit pattern (NaN equals itself)
static inline bool vp_same(double a, double b) { return vp_bits(a) == vp_bits(b); }
static inline bool vp_isnan(double a) { return (vp_bits(a) & 0x7fffffffffffffffULL) > 0x7ff0000000000000ULL; }
