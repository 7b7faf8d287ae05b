// Abstract view of sps::BitContext used by all contracts: bytes buf[0..sz), cursor in bits.
#ifndef BITS_SPEC_HPP
#define BITS_SPEC_HPP
#include "vspec.hpp"
#include <sps_io_bits.hpp>
namespace bits {
using sps::BitContext;
static inline uint64_t cur(const BitContext* b) { return (uint64_t)((int64_t) b->buf_pos + 1) * 8 - b->remain_bits; }
static inline bool shape(const BitContext* b) {
    return (b->remain_bits < 8) & (b->buf_pos >= -1) & (b->sz < 0x10000000)
            & ((uint64_t)((int64_t) b->buf_pos + 1) <= b->sz)
            & ((b->remain_bits == 0) | (b->buf_pos >= 0));
}
// reading: the not yet consumed bits of the current byte are cached left-aligned
static inline bool rrep(const BitContext* b) {
    if (!shape(b)) return false;
    if (b->remain_bits == 0) return true;
    return b->remain_value == (uint8_t)(b->buf[b->buf_pos] << (8 - b->remain_bits));
}
// writing: the not yet written bits of the current byte are zero
static inline bool wrep(const BitContext* b) {
    if (!shape(b)) return false;
    if (b->remain_bits == 0) return true;
    return (uint8_t)(b->buf[b->buf_pos] << (8 - b->remain_bits)) == 0;
}
// n bits starting at bit sh (0 = MSB) of byte by, MSB first (n <= 64-7)
static inline uint64_t get(const uint8_t* p, uint64_t by, uint32_t sh, size_t n) {
    uint64_t w = 0;
    uint32_t k = 0;
    for (; k * 8 < sh + n; ++k) w = w << 8 | p[by + k];
    return (w >> (k * 8 - sh - n)) & ((1ull << n) - 1);
}
static inline uint64_t nextbyte(const BitContext* b) { return (int64_t) b->buf_pos + (b->remain_bits == 0); }
static inline uint32_t nextbit(const BitContext* b) { return (8 - b->remain_bits) & 7; }
}
extern "C" {
uint32_t c_BitContext_read_bits(sps::BitContext* b, size_t n);
uint8_t  c_BitContext_read_int8(sps::BitContext* b);
uint16_t c_BitContext_read_int16(sps::BitContext* b);
uint32_t c_BitContext_read_int24(sps::BitContext* b);
uint32_t c_BitContext_read_int32(sps::BitContext* b);
void c_BitContext_write_bits(sps::BitContext* b, uint64_t v, size_t n);
size_t c_BitContext_size_bits(sps::BitContext* b);
}
#endif
