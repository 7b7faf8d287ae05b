#include "bits.hpp"
using sps::BitContext;
using namespace bits;

static inline void req_read(BitContext* b, size_t n) {
    v_requires(rrep(b), "rep");
    v_requires(cur(b) + n <= b->sz * 8, "bits available");
    v_assigns(&b->buf_pos, sizeof b->buf_pos);
    v_assigns(&b->remain_bits, sizeof b->remain_bits);
    v_assigns(&b->remain_value, sizeof b->remain_value);
}
// cur' = cur + n, written per byte and bit so that known alignments stay constants
static inline void ens_read(BitContext* b, int32_t pos, size_t rem, size_t n) {
    V_ENSURE_EQ(b->remain_bits, (rem - n) & 7, "cursor advances by n (bit)");
    V_ENSURE_EQ(b->buf_pos, pos + (int32_t) ((n + 7 - rem) / 8), "cursor advances by n (byte)");
    if (!v_enforce() && b->remain_bits) b->remain_value = (uint8_t)(b->buf[b->buf_pos] << (8 - b->remain_bits));
    v_ensures(rrep(b), "rep");
}

//@ contract c_BitContext_read_bits for sps::BitContext::read_bits(unsigned long)
extern "C" uint32_t c_BitContext_read_bits(BitContext* b, size_t n) {
    v_requires(n <= 32, "at most 32 bits");
    req_read(b, n);
    int32_t pos = b->buf_pos;
    size_t rem = b->remain_bits;
    uint64_t by = nextbyte(b);
    uint32_t sh = nextbit(b);
    uint32_t r = V_BODY(uint32_t, b->read_bits(n));
    ens_read(b, pos, rem, n);
    V_ENSURE_EQ(r, (uint32_t) get(b->buf, by, sh, n), "value is the next n bits, MSB first");
    return r;
}
#define READ_INT(T, fn, bitsn) \
extern "C" T c_BitContext_##fn(BitContext* b) { \
    req_read(b, bitsn); \
    int32_t pos = b->buf_pos; \
    size_t rem = b->remain_bits; \
    uint64_t by = nextbyte(b); \
    uint32_t sh = nextbit(b); \
    T r = V_BODY(T, b->fn()); \
    ens_read(b, pos, rem, bitsn); \
    V_ENSURE_EQ(r, (T) get(b->buf, by, sh, bitsn), "value is the next bits, MSB first"); \
    return r; \
}
//@ contract c_BitContext_read_int8 for sps::BitContext::read_int8()
READ_INT(uint8_t, read_int8, 8)
//@ contract c_BitContext_read_int16 for sps::BitContext::read_int16()
READ_INT(uint16_t, read_int16, 16)
//@ contract c_BitContext_read_int24 for sps::BitContext::read_int24()
READ_INT(uint32_t, read_int24, 24)
//@ contract c_BitContext_read_int32 for sps::BitContext::read_int32()
READ_INT(uint32_t, read_int32, 32)

// arbitrary reader state over an arbitrary buffer; alignment is the shard
static void any_reader(BitContext* b, uint32_t rem) {
    size_t sz = v_range("sz", 0, 0xfffffff);
    uint8_t* buf = v_buf("buf", sz);
    b->init(buf, sz);
    b->buf_pos = (int32_t) v_any32("buf_pos");
    b->remain_bits = rem;
    b->remain_value = v_any8("remain_value");
}
//@ harness h_read_bits prop=C01 shards=8 about="read_bits(n) against its contract for every n<=32, every cursor, every buffer"
extern "C" void h_read_bits() {
    vspec::init();
    BitContext b;
    any_reader(&b, v_shard(8));
    v_assume(rrep(&b));
    c_BitContext_read_bits(&b, v_split(v_range("n", 0, 32)));
}
//@ harness h_read_int prop=C01 shards=8 uses=c_BitContext_read_bits about="read_int8/16/24/32 against their contracts, given read_bits' contract"
extern "C" void h_read_int() {
    vspec::init();
    BitContext b;
    any_reader(&b, v_shard(8));
    v_assume(rrep(&b));
    switch (v_split(v_range("which", 0, 3))) {
        case 0: c_BitContext_read_int8(&b); break;
        case 1: c_BitContext_read_int16(&b); break;
        case 2: c_BitContext_read_int24(&b); break;
        default: c_BitContext_read_int32(&b); break;
    }
}
//@ contract c_BitContext_skip for sps::BitContext::skip_read_bytes(unsigned long)
extern "C" void c_BitContext_skip(BitContext* b, size_t n) {
    v_requires(rrep(b), "rep");
    uint64_t left = b->sz - b->buf_pos - 1;
    uint64_t to = n < left ? b->buf_pos + n : b->sz - 1;
    if (v_enforce() || b->remain_bits != 0) {
        uint8_t* buf = b->buf;
        uint64_t sz = b->sz;
        b->skip_read_bytes(n);
        if (v_enforce()) v_ensures((b->buf == buf) & (b->sz == sz) & (b->remain_bits == 0) & ((uint64_t) (int64_t) b->buf_pos == to), "skips n bytes and stops at the end");
        return;
    }
    b->buf_pos = to;
}
//@ harness h_read_avail prop=C01 shards=8 about="size/acquire never promise more than what is left; skip never leaves the buffer; init starts at bit 0"
extern "C" void h_read_avail() {
    vspec::init();
    BitContext b;
    any_reader(&b, v_shard(8));
    v_assume(rrep(&b));
    uint64_t left = b.sz * 8 - cur(&b);
    switch (v_split(v_range("which", 0, 6))) {
        case 0: v_assert(b.size_bits() == left, "size_bits is the number of unread bits"); break;
        case 1: v_assert(b.size() == left / 8, "size is the number of unread whole bytes"); break;
        case 2: {
            size_t n = v_any64("n");
            v_assert((b.acquire_bits(n) == SUCCESS) == (n <= left), "acquire_bits succeeds iff available");
            break;
        }
        case 3: {
            uint32_t n = v_any32("n");
            v_assert((b.acquire(n) == SUCCESS) == ((uint64_t) n * 8 <= left), "acquire succeeds iff available");
            break;
        }
        case 4: {
            size_t n = v_any64("n");
            uint64_t p = cur(&b);
            uint8_t* buf = b.buf;
            if (b.remain_bits == 0) c_BitContext_skip(&b, n); else b.skip_read_bytes(n);
            v_assert(rrep(&b), "rep after skip");
            v_assert(b.buf == buf, "skip keeps the buffer");
            v_assert(cur(&b) == p + 8 * (n < left / 8 ? n : left / 8), "skip advances n bytes and stops at the end");
            break;
        }
        case 5: {
            v_assert(b.pos() == b.buf + nextbyte(&b), "pos is the byte holding the next bit");
            break;
        }
        default: {
            uint8_t* q = b.buf;
            size_t n = b.sz;
            b.init(q, n);
            v_assert(rrep(&b) & (cur(&b) == 0) & (b.buf == q) & (b.sz == n), "init starts at bit 0 of p[0..sz)");
        }
    }
}
//@ harness h_read_bytes prop=C01 about="read_bytes copies exactly the next n bytes and advances by n"
extern "C" void h_read_bytes() {
    vspec::init();
    BitContext b;
    any_reader(&b, 0);
    v_assume(rrep(&b));
    size_t n = v_range("n", 0, 0xfffffff);
    uint64_t p = cur(&b) / 8;
    v_assume(n <= b.sz - p);
    uint8_t* out = v_buf("out", n + 1);
    uint64_t k = v_range("k", 0, 0xfffffff);
    v_assume(k <= n);
    uint8_t old = out[n];
    b.read_bytes(out, n);
    v_assert(rrep(&b) & (cur(&b) == 8 * (p + n)), "cursor advances by n bytes");
    if (k < n) v_assert(out[k] == b.buf[p + k], "byte k copied");
    else v_assert(out[n] == old, "nothing written beyond n");
}

//@ contract c_BitContext_write_bits for sps::BitContext::write_bits(unsigned long, unsigned long)
extern "C" void c_BitContext_write_bits(BitContext* b, uint64_t v, size_t n) {
    v_requires(wrep(b), "rep");
    v_requires(n <= 56, "at most 56 bits");
    uint64_t p = cur(b), by = nextbyte(b);
    uint32_t sh = nextbit(b);
    v_requires(p + n <= b->sz * 8, "room for n bits");
    uint8_t first = sh ? b->buf[by] : 0;
    v_assigns(&b->buf_pos, sizeof b->buf_pos);
    v_assigns(&b->remain_bits, sizeof b->remain_bits);
    v_assigns(&b->remain_value, sizeof b->remain_value);
    v_assigns(b->buf + by, (sh + n + 7) / 8);
    V_BODY_VOID(b->write_bits(v, n));
    uint64_t q = p + n;
    V_ENSURE_EQ(b->remain_bits, (size_t)((8 - (q & 7)) & 7), "cursor advances by n (bit)");
    V_ENSURE_EQ(b->buf_pos, (int32_t)((q + 7) / 8) - 1, "cursor advances by n (byte)");
    v_ensures(wrep(b), "rep");
    if (n) v_ensures(get(b->buf, by, sh, n) == (v & ((1ull << n) - 1)), "the n bits are the low n bits of value, MSB first");
    if (sh) v_ensures((b->buf[by] >> (8 - sh)) == (first >> (8 - sh)), "bits before the cursor are kept");
}
static void any_writer(BitContext* b, uint32_t rem) { any_reader(b, rem); }
//@ harness h_write_bits prop=C02 shards=8 about="write_bits(value,n) against its contract (value, cursor, frame) for every n<=56, value, cursor"
extern "C" void h_write_bits() {
    vspec::init();
    BitContext b;
    any_writer(&b, v_shard(8));
    v_assume(wrep(&b));
    uint64_t v = v_any64("value");
    c_BitContext_write_bits(&b, v, v_split(v_range("n", 0, 56)));
}
//@ harness h_write_int prop=C02 shards=8 uses=c_BitContext_write_bits about="write_int8/16/24/32 store the value big-endian at the cursor"
extern "C" void h_write_int() {
    vspec::init();
    BitContext b;
    any_writer(&b, v_shard(8));
    v_assume(wrep(&b));
    uint32_t n = 8 * (1 + v_split(v_range("which", 0, 3)));
    uint64_t p = cur(&b), by = nextbyte(&b);
    uint32_t sh = nextbit(&b);
    v_assume(p + n <= b.sz * 8);
    uint32_t v = v_any32("value");
    if (n == 8) b.write_int8(v);
    else if (n == 16) b.write_int16(v);
    else if (n == 24) b.write_int24(v);
    else b.write_int32(v);
    v_assert(wrep(&b) & (cur(&b) == p + n), "cursor advances");
    v_assert(get(b.buf, by, sh, n) == (v & ((1ull << n) - 1)), "big-endian value");
}
//@ harness h_write_bytes prop=C02 about="write_bytes stores exactly the n given bytes at the cursor, skip_write_bytes nothing"
extern "C" void h_write_bytes() {
    vspec::init();
    BitContext b;
    any_writer(&b, 0);
    v_assume(wrep(&b));
    size_t n = v_range("n", 0, 0xfffffff);
    uint64_t p = cur(&b) / 8;
    v_assume(n <= b.sz - p);
    uint8_t* in = v_buf("in", n);
    uint64_t k = v_range("k", 0, 0xfffffff);
    v_assume(k < b.sz);
    uint8_t old = b.buf[k];
    if (v_anyb("skip")) {
        b.skip_write_bytes(n);
        v_assert(b.buf[k] == old, "skip writes nothing");
    } else {
        b.write_bytes(in, n);
        if ((k >= p) & (k < p + n)) v_assert(b.buf[k] == in[k - p], "byte stored");
        else v_assert(b.buf[k] == old, "other bytes kept");
    }
    v_assert(wrep(&b) & (cur(&b) == 8 * (p + n)), "cursor advances by n bytes");
}
//@ harness h_write_read prop=C02 shards=8 about="a field written at any bit position reads back unchanged, also after a second write"
extern "C" void h_write_read() {
    vspec::init();
    BitContext b;
    any_writer(&b, 0);
    v_assume(wrep(&b));
    uint32_t pre = v_shard(8);
    uint64_t by = cur(&b) / 8;
    size_t n = v_split(v_range("n", 1, 32));
    size_t m = v_split(v_range("m", 0, 3)) * 5 + 1;
    v_assume(cur(&b) + pre + n + m <= b.sz * 8);
    uint64_t v = v_any64("v"), w = v_any64("w");
    b.write_bits(v_any8("x"), pre);
    b.write_bits(v, n);
    b.write_bits(w, m);
    BitContext r(b.buf, b.sz);
    r.skip_read_bytes(by);
    r.read_bits(pre);
    v_assert(r.read_bits(n) == (v & ((1ull << n) - 1)), "first field reads back");
    v_assert(r.read_bits(m) == (w & ((1ull << m) - 1)), "second field reads back");
}
