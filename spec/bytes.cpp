//@ link stream.cpp
#include "stream.hpp"
using namespace vspec;
using sps::BytesReader;
using sps::BytesWriter;
using sps::AVBuffer;

static BytesReader* g_rd;
static uint32_t g_n;
extern "C" bool inv_reader() { return reader_ok(g_rd->buf.get()); }
static uint8_t g_old;
static bool g_fix;
static size_t g_end, g_ptr;
extern "C" bool inv_nofail() { return !src->failed; }
extern "C" bool inv_fix() { return (!g_fix) | ((g_rd->buf->buf_ptr == g_ptr) & (g_rd->buf->buf_end >= g_end)); }
extern "C" bool inv_old() { return (!g_fix) || k >= g_end || g_rd->buf->buf[k] == g_old; }
extern "C" bool inv_room() { return g_rd->buf->buf_cap - g_rd->buf->buf_ptr >= g_n; }

//@ contract c_BytesReader_acquire for sps::BytesReader::acquire(unsigned int)
extern "C" error_t c_BytesReader_acquire(BytesReader* r, uint32_t n) {
    AVBuffer* b = r->buf.get();
    g_rd = r;
    g_n = n;
    if (!v_enforce()) consumed = src->got - b->size();     // ghost: stream offset of the read position
    v_requires(reader_ok(b), "reader is a window of the stream");
    size_t had = b->size(), ptr = b->buf_ptr;
    bool fits = (had >= n) | ((b->rewindable ? b->buf_cap : b->buf_cap - b->buf_ptr) >= n);
    bool fixed = !b->rewindable;
    uint64_t kk = k;
    uint8_t old = (fixed & (kk < b->buf_end)) ? b->buf[kk] : 0;
    size_t end = b->buf_end;
    src->failed = false;
    g_old = old; g_fix = fixed; g_end = end; g_ptr = ptr;
    v_assigns(&src->failed, sizeof src->failed);
    v_assigns(&b->buf_ptr, sizeof b->buf_ptr);
    v_assigns(&b->buf_end, sizeof b->buf_end);
    v_assigns(b->buf, b->buf_cap);
    v_assigns(&src->got, sizeof src->got);
    error_t ret = V_BODY(error_t, r->acquire(n));
    if (!v_enforce()) {
        // the window holds the stream bytes (proved below for an arbitrary byte k)
        v_assume((b->buf_ptr <= b->buf_end) & (b->buf_end <= b->buf_cap) & (consumed <= src->got) & (src->got <= src->n)
                 & (b->buf_end - b->buf_ptr == src->got - consumed));
        memcpy(b->pos(), src->s + consumed, b->size());
    }
    v_ensures(reader_ok(b), "still a window of the stream starting at the same stream byte");
    v_ensures(b->size() >= had, "no buffered byte is lost");
    if (ret == SUCCESS) v_ensures(b->size() >= n, "n bytes are available");
    else v_ensures(!fits | src->failed, "fails only when n cannot fit or the source fails");
    if (!fits) v_ensures((ret != SUCCESS) & (b->size() == had), "a request that cannot fit is refused");
    if (fixed) {
        v_ensures(b->buf_ptr == ptr, "a non-rewindable buffer never moves");
        if (kk < end) v_ensures(b->buf[kk] == old, "a non-rewindable buffer keeps what was read");
    }
    return ret;
}

//@ harness h_reader_acquire prop=C03 inv=inv_reader,inv_room,inv_nofail,inv_fix,inv_old unroll=1 shards=2 about="BytesReader::acquire against its contract for every buffer state, every source behaviour, every n"
extern "C" void h_reader_acquire() {
    vspec::init();
    new_source(0xfffffff);
    auto r = any_reader(0xfffffff, v_shard(2));
    v_assume(reader_ok(r->buf.get()));
    c_BytesReader_acquire(r.get(), v_any32("n"));
}
//@ harness h_reader_nosource prop=C03 about="without a source acquire(n) succeeds only if n bytes are already buffered"
extern "C" void h_reader_nosource() {
    vspec::init();
    size_t len = v_range("len", 0, 0x7fffffff);
    uint8_t* p = v_buf("p", len);
    auto r = BytesReader::create_reader(p, (int) len);
    size_t used = v_range("used", 0, 0x7fffffff);
    v_assume(used <= len);
    r->skip_bytes(used);
    v_assert((r->size() == len - used) & (r->pos() == p + used), "reader covers the given bytes");
    uint32_t n = v_any32("n");
    v_assert((r->acquire(n) == SUCCESS) == (n <= len - used), "acquire succeeds iff n bytes are left");
    v_assert((r->size() == len - used) & (r->pos() == p + used), "acquire does not consume");
}
//@ harness h_reader_ints prop=C03 about="read_int8/16/24/32 return the next bytes of the stream big-endian and consume exactly them"
extern "C" void h_reader_ints() {
    vspec::init();
    new_source(0xfffffff);
    auto r = any_reader(0xfffffff);
    AVBuffer* b = r->buf.get();
    k = 0;
    v_assume((b->buf_ptr <= b->buf_end) & (b->buf_end <= b->buf_cap));
    uint32_t w = 1 + v_split(v_range("which", 0, 3));
    v_assume(b->size() >= w);
    size_t p = b->buf_ptr, e = b->buf_end;
    uint8_t* q = b->pos();
    uint32_t want = 0;
    for (uint32_t i = 0; i < w; ++i) want = want << 8 | q[i];
    uint32_t v = w == 1 ? r->read_int8() : w == 2 ? r->read_int16() : w == 3 ? r->read_int24() : r->read_int32();
    v_assert(v == want, "big-endian value");
    v_assert((b->buf_ptr == p + w) & (b->buf_end == e), "exactly the bytes of the integer are consumed");
}
static uint8_t *g_out, *g_from;
static size_t g_m;
//@ harness h_reader_bytes prop=C03 about="read_bytes copies exactly the next n bytes"
extern "C" void h_reader_bytes() {
    vspec::init();
    new_source(0xfffffff);
    auto r = any_reader(0xfffffff);
    AVBuffer* b = r->buf.get();
    v_assume((b->buf_ptr <= b->buf_end) & (b->buf_end <= b->buf_cap));
    size_t n = v_range("n", 0, 0xfffffff);
    v_assume(n <= b->size());
    size_t p = b->buf_ptr, e = b->buf_end;
    uint8_t* q = b->pos();
    uint8_t* out = v_buf("out", n + 1);
    uint8_t guard = out[n];
    r->read_bytes(out, n);
    if (k < n) v_assert(out[k] == q[k], "byte k copied");
    v_assert(out[n] == guard, "nothing written beyond n");
    v_assert((b->buf_ptr == p + n) & (b->buf_end == e), "exactly n bytes are consumed");
}
//@ harness h_reader_reverse prop=C03 about="read_reverse_bytes stores the next n bytes backwards"
extern "C" void h_reader_reverse() {
    vspec::init();
    new_source(0xfffffff);
    auto r = any_reader(0xfffffff);
    AVBuffer* b = r->buf.get();
    v_assume((b->buf_ptr <= b->buf_end) & (b->buf_end <= b->buf_cap));
    size_t n = v_split(v_range("n", 0, 8));
    v_assume(n <= b->size());
    size_t p = b->buf_ptr;
    uint8_t* q = b->pos();
    uint8_t out[9];
    memset(out, 0x5a, 9);
    r->read_reverse_bytes(out + 8, n);
    for (size_t i = 0; i < 9; ++i) v_assert(out[8 - i] == (i < n ? q[i] : 0x5a), "byte i");
    v_assert(b->buf_ptr == p + n, "exactly n bytes are consumed");
}
//@ harness h_writer prop=C03 about="BytesWriter: acquire iff room; every write appends big-endian bytes at the end and touches nothing else"
extern "C" void h_writer() {
    vspec::init();
    size_t cap = v_range("cap", 0, 0x7fffffff);
    uint8_t* mem = v_buf("mem", cap);
    auto w = BytesWriter::create_writer(mem, (int) cap);
    AVBuffer* b = w->buf.get();
    v_assert((b->buf_ptr == 0) & (b->buf_end == 0) & (b->buf_cap == cap) & (b->buf == mem), "writer starts empty over mem[0..len)");
    size_t e = v_range("end", 0, 0x7fffffff);
    v_assume(e <= cap);
    b->buf_end = e;
    k = v_range("k", 0, 0x7fffffff);
    v_assume(k < cap);
    uint8_t old = mem[k];
    uint32_t which = v_split(v_range("which", 0, 6));
    size_t n = 0;
    if (which == 0) {
        uint32_t m = v_any32("m");
        v_assert((w->acquire(m) == SUCCESS) == (m <= cap - e), "acquire succeeds iff there is room");
    } else if (which <= 4) {
        n = which;
        v_assume(w->acquire(n) == SUCCESS);
        uint32_t v = v_any32("v");
        if (n == 1) w->write_int8(v);
        else if (n == 2) w->write_int16(v);
        else if (n == 3) w->write_int24(v);
        else w->write_int32(v);
        for (uint32_t i = 0; i < n; ++i) v_assert(mem[e + i] == (uint8_t)(v >> 8 * (n - 1 - i)), "big-endian byte");
    } else if (which == 5) {
        n = v_range("n", 0, 0x7fffffff);
        v_assume(w->acquire(n) == SUCCESS);
        uint8_t* d = v_buf("d", n);
        w->write_bytes(d, n);
        if ((k >= e) & (k < e + n)) v_assert(mem[k] == d[k - e], "byte appended");
    } else {
        n = v_range("n", 0, 0x7fffffff);
        v_assume(w->acquire(n) == SUCCESS);
        w->skip(n);
        v_assert(mem[k] == old, "skip writes nothing");
    }
    if ((k < e) | (k >= e + n)) v_assert(mem[k] == old, "bytes outside the appended range are kept");
    v_assert((b->buf_end == e + n) & (b->buf_ptr == 0) & (b->buf_cap == cap), "end advances by exactly n");
}
