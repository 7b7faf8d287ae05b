#include "stream.hpp"
namespace vspec {
Source* src;
size_t consumed;
uint64_t k;

error_t Source::read(void* buf, size_t size, size_t& nread) {
    v_assert(size > 0, "source is asked for at least one byte");
    v_assert(v_valid(buf, size), "source may fill the whole requested range");
    nread = 0;
    if (v_anyb("src_error")) { failed = true; return ERROR_IO_EOF; }
    size_t m = v_range("src_piece", 0, 0xfffffff);
    v_assume((m <= size) & (m <= n - got));
    memcpy(buf, s + got, m);
    got += m;
    nread = m;
    return SUCCESS;
}
error_t Source::read_fully(void* buf, size_t size, ssize_t* nread) {
    v_assert(v_valid(buf, size), "source may fill the whole requested range");
    if (v_anyb("src_error")) { failed = true; return ERROR_IO_EOF; }
    v_assume(size <= n - got);
    memcpy(buf, s + got, size);
    got += size;
    if (nread) *nread = size;
    return SUCCESS;
}
void new_source(size_t max) {
    src = new Source();
    src->n = v_range("stream_len", 0, max);
    src->s = v_buf("stream", src->n);
    src->got = v_range("stream_got", 0, src->n);
}
bool reader_ok(const sps::AVBuffer* b) {
    bool ok = (b->buf_ptr <= b->buf_end) & (b->buf_end <= b->buf_cap) & (src->got <= src->n)
            & (b->buf_end - b->buf_ptr == src->got - consumed) & (consumed <= src->got);
    if (!ok) return false;
    if (k < b->buf_end - b->buf_ptr) return b->buf[b->buf_ptr + k] == src->s[consumed + k];
    return true;
}
sps::PBytesReader any_reader(size_t maxcap, int rewindable) {
    size_t cap = v_range("cap", 0, maxcap);
    uint8_t* av = v_buf("av", cap);
    bool rw = rewindable < 0 ? v_anyb("rewindable") : rewindable;
    auto b = std::make_shared<sps::AVBuffer>(av, cap, rw);
    b->buf_end = v_range("buf_end", 0, cap);
    b->buf_ptr = v_range("buf_ptr", 0, b->buf_end);
    size_t sz = b->buf_end - b->buf_ptr;
    v_assume(sz <= src->got);
    consumed = src->got - sz;
    k = v_range("k", 0, maxcap);
    if (!v_symbolic()) memcpy(b->pos(), src->s + consumed, sz);
    sps::PIReader io;
    io.reset(src);
    return std::make_unique<sps::BytesReader>(io, b);
}
}
