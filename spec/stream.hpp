// Ghost byte source: an arbitrary finite byte stream delivered in arbitrary pieces, ending in an arbitrary error.
#ifndef STREAM_SPEC_HPP
#define STREAM_SPEC_HPP
#include "vspec.hpp"
#include <sps_io_bytes.hpp>
namespace vspec {
struct Source : public sps::IReader {
    uint8_t* s = nullptr;     // the stream
    size_t n = 0;             // its length
    size_t got = 0;           // bytes handed out so far
    bool failed = false;      // the source reported an error
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t read_fully(void* buf, size_t size, ssize_t* nread) override;
    error_t read(void* buf, size_t size, size_t& nread) override;
};
extern Source* src;
void new_source(size_t max);      // arbitrary stream of at most max bytes
sps::PBytesReader any_reader(size_t maxcap, int rewindable = -1);   // arbitrary valid reader state over it
extern size_t consumed;   // stream offset of the reader's read position
extern uint64_t k;        // an arbitrary but fixed index: statements about byte k are statements about every byte
bool reader_ok(const sps::AVBuffer* b);
}
extern "C" error_t c_BytesReader_acquire(sps::BytesReader* r, uint32_t n);
#endif
