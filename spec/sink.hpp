// Ghost byte sink: an arbitrary IWriter; remembers how much was written and byte number k of it.
#ifndef SINK_SPEC_HPP
#define SINK_SPEC_HPP
#include "vspec.hpp"
#include <sps_io.hpp>
namespace vspec {
struct Sink : public sps::IWriter {
    uint64_t total = 0;       // bytes accepted so far
    uint64_t k = 0;           // arbitrary index: statements about byte k are statements about every byte
    uint8_t  byte = 0;        // byte k, once written
    uint64_t calls = 0;
    uint64_t largest = 0;     // largest single write
    bool failed = false;
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
    error_t write(void* buf, size_t size) override;
};
extern Sink* sink;
sps::PIWriter new_sink();
}
#endif
