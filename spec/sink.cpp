#include "sink.hpp"
namespace vspec {
Sink* sink;
error_t Sink::write(void* buf, size_t size) {
    v_assert(v_valid(buf, size), "the whole written range is readable");
    v_assert(!failed, "nothing is written after a failed write");
    if (v_anyb("sink_error")) { failed = true; return ERROR_IO_EOF; }
    if ((k >= total) & (k - total < size)) byte = ((uint8_t*) buf)[k - total];
    total += size;
    ++calls;
    if (size > largest) largest = size;
    return SUCCESS;
}
sps::PIWriter new_sink() {
    sink = new Sink();
    return sps::PIWriter(sink, [](Sink*) {});
}
}
