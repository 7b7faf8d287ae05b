#include "vspec.hpp"
#include <sps_avformat_packet.hpp>
#include <sps_avformat_ts.hpp>
using namespace sps;

static bool buf_ok(CharBuffer* b) {
    return (b->len <= b->cap_len) & ((uint64_t) b->cap_len + b->head_len < 0x80000000ull)
           & v_valid(b->buf, (uint64_t) b->cap_len + b->head_len);
}
//@ harness h_deep_copy prop=C04 about="CharBuffer::deep_copy / AVPacket::create copy the bytes: equal content, own storage, later changes of the source invisible"
extern "C" void h_deep_copy() {
    vspec::init();
    uint32_t n = v_range("n", 0, 0x3fffffff);
    uint32_t head = v_range("head", 0, 0xffff);
    uint8_t* p = v_buf("p", n);
    uint64_t k = v_range("k", 0, 0x3fffffff);
    v_assume(k < n);
    uint8_t was = p[k];
    auto b = CharBuffer::deep_copy(p, n, head);
    v_assert(buf_ok(b.get()), "storage covers head and payload");
    v_assert((b->size() == n) & (b->cap() == n) & (b->remain() == 0) & (b->head_size() == head), "sizes");
    v_assert(b->buffer()[k] == was, "content copied");
    v_assert(!v_same_obj(b->buffer(), p), "own storage");
    v_fill("later", p, n);
    v_assert(b->buffer()[k] == was, "source is not aliased");
    if (head) v_assert((b->head_pos() + head == b->buffer()), "head precedes payload");
    else v_assert(b->head_pos() == nullptr, "no head");
}
//@ harness h_packet_create prop=C04 about="AVPacket::create: payload copied, every field stored where it belongs"
extern "C" void h_packet_create() {
    vspec::init();
    uint32_t n = v_range("n", 0, 0x3fffffff);
    uint8_t* p = v_buf("p", n);
    uint64_t k = v_range("k", 0, 0x3fffffff);
    v_assume(k < n);
    uint8_t was = p[k];
    int mt = v_any32("mt"), st = v_any32("st"), pt = v_any32("pt"), fl = v_any32("fl"), cc = v_any32("cc");
    int64_t dts = v_any64("dts"), pts = v_any64("pts"), du = v_any64("du");
    PAVPacket a;
    bool empty = v_anyb("empty");
    if (empty) a = AVPacket::create_empty_cap((AVMessageType) mt, (AVStreamType) st, AVPacketType{pt}, n, dts, pts, fl, cc, du);
    else a = AVPacket::create((AVMessageType) mt, (AVStreamType) st, AVPacketType{pt}, p, n, dts, pts, fl, cc, du);
    v_assert(buf_ok(a.get()), "storage covers head and payload");
    v_assert((a->msg_type == mt) & (a->stream_type == st) & (a->pkt_type.pkt_type == pt), "types");
    v_assert((a->dts == dts) & (a->pts == pts), "timestamps");
    v_assert((a->flags == fl) & (a->codecid == cc) & (a->duration == du), "flags, codec, duration");
    v_assert((a->head_size() == FLV_HEAD_TAG_SIZE) & (a->cap() == n), "head room for a FLV/RTMP tag");
    if (empty) v_assert((a->size() == 0) & (a->remain() == n), "empty packet of capacity n");
    else v_assert((a->size() == n) & (a->buffer()[k] == was), "payload copied");
    v_assert(!v_same_obj(a->buffer(), p), "own storage");
}
//@ harness h_append prop=C04 about="append/skip extend the payload at its end, keep what is there, and are refused (assert) beyond the capacity"
extern "C" void h_append() {
    vspec::init();
    uint32_t cap = v_range("cap", 0, 0x3fffffff);
    uint32_t head = v_range("head", 0, 0xffff);
    CharBuffer b(cap, head);
    v_assert(buf_ok(&b) & (b.size() == 0) & (b.remain() == cap) & (b.cap() == cap), "fresh buffer is empty");
    uint32_t len = v_range("len", 0, 0x3fffffff);
    v_assume(len <= cap);
    b.skip(len);
    v_assert((b.size() == len) & (b.remain() == cap - len), "skip");
    uint32_t n = v_range("n", 0, 0x3fffffff);
    v_assume(n <= b.remain());
    uint8_t* p = v_buf("p", n);
    uint64_t k = v_range("k", 0, 0x3fffffff);
    v_assume(k < len + n);
    uint8_t old = b.buffer()[k];
    b.append(p, n);
    v_assert(buf_ok(&b) & (b.size() == len + n) & (b.remain() == cap - len - n), "size grows by n");
    v_assert(b.buffer()[k] == (k < len ? old : p[k - len]), "old payload kept, new bytes behind it");
}
//@ harness h_packet_kind prop=C04 about="packet classification depends only on stream type, packet type and flags as documented"
extern "C" void h_packet_kind() {
    vspec::init();
    AVPacket a((uint32_t) 0, 0);
    a.stream_type = (AVStreamType) v_any32("st");
    a.pkt_type.pkt_type = v_any32("pt");
    a.flags = v_any32("fl");
    uint32_t pt = a.pkt_type.pkt_type;
    bool v = a.stream_type == AV_STREAM_TYPE_VIDEO, u = a.stream_type == AV_STREAM_TYPE_AUDIO;
    v_assert(a.is_video() == v, "video");
    v_assert(a.is_audio() == u, "audio");
    v_assert(a.is_script() == (a.stream_type == AV_STREAM_TYPE_SUBTITLE), "script");
    v_assert(a.is_keyframe() == (v & (((a.flags >> 4) & 15) == 1)), "keyframe");
    v_assert(a.is_video_sequence_header() == (v & (pt == 0)), "video sequence header");
    v_assert(a.is_audio_sequence_header() == (u & (pt == 0)), "audio sequence header");
    v_assert(!(a.is_pat() & a.is_pmt()), "PAT and PMT are exclusive");
}
