//@ link stream.cpp
//@ link bytes.cpp
//@ link sink.cpp
#include "stream.hpp"
#include "sink.hpp"
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flv.hpp>
using namespace vspec;
using namespace sps;

//@ harness h_flv_mux prop=C05 covers=audio,video,info,script about="FlvAVMuxer::write_packet emits exactly the FLV tag of the packet, for every packet, timestamp, payload and muxer state"
extern "C" void h_flv_mux() {
    vspec::init();
    PIWriter w = new_sink();
    FlvAVMuxer m(w);
    v_assert(m.previous_size == 0, "first tag has previous size 0");
    uint32_t prev = v_any32("prev");
    m.previous_size = prev;
    m.filter_audio = v_anyb("fa");
    m.filter_video = v_anyb("fv");
    m.filter_metadata = v_anyb("fm");
    uint32_t n = v_range("n", 0, 0xfffff0);
    uint8_t* p = v_buf("p", n);
    PAVPacket a = AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_DATA, AVPacketType{0}, p, n, 0, 0);
    a->stream_type = (AVStreamType) v_split(v_range("st", 0, 6));
    a->pkt_type.pkt_type = v_any32("pt");
    a->flags = v_any32("fl");
    a->dts = v_any64("dts");
    a->pts = v_any64("pts");
    int st = a->stream_type;
    bool known = (st == AV_STREAM_TYPE_VIDEO) | (st == AV_STREAM_TYPE_AUDIO) | (st == AV_STREAM_TYPE_SUBTITLE);
    bool filtered = ((st == AV_STREAM_TYPE_VIDEO) & m.filter_video) | ((st == AV_STREAM_TYPE_AUDIO) & m.filter_audio)
                    | ((st == AV_STREAM_TYPE_SUBTITLE) & m.filter_metadata);
    bool info = (st == AV_STREAM_TYPE_VIDEO) && (a->flags & 0xf0) == 0x50;
    uint32_t hl = 15 + (st == AV_STREAM_TYPE_AUDIO ? 2 : st == AV_STREAM_TYPE_VIDEO ? (info ? 1 : 5) : 0);
    uint32_t data = hl - 15 + n;
    uint32_t fl = a->flags, pt = a->pkt_type.pkt_type, cts = (uint32_t) (a->pts - a->dts);
    uint64_t dts = a->dts;
    sink->k = v_range("k", 0, 0xffffff + 20);
    error_t ret = m.write_packet(a);
    if (!known) {
        v_assert((ret != SUCCESS) & (sink->total == 0), "unknown stream kinds are refused");
        v_assert(m.previous_size == prev, "refused packets do not count");
        return;
    }
    if (filtered) {
        v_assert((ret == SUCCESS) & (sink->total == 0), "filtered kinds are omitted");
        v_assert(m.previous_size == prev, "filtered packets do not count");
        return;
    }
    v_assert((ret == SUCCESS) == !sink->failed, "success iff the writer accepted everything");
    if (ret != SUCCESS) return;
    if (st == AV_STREAM_TYPE_AUDIO) v_cover("audio");
    else if (st == AV_STREAM_TYPE_SUBTITLE) v_cover("script");
    else if (info) v_cover("info");
    else v_cover("video");
    v_assert(sink->total == hl + n, "tag header and payload, nothing else");
    v_assert(m.previous_size == 11 + data, "size of this tag is announced by the next one");
    uint8_t h[20];
    for (int i = 0; i < 4; ++i) h[i] = prev >> (24 - 8 * i);
    h[4] = st == AV_STREAM_TYPE_AUDIO ? 8 : st == AV_STREAM_TYPE_VIDEO ? 9 : 18;
    for (int i = 0; i < 3; ++i) h[5 + i] = data >> (16 - 8 * i);
    for (int i = 0; i < 3; ++i) h[8 + i] = dts >> (16 - 8 * i);
    h[11] = dts >> 24;
    h[12] = h[13] = h[14] = 0;
    h[15] = fl;
    h[16] = pt;
    for (int i = 0; i < 3; ++i) h[17 + i] = cts >> (16 - 8 * i);
    if (sink->k < hl) v_assert(sink->byte == h[v_split(sink->k)], "tag header byte");
    else if (sink->k < hl + n) v_assert(sink->byte == p[sink->k - hl], "payload byte");
}

//@ harness h_flv_mux_header prop=C05 about="FLV file header: the given 9 bytes, or FLV version 1 with audio and video"
extern "C" void h_flv_mux_header() {
    vspec::init();
    PIWriter w = new_sink();
    FlvAVMuxer m(w);
    PAVPacket b;
    bool given = v_anyb("given");
    uint32_t n = v_range("n", 0, 64);
    uint8_t* p = v_buf("p", n);
    if (given) b = AVPacket::create(AV_MESSAGE_HEADER, AV_STREAM_TYPE_NB, AVPacketType{0}, p, n, 0, 0);
    sink->k = v_split(v_range("k", 0, 8));
    error_t ret = m.write_header(b);
    if (given & (n != 9)) {
        v_assert((ret != SUCCESS) & (sink->total == 0), "a header that is not 9 bytes is refused");
        return;
    }
    v_assert((ret == SUCCESS) == !sink->failed, "success iff written");
    if (ret != SUCCESS) return;
    static const uint8_t std[9] = {'F', 'L', 'V', 1, 5, 0, 0, 0, 9};
    v_assert(sink->total == 9, "nine bytes");
    v_assert(sink->byte == (given ? p[sink->k] : std[sink->k]), "header byte");
    v_assert(m.previous_size == 0, "the first tag follows a previous size of 0");
}

static std::shared_ptr<FlvDemuxer> any_demuxer() {
    new_source(0xfffffff);
    PIReader io(src, [](Source*) {});
    auto d = std::make_shared<FlvDemuxer>(io);
    AVBuffer* b = d->buf.get();
    v_assert((b->buf_ptr == 0) & (b->buf_end == 0) & (b->buf_cap == FLV_MAX_LEN) & b->rewindable, "demuxer buffer");
    b->buf_end = v_range("buf_end", 0, FLV_MAX_LEN);
    b->buf_ptr = v_range("buf_ptr", 0, b->buf_end);
    size_t sz = b->buf_end - b->buf_ptr;
    v_assume(sz <= src->got);
    consumed = src->got - sz;
    k = v_range("k", 0, FLV_MAX_LEN);
    memcpy(b->pos(), src->s + consumed, sz);
    return d;
}
static uint32_t be(const uint8_t* p, int n) {
    uint32_t v = 0;
    for (int i = 0; i < n; ++i) v = v << 8 | p[i];
    return v;
}
//@ harness h_flv_demux prop=C06 uses=c_BytesReader_acquire covers=audio,video,info,script,refused about="FlvDemuxer::read_packet parses the next tag of the stream, for every stream, split, and buffer state"
extern "C" void h_flv_demux() {
    vspec::init();
    auto d = any_demuxer();
    AVBuffer* b = d->buf.get();
    size_t start = consumed;
    uint64_t kk = k;
    uint8_t* t = src->s + start;
    PAVPacket a;
    error_t ret = d->read_packet(a);
    v_assert((b->buf_ptr <= b->buf_end) & (b->buf_end <= b->buf_cap), "the reader stays inside its buffer");
    if (ret != SUCCESS) {
        if (src->failed) return;
        uint32_t tag = t[4], data = be(t + 5, 3);
        if (data > FLV_MAX_LEN) return;                        // does not fit the demuxer's buffer
        if ((tag != 8) & (tag != 9) & (tag != 18)) return;
        if (tag == 18) v_assert(data == 0, "a tag is refused only for a reason: empty script");
        else if (tag == 8) v_assert(data <= 2 || t[15] >> 4 != 10, "a tag is refused only for a reason: audio");
        else v_assert(data <= 1 || ((t[15] & 15) != 7 && (t[15] & 15) != 12) || ((t[15] & 0xf0) != 0x50 && data <= 5), "a tag is refused only for a reason: video");
        v_cover("refused");
        return;
    }
    size_t now = src->got - b->size();
    v_assert(src->n - start >= 15, "a tag needs 15 bytes");
    uint32_t tag = t[4], data = be(t + 5, 3);
    v_assert(now == start + 15 + data, "exactly the tag is consumed");
    v_assert((tag == 8) | (tag == 9) | (tag == 18), "known tag types only");
    uint32_t fl = tag == 18 ? 0 : t[15];
    bool info = (tag == 9) & ((fl & 0xf0) == 0x50);
    uint32_t hl = tag == 8 ? 2 : tag == 9 ? (info ? 1 : 5) : 0;
    v_assert(data > hl, "empty tags are refused");
    int64_t dts = be(t + 8, 3) | (uint32_t) t[11] << 24;
    v_assert(a->stream_type == (tag == 8 ? AV_STREAM_TYPE_AUDIO : tag == 9 ? AV_STREAM_TYPE_VIDEO : AV_STREAM_TYPE_SUBTITLE), "stream type");
    v_assert(a->msg_type == AV_MESSAGE_DATA, "message type");
    v_assert(a->dts == dts, "32-bit timestamp");
    v_assert((uint32_t) a->flags == fl, "flags");
    if (tag == 8) {
        v_cover("audio");
        v_assert((fl >> 4 == 10) & (a->codecid == 10), "AAC only");
        v_assert((a->pkt_type.pkt_type == t[16]) & (a->pts == dts), "audio packet type and pts");
    } else if (tag == 9) {
        v_assert((((fl & 15) == 7) | ((fl & 15) == 12)) & ((uint32_t) a->codecid == (fl & 15)), "H264 or H265 only");
        if (!info) {
            v_cover("video");
            int32_t cts = be(t + 17, 3);
            if (cts & 0x800000) cts -= 0x1000000;
            v_assert(a->pkt_type.pkt_type == t[16], "video packet type");
            v_assert(a->pts == dts + cts, "pts is dts plus the signed composition time");
        } else v_cover("info");
    } else v_cover("script");
    v_assert(a->size() == data - hl, "payload size");
    if (kk < data - hl) v_assert(a->buffer()[kk] == t[15 + hl + kk], "payload byte");
}
//@ harness h_flv_demux_header prop=C06 uses=c_BytesReader_acquire covers=ok about="FlvDemuxer::read_header accepts exactly FLV headers and consumes nine bytes"
extern "C" void h_flv_demux_header() {
    vspec::init();
    auto d = any_demuxer();
    AVBuffer* b = d->buf.get();
    size_t start = consumed;
    uint8_t* t = src->s + start;
    uint64_t j = v_split(v_range("j", 0, 8));
    PAVPacket a;
    error_t ret = d->read_header(a);
    v_assert((b->buf_ptr <= b->buf_end) & (b->buf_end <= b->buf_cap), "the reader stays inside its buffer");
    if (ret != SUCCESS) {
        v_assert(src->failed || t[0] != 'F' || t[1] != 'L' || t[2] != 'V', "an FLV header is accepted");
        return;
    }
    v_cover("ok");
    v_assert((t[0] == 'F') & (t[1] == 'L') & (t[2] == 'V'), "only FLV is accepted");
    v_assert(src->got - b->size() == start + 9, "nine bytes are consumed");
    v_assert((a->size() == 9) & (a->buffer()[j] == t[j]) & (a->flags == t[4]), "header is passed on");
}
//@ harness h_flv_probe prop=C06 about="FlvDemuxer::probe accepts exactly packets that start with FLV"
extern "C" void h_flv_probe() {
    vspec::init();
    auto d = any_demuxer();
    uint32_t n = v_range("n", 0, 0xffffff);
    uint8_t* p = v_buf("p", n);
    PAVPacket a = AVPacket::create(AV_MESSAGE_HEADER, AV_STREAM_TYPE_NB, AVPacketType{0}, p, n, 0, 0);
    error_t ret = d->probe(a);
    v_assert((ret == SUCCESS) == (n >= 3 && p[0] == 'F' && p[1] == 'L' && p[2] == 'V'), "probe");
}
