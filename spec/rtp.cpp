//@ link seq.cpp
// RTP: header, dispatch of datagrams to the payload decoders
#include "seq.hpp"
#include <sps_avformat_rtp.hpp>
#include <sps_avformat_rtpdec.hpp>
#include <sps_avformat_rtpdec_aac.hpp>
#include <sps_avformat_rtpdec_h264_hevc.hpp>
#include <sps_avformat_rtpdec_rtcp.hpp>
#include <sps_avformat_rtpdec_ts.hpp>
#include <sps_avcodec_parser.hpp>
using namespace vspec;
using namespace sps;

static uint32_t be(const uint8_t* p, int n) {
    uint32_t v = 0;
    for (int i = 0; i < n; ++i) v = v << 8 | p[i];
    return v;
}
// length of the header of the datagram p[0..n), 0: truncated
static uint32_t header_length(const uint8_t* p, uint32_t n) {
    if (n < 12) return 0;
    uint32_t h = 12 + 4 * (p[0] & 15);
    if (n < h) return 0;
    if (!(p[0] & 0x10)) return h;
    if (n < h + 4) return 0;
    uint32_t e = h + 4 + 4 * be(p + h + 2, 2);
    return n < e ? 0 : e;
}
static void check_header(const RtpPayloadHeader& h, const uint8_t* p) {
    v_assert(h.fix_header.version == p[0] >> 6, "version");
    v_assert(h.fix_header.padding == (p[0] >> 5 & 1), "padding");
    v_assert(h.fix_header.extension == (p[0] >> 4 & 1), "extension");
    v_assert(h.fix_header.cc == (p[0] & 15), "csrc count");
    v_assert(h.fix_header.mark == p[1] >> 7, "marker");
    v_assert(h.fix_header.payload_type == (p[1] & 0x7f), "payload type");
    v_assert(h.fix_header.sequence_num == be(p + 2, 2), "sequence number");
    v_assert(h.fix_header.timestamp == be(p + 4, 4), "timestamp");
    v_assert(h.fix_header.ssrc == be(p + 8, 4), "ssrc");
}
//@ harness h_rtp_header prop=C07 shards=16 covers=ok,ext,short about="RtpPayloadHeader::decode accepts exactly complete headers, reports every field and stops behind the header"
extern "C" void h_rtp_header() {
    vspec::init();
    uint32_t n = v_range("n", 0, 3000);
    uint8_t* p = v_buf("p", n);
    uint32_t cc = v_shard(16);
    if (n > 0) v_assume((p[0] & 15) == cc);
    else if (cc) return;
    BitContext bc(p, n);
    RtpPayloadHeader h;
    uint64_t k = v_range("k", 0, 3000);
    error_t ret = h.decode(bc);
    uint32_t hl = header_length(p, n);
    v_assert((ret == SUCCESS) == (hl != 0), "exactly complete headers are accepted");
    if (ret != SUCCESS) { v_cover("short"); return; }
    v_cover("ok");
    check_header(h, p);
    v_assert(bc.size() == n - hl, "exactly the header is consumed");
    v_assert(bc.size_bits() == 8 * (size_t) (n - hl), "no bit of the payload is consumed");
    v_assert(h.csrc.size() == cc, "as many contributing sources as announced");
    for (uint32_t i = 0; i < cc; ++i) v_assert(h.csrc[i] == be(p + 12 + 4 * i, 4), "contributing source");
    if (p[0] & 0x10) {
        uint32_t e = 12 + 4 * cc;
        v_assert(h.extension_info.define_by_profile == be(p + e, 2), "extension profile");
        v_assert(h.extension_info.length == be(p + e + 2, 2), "extension length");
        if (k < hl - e - 4) { v_cover("ext"); v_assert(h.extension_info.header_extension[k] == p[e + 4 + k], "extension content"); }
    }
}

// ---- one datagram through RtpDemuxer::read_packet
static uint8_t* g_p;
static uint32_t g_n, g_reads, g_calls, g_k;
static uint64_t g_out;
static bool g_fail, g_match, g_again;
struct GhostSocket : public IReader {
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t read_fully(void*, size_t, ssize_t*) override { v_assert(false, "datagrams are read one by one"); return SUCCESS; }
    error_t read(void* buf, size_t size, size_t& nread) override {
        if (g_reads++) { g_again = true; return ERROR_SOCKET_CLOSED; }
        v_assert(size >= RTP_MAX_LENGTH, "a datagram is read into an empty buffer");
        v_assert(v_valid(buf, size), "the socket may fill the whole requested range");
        memcpy(buf, g_p, g_n);
        nread = g_n;
        return SUCCESS;
    }
};
struct GhostDecoder : public IRtpDecoder {
    bool match(int pt) override {
        v_assert(pt == (g_p[1] & 0x7f), "asked about the payload type of the datagram");
        return g_match;
    }
    error_t decode(RtpPayloadHeader& h, BitContext& bc, std::list<PAVPacket>& pkts) override {
        g_calls++;
        check_header(h, g_p);
        uint32_t hl = header_length(g_p, g_n);
        v_assert(hl != 0, "truncated headers are not handed on");
        v_assert(bc.size_bits() == 8 * (size_t) (g_n - hl), "the payload is everything behind the header");
        if (g_k < g_n - hl) v_assert(bc.pos()[g_k] == g_p[hl + g_k], "payload byte");
        if (g_fail) return ERROR_RTP_DECODER_H264;
        list_append(pkts, 0, g_out);
        return SUCCESS;
    }
};
static uint32_t g_rtcp;
//@ contract c_rtcp_decode for sps::RtcpRtpDecoder::decode(unsigned char*, int, std::__cxx11::list<std::shared_ptr<sps::AVPacket>, std::allocator<std::shared_ptr<sps::AVPacket> > >&)
extern "C" error_t c_rtcp_decode(RtcpRtpDecoder* d, uint8_t* p, int n, PList* pkts) {
    if (v_enforce()) return d->decode(p, n, *pkts);
    g_rtcp++;
    v_assert((uint32_t) n == g_n, "rtcp gets the whole datagram");
    if (g_k < g_n) v_assert(p[g_k] == g_p[g_k], "rtcp gets the datagram");
    return g_fail ? ERROR_RTP_PROBE : SUCCESS;
}
//@ harness h_rtp_read prop=C07 bmc=30 uses=c_rtcp_decode covers=packet,again,rtcp,nomatch,short,fail,unknown about="RtpDemuxer::read_packet hands each datagram to the decoder of its payload type, once, and returns packets in order"
extern "C" void h_rtp_read() {
    vspec::init();
    seq_init();
    g_n = v_range("n", 12, 3000);
    g_p = v_buf("p", g_n);
    g_k = v_range("k", 0, 3000);
    g_reads = g_calls = g_rtcp = 0;
    g_again = false;
    auto sock = std::make_shared<GhostSocket>();
    RtpDemuxer d(sock);
    v_assert(d.buf->buf_cap == RTP_MAX_LENGTH, "room for a datagram");
    d.buf->buf_end = v_range("buf_end", 0, RTP_MAX_LENGTH);
    d.buf->buf_ptr = v_range("buf_ptr", 0, d.buf->buf_end);
    bool has = v_anyb("has_decoder");
    if (has) d.rtp_decoder = std::make_shared<GhostDecoder>();
    g_match = v_anyb("match");
    g_fail = v_anyb("fail");
    g_out = any_index("packets");
    uint64_t waiting = any_index("waiting");
    if (waiting) v_assume(waiting == g_out);
    bool queued = waiting > 0;
    if (queued) list_set(d.pkts, 0, waiting);
    bool rtcp = (g_p[1] >= 200) & (g_p[1] <= 204);
    uint32_t hl = header_length(g_p, g_n);
    // the mpegts decoder has checks of its own
    if (!has & !rtcp & !queued) v_assume((g_p[1] & 0x7f) != RTP_TS);
    PAVPacket a;
    error_t ret = d.read_packet(a);
    if (queued) {
        v_assert((ret == SUCCESS) & (g_reads == 0), "decoded packets come before new datagrams");
        v_assert(is_nth(a.get(), 0), "in the order they were decoded");
        exp_nil(); exp_cat(1, waiting);
        v_assert(exp_is(d.pkts), "each packet is returned once");
        v_cover("packet");
        return;
    }
    v_assert(g_reads >= 1, "a datagram is read");
    if (rtcp) v_assert(g_calls == 0, "rtcp is not payload");
    if (rtcp & !seq_model()) return;                  // the real rtcp decoder was called
    v_assert(g_rtcp == rtcp, "rtcp datagrams go to the rtcp decoder");
    if (rtcp) {
        v_assert((ret != SUCCESS) & (g_again == !g_fail), "an rtcp datagram yields no packet; errors are reported");
        v_cover("rtcp");
        return;
    }
    if (!has) { v_assert(ret != SUCCESS, "unknown payload types are refused"); v_cover("unknown"); return; }
    v_assert(g_calls == ((hl != 0) & g_match), "the decoder is called once for a complete header it matches");
    if (!hl) { v_assert((ret != SUCCESS) & !g_again, "truncated headers are an error"); v_cover("short"); return; }
    if (!g_match) { v_assert((ret == ERROR_RTP_PAYLOAD_TYPE) & !g_again, "other payload types are refused"); v_cover("nomatch"); return; }
    if (g_fail) { v_assert((ret == ERROR_RTP_DECODER_H264) & !g_again, "decoder errors are reported"); v_cover("fail"); return; }
    if (g_out == 0) { v_assert(g_again & (ret != SUCCESS), "a datagram that completes nothing is followed by the next"); v_cover("again"); return; }
    v_assert((ret == SUCCESS) & !g_again, "packet");
    v_assert(is_nth(a.get(), 0), "first decoded packet is returned first");
    exp_nil(); exp_cat(1, g_out);
    v_assert(exp_is(d.pkts), "the other packets stay queued in order");
}

// ---- RTP carrying MPEG-TS
static uint32_t g_ts;
static uint64_t g_popped;
static PList* g_list;
//@ contract c_ts_decode for sps::TsDemuxer::decode_packet(unsigned char*, unsigned long)
extern "C" error_t c_ts_decode(TsDemuxer* d, uint8_t* p, size_t n) {
    if (v_enforce()) return d->decode_packet(p, n);
    uint32_t hl = header_length(g_p, g_n);
    g_ts++;
    v_assert(n == g_n - hl, "the payload is everything behind the header");
    if (g_k < n) v_assert(p[g_k] == g_p[hl + g_k], "payload byte");
    return g_fail ? ERROR_TS_PACKET_SIZE : SUCCESS;
}
//@ contract c_ts_pop for sps::TsDemuxer::pop(std::shared_ptr<sps::AVPacket>&)
extern "C" bool c_ts_pop(TsDemuxer* d, PAVPacket* out) {
    if (v_enforce()) return d->pop(*out);
    if (g_popped == g_out) return false;
    *out = nth(g_popped);
    g_popped++;
    return true;
}
extern "C" bool inv_popped() {
    exp_nil();
    exp_cat(0, g_popped);
    return (g_popped <= g_out) & exp_is(*g_list);
}
//@ harness h_rtp_ts prop=C07 uses=c_ts_decode,c_ts_pop unroll=1 inv=inv_popped covers=ok,fail about="MpegtsRtpDecodder::decode hands the whole payload to the TS demuxer once and passes on all packets in order"
extern "C" void h_rtp_ts() {
    vspec::init();
    seq_init();
    g_n = v_range("n", 12, 3000);
    g_p = v_buf("p", g_n);
    if (!v_symbolic() || v_bounded()) return;
    g_k = v_range("k", 0, 3000);
    g_p[0] = 0x80;
    g_ts = 0;
    g_popped = 0;
    g_fail = v_anyb("fail");
    g_out = any_index("packets");
    uint32_t hl = 12;
    auto t = std::make_shared<MpegtsRtpDecodder>();
    BitContext bc(g_p, g_n);
    bc.skip_read_bytes(12);
    RtpPayloadHeader h;
    PList pkts;
    g_list = &pkts;
    list_set(pkts, 0, 0);
    IRtpDecoder* d = t.get();
    error_t ret = d->decode(h, bc, pkts);
    v_assert(g_ts == 1, "one payload, one call");
    if (ret != SUCCESS) { v_assert(g_fail, "errors come from the TS demuxer"); v_cover("fail"); return; }
    v_assert(!g_fail, "errors are reported");
    v_cover("ok");
    v_assert(bc.size() == 0, "the whole payload is consumed");
    exp_nil();
    exp_cat(0, g_out);
    v_assert(exp_is(pkts), "every packet is passed on once, in order");
}
//@ harness h_ts_pop prop=C07 about="TsDemuxer::pop removes and returns the oldest packet"
extern "C" void h_ts_pop() {
    vspec::init();
    seq_init();
    TsDemuxer d(nullptr, nullptr);
    uint64_t lo = any_index("lo"), hi = any_index("hi");
    v_assume(lo <= hi);
    list_set(d.encoder_pkts, lo, hi);
    PAVPacket p;
    bool r = d.pop(p);
    v_assert(r == (lo < hi), "a packet is returned iff there is one");
    if (!r) return;
    v_assert(is_nth(p.get(), lo), "the oldest one");
    exp_nil();
    exp_cat(lo + 1, hi);
    v_assert(exp_is(d.encoder_pkts), "each packet once");
}
//@ harness h_rtp_codec prop=C07 about="codec and payload type select the decoder; others are refused"
extern "C" void h_rtp_codec() {
    vspec::init();
    RtpDemuxer d(nullptr);
    int id = v_any32("codec");
    bool byid = v_anyb("byid");
    error_t ret = byid ? d.init_codec(id) : d.init_rtp_decode(id);
    bool ok = byid ? (id == AVCODEC_H264) | (id == AVCODEC_AAC) : id == RTP_TS;
    v_assert((ret == SUCCESS) == ok, "supported codecs and payload types, no others");
    v_assert((d.rtp_decoder != nullptr) == ok, "a decoder is selected iff supported");
    if (!ok) return;
    int pt = v_split(v_range("pt", 0, 127));
    v_assert(d.rtp_decoder->match(pt) == (byid ? pt >= 96 : pt == 33), "the decoder accepts its payload types");
}

// ---- RTCP
static bool same_block(const RtcpSRReportBlock& b, const uint8_t* q) {
    return (b.fraction_lost == q[0]) & (b.cum_number_pkt_lost == be(q + 1, 3)) & (b.extend_high_seq_num_recv == be(q + 4, 4))
            & (b.inter_arrival_jitter == be(q + 8, 4)) & (b.last_sr == be(q + 12, 4)) & (b.delay_since_last_sr == be(q + 16, 4));
}
//@ harness h_rtcp_report prop=C08 shards=32 covers=ok,short about="sender and receiver reports: accepted iff every announced report block is there, every field is reported"
extern "C" void h_rtcp_report() {
    vspec::init();
    bool sr = v_split(v_range("sr", 0, 1));
    uint32_t n = v_range("n", 0, 1000);
    uint8_t* p = v_buf("p", n);
    uint32_t c = v_shard(32);
    RtcpHead h;
    h.cflag = c;
    BitContext bc(p, n);
    uint32_t head = sr ? 24 : 4;
    RtcpSRDecoder s;
    RtcpRRDecoder r;
    error_t ret = sr ? s.decode(h, bc) : r.decode(h, bc);
    v_assert((ret == SUCCESS) == (n >= head + 20 * c), "complete reports are accepted, truncated ones refused");
    if (ret != SUCCESS) { v_cover("short"); return; }
    v_cover("ok");
    v_assert((sr ? s.ssrc : r.ssrc) == be(p, 4), "reporter");
    if (sr) v_assert((s.ntp_ts_msw == be(p + 4, 4)) & (s.ntp_ts_lsw == be(p + 8, 4)) & (s.rtp_ts == be(p + 12, 4))
                     & (s.send_pkt_count == be(p + 16, 4)) & (s.send_oct_count == be(p + 20, 4)), "sender information");
    auto& l = sr ? s.report_blocks : r.report_blocks;
    v_assert(l.size() == c, "one block per source");
    uint32_t i = 0;
    for (auto& b : l) v_assert(same_block(b, p + head + 20 * i++), "report block");
    v_assert(bc.size() == n - head - 20 * c, "exactly the report is consumed");
}
static uint8_t* g_sp;
static uint32_t g_sn, g_sc, g_scalls;
static bool g_sref;
static RtcpSDESDecoder* g_sd;
//@ contract c_sdes for sps::RtcpSDES::decode(sps::BitContext&)
extern "C" error_t c_sdes(RtcpSDES* s, BitContext* bc) {
    if (v_enforce()) return s->decode(*bc);
    v_assert((g_scalls < g_sc) & !g_sref, "one call per announced source, none after a refusal");
    v_assert(s == &g_sd->sdes.back(), "decoded into the description that was added last");
    g_scalls++;
    s->ssrc = 1000 + g_scalls;
    if (v_anyb("refused")) { g_sref = true; return ERROR_RTP_PROBE; }
    return SUCCESS;
}
//@ harness h_rtcp_item prop=C08 covers=ok,short about="one source description: accepted iff complete, every field and the text are reported, exactly it is consumed"
extern "C" void h_rtcp_item() {
    vspec::init();
    uint32_t n = v_range("n", 0, 10000);
    uint8_t* p = v_buf("p", n);
    uint32_t at = v_range("at", 0, 10000);
    v_assume(at <= n);
    BitContext bc(p, n);
    bc.skip_read_bytes(at);
    RtcpSDES d;
    uint64_t k = v_range("k", 0, 254);
    error_t ret = d.decode(bc);
    uint8_t* q = p + at;
    n -= at;
    bool ok = n >= 6 && n >= 6u + q[5];
    v_assert((ret == SUCCESS) == ok, "complete descriptions are accepted, truncated ones refused");
    if (!ok) { v_cover("short"); return; }
    v_cover("ok");
    v_assert((d.ssrc == be(q, 4)) & (d.item_type == q[4]) & (d.item_length == q[5]), "source, kind and length");
    v_assert(d.item_value && d.item_value->size() == q[5], "size of the text");
    if (k < q[5]) v_assert(d.item_value->buffer()[k] == q[6 + k], "text");
    v_assert(bc.size() == n - 6 - q[5], "exactly the description is consumed");
}
//@ harness h_rtcp_sdes prop=C08 shards=32 uses=c_sdes covers=ok about="source descriptions: every announced one is decoded once, in order; a refused one ends it"
extern "C" void h_rtcp_sdes() {
    vspec::init();
    g_sn = v_range("n", 0, 10000);
    g_sp = v_buf("p", g_sn);
    g_sc = v_shard(32);
    g_scalls = 0;
    g_sref = false;
    RtcpHead h;
    h.cflag = g_sc;
    BitContext bc(g_sp, g_sn);
    RtcpSDESDecoder d;
    g_sd = &d;
    error_t ret = d.decode(h, bc);
    if (ret == SUCCESS) v_cover("ok");
    if (!v_symbolic() || v_bounded()) {
        uint32_t at = 0;
        bool ok = true;
        for (uint32_t i = 0; ok & (i < g_sc); ++i) {
            if (g_sn < at + 6 || g_sn < at + 6 + g_sp[at + 5]) ok = false;
            else at += 6 + g_sp[at + 5];
        }
        v_assert((ret == SUCCESS) == ok, "complete descriptions are accepted, truncated ones refused");
        if (ok) v_assert(d.sdes.size() == g_sc, "one description per source");
        return;
    }
    v_assert((ret == SUCCESS) == !g_sref, "refused iff one description is refused");
    if (ret == SUCCESS) v_assert(g_scalls == g_sc, "all of them");
    v_assert(d.sdes.size() == g_scalls, "one description per source");
    uint32_t i = 0;
    for (auto& x : d.sdes) v_assert(x.ssrc == 1000 + ++i, "in order");
}
//@ harness h_rtcp_safe prop=C08 shards=6 about="RtcpRtpDecoder::decode: any datagram of any size is decoded without touching a byte outside of it; unknown types are refused"
extern "C" void h_rtcp_safe() {
    vspec::init();
    uint32_t n = v_range("n", 0, 3000);
    uint8_t* p = v_buf("p", n);
    uint32_t t = v_shard(6);
    if (n >= 2) {
        v_assume(t == 5 ? (p[1] < 200) | (p[1] > 204) : p[1] == 200 + t);
        v_assume((p[0] & 31) <= 3);                        // the report and description loops have their own harnesses
        v_split(p[0] & 31);
    }
    auto d = std::make_shared<RtcpRtpDecoder>();
    PList pkts;
    error_t ret = d->decode(p, n, pkts);
    v_assert(pkts.empty(), "no packet");
    if (n < 4) { v_assert(ret != SUCCESS, "truncated header"); return; }
    if (t == 5) { v_assert(ret != SUCCESS, "unknown type"); return; }
    uint32_t c = p[0] & 31;
    if (t < 2) v_assert((ret == SUCCESS) == (n >= (t ? 8 : 28) + 20 * c), "reports are accepted iff complete");
    if (t >= 3) v_assert(ret == SUCCESS, "bye and app");
}
