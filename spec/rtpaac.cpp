//@ link seq.cpp
//@ link bits.cpp
// RTP payload format of AAC (RFC 3640, AAC-hbr: 13 bit sizes, 3 bit indices)
#include "seq.hpp"
#include "bits.hpp"
#include <sps_avformat_rtpdec_aac.hpp>
using namespace vspec;
using namespace sps;

static uint32_t be2(const uint8_t* p) { return p[0] << 8 | p[1]; }
static uint8_t* g_p;         // the payload
static uint32_t g_n, g_nb, g_k;
static uint32_t g_at;        // next access unit (offset)
static uint64_t g_calls;
static uint32_t g_ts;
static BitContext* g_bc;
static PList* g_list;
static RtpAacAuHeader* g_auh;
static RtpAacAu* g_heads;   // what c_auh put into the list

// element i of the list of access unit headers (the verifier keeps them as an array)
static RtpAacAu elem(RtpAacAuHeader* h, uint64_t i) {
    if (seq_model()) return ((RtpAacAu*) h->au_lists._M_impl._M_node._M_next)[i];
    return *std::next(h->au_lists.begin(), i);
}
static bool same_head(RtpAacAu e, uint64_t i, const uint8_t* q) {
    return (e.au_size == be2(q + 2 + 2 * i) >> 3) & (e.au_index == (q[3 + 2 * i] & 7));
}
//@ contract c_auh for sps::RtpAacAuHeader::decode(sps::BitContext&)
extern "C" error_t c_auh(RtpAacAuHeader* h, BitContext* bc) {
    v_requires(bits::rrep(bc), "rep");
    v_requires((bc->remain_bits == 0) & (h->au_lists._M_impl._M_node._M_size == 0), "aligned, no headers yet");
    uint32_t at = bc->buf_pos + 1, n = bc->sz - at;
    uint8_t* q = bc->buf + at;
    uint32_t nb = n >= 2 ? (be2(q) + 7) / 16 : 0;
    bool ok = n >= 2 && n >= 2 + 2 * nb;
    if (v_enforce()) {
        error_t ret = h->decode(*bc);
        v_ensures((ret == SUCCESS) == ok, "accepted iff every announced header is there");
        if (ret != SUCCESS) return ret;
        v_ensures((h->nb_au_headers == (int) nb) & (h->au_lists.size() == nb), "as many headers as announced");
        v_ensures((bc->remain_bits == 0) & (bc->buf_pos == (int32_t) (at + 2 + 2 * nb) - 1), "exactly the headers are consumed");
        if (g_k < nb) v_ensures(same_head(elem(h, g_k), g_k, q), "size and index as they stand");
        return ret;
    }
    if (!ok) return ERROR_RTP_PROBE;
    h->nb_au_headers = nb;
    g_auh = h; g_at = at + 2 + 2 * nb;
    h->au_lists._M_impl._M_node._M_size = nb;
    g_heads = (RtpAacAu*) v_buf("heads", 2 * nb);           // instances of the last postcondition are assumed where used
    memcpy((void*) h->au_lists._M_impl._M_node._M_next, g_heads, 2 * nb);
    bc->buf_pos = at + 2 + 2 * nb - 1;
    return SUCCESS;
}
extern "C" bool inv_heads() {
    uint64_t n = g_auh->au_lists._M_impl._M_node._M_size;
    if (n > g_nb) return false;
    return (g_bc->remain_bits == 0) & (g_bc->buf_pos == (int32_t) (2 + 2 * n) - 1) & (n <= g_k || same_head(elem(g_auh, g_k), g_k, g_p));
}
extern "C" bool uinv_count(uint64_t i) { return i == g_auh->au_lists._M_impl._M_node._M_size; }
//@ harness h_au_header prop=C09 uses=c_BitContext_read_bits,c_BitContext_read_int16 unroll=1 cut=always tmpl=eq inv=inv_heads uinv=uinv_count covers=ok,short about="RtpAacAuHeader::decode against its contract: every announced header, in order, exactly as it stands"
extern "C" void h_au_header() {
    vspec::init();
    g_n = v_range("n", 0, 20000);
    g_p = v_buf("p", g_n);
    g_k = v_range("k", 0, 8192);
    BitContext bc(g_p, g_n);
    RtpAacAuHeader h;
    g_bc = &bc;
    g_auh = &h;
    g_nb = g_n >= 2 ? (be2(g_p) + 7) / 16 : 0;
    if (c_auh(&h, &bc) == SUCCESS) v_cover("ok"); else v_cover("short");
}
static bool is_au(AVPacket& p, const uint8_t* b, uint32_t n, int64_t ts, uint32_t k) {
    return (p.size() == n) & (p.stream_type == AV_STREAM_TYPE_AUDIO) & (p.pkt_type.pkt_type == AV_AUDIO_TYPE_SEQUENCE_DATA)
            & (p.dts == ts) & (p.pts == ts) & (p.flags == 0xaf) & (p.codecid == AAC) && (k >= n || p.buffer()[k] == b[k]);
}
//@ contract c_raw_aac for sps::AacAVCodecParser::encode_raw_avc(sps::AVCodecContext*, sps::AdtsFixedHeader*, unsigned char*, int, std::__cxx11::list<std::shared_ptr<sps::AVPacket>, std::allocator<std::shared_ptr<sps::AVPacket> > >&)
extern "C" error_t c_raw_aac(AacAVCodecParser* a, AVCodecContext* ctx, AdtsFixedHeader* hd, uint8_t* b, int n, PList* pkts) {
    if (v_enforce()) return a->encode_raw_avc(ctx, hd, b, n, *pkts);
    v_assert((ctx->dts == g_ts) & (ctx->timebase == 90), "time is the rtp timestamp at 90 kHz");
    v_assert(g_calls < g_nb, "only announced units");
    v_assume(same_head(g_heads[g_calls], g_calls, g_p));       // instance of c_auh's postcondition
    uint32_t sz = be2(g_p + 2 + 2 * g_calls) >> 3;
    v_assert(((uint32_t) n == sz) & (g_at + sz <= g_n), "the unit has the announced size and is complete");
    if (g_k < sz) v_assert(b[g_k] == g_p[g_at + g_k], "the unit's bytes");
    list_append(*pkts, g_calls, g_calls + 1);
    g_at += sz;
    g_calls++;
    return SUCCESS;
}
extern "C" bool inv_aus() {
    return (g_at <= g_n) & (g_calls <= g_nb) & (g_bc->remain_bits == 0) & ((uint64_t) ((int64_t) g_bc->buf_pos + 1) == g_at);
}
extern "C" bool inv_aulist() { exp_nil(); exp_cat(0, g_calls); return exp_is(*g_list); }
extern "C" bool uinv_au(uint64_t off) { return off == 2 * g_calls; }
//@ harness h_raw_aac prop=C09 about="one access unit becomes one audio packet with exactly its bytes and time"
extern "C" void h_raw_aac() {
    vspec::init();
    uint32_t n = v_range("n", 0, 0x3fffffff), k = v_range("k", 0, 0x3fffffff);
    uint8_t* b = v_buf("b", n);
    uint32_t ts = v_any32("ts");
    AVCodecContext ctx(ts, ts, 90);
    AacAVCodecParser a;
    seq_init();
    PList pkts;
    list_set(pkts, 0, 2);
    v_assert(a.encode_raw_avc(&ctx, nullptr, b, n, pkts) == SUCCESS, "accepted");
    v_assert(pkts.size() == 3, "one packet");
    v_assert(is_au(*pkts.back(), b, n, ts / 90, k), "the access unit");
    PAVPacket p = pkts.back();
    exp_nil(); exp_cat(0, 2); exp_add(p);
    v_assert(exp_is(pkts), "behind the others");
}
//@ harness h_aac prop=C09 uses=c_auh,c_raw_aac unroll=1 cut=always tmpl=eq inv=inv_aus,inv_aulist uinv=uinv_au covers=ok,truncated,header about="AacRtpDecoder::decode: every access unit becomes one packet, once, whole, in order"
extern "C" void h_aac() {
    vspec::init();
    seq_init();
    g_n = v_range("n", 0, 20000);
    g_p = v_buf("p", g_n);
    g_k = v_range("k", 0, 20000);
    g_ts = v_any32("timestamp");
    g_calls = 0;
    BitContext bc(g_p, g_n);
    PList pkts;
    g_bc = &bc;
    g_list = &pkts;
    RtpPayloadHeader h;
    h.fix_header.timestamp = g_ts;
    g_nb = g_n >= 2 ? (be2(g_p) + 7) / 16 : 0;
    bool head = g_n >= 2 && g_n >= 2 + 2 * g_nb;
    AacRtpDecoder d;
    error_t ret = d.decode(h, bc, pkts);
    if (!seq_model()) {
        uint32_t at = 2 + 2 * g_nb, i = 0;
        bool ok = head;
        auto it = pkts.begin();
        for (; ok && i < g_nb; ++i) {
            uint32_t sz = be2(g_p + 2 + 2 * i) >> 3;
            if (at + sz > g_n) { ok = false; break; }
            v_assert(it != pkts.end() && is_au(**it, g_p + at, sz, g_ts / 90, g_k), "the access unit");
            ++it;
            at += sz;
        }
        v_assert(it == pkts.end(), "one packet per unit");
        v_assert((ret == SUCCESS) == ok, "accepted iff every unit is complete");
        return;
    }
    if (!head) {
        v_cover("header");
        v_assert((ret != SUCCESS) & pkts.empty(), "truncated headers are refused");
        return;
    }
    exp_nil(); exp_cat(0, g_calls);
    v_assert(exp_is(pkts), "one packet per unit, in order");
    if (ret == SUCCESS) {
        v_cover("ok");
        v_assert(g_calls == g_nb, "every unit");
        return;
    }
    v_cover("truncated");
    v_assert(g_calls < g_nb, "there was another unit");
    v_assume(same_head(g_heads[g_calls], g_calls, g_p));       // instance of c_auh's postcondition
    v_assert(g_at + (be2(g_p + 2 + 2 * g_calls) >> 3) > g_n, "only units that are not complete are refused");
}
