//@ link seq.cpp
//@ link bits.cpp
// RTP payload formats: H.264 (RFC 6184) and AAC (RFC 3640)
#include "seq.hpp"
#include <sps_avformat_rtpdec_aac.hpp>
#include <sps_avformat_rtpdec_h264_hevc.hpp>
using namespace vspec;
using namespace sps;

static uint32_t be(const uint8_t* p, int n) {
    uint32_t v = 0;
    for (int i = 0; i < n; ++i) v = v << 8 | p[i];
    return v;
}
static uint8_t* g_p;         // the payload
static uint32_t g_n;
static uint32_t g_at;        // next unit (offset)
static uint32_t g_head;      // bytes in front of each aggregated unit
static uint32_t g_ts, g_unit_len;
static uint64_t g_cnt, g_k, g_calls;
static bool g_refused, g_aggregate;
static BitContext* g_bc;
static PList* g_list;
static uint8_t* g_unit;      // the expected unit when not aggregated
static const uint32_t CANCEL = ERROR_H264_DECODER;

// what a unit is turned into is decided by the codec (proved elsewhere); here: which bytes it is given, when, how often
//@ contract c_raw for sps::H264AVCodecParser::encode_raw_nalu(sps::AVCodecContext*, unsigned char*, int, std::__cxx11::list<std::shared_ptr<sps::AVPacket>, std::allocator<std::shared_ptr<sps::AVPacket> > >&)
extern "C" error_t c_raw(H264AVCodecParser* h, AVCodecContext* ctx, uint8_t* b, int n, PList* pkts) {
    if (v_enforce()) return h->encode_raw_nalu(ctx, b, n, *pkts);
    v_assert(!g_refused, "nothing is decoded after a refused unit");
    v_assert((ctx->pts == g_ts) & (ctx->timebase == 90), "presentation time is the rtp timestamp at 90 kHz");
    if (g_aggregate) {
        v_assert((g_at + g_head <= g_n) && g_at + g_head + be(g_p + g_at, 2) <= g_n, "only complete units are decoded");
        uint32_t sz = be(g_p + g_at, 2);
        v_assert((uint32_t) n == sz, "the unit has the announced size");
        if (g_k < sz) v_assert(b[g_k] == g_p[g_at + g_head + g_k], "the unit's bytes");
        g_at += g_head + sz;
    } else {
        v_assert(g_calls == 0, "one unit");
        v_assert((uint32_t) n == g_unit_len, "size of the unit");
        if (g_k < g_unit_len) v_assert(b[g_k] == g_unit[g_k], "the unit's bytes");
    }
    g_calls++;
    if (v_anyb("refused")) { g_refused = true; return CANCEL; }
    uint64_t m = v_range("yield", 0, 3);
    list_append(*pkts, g_cnt, g_cnt + m);
    g_cnt += m;
    return SUCCESS;
}
extern "C" bool inv_units() { return (g_at <= g_n) & !g_refused & (2 * g_calls <= g_at) & (g_cnt <= 3 * g_calls); }
extern "C" bool inv_cursor() { return (g_bc->remain_bits == 0) & ((uint64_t) ((int64_t) g_bc->buf_pos + 1) == g_at); }
extern "C" bool inv_list() { exp_nil(); exp_cat(0, g_cnt); return exp_is(*g_list); }

// independent expectation for the bounded modes: what the codec makes of a unit
static void codec(uint8_t* b, uint32_t n, uint32_t ts, PList& out, bool& ok) {
    AVCodecContext ctx(0, ts, 90);
    H264AVCodecParser c;
    std::unique_ptr<uint8_t[]> copy(new uint8_t[n ? n : 1]);
    memcpy(copy.get(), b, n);
    ok = ok && c.encode_raw_nalu(&ctx, copy.get(), n, out) == SUCCESS;
}
static void same(PList& a, PList& b) {
    v_assert(a.size() == b.size(), "as many packets as the units yield");
    auto i = a.begin();
    for (auto& x : b) {
        v_assert(((*i)->size() == x->size()) & ((*i)->pts == x->pts) & ((*i)->flags == x->flags), "packet");
        for (uint32_t j = 0; j < x->size(); ++j) v_assert((*i)->buffer()[j] == x->buffer()[j], "packet byte");
        ++i;
    }
}
static void start(RtpPayloadHeader& h, uint32_t max) {
    vspec::init();
    seq_init();
    g_n = v_range("n", 0, max);
    g_p = v_buf("p", g_n);
    g_k = v_range("k", 0, 1 << 21);
    g_ts = v_any32("timestamp");
    h.fix_header.timestamp = g_ts;
    g_at = 0; g_cnt = 0; g_calls = 0;
    g_refused = g_aggregate = false;
}
//@ harness h_aggregate prop=C12 shards=4 uses=c_raw,c_BitContext_read_int8,c_BitContext_read_int16,c_BitContext_read_int24 unroll=1 cut=always tmpl=eq inv=inv_units,inv_cursor,inv_list covers=ok,truncated,refused about="STAP-A/B, MTAP16/24: every aggregated unit is decoded once, whole, in order; truncated ones are refused"
extern "C" void h_aggregate() {
    RtpPayloadHeader h;
    start(h, 3000);
    uint32_t t = 24 + v_shard(4);
    v_assume(g_n >= 1);
    v_assume((g_p[0] & 31) == t);
    g_aggregate = true;
    uint32_t first = t == 24 ? 1 : 3;
    g_head = t < 26 ? 2 : t == 26 ? 5 : 6;
    g_at = first;
    BitContext bc(g_p, g_n);
    PList pkts;
    g_bc = &bc;
    g_list = &pkts;
    H264RtpDecoder d;
    error_t ret = d.decode(h, bc, pkts);
    if (!seq_model()) {
        PList want;
        bool ok = g_n >= first;
        uint32_t at = first;
        while (ok && at < g_n) {
            ok = at + g_head <= g_n && at + g_head + be(g_p + at, 2) <= g_n;
            if (!ok) break;
            uint32_t sz = be(g_p + at, 2);
            codec(g_p + at + g_head, sz, g_ts, want, ok);
            at += g_head + sz;
        }
        v_assert((ret == SUCCESS) == ok, "success iff every unit is complete and accepted");
        same(pkts, want);
        return;
    }
    exp_nil(); exp_cat(0, g_cnt);
    v_assert(exp_is(pkts), "packets come out in the order of the units");
    v_assert(!d.pkt, "no fragment");
    if (g_n < first) { v_assert((ret != SUCCESS) & (g_calls == 0), "truncated header"); return; }
    if (ret == SUCCESS) {
        v_cover("ok");
        v_assert(!g_refused, "refused units are reported");
        v_assert(g_at == g_n, "all units were decoded");
        return;
    }
    if (g_refused) { v_cover("refused"); return; }
    v_assert(g_at < g_n && (g_at + g_head > g_n || g_at + g_head + be(g_p + g_at, 2) > g_n), "only truncated units are refused");
    v_cover("truncated");
}
//@ harness h_single prop=C12 shards=32 uses=c_raw about="single NAL unit packets are decoded whole, once; reserved types are refused; types 24..29 go to their own decoders"
extern "C" void h_single() {
    RtpPayloadHeader h;
    start(h, 3000);
    uint32_t t = v_shard(32);
    if (t >= 24 && t <= 29) return;
    if (g_n) v_assume((g_p[0] & 31) == t);
    BitContext bc(g_p, g_n);
    PList pkts;
    g_unit = g_p; g_unit_len = g_n;
    H264RtpDecoder d;
    error_t ret = d.decode(h, bc, pkts);
    bool ok = (g_n > 0) & (t > 0) & (t < 24);
    if (!seq_model()) {
        PList want;
        if (ok) codec(g_p, g_n, g_ts, want, ok);
        v_assert((ret == SUCCESS) == ok, "success iff accepted");
        same(pkts, want);
        return;
    }
    v_assert(g_calls == ok, "decoded once, or not at all");
    v_assert((ret == SUCCESS) == (ok & !g_refused), "empty payloads, reserved types and refused units are errors");
    exp_nil(); exp_cat(0, g_cnt);
    v_assert(exp_is(pkts), "packets of the unit");
}
//@ harness h_fragment prop=C12 shards=2 uses=c_raw covers=first,middle,last,lost,both,too_large about="FU-A/B: one step from an arbitrary assembly state: bytes are collected in order behind the rebuilt NAL header and decoded exactly once, at the end fragment"
extern "C" void h_fragment() {
    RtpPayloadHeader h;
    start(h, 3000);
    uint32_t t = 28 + v_shard(2);
    v_assume(g_n >= 1);
    v_assume((g_p[0] & 31) == t);
    H264RtpDecoder d;
    bool had = v_anyb("assembling");
    uint32_t old = v_range("collected", 1, RTP_NALU_MAX_LENGTH);
    uint8_t* q = v_buf("q", old);
    if (had) {
        d.pkt = std::make_shared<CharBuffer>(RTP_NALU_MAX_LENGTH, 0);
        d.pkt->append(q, old);
    }
    uint32_t fh = t == 28 ? 2 : 4;
    bool complete = g_n >= fh;
    bool s = complete && (g_p[1] & 0x80), e = complete && (g_p[1] & 0x40);
    uint32_t before = s ? 1 : old;                       // bytes collected before this payload
    bool open = s | had;
    uint32_t pay = complete ? g_n - fh : 0;
    bool fits = before + pay <= RTP_NALU_MAX_LENGTH;
    uint32_t len = before + pay;
    uint8_t want = 0;                                    // byte k of the unit after this fragment
    if (complete && open && fits && g_k < len)
        want = g_k >= before ? g_p[fh + g_k - before] : s ? (uint8_t) ((g_p[0] & 0xe0) | (g_p[1] & 0x1f)) : q[g_k];
    g_unit_len = len;
    g_unit = v_buf("unit", 1 << 21);
    g_unit[g_k & 0x1fffff] = want;
    BitContext bc(g_p, g_n);
    PList pkts, exp;
    bool ok = true;
    if (!seq_model() && complete && open && fits && e) {
        std::unique_ptr<uint8_t[]> u(new uint8_t[len]);
        if (s) u[0] = (g_p[0] & 0xe0) | (g_p[1] & 0x1f); else memcpy(u.get(), q, before);
        memcpy(u.get() + before, g_p + fh, pay);
        codec(u.get(), len, g_ts, exp, ok);
    }
    error_t ret = d.decode(h, bc, pkts);
    if (!complete) {
        v_assert((ret != SUCCESS) & (bool) d.pkt == had, "a truncated fragment is refused, the assembly goes on");
        return;
    }
    if (!open) {
        v_cover("lost");
        v_assert((ret == SUCCESS) & !d.pkt & pkts.empty(), "fragments without a start are ignored");
        return;
    }
    if (!fits) {
        v_cover("too_large");
        v_assert((ret != SUCCESS) & !d.pkt & pkts.empty(), "a unit that is too large is dropped");
        return;
    }
    if (e) {
        if (s) v_cover("both"); else v_cover("last");
        v_assert(!d.pkt, "the next unit starts from nothing");
        if (seq_model()) {
            v_assert(g_calls == 1, "the unit is decoded once, at its end");
            v_assert((ret == SUCCESS) == !g_refused, "refused units are reported");
            exp_nil(); exp_cat(0, g_cnt);
            v_assert(exp_is(pkts), "packets of the unit");
        } else {
            v_assert((ret == SUCCESS) == ok, "refused units are reported");
            same(pkts, exp);
        }
        return;
    }
    if (s) v_cover("first"); else v_cover("middle");
    v_assert((ret == SUCCESS) & pkts.empty() & (g_calls == 0), "nothing is decoded before the end");
    v_assert((bool) d.pkt, "assembling");
    v_assert(d.pkt->size() == len, "exactly the payload is added");
    if (g_k < len) v_assert(d.pkt->buffer()[g_k] == want, "collected byte");
}
