//@ link seq.cpp
//@ link bits.cpp
// AAC in ADTS (ISO 13818-7): frames to audio packets
#include "seq.hpp"
#include "bits.hpp"
#include <sps_avcodec_aac_parser.hpp>
using namespace vspec;
using namespace sps;

static uint8_t* g_p;
static uint32_t g_n, g_at, g_k;
static uint64_t g_cnt;       // packets so far
static int64_t g_dts;
static bool g_on;            // checking starts
static bool g_has, g_hdr;    // a configuration was announced; for the current frame
static uint32_t g_key;       // the frame header fields of the last announced configuration
static AacAVCodecParser* g_a;
static PList* g_list;

// header fields that decide about a new configuration, of the frame at q / as the parser keeps them
static uint32_t key(const uint8_t* q) { return (q[1] & 1) << 16 | (q[2] & 0xfd) << 8 | (q[3] & 0xf0); }
static uint32_t key(const AdtsFixedHeader& h) {
    return h.protection_absent << 16 | h.profile << 14 | h.sampling_frequency_index << 10 | (h.channel_configuration >> 2) << 8
            | (h.channel_configuration & 3) << 6 | h.original << 5 | h.home << 4;
}
static const uint32_t CONFIG = 0xfdc0;    // profile, rate and channels
static uint32_t head(const uint8_t* q) { return q[1] & 1 ? 7 : 9; }
static uint32_t frame(const uint8_t* q) { return (q[3] & 3) << 11 | q[4] << 3 | q[5] >> 5; }
static uint32_t config(const uint8_t* q) { // AudioSpecificConfig
    uint32_t prof = q[2] >> 6, rate = q[2] >> 2 & 15, chan = (q[2] & 1) << 2 | q[3] >> 6;
    return (prof + 1) << 11 | rate << 7 | chan << 3;
}
static bool complete(const uint8_t* q, uint32_t n) {
    return n >= 7 && (q[0] == 0xff) & ((q[1] & 0xf0) == 0xf0) && n >= head(q) && (frame(q) >= head(q)) & (frame(q) <= n);
}
//@ contract c_adts for sps::AdtsFixedHeader::decode(sps::BitContext*)
extern "C" error_t c_adts(AdtsFixedHeader* h, BitContext* bc) {
    v_requires(bits::rrep(bc), "rep");
    v_requires(bc->remain_bits == 0, "aligned");
    uint32_t at = bc->buf_pos + 1, n = bc->sz - at;
    const uint8_t* q = bc->buf + at;
    bool ok = n >= 7 && (q[0] == 0xff) & ((q[1] & 0xf0) == 0xf0) && n >= head(q);
    if (v_enforce()) {
        error_t ret = h->decode(bc);
        v_ensures((ret == SUCCESS) == ok, "accepted iff complete and in sync");
        if (ret != SUCCESS) return ret;
        v_ensures((h->protection_absent == (q[1] & 1)) & (h->profile == q[2] >> 6) & (h->sampling_frequency_index == (q[2] >> 2 & 15))
                  & (h->channel_configuration == ((q[2] & 1) << 2 | q[3] >> 6)) & (h->original == (q[3] >> 5 & 1))
                  & (h->home == (q[3] >> 4 & 1)) & (h->aac_frame_length == frame(q)), "the header fields");
        v_ensures((h->id == (q[1] >> 3 & 1)) & (h->layer == (q[1] >> 1 & 3)) & (h->private_bit == (q[2] >> 1 & 1))
                  & (h->adts_buffer_fullness == ((q[5] & 31) << 6 | q[6] >> 2)) & (h->no_raw_data_blocks_in_frame == (q[6] & 3)),
                  "the other fields");
        if (!(q[1] & 1)) v_ensures(h->crc16 == (q[7] << 8 | q[8]), "crc");
        v_ensures((bc->remain_bits == 0) & (bc->buf_pos == (int32_t) (at + head(q)) - 1), "exactly the header is consumed");
        return ret;
    }
    if (!ok) return ERROR_AAC_DECODER;
    h->protection_absent = q[1] & 1;
    h->profile = q[2] >> 6;
    h->sampling_frequency_index = q[2] >> 2 & 15;
    h->channel_configuration = (q[2] & 1) << 2 | q[3] >> 6;
    h->original = q[3] >> 5 & 1;
    h->home = q[3] >> 4 & 1;
    h->aac_frame_length = frame(q);
    bc->buf_pos = at + head(q) - 1;
    return SUCCESS;
}
//@ contract c_adts_eq for sps::AdtsFixedHeader::operator==(sps::AdtsFixedHeader const&)
extern "C" bool c_adts_eq(AdtsFixedHeader* h, const AdtsFixedHeader* o) {
    bool same = key(*h) == key(*o);
    if (!v_enforce()) return same;
    uint32_t was = key(*h);
    bool r = *h == *o;
    v_ensures(r == same, "equal iff the configuration fields are equal");
    v_ensures(key(*h) == was, "comparing changes nothing");
    return r;
}
//@ harness h_adts_eq prop=C10 about="AdtsFixedHeader::operator== compares the fields that matter and changes nothing"
extern "C" void h_adts_eq() {
    AdtsFixedHeader a, b;
    v_fill("a", &a, sizeof a);
    v_fill("b", &b, sizeof b);
    c_adts_eq(&a, &b);
}
//@ harness h_adts_header prop=C10 about="AdtsFixedHeader::decode against its contract: every field of every header, at every position"
extern "C" void h_adts_header() {
    vspec::init();
    uint32_t n = v_range("n", 0, 1 << 20), at = v_range("at", 0, 1 << 20);
    v_assume(at <= n);
    uint8_t* p = v_buf("p", n);
    BitContext bc(p, n);
    bc.skip_read_bytes(at);
    AdtsFixedHeader h;
    c_adts(&h, &bc);
}
//@ contract c_create for sps::AVPacket::create(sps::AVMessageType, sps::AVStreamType, sps::AVPacketType, unsigned char*, int, long, long, int, int, long)
extern "C" PAVPacket c_create(AVMessageType m, AVStreamType s, AVPacketType t, uint8_t* b, int n, int64_t dts, int64_t pts,
                              int flags, int codec, int64_t dur) {
    if (v_enforce() || !g_on) return AVPacket::create(m, s, t, b, n, dts, pts, flags, codec, dur);
    v_assert((m == AV_MESSAGE_DATA) & (s == AV_STREAM_TYPE_AUDIO) & (flags == 0xaf) & (codec == AAC), "an aac packet");
    v_assert(g_at + 7 <= g_n, "only frames that are there");
    const uint8_t* q = g_p + g_at;
    if (t.pkt_type == AV_AUDIO_TYPE_SEQUENCE_HEADER) {
        v_assert(!g_hdr & (!g_has | (key(q) != g_key)), "the configuration is announced once");
        v_assert((n == 2) && (b[0] << 8 | b[1]) == (int) config(q), "AudioSpecificConfig of the frame");
        v_assert((dts == 0) & (pts == 0), "time of a sequence header");
        g_has = g_hdr = true;
        g_key = key(q);
    } else {
        v_assert(t.pkt_type == AV_AUDIO_TYPE_SEQUENCE_DATA, "headers and data only");
        v_assert(complete(q, g_n - g_at), "only complete frames");
        v_assert(g_has & ((key(q) & CONFIG) == (g_key & CONFIG)), "its configuration was announced");
        uint32_t h = head(q), sz = frame(q) - h;
        v_assert((uint32_t) n == sz, "size of the frame without its header");
        if (g_k < sz) v_assert(b[g_k] == q[h + g_k], "the frame's bytes");
        v_assert((dts == g_dts / 90) & (pts == g_dts / 90), "time of the frame");
        g_at += h + sz;
        g_hdr = false;
    }
    g_cnt++;
    if (g_cnt - 1 == sk) return tracked;
    return other;
}
extern "C" bool inv_frames() { return (g_at <= g_n) & !g_hdr & (g_cnt <= 2 * g_at); }
extern "C" bool inv_frame_pkts() { exp_nil(); exp_cat(0, g_cnt); return exp_is(*g_list); }
extern "C" bool inv_config() { return !g_a->header ? !g_has : g_has && key(*g_a->header) == g_key; }
extern "C" bool uinv_pos(uint64_t pos) { return pos + 1 == g_at; }

//@ harness h_adts prop=C10 uses=c_create,c_adts,c_adts_eq unroll=1 cutfn=AacAVCodecParser::encode_avc lia=0 cut=always tmpl=eq inv=inv_frames,inv_frame_pkts,inv_config uinv=uinv_pos covers=ok,refused about="ADTS: every frame becomes one packet, once, whole, in order, its configuration announced in front of it when new"
//@ harness h_adts_first prop=C10 uses=c_create,c_adts,c_adts_eq covers=ok,refused about="the same for a parser that has not seen a frame yet, for inputs of one frame and for a refused first frame"
//@ harness h_adts_first_more prop=C10 tier=thorough shards=6 uses=c_create,c_adts,c_adts_eq unroll=1 peel=1 cutfn=AacAVCodecParser::encode_avc lia=0 tmpl=eq inv=inv_frames,inv_frame_pkts,inv_config uinv=uinv_pos about="the same for any number of frames"
static void adts(bool first, bool one) {
    vspec::init();
    seq_init();
    g_n = v_range("n", 0, 1 << 20);
    g_p = v_buf("p", g_n);
    g_k = v_range("k", 0, 8192);
    g_dts = v_any64("dts");
    g_at = 0;
    g_cnt = 0;
    g_hdr = g_on = false;
    AacAVCodecParser a;
    g_a = &a;
    g_has = !first;
    if (first && !one) {                                 // cases of the first frame
        uint32_t s = v_shard(6);
        v_assume(s / 2 == 2 ? sk >= 2 : sk == s / 2);
        if (g_n < 7) { if (s) return; } else v_assume((g_p[1] & 1) == s % 2);
    }
    if (one && complete(g_p, g_n)) v_assume(frame(g_p) == g_n);
    if (g_has) {
        a.header = std::make_shared<AdtsFixedHeader>();
        v_fill("header", a.header.get(), sizeof(AdtsFixedHeader));
        g_key = key(*a.header);
    }
    uint32_t key0 = g_key;
    bool has0 = g_has;
    AVCodecContext ctx(g_dts, g_dts, 90);
    PList pkts;
    g_list = &pkts;
    g_on = true;
    error_t ret = a.encode_avc(&ctx, g_p, g_n, pkts);
    if (!seq_model()) {
        uint32_t at = 0;
        bool ok = true, has = has0;
        uint32_t ky = key0;
        auto it = pkts.begin();
        while (ok && at < g_n) {
            const uint8_t* q = g_p + at;
            ok = complete(q, g_n - at);
            if (!ok) break;
            v_assert(it != pkts.end(), "a packet for every frame");
            if ((*it)->pkt_type.pkt_type == AV_AUDIO_TYPE_SEQUENCE_HEADER) {
                v_assert(!has || ky != key(q), "the configuration is announced once");
                v_assert((*it)->size() == 2 && ((*it)->buffer()[0] << 8 | (*it)->buffer()[1]) == (int) config(q), "AudioSpecificConfig");
                has = true;
                ky = key(q);
                ++it;
            }
            v_assert(has && (ky & CONFIG) == (key(q) & CONFIG), "its configuration was announced");
            v_assert(it != pkts.end(), "a packet for every frame");
            uint32_t h = head(q), sz = frame(q) - h;
            v_assert((*it)->pkt_type.pkt_type == AV_AUDIO_TYPE_SEQUENCE_DATA && (*it)->size() == sz, "the frame");
            for (uint32_t i = 0; i < sz; ++i) v_assert((*it)->buffer()[i] == q[h + i], "its bytes");
            v_assert((*it)->dts == g_dts / 90 && (*it)->pts == g_dts / 90, "its time");
            ++it;
            at += h + sz;
        }
        v_assert((ret == SUCCESS) == ok, "refused iff one frame is not complete");
        if (ok) v_assert(it == pkts.end(), "nothing else");
        return;
    }
    exp_nil(); exp_cat(0, g_cnt);
    v_assert(exp_is(pkts), "every packet once, in order");
    if (ret == SUCCESS) {
        v_cover("ok");
        v_assert((g_at == g_n) & !g_hdr, "every frame");
        return;
    }
    v_cover("refused");
    v_assert(!complete(g_p + g_at, g_n - g_at), "only frames that are not complete are refused");
}
extern "C" void h_adts() { adts(false, false); }
extern "C" void h_adts_first() { adts(true, true); }
extern "C" void h_adts_first_more() { adts(true, false); }
