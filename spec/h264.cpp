//@ link seq.cpp
//@ link bits.cpp
// H.264 (ISO 14496-10 Annex B byte streams, ISO 14496-15 length-prefixed units and configuration records)
#include "seq.hpp"
#include <sps_avcodec_h264_parser.hpp>
#include <sps_io_bits.hpp>
using namespace vspec;
using namespace sps;

static uint8_t* g_p;          // the input
static uint32_t g_n;
static uint32_t g_at;         // where the next unit (its start code, length field) is expected
static uint32_t g_w;          // size of the length field, 0: start codes
static uint32_t g_calls, g_sps, g_pps;
static uint32_t g_j, g_k;     // arbitrary positions
static bool g_refused, g_record, g_seen;   // g_seen: the number of picture parameter sets was passed
static const uint8_t* g_from; // find_start_code under proof
static uint32_t g_len;

static uint32_t be(const uint8_t* p, uint32_t n) {
    uint32_t v = 0;
    for (uint32_t i = 0; i < n; ++i) v = v << 8 | p[i];
    return v;
}
// a start code followed by at least one byte
static bool code(const uint8_t* p, uint64_t n, uint64_t at) {
    return (at + 3 < n) & (v_peek(p, at, n) == 0) & (v_peek(p, at + 1, n) == 0) & (v_peek(p, at + 2, n) == 1);
}
static bool valid(const uint8_t* b, uint64_t n) { return (n >= 1) & (v_peek(b, 0, n) < 0x80); }

//@ contract c_find for sps::find_start_code(unsigned char*, unsigned long)
extern "C" uint8_t* c_find(uint8_t* b, size_t n) {
    if (v_enforce()) {
        uint8_t* r = find_start_code(b, n);
        if (r) v_ensures(code(b, n, r - b), "a start code");
        uint64_t end = r ? r - b : n;
        if (g_j < end) v_ensures(!code(b, n, g_j), "the first one");
        return r;
    }
    uint64_t at = b - g_p, end = at + n;
    v_assert((at <= g_n) & (end <= g_n), "searched inside the input");
    uint64_t r = v_any32("start code");
    bool found = v_anyb("found");
    if (found) v_assume((r >= at) & code(g_p, end, r)); else r = end;
    v_assume((g_j < at) | (g_j >= r) | !code(g_p, end, g_j));
    v_assume((g_at < at) | (g_at >= r) | !code(g_p, end, g_at));     // the same for another position
    if (!found) return nullptr;
    return g_p + r;
}
extern "C" bool uinv_left(uint64_t left) {     // bytes still to be searched
    return left <= g_len && (g_j >= g_len - left || !code(g_from, g_len, g_j));
}
//@ harness h_start_code prop=C11 unroll=1 uinv=uinv_left covers=found,none about="find_start_code returns the first start code that is followed by a byte, whatever the input"
extern "C" void h_start_code() {
    vspec::init();
    g_n = g_len = v_range("n", 0, 1 << 20);
    g_p = v_buf("p", g_n);
    g_from = g_p;
    g_j = v_range("j", 0, 1 << 20);
    if (v_range("style", 0, 1)) {
        if (v_symbolic()) return;
        for (uint32_t i = 0; i < g_n; ++i) g_p[i] = g_p[i] % 3 == 1;
    }
    if (c_find(g_p, g_n)) v_cover("found"); else v_cover("none");
}

static void count_pps() {          // behind the sequence parameter sets comes the number of picture parameter sets
    g_pps = v_peek(g_p, g_at, g_n);
    g_at += 1;
    g_seen = true;
}
//@ contract c_append for sps::NALUContext::append(unsigned char*, unsigned long)
extern "C" error_t c_append(NALUContext* c, uint8_t* b, size_t n) {
    if (v_enforce()) {
        uint64_t old = c->nalu_list.size();
        error_t ret = c->append(b, n);
        v_ensures((ret == SUCCESS) == valid(b, n), "accepted iff it has a header without the forbidden bit");
        if (ret == SUCCESS) {
            v_ensures(c->nalu_list.size() == old + 1, "one more unit");
            H264NAL& u = c->nalu_list.back();
            v_ensures((u.nalu_buf == b) & (u.nalu_size == n), "the unit as given");
            v_ensures((u.nal_header.forbidden_bit == 0) & (u.nal_header.nal_reference_bit == b[0] >> 5) & (u.nal_header.nal_unit_type == (b[0] & 31)), "its header");
        }
        return ret;
    }
    v_assert(!g_refused, "nothing is decoded after a refused unit");
    uint64_t a = b - g_p, e = a + n;
    if (g_record) {
        v_assert(g_calls < g_sps + (g_seen ? g_pps : 0), "only announced parameter sets");
        v_assert(g_at + 2 <= g_n && g_at + 2 + be(g_p + g_at, 2) <= g_n, "only complete parameter sets");
        v_assert((a == g_at + 2) & (n == be(g_p + g_at, 2)), "the parameter set");
        g_at = e;
        if (g_calls + 1 == g_sps) count_pps();
    } else if (g_w) {
        v_assert(g_at + g_w <= g_n && (uint64_t) g_at + g_w + be(g_p + g_at, g_w) <= g_n, "only complete units");
        v_assert((a == g_at + g_w) & (n == be(g_p + g_at, g_w)), "the unit");
        g_at = e;
    } else {
        v_assert((a >= 3) & (a <= g_n) & (e <= g_n) & (n <= g_n), "inside the input");
        v_assert((g_at <= a - 3) & code(g_p, g_n, a - 3), "a unit begins behind its start code");
        v_assert((g_j < g_at) | (g_j >= a - 3) | !code(g_p, g_n, g_j), "no start code is passed over");
        bool next = code(g_p, g_n, e), zero = !next & (e < g_n) & (v_peek(g_p, e, g_n) == 0) & code(g_p, g_n, e + 1);
        v_assert((e == g_n) | next | zero, "a unit ends in front of the next start code or at the end");
        v_assert(!next | (n == 0) | (v_peek(g_p, e - 1, g_n) != 0), "the zero byte of a start code is not part of the unit");
        e += zero;
        v_assert((a > (uint64_t) g_j + 2) | (g_j >= e) | !code(g_p, g_n, g_j), "no start code inside of a unit");
        g_at = e;
    }
    g_calls++;
    if (valid(b, n)) return SUCCESS;
    g_refused = true;
    return ERROR_H264_DECODER;
}
//@ harness h_nal_append prop=C11 shards=3 about="a unit is taken over as given, with its header; empty ones and those with the forbidden bit are refused"
extern "C" void h_nal_append() {
    vspec::init();
    uint32_t n = v_range("n", 0, 0x3fffffff);
    uint8_t* b = v_buf("b", n);
    NALUContext c;
    uint32_t earlier = v_shard(3);
    uint8_t one = v_range("one", 0, 0x7f);
    for (uint32_t i = 0; i < earlier; ++i) c.append(&one, 1);
    c_append(&c, b, n);
    for (uint32_t i = 0; i < earlier; ++i) v_assert(c.nalu_list[i].nalu_buf == &one && c.nalu_list[i].nalu_size == 1, "earlier units stay");
}

extern "C" bool inv_split() {
    if (g_refused | (g_at > g_n) | (g_calls > g_at)) return false;
    return (g_w != 0) | (g_calls == 0) | (g_at == g_n) | code(g_p, g_n, g_at);
}
extern "C" bool uinv_split(uint64_t pos) {
    pos++;
    if (g_w) return pos == g_at;
    if (g_calls == 0) return (pos == 0) & (g_at == 0);
    return (pos == g_at) | ((pos + 1 == g_at) & (g_at < g_n) & (v_peek(g_p, pos, g_n) == 0));
}
// independent splitter for the bounded modes
static void units(const std::vector<H264NAL>& l, bool ok, uint32_t at, bool whole) {
    uint32_t i = 0;
    while (true) {
        uint64_t a, n, end;
        if (g_w) {
            if (at + g_w > g_n) { v_assert(ok && l.size() == i, "every unit"); return; }
            a = at + g_w; n = be(g_p + at, g_w);
            if (a + n > g_n) { v_assert(!ok, "incomplete units are refused"); return; }
            end = a + n;
        } else {
            while (at < g_n && !code(g_p, g_n, at)) ++at;
            if (at >= g_n) { v_assert(ok == (i > 0 || g_n < 4), "units found"); v_assert(l.size() == i, "every unit"); return; }
            a = at + 3;
            end = at + 1;
            while (end < g_n && !code(g_p, g_n, end)) ++end;
            n = end - a;
            if (end < g_n && g_p[end - 1] == 0) --n;
        }
        if (!valid(g_p + a, n)) { v_assert(!ok, "refused"); return; }
        v_assert(l.size() > i && l[i].nalu_buf == g_p + a && l[i].nalu_size == n, "the unit");
        at = end;
        ++i;
    }
}
static void split(uint32_t w) {
    vspec::init();
    g_w = w;
    g_n = v_range("n", 0, 1 << 20);
    g_p = v_buf("p", g_n);
    g_j = v_range("j", 0, 1 << 20);
    if (v_range("style", 0, 1)) {
        if (v_symbolic()) return;
        static const uint8_t t[8] = {0, 0, 1, 0, 1, 5, 0x67, 2};
        for (uint32_t i = 0; i < g_n; ++i) g_p[i] = t[g_p[i] & 7];
    }
    g_at = g_calls = 0;
    g_refused = g_record = false;
    NALUParser d(w != 0, (int) w - 1);
    NALUContext c;
    error_t ret = d.decode(g_p, g_n, &c, false);
    if (!seq_model()) { units(c.nalu_list, ret == SUCCESS, 0, true); return; }
    if (ret == SUCCESS) {
        v_cover("ok");
        v_assert(!g_refused, "refused units are reported");
        if (w) v_assert(g_n - g_at < w, "every unit");
        else v_assert((g_at == g_n) | ((g_calls == 0) & (g_n < 4)), "every unit");
        return;
    }
    if (g_refused) { v_cover("refused"); return; }
    if (w) v_assert(g_at + w <= g_n && (uint64_t) g_at + w + be(g_p + g_at, w) > g_n, "only incomplete units are refused");
    else v_assert((g_calls == 0) & (g_j >= g_n || !code(g_p, g_n, g_j)), "only an input without a start code is refused");
    v_cover("other");
}
//@ harness h_annexb prop=C11 uses=c_append,c_find,c_BitContext_skip unroll=1 cutfn=NALUParser::decode_data cut=always tmpl=eq inv=inv_split uinv=uinv_split covers=ok,refused,other about="Annex B: every unit between start codes is taken over once, exactly, in order"
extern "C" void h_annexb() { split(0); }
//@ harness h_avc prop=C11 shards=4 uses=c_append,c_find,c_BitContext_skip unroll=1 cutfn=NALUParser::decode_data cut=always tmpl=eq inv=inv_split uinv=uinv_split covers=ok,refused,other about="length prefixed units (1..4 byte lengths): every unit is taken over once, exactly, in order; incomplete ones are refused"
extern "C" void h_avc() { split(1 + v_shard(4)); }

extern "C" bool inv_record() {
    return !g_refused & (g_at <= g_n + g_seen) & (g_at >= 6) & (2 * g_calls + 6 <= g_at) & (g_calls <= g_sps + (g_seen ? g_pps : 0)) & (g_seen == (g_calls >= g_sps))
        & (!g_seen | (g_calls > g_sps) | (g_pps == v_peek(g_p, g_at - 1, g_n)));
}
extern "C" bool uinv_rec1(uint64_t pos) { return (g_calls <= g_sps) & (pos + 1 + g_seen == g_at); }
extern "C" bool uinv_cnt1(uint64_t i) { return (i <= g_sps) & (i == g_calls); }
extern "C" bool uinv_rec2(uint64_t pos) { return g_seen & (g_at <= g_n) & (pos + 1 == g_at); }
extern "C" bool uinv_cnt2(uint64_t i) { return g_seen & (i <= g_pps) & (i == g_calls - g_sps); }
//@ harness h_record prop=C11 uses=c_append,c_BitContext_skip unroll=1 cutfn=NALUParser::decode_header cut=always tmpl=eq inv=inv_record uinv=uinv_rec1,uinv_cnt1,uinv_rec2,uinv_cnt2 covers=ok,refused,short about="configuration records: every sequence and picture parameter set is taken over once, exactly, in order; truncated records are refused"
extern "C" void h_record() {
    vspec::init();
    g_n = v_range("n", 0, 1 << 20);
    g_p = v_buf("p", g_n);
    g_at = 6;
    g_calls = 0;
    g_refused = g_seen = false;
    g_record = true;
    g_w = 0;
    if (g_n > 0) {
        if (!v_symbolic()) g_p[0] = 1;
        v_assume(g_p[0] == 1);
    }
    bool head = g_n >= 7;
    g_sps = head ? g_p[5] & 31 : 0;
    if (seq_model() && g_sps == 0) count_pps();
    NALUParser d;
    NALUContext c;
    error_t ret = d.decode(g_p, g_n, &c, true);
    if (!head) { v_assert((ret != SUCCESS) & (g_calls == 0) & c.nalu_list.empty(), "truncated record"); return; }
    v_assert(d.is_avc & (d.nalu_length_size_minus_one == (g_p[4] & 3)), "size of the length field");
    if (!seq_model()) {
        uint32_t i = 0, total = g_sps;
        bool ok = true, pps = false;
        while (ok) {
            if (i == g_sps && !pps) {
                if (g_at + 1 > g_n) { ok = false; break; }
                pps = true;
                total += g_p[g_at++];
            }
            if (i == total) break;
            uint32_t sz = g_at + 2 <= g_n ? be(g_p + g_at, 2) : 0;
            if (g_at + 2 + sz > g_n || !valid(g_p + g_at + 2, sz)) { ok = false; break; }
            v_assert(c.nalu_list.size() > i && c.nalu_list[i].nalu_buf == g_p + g_at + 2 && c.nalu_list[i].nalu_size == sz, "the parameter set");
            ++i;
            g_at += 2 + sz;
        }
        v_assert((ret == SUCCESS) == ok, "accepted iff every parameter set is there");
        return;
    }
    if (ret == SUCCESS) {
        v_cover("ok");
        v_assert(!g_refused, "refused parameter sets are reported");
        v_assert(g_seen & (g_at <= g_n) & (g_calls == g_sps + g_pps), "every parameter set");
        return;
    }
    if (g_refused) { v_cover("refused"); return; }
    v_cover("short");
    v_assert(g_at + 2 > g_n || g_at + 2 + be(g_p + g_at, 2) > g_n, "only truncated records are refused");
}

// packaging: length prefixed units and configuration records (ISO 14496-15)
static bool is_config(AVPacket& p, const uint8_t* s, uint32_t n, const uint8_t* q, uint32_t m, uint32_t k) {
    uint32_t size = 9 + n + (q ? 2 + m : 0);
    if (p.size() != size) return false;
    const uint8_t* b = p.buffer();
    bool ok = (p.stream_type == AV_STREAM_TYPE_VIDEO) & (p.pkt_type.pkt_type == AV_VIDEO_TYPE_SEQUENCE_HEADER) & (p.flags == 0x17) & (p.codecid == H264) & (p.dts == 0) & (p.pts == 0);
    ok &= (b[0] == 1) & (b[1] == s[1]) & (b[2] == s[2]) & (b[3] == s[3]) & (b[4] == 0xff) & (b[5] == 0xe1) & (be(b + 6, 2) == n) & (b[8 + n] == (q ? 1 : 0));
    if (k < n) ok &= b[8 + k] == s[k];
    if (q) {
        ok &= be(b + 9 + n, 2) == m;
        if (k < m) ok &= b[11 + n + k] == q[k];
    }
    return ok;
}
static bool is_unit(AVPacket& p, const uint8_t* b, uint32_t n, int64_t dts, int64_t pts, uint32_t k) {
    uint8_t t = b[0] & 31, frame = t == H264_NAL_IDR_SLICE ? 1 : t == H264_NAL_SLICE ? 2 : 5;
    return (p.size() == 4 + n) & (p.stream_type == AV_STREAM_TYPE_VIDEO) & (p.pkt_type.pkt_type == AV_VIDEO_TYPE_DATA) & (p.flags == (frame << 4 | H264))
        & (p.codecid == H264) & (p.dts == dts) & (p.pts == pts) && be(p.buffer(), 4) == n && (k >= n || p.buffer()[4 + k] == b[k]);
}
static bool carried(uint8_t t) { return (t == H264_NAL_IDR_SLICE) | (t == H264_NAL_SLICE) | (t == H264_NAL_SEI); }
//@ harness h_raw_nalu prop=C11 shards=10 about="one raw unit (any type, size, time, parser state): slices and SEI become one length prefixed packet, an SPS one configuration record, the rest nothing"
extern "C" void h_raw_nalu() {
    vspec::init();
    static const int64_t bases[5] = {1, 90, 1000, 90000, 48000};
    uint32_t s = v_shard(10);
    uint32_t n = v_range("n", 0, 0x3ffffff), k = v_range("k", 0, 0x3ffffff);
    uint8_t* b = v_buf("b", n);
    int64_t dts = v_any64("dts"), pts = v_any64("pts"), base = bases[s % 5];
    AVCodecContext ctx(dts, pts, base);
    seq_init();
    PList pkts;
    list_set(pkts, 0, 2);
    H264AVCodecParser h;
    h.nalu_parser->nalu_length_size_minus_one = s < 5 ? -1 : 3;
    error_t ret = h.encode_raw_nalu(&ctx, b, n, pkts);
    uint8_t t = n ? b[0] & 31 : 0;
    bool ok = valid(b, n) && (t != H264_NAL_SPS || (n >= 4 && n <= 0xffff));
    v_assert((ret == SUCCESS) == ok, "refused iff empty, forbidden, or a parameter set that fits no record");
    bool one = ok && (carried(t) || t == H264_NAL_SPS);
    v_assert(pkts.size() == (one ? 3 : 2), "one packet iff the unit is carried");
    exp_nil(); exp_cat(0, 2);
    if (one) {
        PAVPacket p = pkts.back();
        v_assert(t == H264_NAL_SPS ? is_config(*p, b, n, nullptr, 0, k) : is_unit(*p, b, n, dts / base, pts / base, k), "the packet of the unit");
        exp_add(p);
    }
    v_assert(exp_is(pkts), "behind the others");
    v_assert((h.nalu_parser->nalu_length_size_minus_one == -1) | (h.nalu_parser->nalu_length_size_minus_one == 3), "four byte lengths");
}
//@ harness h_units prop=C11 shards=27 about="an access unit of 1..3 units: the configuration record of its last SPS and PPS first, then every slice and SEI once, in order (bounded number of units)"
extern "C" void h_units() {
    vspec::init();
    // 27 cases: up to three units, each one a carried unit, an SPS, or any other
    uint32_t s = v_shard(27), kind[3] = {s % 3, s / 3 % 3, s / 9};
    static const uint8_t types[3][3] = {{1, 5, 6}, {7, 7, 7}, {8, 9, 12}};
    uint32_t count = v_split(v_range("count", 1, 3)), k = v_range("k", 0, 70000);
    uint8_t* b[3];
    uint32_t n[3];
    seq_init();
    PList pkts;
    int64_t dts = v_any64("dts"), pts = v_any64("pts");
    NALUContext c(dts, pts, 90);
    uint8_t t[3];
    for (uint32_t i = 0; i < count; ++i) {
        n[i] = v_range("n", 1, 70000);
        b[i] = v_buf("b", n[i]);
        t[i] = types[kind[i]][v_split(v_range("type", 0, kind[i] == 1 ? 0 : 2))];
        b[i][0] = (b[i][0] & 0x60) | t[i];
        c.append(b[i], n[i]);
    }
    const uint8_t *sps = nullptr, *pps = nullptr;
    uint32_t ns = 0, np = 0;
    for (uint32_t i = 0; i < count; ++i) {
        if (t[i] == 7) { sps = b[i]; ns = n[i]; }
        if (t[i] == 8) { pps = b[i]; np = n[i]; }
    }
    NALUParser d;
    error_t ret = d.encode_avc(&c, pkts);
    bool ok = !sps || (ns >= 4 && ns <= 0xffff && np <= 0xffff);
    v_assert((ret == SUCCESS) == ok, "refused iff a parameter set fits no record");
    if (ret != SUCCESS) { v_assert(pkts.empty(), "nothing comes out of a refused access unit"); return; }
    if (sps) {
        v_assert(!pkts.empty(), "a configuration record");
        v_assert(is_config(*pkts.front(), sps, ns, pps, np, k), "the configuration record");
        pkts.pop_front();
    }
    for (uint32_t i = 0; i < count; ++i) {
        if (!carried(t[i])) continue;
        v_assert(!pkts.empty(), "a packet for every unit");
        v_assert(is_unit(*pkts.front(), b[i], n[i], dts / 90, pts / 90, k), "the packet of the unit");
        pkts.pop_front();
    }
    v_assert(pkts.empty(), "nothing else");
}

// an access unit is split, then packaged with its times
static NALUContext* g_ctx;
static PList* g_pkts;
static bool g_on, g_packaged, g_okd, g_okp;
static int64_t g_dts, g_pts, g_base;
//@ contract c_split for sps::NALUParser::decode(unsigned char*, unsigned long, sps::NALUContext*, bool)
extern "C" error_t c_split(NALUParser* d, uint8_t* b, size_t n, NALUContext* c, bool header) {
    if (v_enforce() || !g_on) return d->decode(b, n, c, header);
    v_assert((g_calls == 0) & (b == g_p) & (n == g_n) & !header, "the whole input is split once");
    v_assert((c->dts == g_dts) & (c->pts == g_pts) & (c->timebase == g_base) & c->nalu_list.empty(), "with its times");
    g_calls = 1;
    g_ctx = c;
    return g_okd ? SUCCESS : ERROR_H264_DECODER;
}
//@ contract c_package for sps::NALUParser::encode_avc(sps::NALUContext*, std::__cxx11::list<std::shared_ptr<sps::AVPacket>, std::allocator<std::shared_ptr<sps::AVPacket> > >&)
extern "C" error_t c_package(NALUParser* d, NALUContext* c, PList* pkts) {
    if (v_enforce() || !g_on) return d->encode_avc(c, *pkts);
    v_assert(g_okd & (g_calls == 1) & !g_packaged & (c == g_ctx) & (pkts == g_pkts), "the units of the input are packaged once");
    g_packaged = true;
    return g_okp ? SUCCESS : ERROR_H264_ENCODER;
}
//@ harness h_access_unit prop=C11 uses=c_split,c_package covers=ok about="H264AVCodecParser::encode_avc splits the input and packages its units with its times; refusals are reported"
extern "C" void h_access_unit() {
    vspec::init();
    g_n = v_range("n", 0, 1 << 20);
    g_p = v_buf("p", g_n);
    if (v_range("style", 0, 1)) {
        if (v_symbolic()) return;
        static const uint8_t t[16] = {0, 0, 1, 0, 1, 5, 0x67, 0x68, 0x65, 0, 0, 0, 0x41, 6, 9, 0x27};
        for (uint32_t i = 0; i < g_n; ++i) g_p[i] = t[g_p[i] & 15];
    }
    g_dts = v_any64("dts");
    g_pts = v_any64("pts");
    g_base = 90;
    g_okd = v_anyb("splits");
    g_okp = v_anyb("packs");
    g_calls = 0;
    g_packaged = false;
    AVCodecContext ctx(g_dts, g_pts, g_base);
    H264AVCodecParser h;
    PList pkts;
    g_pkts = &pkts;
    g_on = seq_model();
    error_t ret = h.encode_avc(&ctx, g_p, g_n, pkts);
    g_on = false;
    if (seq_model()) {
        v_assert((g_calls == 1) & (g_packaged == g_okd), "split, then packaged");
        v_assert((ret == SUCCESS) == (g_okd & g_okp), "refusals are reported");
        if (ret == SUCCESS) v_cover("ok");
        return;
    }
    NALUParser d;
    NALUContext c(g_dts, g_pts, g_base);
    PList want;
    error_t r = d.decode(g_p, g_n, &c, false);
    if (r == SUCCESS) r = d.encode_avc(&c, want);
    v_assert((ret == SUCCESS) == (r == SUCCESS) && pkts.size() == want.size(), "as split and packaged");
    for (auto i = pkts.begin(), j = want.begin(); i != pkts.end(); ++i, ++j)
        v_assert((*i)->size() == (*j)->size() && !memcmp((*i)->buffer(), (*j)->buffer(), (*i)->size()) && (*i)->dts == (*j)->dts && (*i)->pts == (*j)->pts, "the packets");
}
