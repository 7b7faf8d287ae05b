//@ link seq.cpp
#include "seq.hpp"
#include <sps_avformat_cache.hpp>
#include <sps_avformat_ts.hpp>
using namespace vspec;
using namespace sps;

// ---- ghost subscriber: what was published
static uint64_t published;
static const AVPacket* last;
static bool in_list_first;     // the packet was already in the cache when it was published
struct GhostSub : public Subscriber<PAVPacket> {
    int do_event(PAVPacket& o) override { published++; last = o.get(); return SUCCESS; }
};
static std::shared_ptr<GhostSub> gsub;
static void watch(CacheStream<PAVPacket>& c) {
    published = 0;
    last = nullptr;
    if (seq_model()) return;
    gsub = std::make_shared<GhostSub>();
    c.sub(gsub);
}
// applied where a cache publishes; proved for every set of subscribers in h_publish
//@ contract c_publish for sps::Publisher<std::shared_ptr<sps::AVPacket> >::publish(std::shared_ptr<sps::AVPacket>&)
extern "C" void c_publish(Publisher<PAVPacket>* p, PAVPacket& o) {
    if (v_enforce()) { p->publish(o); return; }
    published++;
    last = o.get();
}
static PAVPacket any_packet() {
    PAVPacket p = new_packet();
    p->stream_type = (AVStreamType) v_any32("stream_type");
    p->pkt_type.pkt_type = v_any32("pkt_type");
    p->flags = v_any32("flags");
    p->dts = v_any64("dts");
    return p;
}
static bool same(const PAVPacket& a, const PAVPacket& b) { return a.get() == b.get(); }

//@ harness h_gop_put prop=C14 bmc=12 uses=c_publish covers=ah,vh,script,key,inter,dropped about="AVGopCacheStream::put: headers replaced, a key frame restarts the cached group, everything else is appended behind a key frame; every packet is published once"
extern "C" void h_gop_put() {
    vspec::init();
    seq_init();
    AVGopCacheStream c;
    watch(c);
    PAVPacket s0, a0, v0;
    bool has = v_anyb("has_headers");
    if (has) { s0 = new_packet(); a0 = new_packet(); v0 = new_packet(); }
    c.script = s0; c.audio_sequence_header = a0; c.video_sequence_header = v0;
    c.number = v_any32("number");
    int number = c.number;
    uint64_t lo = any_index("lo"), hi = any_index("hi");
    v_assume(lo <= hi);
    list_set(c.pbs, lo, hi);
    PAVPacket p = any_packet();
    const AVPacket* raw = p.get();
    bool video = p->stream_type == AV_STREAM_TYPE_VIDEO, audio = p->stream_type == AV_STREAM_TYPE_AUDIO;
    bool header = p->pkt_type.pkt_type == 0;
    bool ah = audio & header, vh = video & header, sc = p->stream_type == AV_STREAM_TYPE_SUBTITLE;
    bool key = video & !header & ((p->flags & 0xf0) == 0x10);
    error_t ret = c.put(p);
    v_assert(ret == SUCCESS, "put succeeds");
    v_assert(published == 1 && last == raw, "every packet is published exactly once");
    v_assert(same(c.script, sc ? p : s0), "latest script is kept");
    v_assert(same(c.audio_sequence_header, ah ? p : a0), "latest audio header is kept");
    v_assert(same(c.video_sequence_header, vh ? p : v0), "latest video header is kept");
    v_assert((p->number == number) & (c.number == number + 1), "packets are numbered in order");
    exp_nil();
    if (ah | vh | sc) {
        exp_cat(lo, hi);
        if (ah) v_cover("ah"); else if (vh) v_cover("vh"); else v_cover("script");
        v_assert(exp_is(c.pbs), "headers are not part of the group");
    } else if (key) {
        exp_add(p);
        v_cover("key");
        v_assert(exp_is(c.pbs), "a key frame starts a new group");
    } else if (lo == hi) {
        v_cover("dropped");
        v_assert(exp_is(c.pbs), "nothing is cached before the first key frame");
    } else {
        exp_cat(lo, hi);
        exp_add(p);
        v_cover("inter");
        v_assert(exp_is(c.pbs), "the packet is appended to the group");
    }
}
//@ harness h_gop_put_null prop=C14 bmc=12 uses=c_publish about="an empty packet pointer is ignored"
extern "C" void h_gop_put_null() {
    vspec::init();
    seq_init();
    AVGopCacheStream c;
    watch(c);
    uint64_t lo = any_index("lo"), hi = any_index("hi");
    v_assume(lo <= hi);
    list_set(c.pbs, lo, hi);
    PAVPacket p;
    v_assert(c.put(p) == SUCCESS, "put");
    exp_nil();
    exp_cat(lo, hi);
    v_assert(exp_is(c.pbs) && published == 0, "nothing changes");
}
//@ harness h_gop_join prop=C14 bmc=12 covers=all,none about="a joining viewer receives the latest script, audio header, video header and then the current group, in this order, and the publisher's cache is unchanged"
extern "C" void h_gop_join() {
    vspec::init();
    seq_init();
    AVGopCacheStream c;
    bool hs = v_anyb("has_script"), ha = v_anyb("has_ah"), hv = v_anyb("has_vh");
    if (hs) c.script = new_packet();
    if (ha) c.audio_sequence_header = new_packet();
    if (hv) c.video_sequence_header = new_packet();
    PAVPacket s0 = c.script, a0 = c.audio_sequence_header, v0 = c.video_sequence_header;
    uint64_t lo = any_index("lo"), hi = any_index("hi");
    v_assume(lo <= hi);
    list_set(c.pbs, lo, hi);
    AVDumpCacheStream client(0);
    v_assert(client.copy_from(c) == SUCCESS, "join");
    exp_nil();
    if (hs) exp_add(s0);
    if (ha) exp_add(a0);
    if (hv) exp_add(v0);
    exp_cat(lo, hi);
    v_assert(exp_is(client.pbs), "script, audio header, video header, group");
    exp_nil();
    exp_cat(lo, hi);
    v_assert(exp_is(c.pbs), "the publisher keeps its group");
    v_assert(same(c.script, s0) && same(c.audio_sequence_header, a0) && same(c.video_sequence_header, v0), "the publisher keeps its headers");
    if (hs & ha & hv) v_cover("all");
    if (!(hs | ha | hv)) v_cover("none");
}
//@ harness h_ts_put prop=C14 bmc=12 uses=c_publish covers=pat,pmt,start,more about="MepegtsCacheStream::put: latest PAT and PMT kept apart, a payload unit start restarts the cached unit"
extern "C" void h_ts_put() {
    vspec::init();
    seq_init();
    MepegtsCacheStream c;
    watch(c);
    PAVPacket a0, m0;
    if (v_anyb("has_headers")) { a0 = new_packet(); m0 = new_packet(); }
    c.pat_header = a0; c.pmt_header = m0;
    uint64_t lo = any_index("lo"), hi = any_index("hi");
    v_assume(lo <= hi);
    list_set(c.pbs, lo, hi);
    PAVPacket p = any_packet();
    const AVPacket* raw = p.get();
    bool psi = p->stream_type == AV_STREAM_PSI;
    uint32_t ty = p->pkt_type.pkt_type & 0x7fffffff;
    v_assume(ty < 0x100);                        // TsDemuxer builds pkt_type from a small program type and the start flag
    bool pat = psi & (ty == TS_PROGRAM_PAT), pmt = psi & (ty == TS_PROGRAM_PMT);
    bool start = (p->stream_type == AV_STREAM_PES) & ((uint32_t) p->pkt_type.pkt_type >> 31);
    v_assert(c.put(p) == SUCCESS, "put succeeds");
    v_assert(published == 1 && last == raw, "every packet is published exactly once");
    v_assert(same(c.pat_header, pat ? p : a0), "latest PAT is kept");
    v_assert(same(c.pmt_header, pmt ? p : m0), "latest PMT is kept");
    exp_nil();
    if (pat | pmt) {
        exp_cat(lo, hi);
        if (pat) v_cover("pat"); else v_cover("pmt");
    } else {
        if (!start) { exp_cat(lo, hi); v_cover("more"); } else v_cover("start");
        exp_add(p);
    }
    v_assert(exp_is(c.pbs), "cached unit");
}
//@ harness h_ts_join prop=C14 bmc=12 about="a viewer joining a TS stream receives PAT, PMT and the current unit"
extern "C" void h_ts_join() {
    vspec::init();
    seq_init();
    MepegtsCacheStream c;
    bool ha = v_anyb("has_pat"), hm = v_anyb("has_pmt");
    if (ha) c.pat_header = new_packet();
    if (hm) c.pmt_header = new_packet();
    PAVPacket a0 = c.pat_header, m0 = c.pmt_header;
    uint64_t lo = any_index("lo"), hi = any_index("hi");
    v_assume(lo <= hi);
    list_set(c.pbs, lo, hi);
    AVDumpCacheStream client(0);
    v_assert(client.copy_from(c) == SUCCESS, "join");
    exp_nil();
    if (ha) exp_add(a0);
    if (hm) exp_add(m0);
    exp_cat(lo, hi);
    v_assert(exp_is(client.pbs), "PAT, PMT, unit");
    exp_nil();
    exp_cat(lo, hi);
    v_assert(exp_is(c.pbs), "the publisher keeps its unit");
}
