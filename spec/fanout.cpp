//@ link seq.cpp
#include "seq.hpp"
#include <sps_avformat_cache.hpp>
#include <sps_stream_cache.hpp>
#include <sps_stream.hpp>
using namespace vspec;
using namespace sps;
extern "C" void v_set_slots(void* set, uint64_t n, uint64_t k, const void* tw, const void* ow, void* oc, uint64_t* ghost);

struct Cond : public ICondition {
    uint64_t signals = 0;
    int wait(utime_t) override { return 0; }
    int signal() override { signals++; return 0; }
};
struct Sub : public Subscriber<PAVPacket> {
    uint64_t n = 0;
    bool other = false, woken_late = false;
    const AVPacket* got = nullptr;
    std::shared_ptr<Cond> c = std::make_shared<Cond>();
    Sub() { cond = c; }
    int do_event(PAVPacket& o) override {
        n++;
        got = o.get();
        if (c->signals != n - 1 && !other) woken_late = true;
        return SUCCESS;
    }
};
typedef std::weak_ptr<Subscriber<PAVPacket>> PWSub;
static uint64_t g_n, g_k, ghost[2];
static bool g_alive;
static Sub* T;
static const AVPacket* g_pkt;
extern "C" bool inv_idx(uint64_t i) { return (i <= g_n) & (ghost[1] <= i); }
extern "C" bool inv_before(uint64_t i) { return (i > g_k) | ((T->n == 0) & (T->c->signals == 0) & (ghost[0] == 1)); }
extern "C" bool inv_after(uint64_t i) {
    return (i <= g_k) | ((T->n == (uint64_t) g_alive) & (T->c->signals == (uint64_t) g_alive) & (ghost[0] == (uint64_t) g_alive));
}
extern "C" bool inv_got(uint64_t i) { return (i <= g_k) || !g_alive || T->got == g_pkt; }
extern "C" bool inv_order() { return !T->woken_late; }

//@ harness h_publish prop=C15 uinv=inv_idx,inv_before,inv_after,inv_got inv=inv_order unroll=1 bmc=8 covers=alive,expired about="Publisher::publish: every live subscriber gets the packet exactly once and is then woken; it stays subscribed; expired ones are dropped; for every number of subscribers"
extern "C" void h_publish() {
    vspec::init();
    Publisher<PAVPacket> p;
    PAVPacket o = new_packet();
    g_pkt = o.get();
    // the native runs need both address orders of the subscribers
    auto ta = std::make_shared<Sub>(), tb = std::make_shared<Sub>();
    bool swap = !seq_model() && v_split(v_range("swap", 0, 1));
    std::shared_ptr<Sub> ts = swap ? tb : ta, spare = swap ? ta : tb;
    T = ts.get();
    PWSub tw = std::shared_ptr<Subscriber<PAVPacket>>(ts);
    g_alive = v_anyb("alive");
    if (seq_model()) {
        auto os = std::make_shared<Sub>();
        os->other = true;
        PWSub ow = std::shared_ptr<Subscriber<PAVPacket>>(os);
        g_n = v_range("n", 1, 1ull << 40);
        g_k = v_range("slot", 0, 1ull << 40);
        v_assume(g_k < g_n);
        v_set_slots(&p.subs, g_n, g_k, &tw, &ow, &ow._M_refcount._M_pi->_M_use_count, ghost);
        if (!g_alive) tw._M_refcount._M_pi->_M_use_count = 0;
        p.publish(o);
        if (g_alive) v_assert(ghost[0] == 1, "a live subscriber stays subscribed");
        else v_assert(ghost[0] == 0, "an expired subscriber is dropped");
    } else {
        std::shared_ptr<Sub> a = spare, b = std::make_shared<Sub>();
        PWSub aw = std::shared_ptr<Subscriber<PAVPacket>>(a), bw = std::shared_ptr<Subscriber<PAVPacket>>(b);
        uint64_t n = v_split(v_range("n", 1, 3)), at = v_split(v_range("slot", 0, 2));
        v_assume(at < n);
        for (uint64_t i = 0; i < n; ++i) p.sub(i == at ? tw : i == (uint64_t) (at == 0) ? aw : bw);
        // expire after subscribing
        bool ae = v_anyb("a_expired"), be = v_anyb("b_expired");
        if (ae) aw._M_refcount._M_pi->_M_use_count = 0;
        if (be) bw._M_refcount._M_pi->_M_use_count = 0;
        if (!g_alive) tw._M_refcount._M_pi->_M_use_count = 0;
        p.publish(o);
        uint64_t seen = 0;
        for (auto& w : p.subs) seen += w._M_refcount._M_pi == tw._M_refcount._M_pi;
        v_assert(seen == (uint64_t) g_alive, "live subscribers stay, expired ones are dropped");
        if (ae) aw._M_refcount._M_pi->_M_use_count = 1;
        if (be) bw._M_refcount._M_pi->_M_use_count = 1;
        if (!g_alive) tw._M_refcount._M_pi->_M_use_count = 1;
    }
    if (g_alive) {
        v_cover("alive");
        v_assert((T->n == 1) & (T->got == g_pkt), "a live subscriber gets the packet exactly once");
        v_assert((T->c->signals == 1) & !T->woken_late, "a live subscriber is woken after it got the packet");
    } else {
        v_cover("expired");
        v_assert((T->n == 0) & (T->c->signals == 0), "an expired subscriber is not called");
    }
}
//@ harness h_sub prop=C15 bmc=8 covers=done about="subscribing never loses a subscriber: a new subscriber gets the next packet once, earlier live ones still do (bounded: real red-black tree with up to 2 earlier subscribers, alive or expired, at arbitrary addresses)"
extern "C" void h_sub() {
    vspec::init();
    Publisher<PAVPacket> p;
    PAVPacket o = new_packet();
    std::shared_ptr<Sub> s[3] = {std::make_shared<Sub>(), std::make_shared<Sub>(), std::make_shared<Sub>()};
    PWSub w[3];
    for (int i = 0; i < 3; ++i) w[i] = std::shared_ptr<Subscriber<PAVPacket>>(s[i]);
    uint64_t n = v_split(v_range("n", 0, 2));
    bool dead[3] = {false, false, false};
    for (uint64_t i = 0; i < n; ++i) {
        p.sub(w[i]);
        dead[i] = v_anyb("expired");
        if (dead[i]) w[i]._M_refcount._M_pi->_M_use_count = 0;
    }
    p.sub(w[2]);
    p.publish(o);
    for (uint64_t i = 0; i < n; ++i) v_assert(s[i]->n == (uint64_t) !dead[i], "earlier subscribers: once if alive");
    v_assert(s[2]->n == 1 && s[2]->got == o.get(), "the new subscriber gets the packet once");
    for (uint64_t i = 0; i < n; ++i) if (dead[i]) w[i]._M_refcount._M_pi->_M_use_count = 1;
    v_cover("done");
}

// ---- the queue of one viewer
static uint64_t e_hi;
struct WaitCond : public ICondition {
    PList* l;
    uint64_t waits = 0, signals = 0;
    utime_t asked = 0;
    int wait(utime_t t) override {
        // while this viewer waits the publisher may append any number of further packets
        waits++;
        asked = t;
        uint64_t hi = any_index("arrived");
        v_assume(hi >= e_hi);
        list_append(*l, e_hi, hi);
        e_hi = hi;
        return 0;
    }
    int signal() override { signals++; return 0; }
};
static std::shared_ptr<WaitCond> wc;
static void arm(AVDumpCacheStream& c) {
    wc = std::make_shared<WaitCond>();
    wc->l = &c.pbs;
    c.cond = wc;
}
//@ harness h_client_event prop=C15 bmc=12 about="a delivered packet is appended to the viewer's queue and the viewer is woken"
extern "C" void h_client_event() {
    vspec::init();
    seq_init();
    AVDumpCacheStream c(v_any64("timeout"));
    arm(c);
    uint64_t lo = any_index("lo"), hi = any_index("hi");
    v_assume(lo <= hi);
    list_set(c.pbs, lo, hi);
    PAVPacket p = new_packet();
    PAVPacket q = p;
    c.on_event(q);
    exp_nil();
    exp_cat(lo, hi);
    exp_add(p);
    v_assert(exp_is(c.pbs), "queue plus the packet");
    v_assert(wc->signals == 1, "the viewer is woken");
}
//@ harness h_client_dump prop=C15 bmc=12 covers=waited,direct,timeout about="AVDumpCacheStream::dump hands over the whole queue in order, exactly once, waiting only when it is empty"
extern "C" void h_client_dump() {
    vspec::init();
    seq_init();
    uint64_t tmo = v_any64("timeout");
    AVDumpCacheStream c(tmo);
    arm(c);
    uint64_t lo = any_index("lo"), hi = any_index("hi");
    v_assume(lo <= hi);
    list_set(c.pbs, lo, hi);
    e_hi = hi;
    PList out;
    PAVPacket before = new_packet();
    bool some = v_anyb("some");
    if (some) out.push_back(before);
    int n = c.dump(out, v_anyb("remove"));
    exp_nil();
    if (some) exp_add(before);
    exp_cat(lo, e_hi);
    v_assert(exp_is(out), "everything queued is handed over in order");
    v_assert((uint64_t) n == e_hi - lo, "the number of packets is returned");
    exp_nil();
    v_assert(exp_is(c.pbs), "what was handed over leaves the queue");
    if (lo == hi) v_assert((wc->waits == 1) && (wc->asked == tmo), "an empty queue waits for its timeout");
    else v_assert(wc->waits == 0, "a filled queue does not wait");
    if (n == 0) v_cover("timeout");
    else if (lo == hi) v_cover("waited");
    else v_cover("direct");
}
//@ harness h_queue_base prop=C15 bmc=12 about="CacheStream: put appends and publishes, dump copies and removes only on request, size/empty are exact"
extern "C" void h_queue_base() {
    vspec::init();
    seq_init();
    CacheStream<PAVPacket> c;
    uint64_t lo = any_index("lo"), hi = any_index("hi");
    v_assume(lo <= hi);
    list_set(c.pbs, lo, hi);
    v_assert((uint64_t) c.size() == hi - lo, "size");
    v_assert(c.empty() == (lo == hi), "empty");
    PList out;
    bool rem = v_anyb("remove");
    v_assert((uint64_t) c.dump(out, rem) == hi - lo, "number of packets");
    exp_nil();
    exp_cat(lo, hi);
    v_assert(exp_is(out), "copy in order");
    if (rem) exp_nil();
    v_assert(exp_is(c.pbs), "removed only on request");
}

// ---- the play loop: StreamEncoder::encode
static uint64_t g_w, g_base, g_end, g_hi, g_headers;   // written; the current batch is S[g_base..g_end); arrived
static bool g_failed, g_timeout, g_want_header;
static error_t g_err;
static AVDumpCacheStream* g_cache;
static void arrivals() {
    uint64_t hi = any_index("arrived");
    v_assume(hi >= g_hi);
    list_append(g_cache->pbs, g_hi, hi);
    g_hi = hi;
}
struct EncCond : public ICondition {
    int wait(utime_t) override {
        arrivals();
        if (g_cache->pbs.empty()) g_timeout = true;
        return 0;
    }
    int signal() override { return 0; }
};
struct GhostMuxer : public IAVMuxer {
    error_t write_header(PAVPacket&) override {
        v_assert(g_want_header & (g_headers == 0) & (g_w == 0) & !g_failed, "the header is written once, first, and only when requested");
        g_headers++;
        arrivals();
        if (v_anyb("header_fails")) { g_failed = true; g_err = ERROR_SOCKET_WRITE; return g_err; }
        return SUCCESS;
    }
    error_t write_packet(PAVPacket& p) override {
        v_assert(!g_failed & !g_timeout, "nothing is written after a failure");
        v_assert(g_headers == (uint64_t) g_want_header, "the header precedes every packet");
        v_assert(is_nth(p.get(), g_w), "packets are written in queue order, each once");
        g_w++;
        arrivals();                                 // the publisher runs while this viewer's write blocks
        if (v_anyb("fails")) { g_failed = true; g_err = ERROR_SOCKET_TIMEOUT - 1; return g_err; }
        return SUCCESS;
    }
    error_t write_tail(PAVPacket&) override { return SUCCESS; }
};
// proved for every queue in h_client_dump; here: the queue holds S[g_end..g_hi)
//@ contract c_dump for sps::AVDumpCacheStream::dump(std::__cxx11::list<std::shared_ptr<sps::AVPacket>, std::allocator<std::shared_ptr<sps::AVPacket> > >&, bool)
extern "C" int c_dump(AVDumpCacheStream* c, PList* out, bool remove) {
    if (v_enforce()) return c->dump(*out, remove);
    exp_nil();
    exp_cat(g_end, g_hi);
    v_assert(exp_is(c->pbs), "nothing but draining removes packets from the queue");
    if (g_end == g_hi) arrivals();
    if (g_end == g_hi) { g_timeout = true; return 0; }
    list_append(*out, g_end, g_hi);
    c->pbs.clear();
    g_base = g_end;
    g_end = g_hi;
    return (int) (g_end - g_base);
}
extern "C" bool inv_enc_batch(uint64_t i) { return g_w == g_base + i; }
extern "C" bool inv_enc_range() { return (g_base <= g_w) & (g_w <= g_end) & (g_end <= g_hi) & (g_hi <= max_index()); }
extern "C" bool inv_enc_done() { return g_w == g_end; }
extern "C" bool inv_enc_live() { return !g_failed & !g_timeout & (g_headers == (uint64_t) g_want_header); }
extern "C" bool inv_enc_queue() {
    exp_nil();
    exp_cat(g_end, g_hi);
    return exp_is(g_cache->pbs);
}
//@ harness h_encode prop=C15 bmc=12 unroll=1 uses=c_dump inv=inv_enc_range,inv_enc_done,inv_enc_live,inv_enc_queue uinv=inv_enc_batch covers=failed,timeout,header_failed about="StreamEncoder::encode: header first, then every drained packet once in queue order until a write fails or a wait times out"
extern "C" void h_encode() {
    vspec::init();
    seq_init();
    auto c = std::make_shared<AVDumpCacheStream>(1000);
    g_cache = c.get();
    c->cond = std::make_shared<EncCond>();
    g_w = g_base = g_end = g_headers = 0;
    g_failed = g_timeout = false;
    g_hi = any_index("queued");
    list_set(c->pbs, 0, g_hi);
    g_want_header = v_anyb("header");
    auto m = std::make_shared<GhostMuxer>();
    StreamEncoder e(m, c, g_want_header);
    error_t ret = e.encode();
    v_assert(g_failed != g_timeout, "it ends because a write failed or the wait timed out");
    v_assert(ret == (g_failed ? g_err : (error_t) ERROR_SOCKET_TIMEOUT), "the reason is reported");
    if (g_timeout) v_assert(g_w == g_hi, "at a timeout everything published has been written");
    if (g_timeout) v_cover("timeout");
    else if (g_w) v_cover("failed");
    else v_cover("header_failed");
}

// ---- the publish loop: StreamDecoder::decode
static uint64_t g_r, g_p, g_hdr;
static bool g_rerr, g_stop;
static StreamDecoder* g_dec;
static void maybe_stop() { if (v_anyb("stop")) { g_dec->stop(); g_stop = true; } }
struct GhostDemuxer : public IAVDemuxer {
    error_t read_header(PAVPacket&) override {
        v_assert((g_hdr == 0) & (g_r == 0), "the header is read once, first");
        g_hdr++;
        if (v_anyb("header_fails")) { g_rerr = true; return ERROR_SOCKET_READ; }
        return SUCCESS;
    }
    error_t read_packet(PAVPacket& p) override {
        v_assert(!g_rerr & !(g_stop & (g_r > 0)), "no read after an error or a stop");
        v_assert(g_hdr == 1, "the header is read first");
        v_assert(g_p == g_r, "every packet is put before the next one is read");
        if (g_r >= max_index() || v_anyb("fails")) { g_rerr = true; return ERROR_SOCKET_CLOSED; }
        p = nth(g_r);
        g_r++;
        maybe_stop();
        return SUCCESS;
    }
    error_t read_tail(PAVPacket&) override { return SUCCESS; }
    error_t probe(PAVPacket&) override { return SUCCESS; }
};
struct GhostCache : public ICacheStream<PAVPacket> {
    error_t put(PAVPacket pb) override {
        v_assert((g_p < g_r) & !g_rerr, "only packets that were read are put");
        v_assert(is_nth(pb.get(), g_p), "packets are put in order, each once");
        g_p++;
        maybe_stop();
        return SUCCESS;
    }
    int dump(PList&, bool) override { return 0; }
    int size() override { return 0; }
    bool empty() override { return true; }
};
extern "C" bool inv_dec() { return (g_p == g_r) & (g_r <= max_index()) & !g_rerr & !g_stop & (g_hdr == 1); }
//@ harness h_decode prop=C15 bmc=12 unroll=1 inv=inv_dec covers=error,stopped,header_failed about="StreamDecoder::decode: every packet read is put into the cache once, in order, until reading fails or it is stopped"
extern "C" void h_decode() {
    vspec::init();
    seq_init();
    g_r = g_p = g_hdr = 0;
    g_rerr = g_stop = false;
    auto d = std::make_shared<GhostDemuxer>();
    auto c = std::make_shared<GhostCache>();
    StreamDecoder dec(d, c);
    g_dec = &dec;
    error_t ret = dec.decode();
    v_assert(g_p == g_r, "everything read was put");
    v_assert((ret == SUCCESS) == !g_rerr, "a read error is reported");
    v_assert(g_rerr | g_stop, "it ends because of an error or a stop");
    if (ret == SUCCESS) v_cover("stopped");
    else if (g_hdr && !g_r) v_cover("header_failed");
    else v_cover("error");
}
