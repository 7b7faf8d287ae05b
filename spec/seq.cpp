#include "seq.hpp"
namespace vspec {
sps::PAVPacket tracked, other, pool[MAXS];
uint64_t sk;
static const sps::AVPacket* ex[64];
static uint64_t nex;

sps::PAVPacket new_packet() {
    uint8_t b[4] = {1, 2, 3, 4};
    return sps::AVPacket::create(sps::AV_MESSAGE_DATA, sps::AV_STREAM_TYPE_VIDEO, sps::AVPacketType{1}, b, 4, 0, 0);
}
void seq_init() {
    sk = v_range("sk", 0, max_index() - 1);
    if (seq_model()) {
        tracked = new_packet();
        other = new_packet();
        v_seq_stream(1, sk, &tracked, &other);
    } else {
        v_assume(sk < MAXS);
        sk = v_split(sk);
        for (uint64_t i = 0; i < MAXS; ++i) pool[i] = new_packet();
        tracked = pool[sk];
        other = pool[sk ? 0 : 1];
    }
}
uint64_t any_index(const char* name) {
    uint64_t i = v_range(name, 0, max_index());
    if (seq_model()) return i;
    v_assume(i <= MAXS);
    return v_split(i);
}
void list_set(PList& l, uint64_t lo, uint64_t hi) {
    if (seq_model()) { v_seq_set(&l, 1, lo, hi); return; }
    l.clear();
    list_append(l, lo, hi);
}
void list_append(PList& l, uint64_t lo, uint64_t hi) {
    if (seq_model()) { v_seq_append(&l, 1, lo, hi); return; }
    for (uint64_t i = lo; i < hi; ++i) l.push_back(pool[i]);
}
bool is_nth(const sps::AVPacket* p, uint64_t i) {
    if (seq_model()) return ((p == tracked.get()) | (p == other.get())) & ((p == tracked.get()) == (i == sk));
    return i < MAXS && p == pool[i].get();
}
const sps::PAVPacket& nth(uint64_t i) {
    if (seq_model()) return i == sk ? tracked : other;
    return pool[i];
}
void exp_nil() { nex = 0; if (seq_model()) v_seq_nil(); }
void exp_add(const sps::PAVPacket& p) {
    if (seq_model()) { v_seq_add(&p); return; }
    ex[nex++] = p.get();
}
void exp_cat(uint64_t lo, uint64_t hi) {
    if (seq_model()) { v_seq_cat(1, lo, hi); return; }
    for (uint64_t i = lo; i < hi; ++i) ex[nex++] = pool[i].get();
}
bool exp_is(const PList& l) {
    if (seq_model()) return v_seq_is(&l);
    if (l.size() != nex) return false;
    uint64_t i = 0;
    for (auto it = l.begin(); it != l.end(); ++it, ++i)
        if (it->get() != ex[i]) return false;
    return true;
}
}
