// Ghost packet streams and lists of packets.
//
//  * verifier (proof): a list is a mathematical sequence; S[lo..hi) is a slice of an arbitrary infinite ghost stream of
//    which one arbitrary index `sk` is tracked (engine/seqs.py).  No bound on lengths.
//  * bounded search and native replay: S is a pool of MAXS distinct packets and lists are real std::list objects.
#ifndef SEQ_SPEC_HPP
#define SEQ_SPEC_HPP
#include "vspec.hpp"
#include <sps_avformat_packet.hpp>
extern "C" {
void v_seq_stream(uint64_t id, uint64_t k, const void* tracked, const void* other);
void v_seq_set(void* list, uint64_t id, uint64_t lo, uint64_t hi);
void v_seq_append(void* list, uint64_t id, uint64_t lo, uint64_t hi);
void v_seq_nil();
void v_seq_add(const void* sp);
void v_seq_cat(uint64_t id, uint64_t lo, uint64_t hi);
bool v_seq_is(const void* list);
}
namespace vspec {
typedef std::list<sps::PAVPacket> PList;
const uint64_t MAXS = 5;
inline bool seq_model() { return v_symbolic() && !v_bounded(); }
inline uint64_t max_index() { return seq_model() ? 1ull << 30 : MAXS; }
extern sps::PAVPacket tracked, other;   // S[sk] and S[i != sk] in the proof
extern sps::PAVPacket pool[MAXS];       // S in the bounded modes
extern uint64_t sk;
sps::PAVPacket new_packet();            // a packet of its own, fields of no interest
void seq_init();
uint64_t any_index(const char* name);                  // 0 .. max_index()
void list_set(PList& l, uint64_t lo, uint64_t hi);     // l := S[lo..hi)
void list_append(PList& l, uint64_t lo, uint64_t hi);  // l := l ++ S[lo..hi)
bool is_nth(const sps::AVPacket* p, uint64_t i);       // p is S[i]
const sps::PAVPacket& nth(uint64_t i);                 // S[i], i concrete or equal/unequal sk on this path
// expected sequences
void exp_nil();
void exp_add(const sps::PAVPacket& p);
void exp_cat(uint64_t lo, uint64_t hi);
bool exp_is(const PList& l);
}
#endif
