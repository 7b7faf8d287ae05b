// Specification layer: contracts and proof harnesses are C++ functions over the real classes of /repo/src.
//
//  * clang compiles a contract together with the real code to LLVM IR; the verifier (engine/) executes it
//    symbolically for ALL values of the v_any*/v_buf inputs and discharges every obligation with Z3.
//  * g++ compiles the very same contract together with the real code to a native replay binary (replay_rt.cpp):
//    v_any*/v_buf then return the values of the verifier's counterexample.
//
//  A contract function c_X(args) for the real function X reads
//        v_requires(..); v_assigns(..); r = V_BODY(X(args)); v_ensures(..);
//  Enforced (proof of X):   requires = assumption, V_BODY = real body, ensures = obligation, assigns = frame obligation
//  Applied (caller of X):   requires = obligation, V_BODY = havoc of assigns, ensures = assumption
#ifndef VSPEC_HPP
#define VSPEC_HPP
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <memory>
#include <string>
#include <list>
#include <sps_log.hpp>

extern "C" {
uint64_t v_any64(const char* name);
uint32_t v_any32(const char* name);
uint16_t v_any16(const char* name);
uint8_t  v_any8(const char* name);
bool     v_anyb(const char* name);
uint64_t v_range(const char* name, uint64_t lo, uint64_t hi);   // lo <= result <= hi
uint8_t* v_buf(const char* name, size_t n);          // fresh object of exactly n arbitrary bytes
void     v_fill(const char* name, void* p, size_t n); // overwrite with arbitrary bytes
void*    v_obj(const char* name, size_t n);          // storage for an object built by the harness
uint64_t v_hv64(const char* name);                   // havocked result (contract application only)
void     v_assume(bool c);
void     v_assert(bool c, const char* what);
void     v_requires(bool c, const char* what);
void     v_ensures(bool c, const char* what);
bool     v_enforce();
void     v_assigns(void* p, size_t n);
void     v_frame_begin();
void     v_frame_end();
void     v_havoc_assigns();
void     v_cover(const char* what);
bool     v_valid(const void* p, size_t n);
bool     v_same_obj(const void* a, const void* b);
uint8_t  v_peek(const uint8_t* p, uint64_t i, uint64_t n);  // i < n ? p[i] : 0xff, no case split
uint64_t v_split(uint64_t v);
uint64_t v_shard(uint64_t n);                        // proof is split into n parallel parts, 0 <= result < n
bool     v_bounded();                                // true only in the bounded counterexample search
bool     v_symbolic();                               // true in the verifier, false in the native replay
}

#define V_BODY(T, call) \
    ([&]() -> T { if (v_enforce()) { v_frame_begin(); T r_ = (call); v_frame_end(); return r_; } \
                  v_havoc_assigns(); return (T) v_hv64(#call); }())
#define V_BODY_VOID(call) \
    do { if (v_enforce()) { v_frame_begin(); (call); v_frame_end(); } else { v_havoc_assigns(); } } while (0)

// functional postcondition  l == e : proved when the contract is enforced, assigned when it is applied
#define V_ENSURE_EQ(l, e, what) \
    do { if (v_enforce()) v_ensures((l) == (e), what); else (l) = (e); } while (0)

namespace vspec {
struct NullLog : public sps::ILog {
    void printf(sps::LOG_LEVEL, const char*, ...) override {}
};
inline void init() {
    sps::log = new NullLog();
}
inline bool implies(bool a, bool b) { return (!a) | b; }
}
#endif
