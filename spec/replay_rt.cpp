// Native runtime for the specification intrinsics: runs a proof harness against the real, natively compiled code.
//   replay FILE HARNESS            replay one recorded input
//   search HARNESS SEED SECONDS OUT  random inputs; the first failing one is written to OUT
// exit 0: held   1: violated   77: input outside the preconditions   78: run diverged from the recorded input
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <ctime>
#include <string>
#include <vector>
#include <random>
#include <dlfcn.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>

namespace {
struct Entry { bool isbuf; std::string name; uint64_t v; std::string data; };
std::vector<Entry> input, trace;
size_t at = 0;
bool searching = false;
std::mt19937_64 rng;
jmp_buf again;
std::vector<uint8_t*> bufs;
const char* outfile = nullptr;

void dump(FILE* f) {
    for (auto& e : trace) {
        if (e.isbuf) {
            fprintf(f, "buf %s %zu ", e.name.c_str(), e.data.size());
            for (unsigned char c : e.data) fprintf(f, "%02x", c);
            fprintf(f, "\n");
        } else {
            fprintf(f, "int %s %llu\n", e.name.c_str(), (unsigned long long) e.v);
        }
    }
}
void died() {
    if (outfile) { FILE* f = fopen(outfile, "w"); if (f) { dump(f); fclose(f); } }
    printf("FAILED %s\n", "memory error or crash in the code under test");
    fflush(stdout);
}
void sigh(int s) { died(); printf("signal %d\n", s); fflush(stdout); _exit(1); }
[[noreturn]] void fail(const char* what) {
    if (outfile) { FILE* f = fopen(outfile, "w"); if (f) { dump(f); fclose(f); } }
    printf("FAILED %s\n", what);
    fflush(stdout);
    _exit(1);
}
[[noreturn]] void outside() {
    if (searching) longjmp(again, 1);
    printf("outside the preconditions\n");
    fflush(stdout);
    _exit(77);
}
Entry& next(const char* name, bool isbuf) {
    if (at >= input.size() || input[at].isbuf != isbuf || input[at].name != name) {
        printf("diverged at %s (entry %zu)\n", name, at);
        fflush(stdout);
        _exit(78);
    }
    return input[at++];
}
uint64_t rnd64() {
    static const uint64_t specials[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 71, 72, 127, 128, 183, 184, 188, 255, 256,
        257, 1023, 1024, 1315, 1316, 1317, 4095, 4096, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff,
        0x80000000ull, 0xffffffffull, 0x100000000ull, ~0ull};
    switch (rng() % 6) {
        case 0: return specials[rng() % (sizeof specials / sizeof specials[0])];
        case 1: return rng() % 16;
        case 2: return rng() % 256;
        case 3: return rng() % 2048;
        case 4: return rng() >> (rng() % 64);
        default: return rng();
    }
}
int small = 0;                     // this run: mostly small, related values
bool related(uint64_t& v) {
    if (rng() % 4) return false;
    std::vector<uint64_t> xs;
    for (auto& e : trace) if (!e.isbuf) xs.push_back(e.v);
    if (xs.empty()) return false;
    uint64_t a = xs[rng() % xs.size()], b = xs[rng() % xs.size()];
    switch (rng() % 4) { case 0: v = a + b; break; case 1: v = a - b; break; default: v = a; }
    v += rng() % 5;
    v -= 2;
    return true;
}
uint64_t gen() {
    uint64_t v;
    if (related(v)) return v;
    return small ? rng() % (small == 1 ? 12 : 40) : rnd64();
}
uint64_t anyv(const char* name, uint64_t m) {
    uint64_t v = searching ? (m == 1 ? rng() & 1 : gen() & m) : next(name, false).v & m;
    trace.push_back({false, name, v, ""});
    return v;
}
void anybytes(const char* name, uint8_t* p, size_t n) {
    std::string d;
    if (searching) {
        d.resize(n);
        int style = rng() % 4;
        for (size_t i = 0; i < n; ++i) {
            switch (style) {
                case 0: d[i] = (char) rng(); break;
                case 1: d[i] = (char) rnd64(); break;
                case 2: d[i] = (char) (rng() % 4); break;
                default: d[i] = "\r\n\n0123456789abcdefABCDEF ;\x00\x00\x00\x01\x01\x47\xff\xf1"[rng() % 35]; break;
            }
        }
    } else {
        auto& e = next(name, true);
        d = e.data;
        d.resize(n);
    }
    if (n) memcpy(p, d.data(), n);
    trace.push_back({true, name, 0, d});
}
}  // namespace

extern "C" {
uint64_t v_any64(const char* n) { return anyv(n, ~0ull); }
uint32_t v_any32(const char* n) { return (uint32_t) anyv(n, 0xffffffff); }
uint16_t v_any16(const char* n) { return (uint16_t) anyv(n, 0xffff); }
uint8_t  v_any8(const char* n) { return (uint8_t) anyv(n, 0xff); }
bool     v_anyb(const char* n) { return anyv(n, 1) != 0; }
uint64_t v_range(const char* n, uint64_t lo, uint64_t hi) {
    uint64_t v;
    if (searching) {
        if (lo > hi) outside();
        uint64_t span = hi - lo + 1;
        if (span == 0) v = gen();
        else if (related(v) && v >= lo && v <= hi) {}
        else if (small) v = lo + rng() % std::min<uint64_t>(span, small == 1 ? 12 : 40);
        else switch (rng() % 4) {
            case 0: v = lo + rnd64() % span; break;
            case 1: v = (rng() & 1) ? lo + (span > 1 ? rng() % std::min<uint64_t>(span, 8) : 0) : hi - rng() % std::min<uint64_t>(span, 8); break;
            case 2: v = lo + rng() % std::min<uint64_t>(span, 64); break;
            default: v = lo + rng() % span; break;
        }
    } else {
        v = next(n, false).v;
        if (v < lo || v > hi) outside();
    }
    trace.push_back({false, n, v, ""});
    return v;
}
uint64_t v_shard(uint64_t n) { return v_range("shard", 0, n - 1); }
uint8_t* v_buf(const char* name, size_t n) {
    if (n > (1u << 24)) { if (searching) longjmp(again, 1); }
    uint8_t* p = (uint8_t*) malloc(n ? n : 1);
    if (!n) { /* zero-size object: any access is an error */ ASAN_POISON_MEMORY_REGION(p, 1); }
    bufs.push_back(p);
    anybytes(name, p, n);
    return p;
}
void  v_fill(const char* name, void* p, size_t n) { anybytes(name, (uint8_t*) p, n); }
void* v_obj(const char*, size_t n) { void* p = malloc(n); memset(p, 0xA5, n); bufs.push_back((uint8_t*) p); return p; }
uint64_t v_hv64(const char*) { abort(); }
void  v_assume(bool c) { if (!c) outside(); }
void  v_assert(bool c, const char* w) { if (!c) fail(w); }
void  v_requires(bool c, const char*) { if (!c) outside(); }
void  v_ensures(bool c, const char* w) { if (!c) fail(w); }
bool  v_enforce() { return true; }
void  v_assigns(void*, size_t) {}
void  v_frame_begin() {}
void  v_frame_end() {}
void  v_havoc_assigns() {}
void  v_cover(const char*) {}
bool  v_valid(const void* p, size_t n) { return n == 0 || __asan_region_is_poisoned((void*) p, n) == nullptr; }
static void* obj_of(const void* p) {
    char n[8]; void* a = nullptr; size_t z = 0;
    __asan_locate_address((void*) p, n, sizeof n, &a, &z);
    return a;
}
bool  v_same_obj(const void* a, const void* b) { return a == b || (a && b && obj_of(a) && obj_of(a) == obj_of(b)); }
uint64_t v_split(uint64_t v) { return v; }
uint8_t v_peek(const uint8_t* p, uint64_t i, uint64_t n) { return i < n ? p[i] : 0xff; }
bool  v_symbolic() { return false; }
bool  v_bounded() { return true; }
}

namespace sps { extern int get_context_id(); }

int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    __sanitizer_set_death_callback(died);
    signal(SIGABRT, sigh);
    signal(SIGALRM, [](int) { printf("FAILED does not terminate\n"); fflush(stdout); if (outfile) { FILE* f = fopen(outfile, "w"); if (f) { dump(f); fclose(f); } } _exit(1); });
    if (argc >= 4 && !strcmp(argv[1], "replay")) {
        FILE* f = fopen(argv[2], "r");
        if (!f) return 2;
        char kind[8], name[256];
        while (fscanf(f, "%7s %255s", kind, name) == 2) {
            Entry e;
            e.name = name;
            e.isbuf = !strcmp(kind, "buf");
            unsigned long long v;
            if (fscanf(f, "%llu", &v) != 1) return 2;
            e.v = v;
            if (e.isbuf) {
                int c = fgetc(f);   // single space
                for (unsigned long long i = 0; i < v; ++i) {
                    unsigned b;
                    if (fscanf(f, "%2x", &b) != 1) return 2;
                    e.data.push_back((char) b);
                }
            }
            input.push_back(e);
        }
        fclose(f);
        auto h = (void (*)()) dlsym(RTLD_DEFAULT, argv[3]);
        if (!h) { printf("no harness %s\n", argv[3]); return 2; }
        alarm(30);
        h();
        printf("held\n");
        return 0;
    }
    if (argc >= 6 && !strcmp(argv[1], "search")) {
        searching = true;
        auto h = (void (*)()) dlsym(RTLD_DEFAULT, argv[2]);
        if (!h) { printf("no harness %s\n", argv[2]); return 2; }
        rng.seed(strtoull(argv[3], nullptr, 10) * 7919 + 13);
        outfile = argv[5];
        double secs = atof(argv[4]);
        time_t t0 = time(nullptr);
        volatile unsigned long long runs = 0, ok = 0;
        while (difftime(time(nullptr), t0) < secs && ok < 400000 && runs < 40000000) {
            ++runs;
            trace.clear();
            for (auto p : bufs) { ASAN_UNPOISON_MEMORY_REGION(p, 1); free(p); }
            bufs.clear();
            small = rng() % 3;
            if (setjmp(again) == 0) {
                alarm(20);
                h();
                ok = ok + 1;
            }
        }
        printf("searched %llu %llu\n", (unsigned long long) runs, (unsigned long long) ok);
        return 0;
    }
    return 2;
}

// sequence intrinsics exist in the verifier only (seq_model() is false here)
extern "C" {
void v_seq_stream(uint64_t, uint64_t, const void*, const void*) {}
void v_seq_set(void*, uint64_t, uint64_t, uint64_t) {}
void v_seq_append(void*, uint64_t, uint64_t, uint64_t) {}
void v_seq_nil() {}
void v_seq_add(const void*) {}
void v_seq_cat(uint64_t, uint64_t, uint64_t) {}
bool v_seq_is(const void*) { return false; }
void v_set_slots(void*, uint64_t, uint64_t, const void*, const void*, void*, uint64_t*) {}
}
