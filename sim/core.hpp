// Deterministic simulation core, single-threaded worlds: one PRNG, generated
// histories, fault injection at numbered points, trace hashes, violations.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace sim {
typedef int64_t i64;
typedef uint64_t u64;

inline u64 mix64(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + i64(below(u64(hi - lo + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    // index weighted by w
    int pick(const int* w, int n) {
        u64 t = 0;
        for (int i = 0; i < n; ++i) t += u64(w[i]);
        if (!t) return 0;
        u64 r = below(t);
        for (int i = 0; i < n; ++i) { if (r < u64(w[i])) return i; r -= u64(w[i]); }
        return n - 1;
    }
};

// kinds of faults the simulator injects
enum Fault {
    F_NONE = 0,
    F_ALLOC = 1,   // an allocation fails
    F_ELEM = 2,    // constructing, copying or assigning an element throws
    F_CMP = 3,     // a comparator throws
    F_READ = 4,    // a stream read fails
    F_SEEK = 5,    // a stream seek fails
    F_CALL = 6,    // a user callback throws
    F_NO_EXPAND = 7, // an allocator refuses to expand a block in place
    F_MOVE_BLOCK = 8, // an allocator moves a block on realloc
    F_MUTEX = 9,    // a lock function throws
    F_CLOCK = 10,  // the clock jumps
    F_STALL = 11,  // a thread is stalled while the others go on
    F_SPURIOUS = 12, // a weak compare-exchange fails spuriously
    F_KINDS = 16
};
const char* fault_name(int k);

struct Op {
    int tid = 0;
    int code = 0;
    i64 a = 0, b = 0, c = 0, d = 0;
    int fk = 0;  // fault kind armed during this operation
    int fn = 0;  // which occurrence fails (1..); negative: that one and all later ones
};

struct Case {
    u64 seed = 0;
    std::vector<int> cfg;
    std::vector<Op> ops;
    std::vector<std::pair<i64, i64>> sched; // thread runtime only: sparse decisions
};

[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)

// trace and coverage
void ev(u64 v);              // part of this execution's trace hash
void evs(const char* s, size_t n);
void state(u64 v);           // an abstract state reached
int probe_id(const char* name);
void probe_hit(int id);
#ifdef SIM_THREADS
void probe_name(const char* name);
#   define SIM_PROBE(name) ::sim::probe_name(name)
#else
#define SIM_PROBE(name) do { static int id_ = ::sim::probe_id(name); ::sim::probe_hit(id_); } while (0)
#endif
void nontrivial();           // marks the running case as non-trivial

// faults
bool fault(int kind);        // true: fail now
bool fault_would(int kind);
int faults_fired();          // in the current operation
void note_fault(int kind);   // the harness itself fails something
// an operation over gigabytes may take its time (a loop of single characters is as right as a memcpy)
extern volatile int hang_factor;
struct SlowOp {
    SlowOp() { hang_factor = 50; }
    ~SlowOp() { hang_factor = 1; }
    SlowOp(const SlowOp&) = delete;
};

struct OpScope {
    explicit OpScope(const Op& op);
    ~OpScope();
    OpScope(const OpScope&) = delete;
};
void suspend_faults(bool on);

// memory: allocations made inside the system under test are counted, filled,
// may fail, and must be balanced
struct Sut {
    bool prev;
    Sut();
    ~Sut();
};
struct Host { // code of the harness called back from the system under test
    bool prev;
    Host();
    ~Host();
};
void* sut_alloc(size_t n, size_t align, int tag, bool faulty = true); // null on failure
void sut_free(void* p, i64 size /* -1 unknown */, i64 align, int tag);
bool block_size(void* p, size_t& n); // of a live tracked block
bool inside_block(const void* p, size_t bytes); // is all of it inside a live block
size_t live_blocks();
void check_no_leaks(const char* where);
u64 alloc_count(); // allocations made by the system under test so far
bool in_sut();

const size_t max_alloc = size_t(1) << 26;

// thrown by injected element/comparator/callback failures
struct Injected { int kind; };

struct Harness {
    virtual ~Harness() {}
    virtual const char* property() = 0;
    virtual const char* op_name(int code) = 0;
    virtual const char* cfg_names() { return ""; }
    virtual void generate(Rng& r, Case& c) = 0;
    virtual void run(Case& c) = 0;
    virtual const char* components_real() { return ""; }
};
Harness* make_harness();

// configurations of a world, spread over translation units to build in parallel
typedef void (*CfgFn)(Case&);
CfgFn& cfg_fn(int i);
int cfg_count();
#ifndef PARTS
#   define PARTS 1
#   define PART 0
#endif
#if __cplusplus >= 201703L
template <int I, typename W>
struct CfgReg {
    CfgReg() { if constexpr (I % PARTS == PART) cfg_fn(I) = W::go; }
};
#define SIM_CFG(i, ...) static ::sim::CfgReg<i, __VA_ARGS__> cfg_reg_##i;
#endif

// deterministic raw storage for one object, filled with a pattern, so that
// reads of uninitialised members do not depend on the stack's history
template <typename T>
struct Raw {
    void* mem;
    T* p;
    Raw() : mem(nullptr), p(nullptr) {
        Host h;
        mem = ::aligned_alloc(alignof(T) < 64 ? 64 : alignof(T), (sizeof(T) + 127) & ~size_t(63));
        fill();
    }
    ~Raw() { ::free(mem); }
    Raw(const Raw&) = delete;
    Raw& operator=(const Raw&) = delete;
    void fill() {
        memset(mem, 0xA7, sizeof(T));
    }
    template <typename... A>
    T& make(A&&... a) {
        fill();
        p = nullptr;
        p = ::new (mem) T(std::forward<A>(a)...);
        return *p;
    }
    void kill() {
        if (p) { T* q = p; p = nullptr; q->~T(); fill(); }
    }
    T& operator*() { return *p; }
    T* operator->() { return p; }
};

// runs f inside the system under test; returns what happened
enum Outcome { OK = 0, BAD_ALLOC, INJECTED, OUT_OF_RANGE, BAD_CAST, OTHER };
const char* outcome_name(int o);
}
