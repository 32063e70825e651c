// The simulated scheduler: threads of the code under test run one at a time,
// the seed (or a recorded schedule) decides every switch. Instrumented code
// (-fsanitize=thread) reports its memory accesses and atomic operations here.
#pragma once
#include "core.hpp"

namespace sim {
int self();          // simulated thread, 0 is the one that runs the case
int running();       // how many threads were started by the current run_threads
bool concurrent();
u64 stamp();         // a global order of events
void run_threads(int n, void (*body)(void* ctx, int tid), void* ctx);
void yield_point();  // somewhere the scheduler may switch

// the operation a thread is executing: names it, arms its faults
struct TOp {
    const Op* prev;
    explicit TOp(const Op& op);
    ~TOp();
    TOp(const TOp&) = delete;
};
int thread_faults_fired();   // in this thread's operation

// locks and clocks of the harness
void block_on(const void* what);   // until wake_all(what), releasing the processor
void wake_all(const void* what);
void sync_release(const void* what); // everything before is visible ...
void sync_acquire(const void* what); // ... to who acquires the same

i64 clock_now();
void clock_set(i64 t);
int clock_reads();       // by this thread's operation
i64 clock_last_read();

// memory the harness may use from any thread without being observed
i64* scratch(); // 256 values, zero at the start of a case

// memory
size_t arena_live();
bool arena_block_live(const void* p);

// histories
struct LState { i64 s[6]; };
struct LOp {
    int tid, code;
    i64 a, b, c;   // arguments
    i64 r, r2, r3; // results
    u64 inv, res;
};
// true: some order of the operations consistent with real time explains all results
bool linearizable(const LOp* ops, int n, bool (*step)(const LOp&, LState&), const LState& init);

template <typename F>
void run_threads(int n, F& f) {
    struct S { static void go(void* c, int tid) { (*static_cast<F*>(c))(tid); } };
    run_threads(n, &S::go, &f);
}
}
