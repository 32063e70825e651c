// The simulated scheduler and memory model under the code compiled with
// -fsanitize=thread: this file is the "tsan runtime". Threads are real but only
// the one holding the token runs; every atomic operation, lock, clock access and
// (in some runs) plain access is a point where the seed decides who goes on.
// Data races are found with vector clocks built from the orders the code asks
// for, not from the order this machine happens to execute.
#include "trt.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);
// the writable data of the code under test (and of its harness), put back to
// its initial contents before every case
extern char __start_simdata[] __attribute__((weak));
extern char __stop_simdata[] __attribute__((weak));
extern char __start_simbss[] __attribute__((weak));
extern char __stop_simbss[] __attribute__((weak));
}

namespace sim {
void note_armed(int kind);
void note_fired(int kind);
void print_recorded(const std::pair<i64, i64>* list, size_t n);
extern u64 schedule_salt;
Harness& the_harness();

namespace {
const int MAXT = 6;
typedef uint32_t u32;
typedef uint16_t u16;
typedef unsigned char u8;

struct VC {
    u16 c[8];
    void clear() { __builtin_memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < 8; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

// ------------------------------------------------------------------- memory
const uintptr_t arena_base = 0x100000000000ull;
const size_t arena_size = size_t(64) << 20;
const uintptr_t stack_base = 0x110000000000ull;
const size_t stack_size = 256 << 10;
const size_t stack_gap = 64 << 10;
u8* arena_state;   // one byte per granule: 0 no access, 1..8 valid bytes, 0xFD freed
size_t arena_top;  // bytes used
size_t arena_dirty;
size_t arena_blocks;
struct Head { u64 n; u32 align; u32 tag; u32 magic; u32 live; u64 pad; };
const u32 magic_live = 0x51ab1e5u;

bool in_arena(const void* p) { return uintptr_t(p) - arena_base < arena_size; }
uintptr_t stack_lo(int t) { return stack_base + size_t(t) * (stack_size + stack_gap); }

// ------------------------------------------------------------------ threads
enum TState { T_NONE, T_READY, T_BLOCKED, T_DONE };
struct Thread {
    TState st;
    int futex;
    const void* wait_on;
    VC vc, acq, frel;
    int guard_depth;
    int no_yield;
    bool in_sut;
    const Op* op;
    int op_depth;
    int count[F_KINDS];
    int fired;
    int suspended;
    int clock_reads;
    i64 clock_last;
    u64 same_n, idle_n;
    uintptr_t same_addr;
    bool spinning;
    int prio;
    u64 stalled_until;
    u64 weak_n;
};
Thread T[MAXT];
__thread int tls_self = -1;

struct {
    bool active = false;      // a case is running
    bool conc = false;        // inside run_threads
    int nthreads = 0;
    int live = 0;
    void (*body)(void*, int) = nullptr;
    void* ctx = nullptr;
    int reap = -1;
    int cur = 0;
    Case* cs = nullptr;
    Harness* h = nullptr;
    u64 ops = 0;
    // scheduling
    u64 step = 0, progress_step = 0, sync_steps = 0, sync_mark = 0;
    u64 stamp = 0;
    int policy = 0;
    unsigned den = 2;
    bool plain_mode = false;
    unsigned plain_den = 1;
    bool spurious = false;
    bool stall_mode = false;
    bool explicit_mode = false;
    size_t next_dev = 0;
    std::pair<i64, i64> dev[1 << 16];
    size_t ndev = 0;
    u64 change[8];
    int nchange = 0;
    int low_prio = 0;
    u64 seed = 0;
    // clock
    i64 now = 0;
    // totals
    u64 t_steps = 0, t_switches = 0, t_sync = 0, t_plain = 0, t_threads = 0, t_preempt = 0, t_forced = 0, t_races_checked = 0, t_lin = 0, t_lin_states = 0;
} G;
Rng srng(0);
VC sc_clock;

inline bool on() { return G.active && tls_self >= 0; }
inline Thread& me() { return T[tls_self]; }

void fwait(int* f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
void fwake(int* f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
bool runnable(int t) { return T[t].st == T_READY; }

int next_rr(int t) {
    for (int k = 1; k <= G.nthreads; ++k) {
        int c = 1 + (t - 1 + k + G.nthreads) % G.nthreads;
        if (runnable(c)) return c;
    }
    return -1;
}

const char* thread_what(int t) {
    if (!T[t].op) return "-";
    return G.h->op_name(T[t].op->code);
}

[[noreturn]] void deadlock() {
    char buf[400];
    int n = 0;
    buf[0] = 0;
    for (int t = 1; t <= G.nthreads; ++t)
        if (T[t].st == T_BLOCKED) n += snprintf(buf + n, sizeof buf - size_t(n), " thread %d in %s;", t, thread_what(t));
    fail("deadlock", "every thread that has not finished is blocked:%s", buf);
}

// who runs next; cur may not be runnable
int decide(int cur, bool spin) {
    ++G.step;
    bool can = cur > 0 && runnable(cur);
    int def = can && !spin ? cur : next_rr(cur > 0 ? cur : G.nthreads);
    if (def < 0) def = can ? cur : -1;
    if (def < 0) return -1;
    int nrun = 0;
    int cand[MAXT];
    for (int t = 1; t <= G.nthreads; ++t) if (runnable(t)) cand[nrun++] = t;
    int want = def;
    if (G.explicit_mode) {
        while (G.next_dev < G.cs->sched.size() && G.cs->sched[G.next_dev].first < i64(G.step)) ++G.next_dev;
        if (G.next_dev < G.cs->sched.size() && G.cs->sched[G.next_dev].first == i64(G.step)) {
            int w = int(G.cs->sched[G.next_dev].second);
            if (w >= 1 && w <= G.nthreads && runnable(w)) want = w;
        }
    }
    else if (nrun > 1) {
        if (G.stall_mode) {
            if (srng.chance(1, 40)) {
                int v = cand[srng.below(u64(nrun))];
                T[v].stalled_until = G.step + 5 + srng.below(150);
                note_armed(F_STALL);
                note_fired(F_STALL);
            }
            int k = 0;
            int c2[MAXT];
            for (int i = 0; i < nrun; ++i) if (T[cand[i]].stalled_until <= G.step) c2[k++] = cand[i];
            if (k) { for (int i = 0; i < k; ++i) cand[i] = c2[i]; nrun = k; }
        }
        bool cur_in = false;
        for (int i = 0; i < nrun; ++i) cur_in = cur_in || cand[i] == cur;
        if (spin && cur_in && nrun > 1) {
            int k = 0;
            for (int i = 0; i < nrun; ++i) if (cand[i] != cur) cand[k++] = cand[i];
            nrun = k;
            cur_in = false;
        }
        switch (G.policy) {
        case 0: // random switches
            if (cur_in && !srng.chance(1, G.den)) want = cur;
            else want = cand[srng.below(u64(nrun))];
            break;
        case 1: { // priorities with change points
            for (int i = 0; i < G.nchange; ++i) if (G.change[i] == G.step && cur > 0) {
                T[cur].prio = --G.low_prio;
                if (cur_in) { note_armed(F_STALL); note_fired(F_STALL); }
            }
            if (spin && cur > 0) T[cur].prio = --G.low_prio;
            want = cand[0];
            for (int i = 1; i < nrun; ++i) if (T[cand[i]].prio > T[want].prio) want = cand[i];
            break;
        }
        case 2: // round robin
            if (cur_in && G.step % G.den) want = cur;
            else {
                want = cand[0];
                for (int i = 0; i < nrun; ++i) if (cand[i] > cur) { want = cand[i]; break; }
            }
            break;
        case 3: // one thread after the other, in a random order with few preemptions
            if (cur_in && !srng.chance(1, 64)) want = cur;
            else want = cand[srng.below(u64(nrun))];
            break;
        }
    }
    if (want != def && G.ndev < sizeof G.dev / sizeof *G.dev) G.dev[G.ndev++] = {i64(G.step), want};
    return want;
}

void give(int t) {
    G.cur = t;
    fwake(&T[t].futex);
}

void go_to(int next) {
    int s = tls_self;
    if (next == s) return;
    ++G.t_switches;
    ev(0x5c0 + u64(next));
    if (T[s].op_depth > 0 && T[s].st == T_READY) { ++G.t_preempt; nontrivial(); }
    give(next);
    fwait(&T[s].futex);
}

void no_progress_check() {
    ++G.sync_steps;
    if (G.sync_steps - G.sync_mark > 30000)
        fail("no-progress", "30000 synchronisation steps, fairly scheduled, without any operation completing (thread %d in %s)", tls_self, thread_what(tls_self));
}

// kind: for the trace only
void sched_point(int kind) {
    if (!on()) return;
    Thread& m = me();
    if (kind != 1) {
        ++G.t_sync;
        no_progress_check();
    }
    if (!G.conc || m.no_yield || m.st != T_READY || tls_self == 0) return;
    if (kind != 1) ev(u64(tls_self) * 64 + u64(kind));
    bool spin = m.spinning;
    if (spin) { m.spinning = false; m.same_n = 0; m.idle_n = 0; ++G.t_forced; }
    int next = decide(tls_self, spin);
    go_to(next);
}

void block(const void* what) {
    Thread& m = me();
    if (!G.conc) deadlock();
    m.st = T_BLOCKED;
    m.wait_on = what;
    m.spinning = false; m.same_n = 0; m.idle_n = 0;
    no_progress_check();
    ev(u64(tls_self) * 64 + 50);
    int next = decide(tls_self, false);
    if (next < 0) deadlock();
    go_to(next);
}
void wake(const void* what) {
    for (int t = 1; t <= G.nthreads; ++t)
        if (T[t].st == T_BLOCKED && T[t].wait_on == what) { T[t].st = T_READY; T[t].wait_on = nullptr; }
}
void idle(uintptr_t addr) { // an operation which changed nothing: two many of them is spinning
    if (!on()) return;
    Thread& m = me();
    if (m.same_addr == addr) ++m.same_n; else { m.same_addr = addr; m.same_n = 1; }
    ++m.idle_n;
    if (m.same_n >= 3 || m.idle_n >= 10) m.spinning = true;
}
void busy() {
    if (!on()) return;
    Thread& m = me();
    m.same_n = 0; m.idle_n = 0; m.same_addr = 0; m.spinning = false;
}

// ------------------------------------------------------------ race detection
enum { A_READ = 0, A_WRITE = 1, A_AREAD = 2, A_AWRITE = 3 };
struct Rec { u16 clock; u8 tk; u8 mask; u32 pc; };
const int RECS = 24;
struct Cell { uintptr_t key; u32 gen; u32 n; Rec r[RECS]; };
const size_t NCELL = 1 << 16;
Cell* cells;
size_t ncells_used;
u32 gen = 1;
uintptr_t data_lo, data_hi, bss_lo, bss_hi, libc_lo, libc_hi;

// the harness' own (and so the library's) static storage: two separate ranges, because the linker may
// lay the simulator's own .bss between them
inline bool in_static(uintptr_t a) { return (a >= data_lo && a < data_hi) || (a >= bss_lo && a < bss_hi); }

// stand-ins for libc's static buffers
struct LibcStatics { struct tm tmbuf; char text[64]; } __attribute__((aligned(64)));
LibcStatics libc_statics;

struct Sync { uintptr_t key; u32 gen; VC vc; };
const size_t NSYNC = 1 << 13;
Sync* syncs;

Cell* cell(uintptr_t g) {
    size_t i = size_t(mix64(g)) & (NCELL - 1);
    for (;;) {
        Cell& c = cells[i];
        if (c.gen != gen) {
            if (ncells_used > NCELL * 3 / 4) return nullptr;
            ++ncells_used;
            c.gen = gen; c.key = g; c.n = 0;
            return &c;
        }
        if (c.key == g) return &c;
        i = (i + 1) & (NCELL - 1);
    }
}
size_t nsyncs_used;
VC* sync_of(uintptr_t k) {
    size_t i = size_t(mix64(k ^ 0x77)) & (NSYNC - 1);
    for (;;) {
        Sync& c = syncs[i];
        if (c.gen != gen) {
            if (++nsyncs_used > NSYNC * 7 / 8) fail("harness", "too many synchronisation objects in one case");
            c.gen = gen; c.key = k; c.vc.clear();
            return &c.vc;
        }
        if (c.key == k) return &c.vc;
        i = (i + 1) & (NSYNC - 1);
    }
}
void tick() { ++me().vc.c[tls_self]; }

// names of functions for reports, from this executable's symbol table
void func_name(u32 pc, char* out, size_t n) {
    snprintf(out, n, "?");
    int fd = ::open("/proc/self/exe", O_RDONLY);
    if (fd < 0) return;
    off_t len = lseek(fd, 0, SEEK_END);
    char* m = static_cast<char*>(mmap(nullptr, size_t(len), PROT_READ, MAP_PRIVATE, fd, 0));
    ::close(fd);
    if (m == MAP_FAILED) return;
    ElfW(Ehdr)* eh = reinterpret_cast<ElfW(Ehdr)*>(m);
    ElfW(Shdr)* sh = reinterpret_cast<ElfW(Shdr)*>(m + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i) {
        if (sh[i].sh_type != SHT_SYMTAB) continue;
        ElfW(Sym)* sy = reinterpret_cast<ElfW(Sym)*>(m + sh[i].sh_offset);
        const char* str = m + sh[sh[i].sh_link].sh_offset;
        for (size_t k = 0; k < sh[i].sh_size / sizeof *sy; ++k) {
            if ((sy[k].st_info & 15) != STT_FUNC || pc <= sy[k].st_value || pc > sy[k].st_value + sy[k].st_size) continue;
            int st = 0;
            char* d = abi::__cxa_demangle(str + sy[k].st_name, nullptr, nullptr, &st);
            snprintf(out, n, "%s", d ? d : str + sy[k].st_name);
            __libc_free(d);
        }
    }
    munmap(m, size_t(len));
}
const char* acc_name(int k) {
    static const char* n[] = {"read", "write", "atomic read", "atomic write"};
    return n[k];
}
[[noreturn]] void race(uintptr_t a, const Rec& r, int kind, u32 pc) {
    char f1[220], f2[220];
    func_name(r.pc, f1, sizeof f1);
    func_name(pc, f2, sizeof f2);
    const char* where = in_arena(reinterpret_cast<void*>(a)) ? "heap" : in_static(a) ? "static data" : (a >= libc_lo && a < libc_hi) ? "a static buffer of the C library" : "a stack";
    fail("data-race", "%s by thread %d (%s, operation %s) and earlier %s by thread %d (%s), in %s, are unordered",
        acc_name(kind), tls_self, f2, thread_what(tls_self), acc_name(r.tk & 3), r.tk >> 2, f1, where);
}

void check_mem(uintptr_t a, size_t n, bool write, u32 pc) {
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~uintptr_t(7); g < e; g += 8) {
        u8 s = arena_state[(g - arena_base) >> 3];
        size_t need = e - g < 8 ? e - g : 8;
        if (s < need || s > 8) {
            char f[220];
            func_name(pc, f, sizeof f);
            if (s == 0xFD) fail("use-after-free", "%s of freed memory by thread %d in %s (operation %s)", write ? "write" : "read", tls_self, f, thread_what(tls_self));
            fail("out-of-bounds", "%s outside of a block by thread %d in %s (operation %s)", write ? "write" : "read", tls_self, f, thread_what(tls_self));
        }
    }
}

inline bool tracked(uintptr_t a) {
    if (a - arena_base < arena_size) return true;
    if (in_static(a)) return true;
    if (a >= libc_lo && a < libc_hi) return true;
    if (a >= stack_base && a < stack_lo(MAXT)) return !(a >= stack_lo(tls_self) && a < stack_lo(tls_self) + stack_size);
    return false;
}

void access(uintptr_t a, size_t n, int kind, u32 pc) {
    if (!n) return;
    bool ar = a - arena_base < arena_size;
    if (ar) check_mem(a, n, kind & 1, pc);
    if (!G.conc || tls_self == 0) return;
    if (!tracked(a)) return;
    ++G.t_races_checked;
    Thread& m = me();
    const u16 mc = m.vc.c[tls_self];
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~uintptr_t(7); g < e; g += 8) {
        u8 mask = 0xff;
        if (a > g) mask = u8(mask << (a - g));
        if (e < g + 8) mask &= u8(0xff >> (g + 8 - e));
        Cell* c = cell(g >> 3);
        if (!c) return;
        const u8 tk = u8(tls_self * 4 + kind);
        int slot = -1;
        bool done = false;
        for (u32 i = 0; i < c->n; ++i) {
            Rec& r = c->r[i];
            if (!(r.mask & mask)) continue;
            int rt = r.tk >> 2, rk = r.tk & 3;
            if (rt == tls_self) {
                if (r.tk == tk) {
                    if (r.clock == mc && (r.mask & mask) == mask) done = true;
                    else if ((r.mask & ~mask) == 0) slot = int(i);
                }
                continue;
            }
            bool conflict = (rk >= 2 && kind >= 2) ? false : ((rk & 1) || (kind & 1));
            if (conflict && r.clock > m.vc.c[rt]) race(a, r, kind, pc);
        }
        if (done) continue;
        if (slot < 0) {
            if (c->n < u32(RECS)) slot = int(c->n++);
            else { // drop one that is ordered before
                slot = int(G.t_races_checked % RECS);
                for (int i = 0; i < RECS; ++i) if (c->r[i].clock <= m.vc.c[c->r[i].tk >> 2]) { slot = i; break; }
            }
        }
        Rec& r = c->r[slot];
        r.clock = mc; r.tk = tk; r.mask = mask; r.pc = pc;
    }
}

inline void plain(const volatile void* p, size_t n, bool write, void* pc) {
    if (!on()) return;
    uintptr_t a = uintptr_t(p);
    ++G.t_plain;
    if (G.plain_mode && G.conc && tls_self > 0 && tracked(a) && !me().no_yield) {
        if (G.plain_den == 1 || G.t_plain % G.plain_den == 0) sched_point(1);
    }
    access(a, n, write ? A_WRITE : A_READ, u32(uintptr_t(pc)));
}

bool acquires(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void a_load(uintptr_t a, int mo) {
    VC* l = sync_of(a);
    if (acquires(mo)) me().vc.join(*l); else me().acq.join(*l);
}
void a_store(uintptr_t a, int mo) {
    VC* l = sync_of(a);
    *l = releases(mo) ? me().vc : me().frel;
    tick();
}
void a_rmw(uintptr_t a, int mo) {
    VC* l = sync_of(a);
    if (acquires(mo)) me().vc.join(*l); else me().acq.join(*l);
    l->join(releases(mo) ? me().vc : me().frel);
    tick();
}
void fence(int mo) {
    Thread& m = me();
    if (acquires(mo)) m.vc.join(m.acq);
    if (mo == __ATOMIC_SEQ_CST) { m.vc.join(sc_clock); sc_clock = m.vc; }
    if (releases(mo)) m.frel = m.vc;
    tick();
}
inline void a_pre(const volatile void* p, int kind) {
    (void)p;
    sched_point(kind);
}
inline bool hb() { return G.conc && tls_self > 0; }

// -------------------------------------------------------------- locks (pthread)
struct Lock { uintptr_t key; int owner; int depth; int readers[MAXT]; bool used; };
const int NLOCK = 256;
Lock locks[NLOCK];
Lock& lock_of(uintptr_t k) {
    int fre = -1;
    for (int i = 0; i < NLOCK; ++i) {
        if (locks[i].used && locks[i].key == k) return locks[i];
        if (fre < 0 && !locks[i].used) fre = i;
    }
    if (fre < 0) fail("harness", "too many locks held in one case");
    Lock& l = locks[fre];
    __builtin_memset(&l, 0, sizeof l);
    l.key = k; l.owner = -1; l.used = true;
    return l;
}
int nreaders(Lock& l) { int n = 0; for (int t = 0; t < MAXT; ++t) n += l.readers[t]; return n; }
void drop(Lock& l) { if (l.owner < 0 && !nreaders(l)) l.used = false; }

void hb_acquire(uintptr_t k) { if (hb()) me().vc.join(*sync_of(k)); }
void hb_release(uintptr_t k, bool joined) {
    if (!hb()) return;
    VC* v = sync_of(k);
    if (joined) v->join(me().vc); else *v = me().vc;
    tick();
}
const uintptr_t K_LOCK = uintptr_t(1) << 62, K_READ = uintptr_t(2) << 61 | uintptr_t(1) << 60, K_TSANM = uintptr_t(1) << 61, K_HARN = uintptr_t(1) << 60;

int mutex_lock(uintptr_t k, bool try_, int kind) {
    sched_point(10);
    for (;;) {
        Lock& l = lock_of(k);
        if (l.owner == tls_self) {
            if (kind == 1) { ++l.depth; busy(); return 0; }
            if (try_) return EBUSY;
            if (kind == 2) return EDEADLK;
            if (!G.conc || tls_self == 0) deadlock();
        }
        if (l.owner < 0 && !nreaders(l)) {
            l.owner = tls_self; l.depth = 1;
            hb_acquire(k | K_LOCK);
            hb_acquire(k | K_READ);
            busy();
            return 0;
        }
        if (try_) { idle(k); return EBUSY; }
        block(reinterpret_cast<void*>(k));
    }
}
int mutex_unlock(uintptr_t k) {
    sched_point(11);
    Lock& l = lock_of(k);
    if (l.owner != tls_self) {
        if (l.owner < 0) fail("bad-unlock", "thread %d unlocks a mutex nobody has locked (operation %s)", tls_self, thread_what(tls_self));
        fail("bad-unlock", "thread %d unlocks a mutex locked by thread %d (operation %s)", tls_self, l.owner, thread_what(tls_self));
    }
    if (--l.depth == 0) {
        l.owner = -1;
        hb_release(k | K_LOCK, false);
        drop(l);
        wake(reinterpret_cast<void*>(k));
    }
    busy();
    return 0;
}
int read_lock(uintptr_t k, bool try_) {
    sched_point(12);
    for (;;) {
        Lock& l = lock_of(k);
        if (l.owner < 0) {
            ++l.readers[tls_self];
            hb_acquire(k | K_LOCK);
            busy();
            return 0;
        }
        if (try_) { idle(k); return EBUSY; }
        if (l.owner == tls_self && (!G.conc || tls_self == 0)) deadlock();
        block(reinterpret_cast<void*>(k));
    }
}
int rw_unlock(uintptr_t k) {
    Lock& l = lock_of(k);
    if (l.owner == tls_self) return mutex_unlock(k);
    sched_point(13);
    Lock& l2 = lock_of(k);
    if (!l2.readers[tls_self]) fail("bad-unlock", "thread %d unlocks a shared mutex it has not locked (operation %s)", tls_self, thread_what(tls_self));
    --l2.readers[tls_self];
    hb_release(k | K_READ, true);
    bool last = !nreaders(l2);
    drop(l2);
    if (last) wake(reinterpret_cast<void*>(k));
    busy();
    return 0;
}

// ------------------------------------------------------------------ arena use
bool arena_wanted() { return on() && me().guard_depth == 0; }

void* arena_alloc(size_t n, size_t align, u32 tag, bool faulty) {
    if (faulty && fault(F_ALLOC)) return nullptr;
    if (n > (size_t(8) << 20)) return nullptr;
    if (align < 16) align = 16;
    uintptr_t p = arena_base + arena_top + sizeof(Head) + 16;
    p = (p + align - 1) & ~uintptr_t(align - 1);
    size_t end = p - arena_base + ((n + 7) & ~size_t(7)) + 16;
    if (end > arena_size) return nullptr;
    Head* h = reinterpret_cast<Head*>(p) - 1;
    h->n = n; h->align = u32(align); h->tag = tag; h->magic = magic_live; h->live = 1;
    arena_top = (end + 15) & ~size_t(15);
    if (arena_top > arena_dirty) arena_dirty = arena_top;
    size_t g = (p - arena_base) >> 3;
    __real_memset(arena_state + g, 8, n / 8);
    if (n % 8) arena_state[g + n / 8] = u8(n % 8);
    __real_memset(reinterpret_cast<void*>(p), 0xC9, n);
    ++arena_blocks;
    return reinterpret_cast<void*>(p);
}
const char* tag_name(u32 t) { return t == 1 ? "malloc" : t == 2 ? "new" : t == 3 ? "new[]" : "?"; }
void arena_free(void* p, u32 tag, i64 size, i64 align, void* pc) {
    Head* h = static_cast<Head*>(p) - 1;
    if ((uintptr_t(p) & 15) || uintptr_t(p) < arena_base + sizeof(Head) || uintptr_t(p) >= arena_base + arena_top || h->magic != magic_live)
        fail("bad-free", "thread %d frees an address which is not the start of a block (operation %s)", tls_self, thread_what(tls_self));
    if (!h->live) fail("bad-free", "a block is freed twice, by thread %d in %s", tls_self, thread_what(tls_self));
    if (h->tag != tag) fail("bad-free", "a block from %s is given back to %s", tag_name(h->tag), tag_name(tag));
    if (size >= 0 && u64(size) != h->n) fail("bad-free", "a block of %llu bytes is given back as %lld bytes", (unsigned long long)h->n, (long long)size);
    if (align >= 0 && u64(align) != h->align) fail("bad-free", "a block aligned to %u is given back with alignment %lld", h->align, (long long)align);
    if (G.active && tls_self >= 0) access(uintptr_t(p), size_t(h->n), A_WRITE, u32(uintptr_t(pc)));
    h->live = 0;
    --arena_blocks;
    __real_memset(arena_state + ((uintptr_t(p) - arena_base) >> 3), 0xFD, (h->n + 7) / 8);
    __real_memset(p, 0xD1, h->n);
}

u8* snap_data;
u8* snap_bss;
size_t n_data, n_bss;

template <typename F> F next(const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

// The threads of the simulated world are kept and used again by the next case (a case starts thousands of
// threads per second, which the kernel cannot take back that fast). What a new thread would find is put
// back by hand: its stack is poisoned, its thread locals are destroyed and initialised again, errno is 0.
pthread_t pool[MAXT];
int case_over;
struct TDtor { void (*f)(void*); void* p; };
TDtor tdtors[MAXT][64];
int ntdtors[MAXT];
const void* tls_image;
size_t tls_filesz, tls_memsz;
struct TlsBlock { void* p; };

int find_tls(dl_phdr_info* i, size_t, void* out) {
    if (i->dlpi_name && i->dlpi_name[0]) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        const ElfW(Phdr)& ph = i->dlpi_phdr[k];
        if (ph.p_type != PT_TLS) continue;
        tls_image = reinterpret_cast<const void*>(i->dlpi_addr + ph.p_vaddr);
        tls_filesz = ph.p_filesz;
        tls_memsz = ph.p_memsz;
        static_cast<TlsBlock*>(out)->p = i->dlpi_tls_data;
    }
    return 1;
}
void end_thread_locals(int t) {
    while (ntdtors[t]) {
        TDtor d = tdtors[t][--ntdtors[t]];
        d.f(d.p);
    }
}
__attribute__((noinline)) void fresh_thread(int t, const TlsBlock& b) {
    // everything below this frame
    uintptr_t sp = uintptr_t(__builtin_frame_address(0)) - 512;
    uintptr_t lo = stack_lo(t) + stack_size - (24 << 10);
    if (sp > lo) {
        void* d = reinterpret_cast<void*>(lo);
        size_t n = sp - lo;
        asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0x5A) : "memory");
    }
    if (b.p) {
        __real_memcpy(b.p, tls_image, tls_filesz);
        __real_memset(static_cast<char*>(b.p) + tls_filesz, 0, tls_memsz - tls_filesz);
    }
    tls_self = t;
    errno = 0;
}

void* pool_main(void* arg) {
    const int t = int(reinterpret_cast<intptr_t>(arg));
    TlsBlock b{nullptr};
    dl_iterate_phdr(find_tls, &b);
    tls_self = t;
    for (;;) {
        fwait(&T[t].futex);
        fresh_thread(t, b);
        if (t == 0) {
            G.h->run(*G.cs);
            end_thread_locals(0);
            fwake(&case_over);
            continue;
        }
        sched_point(14);
        G.body(G.ctx, t);
        sched_point(15);
        // the destructors of thread locals run after this, without switches
        T[t].no_yield = 1;
        G.sync_mark = G.sync_steps;
        end_thread_locals(t);
        G.reap = t;
        fwake(&T[0].futex); // joins this thread, then goes on with the others
    }
    return nullptr;
}

void make_thread(int t) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, reinterpret_cast<void*>(stack_lo(t)), stack_size);
    int rc = pthread_create(&pool[t], &a, pool_main, reinterpret_cast<void*>(intptr_t(t)));
    pthread_attr_destroy(&a);
    if (rc) fail("harness", "cannot create a thread: %d", rc);
}

void on_signal(int s) {
    // back to default should this fail as well
    signal(s, SIG_DFL);
    fail("crash", "signal %d in thread %d, operation %s", s, tls_self, tls_self >= 0 ? thread_what(tls_self) : "-");
}

bool inited = false;
void init() {
    inited = true;
    void* a = mmap(reinterpret_cast<void*>(arena_base), arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (a != reinterpret_cast<void*>(arena_base)) { perror("arena"); _exit(3); }
    arena_state = static_cast<u8*>(mmap(nullptr, arena_size / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    cells = static_cast<Cell*>(mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    syncs = static_cast<Sync*>(mmap(nullptr, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    for (int t = 0; t < MAXT; ++t) {
        void* s = mmap(reinterpret_cast<void*>(stack_lo(t)), stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (s != reinterpret_cast<void*>(stack_lo(t))) { perror("stack"); _exit(3); }
    }
    data_lo = data_hi = bss_lo = bss_hi = 0;
    n_data = size_t(__stop_simdata - __start_simdata);
    n_bss = size_t(__stop_simbss - __start_simbss);
    snap_data = static_cast<u8*>(__libc_malloc(n_data + 1));
    snap_bss = static_cast<u8*>(__libc_malloc(n_bss + 1));
    __real_memcpy(snap_data, __start_simdata, n_data);
    __real_memcpy(snap_bss, __start_simbss, n_bss);
    if (n_data) { data_lo = uintptr_t(__start_simdata); data_hi = uintptr_t(__stop_simdata); }
    if (n_bss) {
        bss_lo = uintptr_t(__start_simbss);
        bss_hi = uintptr_t(__stop_simbss);
    }
    libc_lo = uintptr_t(&libc_statics);
    libc_hi = libc_lo + sizeof libc_statics;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, on_signal);
    for (int t = 0; t < MAXT; ++t) make_thread(t);
}
} // namespace

// ------------------------------------------------------------------ interface
int self() { return tls_self; }
int running() { return G.nthreads; }
bool concurrent() { return G.conc; }
u64 stamp() { return ++G.stamp; }
void yield_point() { sched_point(16); }

void run_threads(int n, void (*body)(void*, int), void* ctx) {
    if (n < 1 || n >= MAXT) fail("harness", "bad thread count");
    ++gen;
    ncells_used = 0;
    nsyncs_used = 0;
    sc_clock.clear();
    G.nthreads = n;
    G.body = body;
    G.ctx = ctx;
    G.live = n;
    for (int t = 1; t <= n; ++t) {
        Thread& x = T[t];
        __builtin_memset(&x, 0, sizeof x);
        x.st = T_READY;
        x.vc.c[0] = 1;
        x.vc.c[t] = 1;
        x.prio = 1000 + int(srng.below(1000000));
        ++G.t_threads;
    }
    G.conc = true;
    ev(0x7ead0 + u64(n));
    give(decide(0, false));
    for (;;) {
        fwait(&T[0].futex);
        int d = G.reap;
        T[d].st = T_DONE;
        G.reap = -1;
        if (!--G.live) break;
        int nx = decide(d, false);
        if (nx < 0) deadlock();
        ++G.t_switches;
        ev(0x5c0 + u64(nx));
        give(nx);
    }
    G.conc = false;
    G.sync_mark = G.sync_steps;
    for (int t = 1; t <= n; ++t) T[t].st = T_NONE;
    G.nthreads = 0;
    G.cur = 0;
    G.t_steps += 0;
}

TOp::TOp(const Op& op) : prev(me().op) {
    sched_point(17);
    Thread& m = me();
    m.op = &op;
    ++m.op_depth;
    m.fired = 0;
    m.clock_reads = 0;
    __builtin_memset(m.count, 0, sizeof m.count);
    if (op.fk && op.fn) note_armed(op.fk);
    ev(u64(op.code) * 8 + u64(tls_self) + 0x100000);
    ++G.ops;
    G.sync_mark = G.sync_steps;
}
TOp::~TOp() {
    Thread& m = me();
    m.op = prev;
    --m.op_depth;
    G.sync_mark = G.sync_steps;
    sched_point(18);
}
int thread_faults_fired() { return me().fired; }
static i64 scratch_[256];
i64* scratch() { return scratch_; }

void block_on(const void* what) { block(what); }
void wake_all(const void* what) { wake(what); busy(); }
void sync_release(const void* what) { hb_release(uintptr_t(what) | K_HARN, true); }
void sync_acquire(const void* what) { hb_acquire(uintptr_t(what) | K_HARN); }

i64 clock_now() { return G.now; }
void clock_set(i64 t) { G.now = t; }
int clock_reads() { return me().clock_reads; }
i64 clock_last_read() { return me().clock_last; }

size_t arena_live() { return arena_blocks; }
bool arena_block_live(const void* p) {
    if (!in_arena(p)) return false;
    return arena_state[(uintptr_t(p) - arena_base) >> 3] <= 8 && arena_state[(uintptr_t(p) - arena_base) >> 3] > 0;
}

bool fault(int kind) {
    if (!on()) return false;
    Thread& m = me();
    if (!m.in_sut && kind == F_ALLOC) return false;
    if (!m.op || m.suspended || m.op->fk != kind || m.op->fn == 0) return false;
    int c = ++m.count[kind];
    bool f = m.op->fn > 0 ? c == m.op->fn : c >= -m.op->fn;
    if (f) {
        ++m.fired;
        note_fired(kind);
        ev(0xfa17ull + u64(kind) * 131 + u64(c));
    }
    return f;
}
bool fault_would(int kind) {
    if (!on()) return false;
    Thread& m = me();
    if (!m.op || m.suspended || m.op->fk != kind || m.op->fn == 0) return false;
    int c = m.count[kind] + 1;
    return m.op->fn > 0 ? c == m.op->fn : c >= -m.op->fn;
}
int faults_fired() { return on() ? me().fired : 0; }
void suspend_faults(bool o) { if (on()) me().suspended += o ? 1 : -1; }
Sut::Sut() : prev(on() && me().in_sut) { if (on()) me().in_sut = true; }
Sut::~Sut() { if (on()) me().in_sut = prev; }
Host::Host() : prev(on() && me().in_sut) { if (on()) me().in_sut = false; }
Host::~Host() { if (on()) me().in_sut = prev; }
bool in_sut() { return on() && me().in_sut; }

int trt_run(Harness& h, Case& c) {
    if (!inited) init();
    if (n_data) __real_memcpy(__start_simdata, snap_data, n_data);
    if (n_bss) __real_memcpy(__start_simbss, snap_bss, n_bss);
    __real_memset(&libc_statics, 0, sizeof libc_statics);
    if (arena_dirty) {
        __real_memset(arena_state, 0, arena_dirty / 8 + 8);
        arena_dirty = 0;
    }
    arena_top = 64;
    arena_blocks = 0;
    __builtin_memset(scratch_, 0, sizeof scratch_);
    for (Lock& l : locks) l.used = false;
    __builtin_memset(T, 0, sizeof T);
    T[0].st = T_READY;
    G.h = &h;
    G.cs = &c;
    G.ops = 0;
    G.step = G.sync_steps = G.sync_mark = 0;
    G.stamp = 0;
    G.ndev = 0;
    G.next_dev = 0;
    G.explicit_mode = !c.sched.empty();
    G.now = 1000000000;
    G.nthreads = 0;
    u64 pseed = mix64(c.seed ^ 0x9a1f);
    srng = Rng(mix64(c.seed ^ (schedule_salt * 0x9e3779b97f4a7c15ull)) + 7);
    // the points where switches are possible depend on the case's seed only
    G.seed = pseed;
    u64 pm = mix64(pseed + 1) % 8;
    G.plain_mode = pm < 3;
    G.plain_den = pm == 0 ? 1 : pm == 1 ? 1 : 3;
    G.t_plain = 0;
    G.spurious = mix64(pseed + 2) % 2 == 0;
    static const unsigned dens[] = {2, 4, 8, 32};
    int pol = int(srng.below(10));
    G.policy = pol < 4 ? 0 : pol < 8 ? 1 : pol == 8 ? 2 : 3;
    G.den = dens[srng.below(4)];
    if (G.policy == 2) G.den = 1 + unsigned(srng.below(3));
    G.stall_mode = srng.chance(1, 4);
    G.nchange = int(srng.below(6));
    static const u64 spans[] = {15, 40, 120, 400, 1500};
    u64 span = spans[srng.below(G.plain_mode ? 5 : 4)];
    for (int i = 0; i < G.nchange; ++i) G.change[i] = 1 + srng.below(span);
    G.low_prio = 0;
    G.conc = false;
    G.active = true;
    ++G.t_threads;
    fwake(&T[0].futex);
    fwait(&case_over);
    G.active = false;
    G.t_steps += G.step;
    if (arena_blocks) fail("leak", "%zu block(s) are still allocated after every object and thread is gone", arena_blocks);
    return int(G.ops);
}
void trt_failed() { print_recorded(G.dev, G.ndev); }
u64 trt_ops() { return G.ops; }
void trt_stats(FILE* f) {
    fprintf(f, ",\"extra\":{\"steps\":%llu,\"switches\":%llu,\"preemptions_inside_operations\":%llu,\"forced_switches_of_spinners\":%llu,\"sync_events\":%llu,\"threads\":%llu,\"race_checks\":%llu,\"linearizability_checks\":%llu,\"linearizability_states\":%llu}",
        (unsigned long long)G.t_steps, (unsigned long long)G.t_switches, (unsigned long long)G.t_preempt, (unsigned long long)G.t_forced,
        (unsigned long long)G.t_sync, (unsigned long long)G.t_threads, (unsigned long long)G.t_races_checked,
        (unsigned long long)G.t_lin, (unsigned long long)G.t_lin_states);
}
void trt_pin() {
    const char* e = getenv("SIM_CPU");
    int want = e ? atoi(e) : int(getpid());
    cpu_set_t all;
    if (sched_getaffinity(0, sizeof all, &all)) return;
    int n = CPU_COUNT(&all);
    if (n < 1) return;
    want %= n;
    for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && want-- == 0) {
        cpu_set_t one;
        CPU_ZERO(&one);
        CPU_SET(i, &one);
        sched_setaffinity(0, sizeof one, &one);
        return;
    }
}

// ------------------------------------------------------------ linearizability
namespace {
struct LMemo { u64 mask; LState s; };
struct LSearch {
    const LOp* ops;
    int n;
    bool (*step)(const LOp&, LState&);
    LMemo* tab;
    size_t cap, used;
    static u64 hash(u64 m, const LState& s) {
        u64 h = mix64(m);
        for (i64 v : s.s) h = mix64(h ^ u64(v));
        return h;
    }
    bool seen(u64 m, const LState& s) {
        if (used * 2 >= cap) {
            size_t oc = cap;
            LMemo* ot = tab;
            cap = cap ? cap * 2 : 1024;
            tab = static_cast<LMemo*>(__libc_calloc(cap, sizeof(LMemo)));
            used = 0;
            for (size_t i = 0; i < oc; ++i) if (ot[i].mask) put(ot[i].mask, ot[i].s);
            __libc_free(ot);
        }
        return !put(m, s);
    }
    bool put(u64 m, const LState& s) {
        size_t i = size_t(hash(m, s)) & (cap - 1);
        for (;;) {
            if (!tab[i].mask) { tab[i].mask = m; tab[i].s = s; ++used; return true; }
            if (tab[i].mask == m && !memcmp(&tab[i].s, &s, sizeof s)) return false;
            i = (i + 1) & (cap - 1);
        }
    }
    bool go(u64 mask, const LState& s) {
        u64 full = n == 64 ? ~0ull : (1ull << n) - 1;
        if (mask == full) return true;
        if (mask && seen(mask, s)) return false;
        u64 min_res = ~0ull;
        for (int i = 0; i < n; ++i) if (!(mask >> i & 1)) min_res = std::min(min_res, ops[i].res);
        for (int i = 0; i < n; ++i) {
            if ((mask >> i & 1) || ops[i].inv > min_res) continue;
            LState t = s;
            if (step(ops[i], t) && go(mask | 1ull << i, t)) return true;
        }
        return false;
    }
};
}
bool linearizable(const LOp* ops, int n, bool (*step)(const LOp&, LState&), const LState& init) {
    if (n > 63) fail("harness", "too many operations in one history");
    LSearch s = {ops, n, step, nullptr, 0, 0};
    bool act = G.active;
    G.active = false; // the model runs outside of the simulation
    bool ok = s.go(0, init);
    G.active = act;
    ++G.t_lin;
    G.t_lin_states += s.used;
    __libc_free(s.tab);
    return ok;
}
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
#define EXPORT extern "C" __attribute__((visibility("default")))

// -------------------------------------------------------- plain accesses
EXPORT void __tsan_init() {}
// destructors of thread locals, run when the simulated thread ends
EXPORT int __cxa_thread_atexit(void (*f)(void*), void* p, void*) {
    if (tls_self < 0 || tls_self >= MAXT) return 0; // nothing but the threads of the world runs harness code
    if (ntdtors[tls_self] == 64) fail("harness", "too many thread locals");
    tdtors[tls_self][ntdtors[tls_self]++] = TDtor{f, p};
    return 0;
}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define RW(n) \
    EXPORT void __tsan_read##n(void* p) { plain(p, n, false, PC); } \
    EXPORT void __tsan_write##n(void* p) { plain(p, n, true, PC); } \
    EXPORT void __tsan_volatile_read##n(void* p) { plain(p, n, false, PC); } \
    EXPORT void __tsan_volatile_write##n(void* p) { plain(p, n, true, PC); } \
    EXPORT void __tsan_unaligned_read##n(void* p) { plain(p, n, false, PC); } \
    EXPORT void __tsan_unaligned_write##n(void* p) { plain(p, n, true, PC); } \
    EXPORT void __tsan_unaligned_volatile_read##n(void* p) { plain(p, n, false, PC); } \
    EXPORT void __tsan_unaligned_volatile_write##n(void* p) { plain(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { plain(p, n, false, PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { plain(p, n, true, PC); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, sizeof(void*), true, PC); }
EXPORT void __tsan_vptr_read(void** p) { plain(p, sizeof(void*), false, PC); }

// -------------------------------------------------------------- atomics
template <typename V>
static V at_load(const volatile V* p, int mo, void* pc) {
    if (on()) {
        a_pre(p, 2);
        access(uintptr_t(p), sizeof(V), A_AREAD, u32(uintptr_t(pc)));
        if (hb()) a_load(uintptr_t(p), mo);
        idle(uintptr_t(p));
    }
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);
}
template <typename V>
static void at_store(volatile V* p, V v, int mo, void* pc) {
    if (on()) {
        a_pre(p, 3);
        access(uintptr_t(p), sizeof(V), A_AWRITE, u32(uintptr_t(pc)));
        if (hb()) a_store(uintptr_t(p), mo);
        busy();
    }
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
}
template <typename V, typename F>
static V at_rmw(volatile V* p, int mo, int kind, void* pc, F f) {
    if (on()) {
        a_pre(p, kind);
        access(uintptr_t(p), sizeof(V), A_AWRITE, u32(uintptr_t(pc)));
        V old = *p;
        V nv = f(old);
        *p = nv;
        if (hb()) a_rmw(uintptr_t(p), mo);
        if (nv == old) idle(uintptr_t(p)); else busy();
        return old;
    }
    V old = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    while (!__atomic_compare_exchange_n(p, &old, f(old), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
    return old;
}
template <typename V>
static int at_cas(volatile V* p, V* exp, V des, int mo, int fmo, bool weak, void* pc) {
    if (on()) {
        a_pre(p, 6);
        Thread& m = me();
        V old = *p;
        bool eq = old == *exp;
        if (eq && weak && G.spurious && G.conc && m.weak_n < 64 && mix64(G.seed + u64(tls_self) * 1000 + m.weak_n) % 4 == 0) {
            eq = false;
            note_armed(F_SPURIOUS);
            note_fired(F_SPURIOUS);
        }
        if (weak) ++m.weak_n;
        access(uintptr_t(p), sizeof(V), eq ? A_AWRITE : A_AREAD, u32(uintptr_t(pc)));
        if (eq) {
            *p = des;
            if (hb()) a_rmw(uintptr_t(p), mo);
            if (des == old) idle(uintptr_t(p)); else busy();
            return 1;
        }
        if (hb()) a_load(uintptr_t(p), fmo);
        *exp = old;
        idle(uintptr_t(p));
        return 0;
    }
    return __atomic_compare_exchange_n(p, exp, des, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}
#define ATOMICS(bits, V) \
    EXPORT V __tsan_atomic##bits##_load(const volatile V* p, int mo) { return at_load<V>(p, mo, PC); } \
    EXPORT void __tsan_atomic##bits##_store(volatile V* p, V v, int mo) { at_store<V>(p, v, mo, PC); } \
    EXPORT V __tsan_atomic##bits##_exchange(volatile V* p, V v, int mo) { return at_rmw<V>(p, mo, 4, PC, [v](V) { return v; }); } \
    EXPORT V __tsan_atomic##bits##_fetch_add(volatile V* p, V v, int mo) { return at_rmw<V>(p, mo, 5, PC, [v](V o) { return V(o + v); }); } \
    EXPORT V __tsan_atomic##bits##_fetch_sub(volatile V* p, V v, int mo) { return at_rmw<V>(p, mo, 5, PC, [v](V o) { return V(o - v); }); } \
    EXPORT V __tsan_atomic##bits##_fetch_and(volatile V* p, V v, int mo) { return at_rmw<V>(p, mo, 5, PC, [v](V o) { return V(o & v); }); } \
    EXPORT V __tsan_atomic##bits##_fetch_or(volatile V* p, V v, int mo) { return at_rmw<V>(p, mo, 5, PC, [v](V o) { return V(o | v); }); } \
    EXPORT V __tsan_atomic##bits##_fetch_xor(volatile V* p, V v, int mo) { return at_rmw<V>(p, mo, 5, PC, [v](V o) { return V(o ^ v); }); } \
    EXPORT V __tsan_atomic##bits##_fetch_nand(volatile V* p, V v, int mo) { return at_rmw<V>(p, mo, 5, PC, [v](V o) { return V(~(o & v)); }); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile V* p, V* e, V d, int mo, int fmo) { return at_cas<V>(p, e, d, mo, fmo, false, PC); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile V* p, V* e, V d, int mo, int fmo) { return at_cas<V>(p, e, d, mo, fmo, true, PC); } \
    EXPORT V __tsan_atomic##bits##_compare_exchange_val(volatile V* p, V e, V d, int mo, int fmo) { at_cas<V>(p, &e, d, mo, fmo, false, PC); return e; }
typedef unsigned char A8;
typedef unsigned short A16;
typedef unsigned int A32;
typedef unsigned long A64;
ATOMICS(8, A8)
ATOMICS(16, A16)
ATOMICS(32, A32)
ATOMICS(64, A64)
EXPORT void __tsan_atomic_thread_fence(int mo) {
    if (on()) { sched_point(7); if (hb()) fence(mo); }
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// annotated mutexes (of the standard library)
EXPORT void __tsan_mutex_create(void*, unsigned) {}
EXPORT void __tsan_mutex_destroy(void*, unsigned) {}
EXPORT void __tsan_mutex_pre_lock(void*, unsigned) {}
EXPORT void __tsan_mutex_post_lock(void* p, unsigned flags, int) {
    if (on() && !(flags & (1u << 5))) hb_acquire(uintptr_t(p) | K_TSANM);
}
EXPORT int __tsan_mutex_pre_unlock(void* p, unsigned) {
    if (on()) hb_release(uintptr_t(p) | K_TSANM, false);
    return 0;
}
EXPORT void __tsan_mutex_post_unlock(void*, unsigned) {}
EXPORT void __tsan_mutex_pre_signal(void*, unsigned) {}
EXPORT void __tsan_mutex_post_signal(void*, unsigned) {}
EXPORT void __tsan_mutex_pre_divert(void*, unsigned) {}
EXPORT void __tsan_mutex_post_divert(void*, unsigned) {}

// ------------------------------------------------------------- pthread locks
#define REAL(name) ([]() { static decltype(&name) f = next<decltype(&name)>(#name); return f; }())
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!on()) return REAL(pthread_mutex_lock)(m);
    return mutex_lock(uintptr_t(m), false, m->__data.__kind & 3);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!on()) return REAL(pthread_mutex_trylock)(m);
    return mutex_lock(uintptr_t(m), true, m->__data.__kind & 3);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (!on()) return REAL(pthread_mutex_unlock)(m);
    return mutex_unlock(uintptr_t(m));
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept {
    int rc = mutex_lock(uintptr_t(m), true, m->__data.__kind & 3);
    return rc == EBUSY ? ETIMEDOUT : rc;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
    if (!on()) return REAL(pthread_mutex_destroy)(m);
    for (Lock& l : locks) if (l.used && l.key == uintptr_t(m) && (l.owner >= 0 || nreaders(l)))
        fail("destroyed-locked", "a locked mutex is destroyed");
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    if (!on()) return REAL(pthread_rwlock_rdlock)(m);
    return read_lock(uintptr_t(m), false);
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
    if (!on()) return REAL(pthread_rwlock_tryrdlock)(m);
    return read_lock(uintptr_t(m), true);
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    if (!on()) return REAL(pthread_rwlock_wrlock)(m);
    return mutex_lock(uintptr_t(m), false, 0);
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
    if (!on()) return REAL(pthread_rwlock_trywrlock)(m);
    return mutex_lock(uintptr_t(m), true, 0);
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    if (!on()) return REAL(pthread_rwlock_unlock)(m);
    return rw_unlock(uintptr_t(m));
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!on()) return REAL(pthread_cond_wait)(c, m);
    mutex_unlock(uintptr_t(m));
    block(c);
    return mutex_lock(uintptr_t(m), false, m->__data.__kind & 3);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) {
    mutex_unlock(uintptr_t(m));
    sched_point(19);
    mutex_lock(uintptr_t(m), false, m->__data.__kind & 3);
    return ETIMEDOUT;
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (!on()) return REAL(pthread_cond_signal)(c);
    sched_point(20);
    wake(c);
    busy();
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (!on()) return REAL(pthread_cond_broadcast)(c);
    sched_point(20);
    wake(c);
    busy();
    return 0;
}
EXPORT int pthread_once(pthread_once_t* c, void (*f)()) {
    if (!on()) return REAL(pthread_once)(c, f);
    if (*c != 2) {
        ++me().no_yield;
        ++me().guard_depth;
        struct Undo { ~Undo() { --me().no_yield; --me().guard_depth; } } u;
        f();
        *c = 2;
        hb_release(uintptr_t(c) | K_LOCK, false);
    }
    hb_acquire(uintptr_t(c) | K_LOCK);
    return 0;
}
EXPORT int sched_yield() noexcept {
    if (!on()) return REAL(sched_yield)();
    me().spinning = true;
    sched_point(21);
    return 0;
}
EXPORT int nanosleep(const struct timespec* a, struct timespec* b) {
    if (!on()) return REAL(nanosleep)(a, b);
    G.now += a->tv_sec;
    me().spinning = true;
    sched_point(21);
    return 0;
}
EXPORT int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b) {
    if (!on()) return REAL(clock_nanosleep)(k, fl, a, b);
    me().spinning = true;
    sched_point(21);
    return 0;
}

// ------------------------------------------------------ function-local statics
// byte 0: initialised, byte 1: being initialised
static bool ours(const void* p) { return in_static(uintptr_t(p)); }
EXPORT int __cxa_guard_acquire(abi::__guard* gg) {
    char* g = reinterpret_cast<char*>(gg);
    if (!on()) {
        if (g[0]) return 0;
        g[1] = 1;
        return 1;
    }
    bool sim_ = ours(g);
    if (sim_) sched_point(22);
    while (g[1] && !g[0]) {
        if (!G.conc) fail("deadlock", "a static object is initialised recursively");
        block(g);
    }
    if (g[0]) { hb_acquire(uintptr_t(g) | K_LOCK); return 0; }
    g[1] = 1;
    ++me().guard_depth;
    if (!sim_) ++me().no_yield;
    return 1;
}
EXPORT void __cxa_guard_release(abi::__guard* gg) {
    char* g = reinterpret_cast<char*>(gg);
    g[0] = 1;
    g[1] = 0;
    if (!on()) return;
    --me().guard_depth;
    if (!ours(g)) --me().no_yield;
    if (hb()) *sync_of(uintptr_t(g)) = me().vc; // the inline fast path is an atomic load of it
    hb_release(uintptr_t(g) | K_LOCK, false);
    wake(g);
    busy();
}
EXPORT void __cxa_guard_abort(abi::__guard* gg) {
    char* g = reinterpret_cast<char*>(gg);
    g[1] = 0;
    if (!on()) return;
    --me().guard_depth;
    if (!ours(g)) --me().no_yield;
    wake(g);
}

// -------------------------------------------------------------------- clocks
static i64 read_clock() {
    sched_point(23);
    Thread& m = me();
    ++m.clock_reads;
    if (fault(F_CLOCK)) {
        i64 d = m.op ? m.op->d : 0;
        G.now += d;
        // the years a clock of signed 64-bit nanoseconds can tell
        const i64 far = 9000000000ll;
        G.now = G.now > far ? far - (G.now & 1023) : G.now < -far ? -far + (G.now & 1023) : G.now;
    }
    m.clock_last = G.now;
    return G.now;
}
EXPORT time_t time(time_t* out) noexcept {
    if (!on()) {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        if (out) *out = ts.tv_sec;
        return ts.tv_sec;
    }
    time_t t = time_t(read_clock());
    if (out) { plain(out, sizeof *out, true, PC); *out = t; }
    return t;
}
EXPORT int clock_gettime(clockid_t k, struct timespec* ts) noexcept {
    if (!on()) return int(syscall(SYS_clock_gettime, k, ts));
    plain(ts, sizeof *ts, true, PC);
    ts->tv_sec = time_t(k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? read_clock() : i64(G.step));
    ts->tv_nsec = 0;
    return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) noexcept {
    if (!on()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    plain(tv, sizeof *tv, true, PC);
    tv->tv_sec = time_t(read_clock());
    tv->tv_usec = 0;
    return 0;
}
EXPORT int timespec_get(struct timespec* ts, int base) noexcept {
    if (!on()) { syscall(SYS_clock_gettime, CLOCK_REALTIME, ts); return base; }
    plain(ts, sizeof *ts, true, PC);
    ts->tv_sec = time_t(read_clock());
    ts->tv_nsec = 0;
    return base;
}
// the functions with static buffers
EXPORT struct tm* gmtime(const time_t* t) noexcept {
    static struct tm real;
    struct tm* b = on() ? &libc_statics.tmbuf : &real;
    if (on()) { sched_point(24); plain(t, sizeof *t, false, PC); plain(b, sizeof *b, true, PC); }
    time_t v = *t;
    return gmtime_r(&v, b);
}
EXPORT struct tm* localtime(const time_t* t) noexcept {
    static struct tm real;
    struct tm* b = on() ? &libc_statics.tmbuf : &real;
    if (on()) { sched_point(24); plain(t, sizeof *t, false, PC); plain(b, sizeof *b, true, PC); }
    time_t v = *t;
    return localtime_r(&v, b);
}
EXPORT struct tm* gmtime_r(const time_t* t, struct tm* b) noexcept {
    if (on()) { sched_point(25); plain(t, sizeof *t, false, PC); plain(b, sizeof *b, true, PC); }
    return REAL(gmtime_r)(t, b);
}
EXPORT struct tm* localtime_r(const time_t* t, struct tm* b) noexcept {
    if (on()) { sched_point(25); plain(t, sizeof *t, false, PC); plain(b, sizeof *b, true, PC); }
    return REAL(localtime_r)(t, b);
}
EXPORT time_t mktime(struct tm* b) noexcept {
    if (on()) { sched_point(25); plain(b, sizeof *b, true, PC); }
    return REAL(mktime)(b);
}
EXPORT time_t timegm(struct tm* b) noexcept {
    if (on()) { sched_point(25); plain(b, sizeof *b, true, PC); }
    return REAL(timegm)(b);
}
EXPORT size_t strftime(char* s, size_t max, const char* f, const struct tm* b) noexcept {
    if (!on()) return REAL(strftime)(s, max, f, b);
    sched_point(26);
    plain(b, sizeof *b, false, PC);
    plain(f, __real_strlen(f) + 1, false, PC);
    // the buffer has to be writable as far as it is said to be
    if (max) plain(s, max, true, PC);
    return REAL(strftime)(s, max, f, b);
}

// ------------------------------------------------------------------ memory
static void* new_impl(size_t n, size_t a, u32 tag, bool nothrow) {
    void* p;
    if (arena_wanted()) p = arena_alloc(n, a, tag, true);
    else p = a > 16 ? __libc_memalign(a, n ? n : 1) : __libc_malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void del_impl(void* p, u32 tag, i64 n, i64 a, void* pc) {
    if (!p) return;
    if (in_arena(p)) arena_free(p, tag, n, a, pc);
    else __libc_free(p);
}
void* operator new(size_t n) { return new_impl(n, 16, 2, false); }
void* operator new[](size_t n) { return new_impl(n, 16, 3, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, 2, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, 3, true); }
void operator delete(void* p) noexcept { del_impl(p, 2, -1, 16, PC); }
void operator delete[](void* p) noexcept { del_impl(p, 3, -1, 16, PC); }
void operator delete(void* p, size_t n) noexcept { del_impl(p, 2, i64(n), 16, PC); }
void operator delete[](void* p, size_t n) noexcept { del_impl(p, 3, i64(n), 16, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del_impl(p, 2, -1, 16, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del_impl(p, 3, -1, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return new_impl(n, size_t(a), 2, false); }
void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, size_t(a), 3, false); }
void operator delete(void* p, std::align_val_t a) noexcept { del_impl(p, 2, -1, i64(a) < 16 ? 16 : i64(a), PC); }
void operator delete[](void* p, std::align_val_t a) noexcept { del_impl(p, 3, -1, i64(a) < 16 ? 16 : i64(a), PC); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { del_impl(p, 2, i64(n), i64(a) < 16 ? 16 : i64(a), PC); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { del_impl(p, 3, i64(n), i64(a) < 16 ? 16 : i64(a), PC); }

EXPORT void* __wrap_malloc(size_t n) { return arena_wanted() ? arena_alloc(n, 16, 1, true) : __libc_malloc(n); }
EXPORT void* __wrap_calloc(size_t a, size_t b) {
    if (!arena_wanted()) return __libc_calloc(a, b);
    if (b && a > (size_t(8) << 20) / b) return nullptr;
    void* p = arena_alloc(a * b, 16, 1, true);
    if (p) __real_memset(p, 0, a * b);
    return p;
}
EXPORT void* __wrap_aligned_alloc(size_t al, size_t n) {
    return arena_wanted() ? arena_alloc(n, al, 1, true) : __libc_memalign(al, n);
}
EXPORT void __wrap_free(void* p) {
    if (in_arena(p)) arena_free(p, 1, -1, -1, PC);
    else __libc_free(p);
}
EXPORT void* __wrap_realloc(void* p, size_t n) {
    if (p && !in_arena(p)) return __libc_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    void* q = arena_alloc(n, 16, 1, true);
    if (!q) return nullptr;
    Head* h = static_cast<Head*>(p) - 1;
    if (h->magic != magic_live || !h->live) fail("bad-free", "realloc of a block which is not live");
    __real_memcpy(q, p, h->n < n ? size_t(h->n) : n);
    arena_free(p, 1, -1, -1, PC);
    return q;
}
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (on()) { plain(s, n, false, PC); plain(d, n, true, PC); }
    return __real_memcpy(d, s, n);
}
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (on()) { plain(s, n, false, PC); plain(d, n, true, PC); }
    return __real_memmove(d, s, n);
}
EXPORT void* __wrap_memset(void* d, int c, size_t n) {
    if (on()) plain(d, n, true, PC);
    return __real_memset(d, c, n);
}
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (on()) { plain(a, n, false, PC); plain(b, n, false, PC); }
    return __real_memcmp(a, b, n);
}
EXPORT void* __wrap_memchr(const void* a, int c, size_t n) {
    void* r = __real_memchr(a, c, n);
    if (on()) plain(a, r ? size_t(static_cast<char*>(r) - static_cast<const char*>(a)) + 1 : n, false, PC);
    return r;
}
EXPORT size_t __wrap_strlen(const char* s) {
    size_t n = __real_strlen(s);
    if (on()) plain(s, n + 1, false, PC);
    return n;
}
EXPORT void __assert_fail(const char* what, const char*, unsigned, const char*) noexcept {
    fail("assert", "assertion failed: %s (thread %d, operation %s)", what, tls_self, on() ? thread_what(tls_self) : "-");
}
