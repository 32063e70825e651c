#include "core.hpp"
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

// linked with --wrap: C allocations made by the code under test (and only
// those) are simulated too
extern "C" {
#ifdef SIM_THREADS
void* __libc_malloc(size_t);
void __libc_free(void*);
#define __real_malloc __libc_malloc
#define __real_free __libc_free
#else
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_aligned_alloc(size_t, size_t);
#endif
}

namespace sim {
#ifdef SIM_THREADS
void trt_failed();
int trt_run(Harness& h, Case& c); // the case in a fresh thread, under the scheduler
void trt_stats(FILE* f);
void trt_pin();
u64 trt_ops();
#endif

template <typename T>
struct MA { // harness bookkeeping never goes through the replaced operator new
    typedef T value_type;
    MA() {}
    template <typename U> MA(const MA<U>&) {}
    T* allocate(size_t n) { return (T*)__real_malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { __real_free(p); }
    template <typename U> bool operator==(const MA<U>&) const { return true; }
    template <typename U> bool operator!=(const MA<U>&) const { return false; }
};

struct Status { u64 index; u64 cls_written; };

static struct {
    u64 hash = 0;
    bool is_nontrivial = false;
    const Op* op = nullptr;
    int op_index = -1;
    int count[F_KINDS] = {};
    int fired = 0;
    int suspended = 0;
    bool in_sut = false;
    u64 cur_index = 0;
    u64 cur_seed = 0;
    int result_fd = -1;
    volatile Status* status = nullptr;
    // statistics
    u64 runs = 0, ops = 0, nontriv = 0, events = 0;
    u64 fired_total[F_KINDS] = {};
    u64 armed_total[F_KINDS] = {};
    u64 allocs = 0;
} S;

struct Block { size_t n; size_t align; int tag; };
typedef std::unordered_map<void*, Block, std::hash<void*>, std::equal_to<void*>, MA<std::pair<void* const, Block>>> Blocks;
typedef std::unordered_set<u64, std::hash<u64>, std::equal_to<u64>, MA<u64>> U64Set;
#ifndef SIM_THREADS
static Blocks& blocks() { static Blocks* b = new (__real_malloc(sizeof(Blocks))) Blocks; return *b; }
#endif
static CfgFn cfg_fns[64];
static int cfg_n = 0;
CfgFn& cfg_fn(int i) { if (i >= cfg_n) cfg_n = i + 1; return cfg_fns[i]; }
int cfg_count() { return cfg_n; }

static U64Set& states() { static U64Set* b = new (__real_malloc(sizeof(U64Set))) U64Set; return *b; }
static U64Set& traces() { static U64Set* b = new (__real_malloc(sizeof(U64Set))) U64Set; return *b; }
static const int MAXP = 256;
static const char* probe_names[MAXP];
static u64 probe_counts[MAXP];
static int nprobes = 0;

const char* fault_name(int k) {
    static const char* n[] = {"none", "alloc_failure", "element_throw", "comparator_throw", "read_error",
        "seek_error", "callback_throw", "no_expand", "moved_block", "lock_throw", "clock_jump", "stall", "spurious_failure"};
    return k >= 0 && k <= F_SPURIOUS ? n[k] : "?";
}
const char* outcome_name(int o) {
    static const char* n[] = {"ok", "bad_alloc", "injected", "out_of_range", "bad_cast", "other"};
    return n[o];
}

void fail(const char* cls, const char* fmt, ...) {
    S.in_sut = false;
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char* p = buf; *p; ++p) if (*p == '\n') *p = ' ';
    char out[2000];
    int n = snprintf(out, sizeof out, "class %s\nindex %llu\nop %d\nmsg %s\n", cls, (unsigned long long)S.cur_index, S.op_index, buf);
    if (n > int(sizeof out)) n = sizeof out;
    if (S.result_fd >= 0) { ssize_t r = ::write(S.result_fd, out, size_t(n)); (void)r; }
    else { ssize_t r = ::write(1, out, size_t(n)); (void)r; }
#ifdef SIM_THREADS
    trt_failed();
#endif
    _exit(42);
}

void ev(u64 v) { ++S.events; S.hash = mix64(S.hash ^ v) + 0x1234567; }
void evs(const char* s, size_t n) {
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
    ev(h);
}
void state(u64 v) { if (states().size() < 400000) states().insert(mix64(v)); }
int probe_id(const char* name) {
    for (int i = 0; i < nprobes; ++i) if (!strcmp(probe_names[i], name)) return i;
    if (nprobes == MAXP) return MAXP - 1;
    probe_names[nprobes] = name;
    return nprobes++;
}
void probe_hit(int id) { ++probe_counts[id]; }
void probe_name(const char* name) {
    for (int i = 0; i < nprobes; ++i) if (probe_names[i] == name) { ++probe_counts[i]; return; }
    probe_hit(probe_id(name));
}
void nontrivial() { S.is_nontrivial = true; }

void note_fault(int kind) { ++S.fired_total[kind]; ++S.armed_total[kind]; }
void note_armed(int kind) { ++S.armed_total[kind]; }
void note_fired(int kind) { ++S.fired_total[kind]; S.is_nontrivial = true; }
#ifndef SIM_THREADS
bool fault(int kind) {
    if (!S.op || S.suspended || S.op->fk != kind || S.op->fn == 0) return false;
    int c = ++S.count[kind];
    bool f = S.op->fn > 0 ? c == S.op->fn : c >= -S.op->fn;
    if (f) {
        ++S.fired;
        ++S.fired_total[kind];
        S.is_nontrivial = true;
        ev(0xfa17ull + u64(kind) * 131 + u64(c));
    }
    return f;
}
bool fault_would(int kind) {
    if (!S.op || S.suspended || S.op->fk != kind || S.op->fn == 0) return false;
    int c = S.count[kind] + 1;
    return S.op->fn > 0 ? c == S.op->fn : c >= -S.op->fn;
}
int faults_fired() { return S.fired; }
void suspend_faults(bool on) { S.suspended += on ? 1 : -1; }

OpScope::OpScope(const Op& op) {
    S.op = &op;
    ++S.op_index;
    ++S.ops;
    S.fired = 0;
    memset(S.count, 0, sizeof S.count);
    if (op.fk && op.fn) ++S.armed_total[op.fk];
    ev(u64(op.code));
}
OpScope::~OpScope() { S.op = nullptr; }

Sut::Sut() : prev(S.in_sut) { S.in_sut = true; }
Sut::~Sut() { S.in_sut = prev; }
Host::Host() : prev(S.in_sut) { S.in_sut = false; }
Host::~Host() { S.in_sut = prev; }
u64 alloc_count() { return S.allocs; }
bool in_sut() { return S.in_sut; }

static void* raw_alloc(size_t n, size_t align) {
    if (align <= 16) return ::malloc(n ? n : 1);
    void* p = nullptr;
    if (::posix_memalign(&p, align, n ? n : 1)) return nullptr;
    return p;
}

void* sut_alloc(size_t n, size_t align, int tag, bool faulty) {
    Host h;
    ++S.allocs;
    if (faulty && fault(F_ALLOC)) return nullptr;
    if (n > max_alloc) { S.is_nontrivial = true; ev(0xb16); return nullptr; }
    void* p = raw_alloc(n, align);
    if (!p) return nullptr;
    memset(p, 0xC9, n);
    Block b = {n, align, tag};
    blocks()[p] = b;
    return p;
}

void sut_free(void* p, i64 size, i64 align, int tag) {
    if (!p) return;
    Host h;
    auto f = blocks().find(p);
    if (f == blocks().end()) fail("bad-free", "a block is given back which is not live: freed twice or never allocated (tag %d)", tag);
    Block b = f->second;
    if (tag != b.tag) fail("bad-free", "a block from allocator %d is given back to allocator %d", b.tag, tag);
    if (size >= 0 && size_t(size) != b.n) fail("bad-free", "a block of %zu bytes is given back as %lld bytes", b.n, (long long)size);
    if (align >= 0 && size_t(align) != b.align) fail("bad-free", "a block aligned to %zu is given back with alignment %lld", b.align, (long long)align);
    blocks().erase(f);
    memset(p, 0xD1, b.n);
    ::free(p);
}
bool block_size(void* p, size_t& n) {
    auto f = blocks().find(p);
    if (f == blocks().end()) return false;
    n = f->second.n;
    return true;
}
bool inside_block(const void* p, size_t bytes) {
    const char* c = static_cast<const char*>(p);
    for (auto& b : blocks()) {
        const char* k = static_cast<const char*>(b.first);
        if (c >= k && c + bytes <= k + b.second.n) return true;
    }
    return false;
}
size_t live_blocks() { return blocks().size(); }
void check_no_leaks(const char* where) {
    if (!blocks().empty()) {
        auto& b = blocks().begin()->second;
        fail("leak", "%zu block(s) leaked at %s (one of %zu bytes, allocator %d)", blocks().size(), where, b.n, b.tag);
    }
}

bool sut_new_hook(size_t n, size_t align, void*& out) {
    if (!S.in_sut) return false;
    out = sut_alloc(n, align, 0);
    return true;
}
bool sut_delete_hook(void* p, i64 n, i64 align) {
    if (blocks().empty()) return false;
    auto f = blocks().find(p);
    if (f == blocks().end()) return false;
    sut_free(p, n, align, 0);
    return true;
}

#endif
// ---------------------------------------------------------------- case files
static void print_case(Harness& h, const Case& c, FILE* f) {
    fprintf(f, "prop %s\nseed %llu\n", h.property(), (unsigned long long)c.seed);
    fprintf(f, "cfg");
    for (int v : c.cfg) fprintf(f, " %d", v);
    fprintf(f, "   # %s\n", h.cfg_names());
    for (auto& o : c.ops) {
        fprintf(f, "op %d %d %lld %lld %lld %lld %d %d   # %s", o.tid, o.code, (long long)o.a, (long long)o.b, (long long)o.c, (long long)o.d, o.fk, o.fn, h.op_name(o.code));
        if (o.fk && o.fn) fprintf(f, " with %s #%d%s", fault_name(o.fk), o.fn < 0 ? -o.fn : o.fn, o.fn < 0 ? "+" : "");
        fprintf(f, "\n");
    }
    for (auto& s : c.sched) fprintf(f, "sched %lld %lld\n", (long long)s.first, (long long)s.second);
}

static bool read_case(const char* path, Case& c, u64& hb, u64& hs, u64& hn) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[4096];
    hn = 0;
    while (fgets(line, sizeof line, f)) {
        char* hash = strchr(line, '#');
        if (hash) *hash = 0;
        long long a, b, cc, d; int t, code, fk, fn; unsigned long long u, v, w;
        if (sscanf(line, "seed %llu", &u) == 1) c.seed = u;
        else if (!strncmp(line, "cfg", 3)) {
            char* p = line + 3;
            char* e;
            for (;;) { long x = strtol(p, &e, 10); if (e == p) break; c.cfg.push_back(int(x)); p = e; }
        }
        else if (sscanf(line, "op %d %d %lld %lld %lld %lld %d %d", &t, &code, &a, &b, &cc, &d, &fk, &fn) == 8) {
            Op o; o.tid = t; o.code = code; o.a = a; o.b = b; o.c = cc; o.d = d; o.fk = fk; o.fn = fn;
            c.ops.push_back(o);
        }
        else if (sscanf(line, "sched %lld %lld", &a, &b) == 2) c.sched.push_back({a, b});
        else if (sscanf(line, "history %llu %llu %llu", &u, &v, &w) == 3) { hb = u; hs = v; hn = w; }
    }
    fclose(f);
    return true;
}

#ifdef SIM_THREADS
static Case* record_case = nullptr;
static Harness* record_harness = nullptr;
static bool record_research = false;
u64 schedule_salt = 0;
void print_recorded(const std::pair<i64, i64>* list, size_t n) {
    if (!record_case) return;
    if (!record_research) { record_case->sched.clear(); print_case(*record_harness, *record_case, stdout); }
    printf("sched -1 0\n");
    for (size_t i = 0; i < n; ++i) printf("sched %lld %lld\n", (long long)list[i].first, (long long)list[i].second);
    fflush(stdout);
}
Harness& the_harness() { return *make_harness(); }
#endif

static u64 case_seed(u64 base, u64 index) { return mix64(mix64(base) ^ (index * 0x2545f4914f6cdd1dull + 77)); }

static void one(Harness& h, Case& c) {
    S.hash = 0x51;
    S.is_nontrivial = false;
    S.op = nullptr;
    S.op_index = -1;
    S.suspended = 0;
    S.in_sut = false;
    for (int v : c.cfg) ev(u64(v));
#ifdef SIM_THREADS
    S.ops += u64(trt_run(h, c));
#else
    h.run(c);
#endif
    S.op = nullptr;
    ++S.runs;
#ifndef SIM_THREADS
    if (S.op_index >= 2) S.is_nontrivial = true;
#endif
    if (S.is_nontrivial) {
        ++S.nontriv;
        if (traces().size() < 2000000) traces().insert(S.hash);
    }
}

static volatile int hang_ticks = 0;
static u64 hang_index = ~0ull;
static int hang_limit = 6;
volatile int hang_factor = 1;
static void on_tick(int) {
    if (hang_index == S.cur_index) {
        hang_ticks = hang_ticks + 1;
        if (hang_ticks >= hang_limit * hang_factor) fail("hang", "an operation did not finish within %d s of CPU time (a normal one takes %s)", hang_limit * hang_factor, hang_factor > 1 ? "a few seconds at most" : "microseconds");
    }
    else {
        hang_index = S.cur_index;
        hang_ticks = 0;
    }
}

static void on_terminate() {
    const char* what = "std::terminate called";
    fail("terminate", "%s (an exception escaped a noexcept operation, or a double exception)", what);
}

static void write_set(const char* path, const U64Set& s) {
    FILE* f = fopen(path, "wb");
    if (!f) return;
    for (u64 v : s) fwrite(&v, 8, 1, f);
    fclose(f);
}

int main_impl(int argc, char** argv) {
    // h explore BASE START COUNT PREFIX
    // h gen BASE INDEX
    // h replay FILE
    // h hash BASE START COUNT
    if (argc < 3) { fprintf(stderr, "usage\n"); return 2; }
    Harness& h = *make_harness();
    std::set_terminate(on_terminate);
    {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_tick;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGVTALRM, &sa, nullptr);
        struct itimerval it = {{1, 0}, {1, 0}};
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
        const char* hl = getenv("SIM_HANG_S");
        if (hl) hang_limit = atoi(hl);
    }
#ifdef SIM_THREADS
    trt_pin();
#endif
    std::string mode = argv[1];
    if (mode == "gen") {
        u64 base = strtoull(argv[2], 0, 10), idx = strtoull(argv[3], 0, 10);
        Case c;
        c.seed = case_seed(base, idx);
        Rng r(c.seed);
        h.generate(r, c);
        print_case(h, c, stdout);
        return 0;
    }
    if (mode == "print") {
        Case c; u64 a, b, n;
        if (!read_case(argv[2], c, a, b, n)) return 2;
        print_case(h, c, stdout);
        return 0;
    }
    if (mode == "replay") {
        Case c;
        u64 hb = 0, hs = 0, hn = 0;
        if (!read_case(argv[2], c, hb, hs, hn)) return 2;
        if (hn) { // a run of consecutive cases in one process
            for (u64 i = 0; i < hn; ++i) {
                Case g;
                g.seed = case_seed(hb, hs + i);
                S.cur_index = i;
                Rng r(g.seed);
                h.generate(r, g);
                one(h, g);
            }
        }
        else one(h, c);
        printf("ok\nhash %llu\n", (unsigned long long)S.hash);
        return 0;
    }
#ifdef SIM_THREADS
    if (mode == "record" || mode == "research") {
        Case c; u64 a, b, n;
        if (!read_case(argv[2], c, a, b, n)) return 2;
        record_case = &c;
        record_harness = &h;
        record_research = mode == "research";
        u64 tries = record_research ? strtoull(argv[3], 0, 10) : 1;
        for (u64 i = 0; i < tries; ++i) {
            if (record_research) { c.sched.clear(); schedule_salt = i; }
            one(h, c);
            if (!record_research) trt_failed();
        }
        return 0;
    }
#endif
    if (mode == "hash") {
        u64 base = strtoull(argv[2], 0, 10), start = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10);
        u64 total = 0;
        for (u64 i = start; i < start + count; ++i) {
            Case c;
            c.seed = case_seed(base, i);
            S.cur_index = i;
            Rng r(c.seed);
            h.generate(r, c);
            one(h, c);
            total = mix64(total ^ S.hash);
        }
        printf("hash %llu\n", (unsigned long long)total);
        return 0;
    }
    if (mode == "explore") {
        u64 base = strtoull(argv[2], 0, 10), start = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10);
        double wall = argc > 6 ? atof(argv[6]) : 0;
        std::string prefix = argv[5];
        int fd = ::open((prefix + ".status").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (ftruncate(fd, 4096)) return 2;
        S.status = (volatile Status*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
        S.result_fd = ::open((prefix + ".result").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        Case c;
        u64 done = 0;
        for (u64 i = start; i < start + count; ++i) {
            c.cfg.clear(); c.ops.clear(); c.sched.clear();
            c.seed = case_seed(base, i);
            S.cur_index = i;
            S.status->index = i;
            Rng r(c.seed);
            h.generate(r, c);
            one(h, c);
            ++done;
            if (wall > 0 && (i & 63) == 0) {
                clock_gettime(CLOCK_MONOTONIC, &t1);
                if (double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec) > wall) break;
            }
        }
        clock_gettime(CLOCK_MONOTONIC, &t1);
        FILE* f = fopen((prefix + ".stats").c_str(), "w");
        fprintf(f, "{\"runs\":%llu,\"ops\":%llu,\"nontrivial\":%llu,\"events\":%llu,\"allocs\":%llu,\"done\":%llu,\"wall\":%.3f,\"faults\":{",
            (unsigned long long)S.runs, (unsigned long long)S.ops, (unsigned long long)S.nontriv, (unsigned long long)S.events,
            (unsigned long long)S.allocs, (unsigned long long)done,
            double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec));
        bool first = true;
        for (int k = 1; k < F_KINDS; ++k) if (S.armed_total[k]) {
            fprintf(f, "%s\"%s\":{\"armed\":%llu,\"fired\":%llu}", first ? "" : ",", fault_name(k), (unsigned long long)S.armed_total[k], (unsigned long long)S.fired_total[k]);
            first = false;
        }
        fprintf(f, "},\"probes\":{");
        for (int i = 0; i < nprobes; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", probe_names[i], (unsigned long long)probe_counts[i]);
        fprintf(f, "}");
#ifdef SIM_THREADS
        trt_stats(f);
#endif
        fprintf(f, "}\n");
        fclose(f);
        write_set((prefix + ".traces").c_str(), traces());
        write_set((prefix + ".states").c_str(), states());
        return 0;
    }
    return 2;
}
}

#ifndef SIM_THREADS
// ------------------------------------------------------- global new / delete
namespace sim { bool sut_new_hook(size_t, size_t, void*&); bool sut_delete_hook(void*, i64, i64); }
static void* new_impl(size_t n, size_t a, bool nothrow) {
    void* p = nullptr;
    if (!sim::sut_new_hook(n, a, p)) p = sim::raw_alloc(n, a);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void del_impl(void* p, sim::i64 n, sim::i64 a) {
    if (!p) return;
    if (sim::sut_delete_hook(p, n, a)) return;
    ::free(p);
}
void* operator new(size_t n) { return new_impl(n, 16, false); }
void* operator new[](size_t n) { return new_impl(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, true); }
void operator delete(void* p) noexcept { del_impl(p, -1, 16); }
void operator delete[](void* p) noexcept { del_impl(p, -1, 16); }
void operator delete(void* p, size_t n) noexcept { del_impl(p, sim::i64(n), 16); }
void operator delete[](void* p, size_t n) noexcept { del_impl(p, sim::i64(n), 16); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del_impl(p, -1, 16); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del_impl(p, -1, 16); }
#if __cplusplus >= 201703L
void* operator new(size_t n, std::align_val_t a) { return new_impl(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, size_t(a), false); }
void operator delete(void* p, std::align_val_t a) noexcept { del_impl(p, -1, sim::i64(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { del_impl(p, -1, sim::i64(a)); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { del_impl(p, sim::i64(n), sim::i64(a)); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { del_impl(p, sim::i64(n), sim::i64(a)); }
#endif

extern "C" {
void* __wrap_malloc(size_t n) {
    if (!sim::S.in_sut) return __real_malloc(n);
    return sim::sut_alloc(n, 16, 1);
}
void* __wrap_calloc(size_t n, size_t m) {
    if (!sim::S.in_sut) return __real_calloc(n, m);
    if (m && n > sim::max_alloc / m) return nullptr;
    void* p = sim::sut_alloc(n * m, 16, 1);
    if (p) memset(p, 0, n * m);
    return p;
}
void* __wrap_aligned_alloc(size_t a, size_t n) {
    if (!sim::S.in_sut) return __real_aligned_alloc(a, n);
    return sim::sut_alloc(n, a < 16 ? 16 : a, 1);
}
void __wrap_free(void* p) {
    if (p && !sim::blocks().empty() && sim::blocks().count(p)) { sim::sut_free(p, -1, -1, 1); return; }
    __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
    if (!sim::S.in_sut) return __real_realloc(p, n);
    if (!p) return sim::sut_alloc(n, 16, 1);
    size_t old = 0;
    if (!sim::block_size(p, old)) sim::fail("bad-free", "realloc of a block which is not live");
    void* q = sim::sut_alloc(n, 16, 1);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    sim::sut_free(p, -1, -1, 1);
    return q;
}
}

#endif

int main(int argc, char** argv) { return sim::main_impl(argc, argv); }
