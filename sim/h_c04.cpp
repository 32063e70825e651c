// C04: data_mutex. C++11 and later.
#include "trt.hpp"
#include <itlib/data_mutex.hpp>
#include <memory>
#include <mutex>
#include <system_error>
#if __cplusplus >= 201703L
#include <shared_mutex>
#endif

using namespace sim;

namespace {
enum { UNIQUE, TRY_UNIQUE, CONST_UNIQUE, TRY_CONST_UNIQUE, SHARED, TRY_SHARED, BARRIER_SHARED, HOLD, RELEASE, OPS };
const char* names[] = {"unique_lock", "try_unique_lock", "unique_lock const", "try_unique_lock const", "shared_lock", "try_shared_lock", "all readers at once", "keep a guard", "drop the kept guard"};
enum { MX_OWNER, MX_DEPTH, MX_READERS, MX_SIZE = 16, N_WRITES = 200, N_WAITING, N_DONE, N_GEN, N_CONSTRUCTED };

struct LockFailed {};
struct ScopeLeft {};

// a mutex which fails, refuses and checks what is asked of it
// (its state changes are atomic: not instrumented)
#define PLAIN __attribute__((noinline, no_sanitize("thread")))
struct MState {
    static int t() { return self() > 0 ? self() : 9; }
    PLAIN static bool take(i64* s, bool recursive) {
        const bool mine = recursive && s[MX_OWNER] == t();
        if (!mine) {
            if (s[MX_OWNER]) return false;
            for (int k = 0; k < 6; ++k) if (s[MX_READERS + k]) return false;
        }
        s[MX_OWNER] = t();
        ++s[MX_DEPTH];
        sync_acquire(s);
        return true;
    }
    PLAIN static bool take_shared(i64* s) {
        if (s[MX_OWNER]) return false;
        ++s[MX_READERS + (t() == 9 ? 0 : t())];
        sync_acquire(s);
        return true;
    }
    PLAIN static void wait(i64* s, bool recursive) { s[9 + t() % 6] = 1; while (!take(s, recursive)) block_on(s); }
    PLAIN static void wait_shared(i64* s) { s[9 + t() % 6] = 1; while (!take_shared(s)) block_on(s); }
    PLAIN static void drop(i64* s) {
        if (s[MX_OWNER] != t()) fail("bad-unlock", "thread %d unlocks a mutex it does not own (owner %lld)", self(), (long long)s[MX_OWNER]);
        sync_release(s);
        if (--s[MX_DEPTH] == 0) s[MX_OWNER] = 0;
        wake_all(s);
    }
    PLAIN static void drop_shared(i64* s) {
        i64& n = s[MX_READERS + (t() == 9 ? 0 : t())];
        if (!n) fail("bad-unlock", "thread %d gives up a shared lock it does not hold", self());
        sync_release(s);
        --n;
        wake_all(s);
    }
    PLAIN static bool waited(i64* s) { const bool r = s[9 + t() % 6] != 0; s[9 + t() % 6] = 0; return r; }
    PLAIN static void modes(i64* s, i64& e, i64& r) {
        e = s[MX_OWNER] == t() ? s[MX_DEPTH] : 0;
        r = s[MX_READERS + (t() == 9 ? 0 : t())];
    }
};
template <bool Recursive>
struct SimMutex {
    i64* s;
    PLAIN static i64* next() { return scratch() + MX_SIZE * (scratch()[N_CONSTRUCTED]++ & 3); }
    SimMutex() : s(next()) {}
    SimMutex(const SimMutex&) = delete;
    void lock() {
        yield_point();
        if (fault(F_MUTEX)) throw LockFailed();
        MState::wait(s, Recursive);
    }
    bool try_lock() {
        yield_point();
        if (fault(F_MUTEX)) throw LockFailed();
        if (fault(F_CALL)) return false;
        return MState::take(s, Recursive);
    }
    void unlock() {
        yield_point();
        MState::drop(s);
    }
    void lock_shared() {
        yield_point();
        if (fault(F_MUTEX)) throw LockFailed();
        MState::wait_shared(s);
    }
    bool try_lock_shared() {
        yield_point();
        if (fault(F_MUTEX)) throw LockFailed();
        if (fault(F_CALL)) return false;
        return MState::take_shared(s);
    }
    void unlock_shared() {
        yield_point();
        MState::drop_shared(s);
    }
};

PLAIN void count(int i) { ++scratch()[i]; }

struct Data {
    i64 v[3];
    int args;
    Data() : args(0) { v[0] = v[1] = v[2] = 0; }
    Data(int a, std::unique_ptr<int> p) : args(a + *p) { v[0] = v[1] = v[2] = 0; }
    void read() const {
        const i64 x = v[0];
        yield_point();
        SIM_CHECK(v[1] == -x && v[2] == 3 * x && v[0] == x, "not-exclusive", "a reader sees the data while it is being written");
    }
    void write() {
        read();
        const i64 x = v[0] + 1;
        v[0] = x;
        yield_point();
        v[1] = -x;
        v[2] = 3 * x;
        count(N_WRITES);
        read();
    }
};

// what is known about the mutex type
template <typename M> struct Tr { enum { sim = 0, shared = 0, rec = 0 }; static i64* st(int) { return nullptr; } };
template <bool R> struct Tr<SimMutex<R>> { enum { sim = 1, shared = 1, rec = R }; static i64* st(int w) { return scratch() + MX_SIZE * w; } };
template <> struct Tr<std::recursive_mutex> { enum { sim = 0, shared = 0, rec = 1 }; static i64* st(int) { return nullptr; } };
#if __cplusplus >= 201703L
template <> struct Tr<std::shared_mutex> { enum { sim = 0, shared = 1, rec = 0 }; static i64* st(int) { return nullptr; } };
template <> struct Tr<std::shared_timed_mutex> { enum { sim = 0, shared = 1, rec = 0 }; static i64* st(int) { return nullptr; } };
#endif

template <typename M>
struct W {
    typedef itlib::data_mutex<Data, M> D;
    typedef Tr<M> X;

    struct Kept { virtual ~Kept() {} virtual void use() = 0; };
    template <typename G>
    struct KeptG : Kept {
        G g;
        KeptG(G&& x) : g(std::move(x)) {}
        static void w(Data& d) { d.write(); }
        static void w(const Data& d) { d.read(); }
        void use() override { w(*g); }
    };

    struct Ctx {
        const Case& c;
        D* d[2];

        // the mode in which this thread holds the mutex, as far as it is known
        void held(int w, int excl, int shared, const char* when) {
            i64* s = X::st(w);
            if (!s) return;
            i64 e, r;
            MState::modes(s, e, r);
            SIM_CHECK(e == excl && r == shared, "wrong-lock", "%s the mutex is held %lld times exclusively and %lld times shared, expected %d and %d", when, (long long)e, (long long)r, excl, shared);
        }
        static void access(Data& x) { x.write(); }
        static void access(const Data& x) { x.read(); }

        template <typename G>
        void use(G& g, int w, int e, int s, const Op& op) {
            held(w, e, s, "while a guard gives access");
            access(*g);
            access(*g.operator->());
            const G& cg = g;
            cg->read();
            (*cg).read();
            SIM_CHECK(&*g == g.operator->() && &*cg == &*g, "wrong-value", "* and -> disagree");
            if (op.b & 1) { // moves
                void* p = const_cast<Data*>(&*cg);
                G h(std::move(g));
                held(w, e, s, "after moving a guard");
                SIM_CHECK(&*h == p, "wrong-value", "a moved guard gives access to something else");
                SIM_CHECK(!g.operator->(), "wrong-value", "a moved-from guard still gives access");
                access(*h);
                if (op.b & 2) {
                    std::unique_ptr<G> k(new G(std::move(h)));
                    held(w, e, s, "after moving a guard");
                    access(**k);
                    k.reset();
                    held(w, e - (e > 0), s - (s > 0), "after the moved-to guard is gone");
                }
                if (op.b & 4) throw ScopeLeft();
            }
            else if (op.b & 4) throw ScopeLeft();
        }
        template <typename G>
        void use_try(G& g, int w, int e, int s, int e0, int s0, const Op& op, bool must) {
            if (g) use(g, w, e, s, op);
            else {
                held(w, e0, s0, "after a failed try");
                SIM_CHECK(!g.operator->(), "wrong-value", "a failed try guard gives access");
                SIM_CHECK(!must, "refused", "a try guard is false though the mutex granted the lock");
                if (op.b & 1) {
                    G h(std::move(g));
                    SIM_CHECK(!h && !h.operator->(), "wrong-value", "a moved failed try guard gives access");
                }
            }
        }
        // true: wait for the returned generation to pass
        PLAIN static bool arrive(bool wait, i64& gen) {
            i64* s = scratch();
            if (wait) ++s[N_WAITING]; else ++s[N_DONE];
            gen = s[N_GEN];
            if (s[N_WAITING] + s[N_DONE] == running()) {
                s[N_WAITING] = 0;
                ++s[N_GEN];
                wake_all(s + N_GEN);
                return false;
            }
            return wait;
        }
        PLAIN static void pass(i64 gen) { while (scratch()[N_GEN] == gen) block_on(scratch() + N_GEN); }
        void sync(bool wait) {
            i64 gen;
            if (arrive(wait, gen)) pass(gen);
        }

        template <typename B>
        typename std::enable_if<B::value>::type shared_ops(const Op& op, int w, int e0, std::unique_ptr<Kept>& kept, int& kept_w, int& kept_kind) {
            const D& cx = *d[w];
            switch (op.code) {
            case SHARED: { auto g = cx.shared_lock(); use(g, w, e0, 1, op); break; }
            case TRY_SHARED: { auto g = cx.try_shared_lock(); use_try(g, w, e0, 1, e0, 0, op, false); break; }
            case BARRIER_SHARED: {
                auto g = cx.shared_lock();
                g->read();
                sync(true); // all of them hold it
                g->read();
                break;
            }
            case HOLD: {
                if (op.c & 1) { kept.reset(new KeptG<typename D::shared_lock_t>(cx.shared_lock())); kept_kind = 2; kept_w = w; }
                else {
                    auto g = cx.try_shared_lock();
                    if (g) { kept.reset(new KeptG<typename D::try_shared_lock_t>(std::move(g))); kept_kind = 2; kept_w = w; }
                }
                break;
            }
            }
        }
        template <typename B>
        typename std::enable_if<!B::value>::type shared_ops(const Op&, int, int, std::unique_ptr<Kept>&, int&, int&) {}
        typedef std::integral_constant<bool, X::shared != 0> HasShared;

        void one(const Op& op, std::unique_ptr<Kept>& kept, int& kept_w, int& kept_kind) {
            int w = int(op.a & 1);
            // no thread waits for a second lock unless the order of the two is fixed
            int e0 = 0;
            if (kept) {
                if (X::rec && kept_kind == 1 && kept_w == w) e0 = 1;
                else if (kept_w == 0) w = 1;
                else return;
            }
            if (e0 && (op.code == SHARED || op.code == TRY_SHARED)) return; // not shared while exclusive
            D& x = *d[w];
            const D& cx = x;
            switch (op.code) {
            case UNIQUE: { auto g = x.unique_lock(); use(g, w, e0 + 1, 0, op); break; }
            case CONST_UNIQUE: { auto g = cx.unique_lock(); use(g, w, e0 + 1, 0, op); break; }
            case TRY_UNIQUE: { auto g = x.try_unique_lock(); use_try(g, w, e0 + 1, 0, e0, 0, op, false); break; }
            case TRY_CONST_UNIQUE: { auto g = cx.try_unique_lock(); use_try(g, w, e0 + 1, 0, e0, 0, op, false); break; }
            case HOLD:
                if (kept) break;
                if (op.b & 2) {
                    if (HasShared::value) shared_ops<HasShared>(op, w, e0, kept, kept_w, kept_kind);
                    break;
                }
                kept_w = w;
                kept_kind = 1;
                switch (op.c & 3) {
                case 0: kept.reset(new KeptG<typename D::unique_lock_t>(x.unique_lock())); break;
                case 1: kept.reset(new KeptG<typename D::const_unique_lock_t>(cx.unique_lock())); break;
                case 2: { auto g = x.try_unique_lock(); if (g) kept.reset(new KeptG<typename D::try_unique_lock_t>(std::move(g))); break; }
                default: { auto g = cx.try_unique_lock(); if (g) kept.reset(new KeptG<typename D::try_const_unique_lock_t>(std::move(g))); break; }
                }
                break;
            default: shared_ops<HasShared>(op, w, e0, kept, kept_w, kept_kind); break;
            }
        }

        void operator()(int tid) {
            std::unique_ptr<Kept> kept;
            int kept_w = 0, kept_kind = 0;
            for (auto& op : c.ops) {
                if (op.tid != tid) continue;
                TOp scope(op);
                if (op.code == BARRIER_SHARED && kept) { // never waits while holding something
                    kept.reset();
                }
                if (op.code == RELEASE) {
                    if (kept) kept->use();
                    kept.reset();
                    for (int w = 0; w < 2; ++w) held(w, 0, 0, "after a kept guard is gone");
                    continue;
                }
                const bool had = bool(kept);
                for (int w = 0; w < 2; ++w) if (i64* s = X::st(w)) MState::waited(s);
                bool threw = false;
                try {
                    one(op, kept, kept_w, kept_kind);
                }
                catch (ScopeLeft&) {}
                catch (LockFailed&) {
                    threw = true;
                    SIM_CHECK(thread_faults_fired(), "unexpected-exception", "a lock failed which did not fail");
                }
                catch (std::system_error&) {
                    threw = true;
                    SIM_CHECK(thread_faults_fired(), "unexpected-exception", "a lock failed which did not fail");
                }
                if (op.code == TRY_UNIQUE || op.code == TRY_CONST_UNIQUE || op.code == TRY_SHARED) {
                    for (int w = 0; w < 2; ++w) if (i64* s = X::st(w)) SIM_CHECK(!MState::waited(s), "blocking-try", "a try guard waited for the mutex");
                }
                if (op.fk == F_MUTEX && thread_faults_fired()) SIM_CHECK(threw, "swallowed-exception", "a lock function threw but the caller saw nothing");
                if (threw) SIM_CHECK(bool(kept) == had, "wrong-lock", "a guard exists though locking threw");
                if (kept) {
                    kept->use();
                    held(kept_w, kept_kind == 1, kept_kind == 2, "while a guard is kept");
                    held(!kept_w, 0, 0, "after a guard is gone");
                }
                else for (int w = 0; w < 2; ++w) held(w, 0, 0, threw ? "after locking threw" : "after the guards are gone");
            }
            {
                Op last;
                last.code = RELEASE;
                TOp scope(last);
                if (kept) kept->use();
                kept.reset();
                for (int w = 0; w < 2; ++w) held(w, 0, 0, "at the end");
            }
            sync(false);
        }
    };

    static void go(Case& c) {
        Raw<D> r0, r1;
        Ctx x = {c, {nullptr, nullptr}};
        scratch()[N_CONSTRUCTED] = 0;
        x.d[0] = &r0.make();
        x.d[1] = &r1.make(30, std::unique_ptr<int>(new int(12)));
        SIM_CHECK(x.d[1]->unique_lock()->args == 42 && x.d[0]->unique_lock()->args == 0, "wrong-value", "the data is not constructed from the given arguments");
        run_threads(c.cfg[1], x);
        i64 total = 0;
        for (int w = 0; w < 2; ++w) {
            { // everything is free again
                auto g = x.d[w]->try_unique_lock();
                SIM_CHECK(bool(g), "wrong-lock", "the mutex is still held after every guard is gone");
                total += g->v[0];
                g->write();
            }
            if (i64* s = X::st(w)) SIM_CHECK(!s[MX_OWNER] && !s[MX_DEPTH], "wrong-lock", "the mutex is still held");
        }
        SIM_CHECK(total + 2 == scratch()[N_WRITES], "lost-write", "%lld writes were made and %lld are found", (long long)scratch()[N_WRITES], (long long)total + 2);
        ev(u64(total));
        state(u64(total) + u64(c.cfg[0]) * 1000 + u64(c.ops.size()) * 100000);
        r0.kill();
        r1.kill();
    }
};

struct H : Harness {
    const char* property() override { return "C04"; }
    const char* op_name(int c) override { return c >= 0 && c < OPS ? names[c] : "?"; }
    const char* cfg_names() override { return "mutex threads barrier"; }
    void generate(Rng& r, Case& c) override {
        const int nt = 2 + int(r.below(4) == 3 ? 2 : r.below(2));
        const bool barrier = r.chance(1, 10);
        c.cfg = {int(r.below(8)), nt, barrier};
        if (barrier) c.cfg[0] = r.chance(1, 2) ? 0 : 4 + int(r.below(2));
        const int total = nt == 2 ? int(r.range(2, 10)) : int(r.range(3, 14));
        const bool one = r.chance(2, 3);
        for (int i = 0; i < total; ++i) {
            Op o;
            o.tid = 1 + int(i < nt ? u64(i) : r.below(u64(nt)));
            int w[] = {5, 4, 3, 3, 5, 4, 0, 2, 2};
            int wb[] = {0, 0, 0, 0, 1, 1, 4, 0, 0};
            o.code = r.pick(barrier ? wb : w, OPS);
            o.a = one ? 0 : i64(r.below(2));
            o.b = i64(r.below(8));
            o.c = i64(r.below(4));
            if (barrier) o.a = 0;
            else if (r.chance(1, 5)) { o.fk = F_MUTEX; o.fn = 1; }
            else if (r.chance(1, 6)) { o.fk = F_CALL; o.fn = 1; }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override {
        switch (c.cfg[0]) {
        case 0: case 6: W<SimMutex<false>>::go(c); break;
        case 1: case 7: W<SimMutex<true>>::go(c); break;
        case 2: W<std::mutex>::go(c); break;
        case 3: W<std::recursive_mutex>::go(c); break;
#if __cplusplus >= 201703L
        case 4: W<std::shared_mutex>::go(c); break;
        case 5: W<std::shared_timed_mutex>::go(c); break;
#else
        default: W<SimMutex<false>>::go(c); break;
#endif
        }
    }
};
}
namespace sim { Harness* make_harness() { static char mem[sizeof(H)]; static H* h = ::new (static_cast<void*>(mem)) H; return h; } }
