// C03: strong_try_rec_mutex.
#include "trt.hpp"
#include <itlib/mutex.hpp>

using namespace sim;

namespace {
enum { TRY, UNLOCK, DEEP, WAIT, TRY_GUARD, UNLOCK_ALL, TRY_BOTH, OPS };
const char* names[] = {"try_lock", "unlock", "deep recursion", "wait for the others", "scoped try_lock", "unlock all", "try_lock both"};
enum { N_WAITING, N_DONE, N_GEN };
typedef itlib::strong_try_rec_mutex M;

struct Guarded { // plain data, several words
    i64 v[3];
    int owner;
};

bool step(const LOp& o, LState& s) {
    i64& owner = s.s[o.c * 2];
    i64& depth = s.s[o.c * 2 + 1];
    if (o.code == TRY) {
        const bool can = owner == 0 || owner == o.tid;
        if (bool(o.r) != can) return false;
        if (can) { owner = o.tid; ++depth; }
        return true;
    }
    if (owner != o.tid || depth < 1) return false;
    if (--depth == 0) owner = 0;
    return true;
}

struct Ctx {
    const Case& c;
    M* m[2];
    Guarded* g[2];
    LOp log[5][40];
    int n[5];
    int nthreads;

    void enter(int tid, int w) { // exclusive from here on
        Guarded& d = *g[w];
        SIM_CHECK(d.owner == 0, "not-exclusive", "thread %d owns the mutex while thread %d does", tid, d.owner);
        d.owner = tid;
    }
    void touch(int tid, int w) {
        Guarded& d = *g[w];
        SIM_CHECK(d.owner == tid, "not-exclusive", "thread %d owns the mutex and so does thread %d", tid, d.owner);
        const i64 x = d.v[0];
        SIM_CHECK(d.v[1] == -x && d.v[2] == x * 3, "not-exclusive", "guarded data is torn");
        d.v[0] = x + 1;
        yield_point();
        d.v[1] = -(x + 1);
        d.v[2] = (x + 1) * 3;
        SIM_CHECK(d.v[0] == x + 1, "not-exclusive", "guarded data changed under the owner");
    }
    void leave(int w) { g[w]->owner = 0; }

    bool rec_try(int tid, int w, int* depth) {
        LOp& l = log[tid][n[tid]];
        l = LOp();
        l.tid = tid; l.code = TRY; l.c = w;
        l.inv = stamp();
        const bool ok = m[w]->try_lock();
        l.res = stamp();
        l.r = ok;
        ++n[tid];
        if (ok && ++depth[w] == 1) enter(tid, w);
        if (ok) touch(tid, w);
        return ok;
    }
    void rec_unlock(int tid, int w, int* depth) {
        if (--depth[w] == 0) leave(w);
        LOp& l = log[tid][n[tid]];
        l = LOp();
        l.tid = tid; l.code = UNLOCK; l.c = w;
        l.inv = stamp();
        m[w]->unlock();
        l.res = stamp();
        ++n[tid];
    }
    void sync(bool wait) {
        i64* s = scratch();
        if (wait) ++s[N_WAITING]; else ++s[N_DONE];
        const i64 gen = s[N_GEN];
        if (s[N_WAITING] + s[N_DONE] == nthreads) {
            s[N_WAITING] = 0;
            ++s[N_GEN];
            wake_all(s);
        }
        else if (wait) while (s[N_GEN] == gen) block_on(s);
    }
    void operator()(int tid) {
        int depth[2] = {0, 0};
        for (auto& op : c.ops) {
            if (op.tid != tid) continue;
            TOp scope(op);
            const int w = int(op.a & 1);
            // keep room in the history for giving everything back
            const int room = 15 - n[tid] - depth[0] - depth[1];
            switch (op.code) {
            case TRY: if (room >= 2) rec_try(tid, w, depth); break;
            case UNLOCK: if (depth[w]) rec_unlock(tid, w, depth); break;
            case TRY_BOTH:
                if (room >= 4) {
                    const bool a = rec_try(tid, w, depth);
                    const bool b = rec_try(tid, !w, depth);
                    if (a && !b) rec_unlock(tid, w, depth);
                }
                break;
            case DEEP: {
                if (!depth[w]) break;
                const int k = int(op.b);
                for (int i = 0; i < k; ++i)
                    SIM_CHECK(m[w]->try_lock(), "refused", "the owner is refused at depth %d", depth[w] + i);
                touch(tid, w);
                for (int i = 0; i < k; ++i) m[w]->unlock();
                touch(tid, w);
                break;
            }
            case WAIT: sync(true); break;
            case TRY_GUARD:
                if (room >= 2) {
                    LOp& l = log[tid][n[tid]];
                    l = LOp();
                    l.tid = tid; l.code = TRY; l.c = w;
                    l.inv = stamp();
                    std::unique_lock<M> lk(*m[w], std::try_to_lock);
                    l.res = stamp();
                    l.r = lk.owns_lock();
                    ++n[tid];
                    if (!lk) break;
                    if (++depth[w] == 1) enter(tid, w);
                    touch(tid, w);
                    yield_point();
                    touch(tid, w);
                    if (--depth[w] == 0) leave(w);
                    LOp& u = log[tid][n[tid]];
                    u = LOp();
                    u.tid = tid; u.code = UNLOCK; u.c = w;
                    u.inv = stamp();
                    lk.unlock();
                    u.res = stamp();
                    ++n[tid];
                }
                break;
            case UNLOCK_ALL: while (depth[w]) rec_unlock(tid, w, depth); break;
            }
        }
        for (int w = 0; w < 2; ++w) while (depth[w]) rec_unlock(tid, w, depth);
        sync(false);
    }
};

struct H : Harness {
    const char* property() override { return "C03"; }
    const char* op_name(int c) override { return c >= 0 && c < OPS ? names[c] : "?"; }
    const char* cfg_names() override { return "threads phases deep"; }
    void generate(Rng& r, Case& c) override {
        const int nt = 2 + int(r.below(4) == 3 ? 2 : r.below(2));
        c.cfg = {nt, 1 + int(r.chance(1, 3)), 0};
        if (r.chance(1, 400)) c.cfg[2] = r.chance(1, 3) ? 66000 : 33000;
        const int total = nt == 2 ? int(r.range(2, 12)) : int(r.range(3, 14));
        const bool one = r.chance(2, 3);
        for (int i = 0; i < total; ++i) {
            Op o;
            o.tid = 1 + int(i < nt ? u64(i) : r.below(u64(nt)));
            int w[] = {8, 6, 1, 1, 3, 1, 1};
            o.code = r.pick(w, OPS);
            o.a = one ? 0 : i64(r.below(2));
            o.b = r.chance(1, 12) ? i64(r.range(120, 300)) : i64(r.range(1, 6));
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override {
        Raw<M> r0, r1;
        Raw<Guarded> g0, g1;
        Ctx x = {c, {&r0.make(), &r1.make()}, {&g0.make(), &g1.make()}, {}, {}, c.cfg[0]};
        for (Guarded* g : x.g) { g->owner = 0; g->v[0] = g->v[1] = g->v[2] = 0; }
        if (c.cfg[2]) {
            Op o;
            o.code = DEEP;
            for (int i = 0; i < c.cfg[2]; ++i) { TOp s(o); SIM_CHECK(x.m[0]->try_lock(), "refused", "the owner is refused at depth %d", i); }
            for (int i = 1; i < c.cfg[2]; ++i) { TOp s(o); x.m[0]->unlock(); }
            struct Other { M* m; void operator()(int) { SIM_CHECK(!m->try_lock(), "not-exclusive", "try_lock succeeded on a mutex owned by another thread"); } } other = {x.m[0]};
            run_threads(1, other);
            x.m[0]->unlock();
        }
        for (int p = 0; p < c.cfg[1]; ++p) {
            for (int& k : x.n) k = 0;
            __builtin_memset(scratch(), 0, 3 * sizeof(i64));
            run_threads(c.cfg[0], x);
            LOp all[62];
            int n = 0;
            for (int t = 1; t < 5; ++t) for (int i = 0; i < x.n[t] && n < 60; ++i) all[n++] = x.log[t][i];
            LState init = {};
            if (!linearizable(all, n, step, init)) {
                char b[1100];
                int k = 0;
                for (int i = 0; i < n && k < 1000; ++i)
                    k += snprintf(b + k, sizeof b - size_t(k), " [T%d %s#%lld=%lld @%llu-%llu]", all[i].tid, all[i].code == TRY ? "try_lock" : "unlock", (long long)all[i].c,
                        (long long)all[i].r, (unsigned long long)all[i].inv, (unsigned long long)all[i].res);
                fail("not-linearizable", "no order of the operations explains the results:%s", b);
            }
            i64 got = 0;
            for (int i = 0; i < n; ++i) got += all[i].code == TRY && all[i].r;
            ev(u64(got));
            state(u64(got) + u64(n) * 64 + u64(c.cfg[0]) * 10000);
            // free again, for this thread too
            for (int w = 0; w < 2; ++w) {
                SIM_CHECK(x.m[w]->try_lock(), "refused", "the mutex is refused after every owner released it");
                SIM_CHECK(x.m[w]->try_lock(), "refused", "the owner is refused");
                x.m[w]->unlock();
                x.m[w]->unlock();
            }
        }
        r0.kill();
        r1.kill();
    }
};
}
namespace sim { Harness* make_harness() { static char mem[sizeof(H)]; static H* h = ::new (static_cast<void*>(mem)) H; return h; } }
