// C01: atomic_shared_ptr_storage operations are linearizable. C++11 to C++20.
#include "trt.hpp"
#include <itlib/atomic_shared_ptr_storage.hpp>

using namespace sim;

namespace {
enum { LOAD, STORE, EXCHANGE, CAS, CAS_LAST, CAS_SAME, CAS_MOVED, STORE_LAST, LOCAL, STORE_RVALUE, OPS };
const char* names[] = {"load", "store", "exchange", "compare_exchange", "compare_exchange(last seen)", "compare_exchange(e, e)", "compare_exchange(e, move(e))",
    "store(last seen)", "local storage", "store(copy, moved)"};

struct Payload {
    int x[4];
    int check;
    Payload() : check(77) { x[0] = x[1] = x[2] = x[3] = 5; }
    ~Payload() { check = -1; }
};

// the values: 0 is null, others are (owner, address) pairs
const int NV = 10;

template <typename T>
struct W {
    typedef std::shared_ptr<T> P;
    typedef itlib::atomic_shared_ptr_storage<T> S;

    static bool step(const LOp& o, LState& s) {
        i64& v = s.s[o.c];
        switch (o.code) {
        case LOAD: return o.r == v;
        case STORE: v = o.a; return true;
        case EXCHANGE: if (o.r != v) return false; v = o.a; return true;
        case CAS: // expected a, desired b, success r, expected afterwards r2
            if (v == o.a) { if (!o.r || o.r2 != o.a) return false; v = o.b; return true; }
            return !o.r && o.r2 == v;
        }
        return false;
    }

    struct Ctx {
        const Case& c;
        S* st[2];
        P pool[NV];
        LOp log[5][16];
        int n[5];
        P last[5];
        P kept[5][16];

        int ident(const P& p) const {
            for (int i = 0; i < NV; ++i)
                if (p.get() == pool[i].get() && !p.owner_before(pool[i]) && !pool[i].owner_before(p)) return i;
            return -1;
        }
        int checked(const P& p, const char* what) const {
            const int i = ident(p);
            if (i < 0) fail("half-applied", "%s gave a pointer with an address and an owner which were never stored together", what);
            return i;
        }
        void operator()(int tid) {
            for (auto& op : c.ops) {
                if (op.tid != tid || n[tid] >= 15) continue;
                TOp scope(op);
                S& s = *st[op.c & 1];
                const S& cs = s;
                LOp& l = log[tid][n[tid]];
                l = LOp();
                l.tid = tid; l.c = op.c & 1;
                const int a = int(op.a % NV), b = int(op.b % NV);
                P got;
                switch (op.code) {
                case LOAD:
                    l.code = LOAD;
                    l.inv = stamp();
                    got = cs.load();
                    l.res = stamp();
                    l.r = checked(got, "load");
                    last[tid] = got;
                    break;
                case STORE:
                    l.code = STORE; l.a = a;
                    l.inv = stamp();
                    s.store(pool[a]);
                    l.res = stamp();
                    break;
                case STORE_RVALUE: {
                    P t = pool[a];
                    l.code = STORE; l.a = a;
                    l.inv = stamp();
                    s.store(std::move(t));
                    l.res = stamp();
                    SIM_CHECK(!t, "wrong-value", "a moved pointer was not taken");
                    break;
                }
                case STORE_LAST: {
                    l.code = STORE; l.a = checked(last[tid], "a load");
                    l.inv = stamp();
                    s.store(last[tid]);
                    l.res = stamp();
                    break;
                }
                case EXCHANGE:
                    l.code = EXCHANGE; l.a = a;
                    l.inv = stamp();
                    got = s.exchange(pool[a]);
                    l.res = stamp();
                    l.r = checked(got, "exchange");
                    last[tid] = got;
                    break;
                case CAS: case CAS_LAST: case CAS_SAME: case CAS_MOVED: {
                    P e = op.code == CAS_LAST ? last[tid] : pool[a];
                    l.code = CAS;
                    l.a = op.code == CAS_MOVED ? 0 : checked(e, "a load");
                    l.b = op.code == CAS_SAME ? l.a : op.code == CAS_MOVED ? i64(a) : i64(b);
                    l.inv = stamp();
                    bool ok;
                    if (op.code == CAS_SAME) ok = s.compare_exchange(e, e);
                    else if (op.code == CAS_MOVED) { P d = std::move(e); e.reset(); ok = s.compare_exchange(e, std::move(d)); }
                    else ok = s.compare_exchange(e, pool[b]);
                    l.res = stamp();
                    l.r = ok;
                    l.r2 = checked(e, "compare_exchange");
                    got = e;
                    last[tid] = e;
                    break;
                }
                case LOCAL: {
                    S mine(pool[a]);
                    SIM_CHECK(ident(mine.load()) == a, "wrong-value", "a storage does not hold the pointer it was constructed with");
                    P x = mine.exchange(pool[b]);
                    SIM_CHECK(ident(x) == a && ident(mine.load()) == b, "wrong-value", "exchange on an unshared storage");
                    P e = pool[a];
                    const bool ok = mine.compare_exchange(e, pool[(a + b) % NV]);
                    SIM_CHECK(ok == (a == b) && ident(e) == (ok ? a : b), "wrong-value", "compare_exchange on an unshared storage");
                    SIM_CHECK(ident(mine.load()) == (ok ? (a + b) % NV : b), "wrong-value", "compare_exchange on an unshared storage");
                    S none;
                    P en;
                    SIM_CHECK(!none.load() && none.compare_exchange(en, pool[a]) && ident(none.load()) == a, "wrong-value", "a default-constructed storage is not null");
                    continue;
                }
                }
                if (op.d & 1) kept[tid][n[tid]] = got;
                ++n[tid];
            }
        }
    };

    static void go(Case& c) {
        std::shared_ptr<Payload> own[3];
        for (auto& o : own) o = std::make_shared<Payload>();
        Raw<S> r0, r1;
        {
            Ctx x = {c, {nullptr, nullptr}, {}, {}, {}, {}, {}};
            x.pool[1] = own[0];
            x.pool[2] = own[1];
            x.pool[3] = own[2];
            x.pool[4] = P(own[1], own[0].get());  // the address of one, the owner of another
            x.pool[5] = P(own[0], own[1].get());
            x.pool[6] = P(own[0], static_cast<T*>(nullptr)); // null with an owner
            x.pool[7] = P(std::shared_ptr<int>(), own[2].get()); // no owner
            x.pool[8] = P(own[2], own[0].get());
            x.pool[9] = P(own[1], static_cast<T*>(nullptr));
            long base[3];
            for (int i = 0; i < 3; ++i) base[i] = own[i].use_count();
            const int i0 = c.cfg[2] % NV, i1 = c.cfg[3] % NV;
            x.st[0] = i0 ? &r0.make(x.pool[i0]) : &r0.make();
            x.st[1] = &r1.make(x.pool[i1]);
            run_threads(c.cfg[1], x);
            LOp all[62];
            int n = 0;
            for (int t = 1; t < 5; ++t) for (int i = 0; i < x.n[t]; ++i) if (n < 58) all[n++] = x.log[t][i];
            int fin[2];
            for (int w = 0; w < 2; ++w) {
                LOp& l = all[n++];
                l = LOp();
                l.code = LOAD; l.c = w;
                l.inv = stamp();
                P p = x.st[w]->load();
                l.res = stamp();
                l.r = fin[w] = x.checked(p, "load");
                ev(u64(l.r));
            }
            LState init = {};
            init.s[0] = i0;
            init.s[1] = i1;
            if (!linearizable(all, n, step, init)) {
                char b[1100];
                int k = 0;
                static const char* nm[] = {"load", "store", "exchange", "cas"};
                for (int i = 0; i < n && k < 1000; ++i)
                    k += snprintf(b + k, sizeof b - size_t(k), " [T%d %s#%lld(%lld,%lld)=%lld,%lld @%llu-%llu]", all[i].tid, nm[all[i].code], (long long)all[i].c,
                        (long long)all[i].a, (long long)all[i].b, (long long)all[i].r, (long long)all[i].r2, (unsigned long long)all[i].inv, (unsigned long long)all[i].res);
                fail("not-linearizable", "no order of the operations explains the results:%s", b);
            }
            state(u64(fin[0] * 16 + fin[1]) + u64(n) * 1000);
            // every owner is counted once for what is held
            long want[3] = {base[0], base[1], base[2]};
            static const int owner_of[NV] = {-1, 0, 1, 2, 1, 0, 0, -1, 2, 1};
            auto count = [&](const P& p) { const int i = x.ident(p); if (i >= 0 && owner_of[i] >= 0) ++want[owner_of[i]]; };
            for (int t = 0; t < 5; ++t) { count(x.last[t]); for (auto& k : x.kept[t]) count(k); }
            for (int w = 0; w < 2; ++w) if (owner_of[fin[w]] >= 0) ++want[owner_of[fin[w]]];
            for (int i = 0; i < 3; ++i)
                SIM_CHECK(own[i].use_count() == want[i], "ownership", "owner %d is counted %ld times while %ld pointers hold it", i, own[i].use_count(), want[i]);
            r0.kill();
            r1.kill();
            for (int w = 0; w < 2; ++w) if (owner_of[fin[w]] >= 0) --want[owner_of[fin[w]]];
            for (int i = 0; i < 3; ++i)
                SIM_CHECK(own[i].use_count() == want[i], "ownership", "owner %d is counted %ld times after the storage is gone while %ld pointers hold it", i, own[i].use_count(), want[i]);
        }
        for (auto& o : own) SIM_CHECK(o.use_count() == 1 && o->check == 77, "ownership", "ownership is not back to one");
    }
};

struct H : Harness {
    const char* property() override { return "C01"; }
    const char* op_name(int c) override { return c >= 0 && c < OPS ? names[c] : "?"; }
    const char* cfg_names() override { return "type threads initial0 initial1"; }
    void generate(Rng& r, Case& c) override {
        const int nt = 2 + int(r.below(4) == 3 ? 2 : r.below(2));
        c.cfg = {int(r.below(3)), nt, int(r.below(NV)), int(r.below(NV))};
        const int total = nt == 2 ? int(r.range(2, 9)) : int(r.range(3, 12));
        const bool one = r.chance(3, 4);
        // few values make the interesting coincidences likely
        int vals[4];
        const int nv = int(r.range(2, 4));
        for (int& v : vals) v = int(r.below(NV));
        if (r.chance(1, 3)) { vals[0] = 1; vals[1] = 4; vals[2] = 8; }
        if (r.chance(1, 5)) { vals[0] = 0; vals[1] = 6; vals[2] = 9; }
        c.cfg[2] = vals[r.below(u64(nv))];
        for (int i = 0; i < total; ++i) {
            Op o;
            o.tid = 1 + int(i < nt ? u64(i) : r.below(u64(nt)));
            int w[] = {5, 4, 5, 6, 4, 1, 1, 1, 1, 1};
            o.code = r.pick(w, OPS);
            o.a = vals[r.below(u64(nv))];
            o.b = vals[r.below(u64(nv))];
            o.c = one ? 0 : i64(r.below(2));
            o.d = i64(r.below(2));
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override {
        switch (c.cfg[0]) {
        case 0: W<Payload>::go(c); break;
        case 1: W<const Payload>::go(c); break;
        case 2: W<void>::go(c); break;
        }
    }
};
}
namespace sim { Harness* make_harness() { static char mem[sizeof(H)]; static H* h = ::new (static_cast<void*>(mem)) H; return h; } }
