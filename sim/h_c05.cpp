// C05: atomic_relaxed_counter under simulated schedules, against a sequential
// modular counter.
#include "trt.hpp"
#include <itlib/atomic.hpp>

using namespace sim;

namespace {
enum { LOAD, CONV, STORE, ASSIGN, PRE_INC, POST_INC, ADD, PRE_DEC, POST_DEC, SUB, COPY, COPY_ASSIGN, LOCAL_COPY_ASSIGN, ASSIGN_LOCAL, OPS,
    REG_LOAD, REG_STORE };
const char* names[] = {"load", "conversion", "store", "assign", "++c", "c++", "c += x", "--c", "c--", "c -= x", "copy-construct",
    "c = other counter", "local = c", "c = local"};

template <typename I>
struct W {
    typedef itlib::atomic_relaxed_counter<I> C;

    // counters 0 and 1; registers of threads 1..3 (copy assignment is a load, then a store)
    static bool step(const LOp& o, LState& s) {
        i64& v = s.s[o.c];
        I cur = I(v), x = I(o.a);
        switch (o.code) {
        case LOAD: case CONV: case COPY: case LOCAL_COPY_ASSIGN: return I(o.r) == cur;
        case STORE: case ASSIGN_LOCAL: v = i64(x); return true;
        case ASSIGN: v = i64(x); return I(o.r) == x;
        case PRE_INC: v = i64(I(u64(cur) + 1)); return I(o.r) == I(v);
        case POST_INC: v = i64(I(u64(cur) + 1)); return I(o.r) == cur;
        case ADD: v = i64(I(u64(cur) + u64(x))); return I(o.r) == I(v);
        case PRE_DEC: v = i64(I(u64(cur) - 1)); return I(o.r) == I(v);
        case POST_DEC: v = i64(I(u64(cur) - 1)); return I(o.r) == cur;
        case SUB: v = i64(I(u64(cur) - u64(x))); return I(o.r) == I(v);
        case REG_LOAD: s.s[1 + o.tid] = v; s.s[5] |= i64(1) << o.tid; return true;
        case REG_STORE:
            if (!(s.s[5] >> o.tid & 1)) return false;
            v = s.s[1 + o.tid];
            s.s[1 + o.tid] = 0;
            s.s[5] &= ~(i64(1) << o.tid);
            return true;
        }
        return false;
    }

    struct Ctx {
        const Case& c;
        C* cs[2];
        LOp log[5][24];
        int n[5];
        void operator()(int tid) {
            for (auto& op : c.ops) {
                if (op.tid != tid) continue;
                TOp scope(op);
                if (n[tid] + 2 > 24) break;
                const int w = int(op.b & 1);
                C& x = *cs[w];
                const C& cx = x;
                LOp& l = log[tid][n[tid]];
                l = LOp();
                l.tid = tid; l.code = op.code; l.a = op.a; l.c = w;
                const I arg = I(op.a);
                l.inv = stamp();
                switch (op.code) {
                case LOAD: l.r = i64(cx.load()); break;
                case CONV: { I v = cx; l.r = i64(v); break; }
                case STORE: x.store(arg); break;
                case ASSIGN: l.r = i64(x = arg); break;
                case PRE_INC: l.r = i64(++x); break;
                case POST_INC: l.r = i64(x++); break;
                case ADD: l.r = i64(x += arg); break;
                case PRE_DEC: l.r = i64(--x); break;
                case POST_DEC: l.r = i64(x--); break;
                case SUB: l.r = i64(x -= arg); break;
                case COPY: {
                    C k(cx);
                    l.r = i64(k.load());
                    l.res = stamp();
                    k += I(3);
                    ++k;
                    SIM_CHECK(I(k) == I(u64(I(l.r)) + 4), "wrong-value", "a copied counter is not independent");
                    ++n[tid];
                    continue;
                }
                case LOCAL_COPY_ASSIGN: {
                    C k(I(op.d));
                    C& r = (k = cx);
                    SIM_CHECK(&r == &k, "wrong-value", "assignment does not return the counter");
                    l.r = i64(k.load());
                    break;
                }
                case ASSIGN_LOCAL: {
                    C k(arg);
                    x = k;
                    l.res = stamp();
                    SIM_CHECK(I(k) == arg, "wrong-value", "assigning from a counter changed it");
                    ++n[tid];
                    continue;
                }
                case COPY_ASSIGN: {
                    const C& src = *cs[op.c & 1];
                    x = src;
                    const u64 e = stamp(), b = l.inv;
                    l.code = REG_LOAD; l.c = op.c & 1; l.res = e;
                    ++n[tid];
                    LOp& m = log[tid][n[tid]];
                    m = LOp();
                    m.tid = tid; m.code = REG_STORE; m.c = w; m.inv = b; m.res = e;
                    ++n[tid];
                    continue;
                }
                }
                l.res = stamp();
                ++n[tid];
            }
        }
    };

    static void go(Case& c) {
        Raw<C> r0, r1;
        Ctx x = {c, {&r0.make(I(c.cfg[2])), &r1.make(I(c.cfg[3]))}, {}, {}};
        SIM_CHECK(x.cs[0]->load() == I(c.cfg[2]) && x.cs[1]->load() == I(c.cfg[3]), "wrong-value", "a constructed counter does not hold its initial value");
        run_threads(c.cfg[1], x);
        LOp all[60];
        int n = 0;
        for (int t = 1; t < 5; ++t) for (int i = 0; i < x.n[t]; ++i) if (n < 58) all[n++] = x.log[t][i];
        for (int w = 0; w < 2; ++w) {
            LOp& l = all[n++];
            l = LOp();
            l.code = LOAD; l.c = w; l.tid = 0;
            l.inv = stamp();
            l.r = i64(x.cs[w]->load());
            l.res = stamp();
            ev(u64(l.r));
        }
        LState init = {};
        init.s[0] = i64(I(c.cfg[2]));
        init.s[1] = i64(I(c.cfg[3]));
        if (!linearizable(all, n, step, init)) {
            char b[900];
            int k = 0;
            for (int i = 0; i < n && k < 800; ++i)
                k += snprintf(b + k, sizeof b - size_t(k), " [T%d %s#%lld(%lld)=%lld @%llu-%llu]", all[i].tid, all[i].code < OPS ? names[all[i].code] : "copy", (long long)all[i].c,
                    (long long)all[i].a, (long long)all[i].r, (unsigned long long)all[i].inv, (unsigned long long)all[i].res);
            fail("not-linearizable", "no order of the operations explains the results:%s", b);
        }
        state(u64(x.cs[0]->load()) * 31 + u64(c.cfg[0]));
        r0.kill();
        r1.kill();
    }
};

struct H : Harness {
    const char* property() override { return "C05"; }
    const char* op_name(int c) override { return c >= 0 && c < OPS ? names[c] : "?"; }
    const char* cfg_names() override { return "type threads initial0 initial1"; }
    void generate(Rng& r, Case& c) override {
        static const int inits[] = {0, 0, 1, -1, 127, 126, -128, 255, 254, 32767, -32768, 65535, 2147483647, -2147483647 - 1};
        const int nt = 2 + int(r.below(3) == 2 ? 2 : r.below(2));
        c.cfg = {int(r.below(13)), nt, inits[r.below(14)], inits[r.below(14)]};
        const int total = nt == 2 ? int(r.range(2, 10)) : int(r.range(3, 13));
        const bool one = r.chance(2, 3);
        for (int i = 0; i < total; ++i) {
            Op o;
            o.tid = 1 + int(i < nt ? u64(i) : r.below(u64(nt)));
            int w[] = {4, 2, 2, 2, 4, 4, 5, 4, 4, 5, 2, 1, 2, 1};
            o.code = r.pick(w, OPS);
            if (nt > 3 && o.code == COPY_ASSIGN) o.code = ADD; // registers of three threads
            static const i64 args[] = {1, 2, 3, -1, 100, 127, 128, 255, 256, 1000, 32767, 65536, 2147483647, -2147483648ll, 1ll << 40, INT64_MAX, INT64_MIN};
            o.a = args[r.below(17)];
            o.b = one ? 0 : i64(r.below(2));
            o.c = i64(r.below(2));
            o.d = i64(r.below(5));
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override {
        switch (c.cfg[0]) {
        case 0: W<int8_t>::go(c); break;
        case 1: W<uint8_t>::go(c); break;
        case 2: W<int16_t>::go(c); break;
        case 3: W<uint16_t>::go(c); break;
        case 4: W<int32_t>::go(c); break;
        case 5: W<uint32_t>::go(c); break;
        case 6: W<int64_t>::go(c); break;
        case 7: W<uint64_t>::go(c); break;
        case 8: W<char>::go(c); break;
        case 9: W<long long>::go(c); break;
        case 10: W<unsigned long long>::go(c); break;
        case 11: W<wchar_t>::go(c); break;
        case 12: W<char16_t>::go(c); break;
        }
    }
};
}
namespace sim { Harness* make_harness() { static char mem[sizeof(H)]; static H* h = ::new (static_cast<void*>(mem)) H; return h; } }
