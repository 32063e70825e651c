// C02: safe publication, lifetime and progress of atomic_shared_ptr_storage.
#include "trt.hpp"
#include <itlib/atomic_shared_ptr_storage.hpp>

using namespace sim;

namespace {
enum { PUB_STORE, PUB_EXCHANGE, READ, UPDATE, CLEAR, PUSH, POP, CAS_OWNED, KEEP, DROP, WEAK, RESTORE, CAS_NULL, SWAP, OPS };
const char* names[] = {"publish by store", "publish by exchange", "load and read", "update by compare_exchange", "store null", "push", "pop",
    "failing compare_exchange owning the expected", "load and keep", "drop the kept", "weak reference", "store what was loaded", "compare_exchange(null, new)", "swap two storages"};
enum { N_LIVE, N_MADE, N_PUSHED, N_POPPED, N_QUIET, N_DEPTH };

struct Node;
typedef std::shared_ptr<Node> P;
typedef itlib::atomic_shared_ptr_storage<Node> S;

struct Node {
    int magic;
    int a, b;
    int c[4];
    int mode;     // what the destructor does with the storage
    S* home;
    S next;       // for the stack
    int idx;      // for the stack
    Node(int v, int m, S* h) : magic(0x600D), a(v), b(~v), mode(m), home(h), idx(-1) {
        for (int i = 0; i < 4; ++i) c[i] = 0;
        ++scratch()[N_LIVE];
        ++scratch()[N_MADE];
    }
    void finish() { for (int i = 0; i < 4; ++i) c[i] = a + i; } // after construction, before publishing
    void verify(const char* where) const {
        SIM_CHECK(magic == 0x600D, "lifetime", "%s gives an object which is already destroyed", where);
        SIM_CHECK(b == ~a && c[0] == a && c[1] == a + 1 && c[2] == a + 2 && c[3] == a + 3, "publication", "%s gives an object which is not fully constructed", where);
    }
    ~Node();
};
P make(int v, int mode, S* home, int how) {
    P p;
    if (how == 0) p = std::make_shared<Node>(v, mode, home);
    else if (how == 1) p = P(new Node(v, mode, home));
    else p = P(new Node(v, mode, home), [](Node* n) { delete n; });
    p->finish();
    return p;
}
Node::~Node() {
    verify("the destructor");
    --scratch()[N_LIVE];
    if (home && !scratch()[N_QUIET] && scratch()[N_DEPTH] < 40) {
        ++scratch()[N_DEPTH];
        SIM_PROBE("destructor_uses_storage");
        switch (mode) {
        case 1: { P p = home->load(); if (p) p->verify("a load in a destructor"); break; }
        case 2: { P p = home->exchange(P()); if (p) p->verify("an exchange in a destructor"); break; }
        case 3: home->store(make(a + 1000, 0, nullptr, 0)); break;
        case 4: { P e = home->load(); home->compare_exchange(e, make(a + 2000, 0, nullptr, 0)); if (e) e->verify("a compare_exchange in a destructor"); break; }
        case 5: home->store(P()); break;
        case 6: { P e; home->compare_exchange(e, P()); if (e) e->verify("a compare_exchange in a destructor"); break; }
        case 7: { P e = make(a + 3000, 0, nullptr, 1); home->compare_exchange(e, make(a + 4000, 0, nullptr, 0)); if (e) e->verify("a compare_exchange in a destructor"); break; }
        default: break;
        }
        --scratch()[N_DEPTH];
    }
    magic = 0xDEAD;
    a = b = -7;
}

struct Ctx {
    const Case& c;
    S* st[2];
    S* head;
    P kept[5][6];
    int nkept[5];

    void operator()(int tid) {
        for (auto& op : c.ops) {
            if (op.tid != tid) continue;
            TOp scope(op);
            S& s = *st[op.c & 1];
            const S& cs = s;
            S* home = op.b & 8 ? st[(op.c ^ op.b) & 1] : &s;
            const int mode = int(op.b & 7);
            const int how = int(op.d % 3);
            const int v = int(op.a);
            switch (op.code) {
            case PUB_STORE: s.store(make(v, mode, home, how)); break;
            case PUB_EXCHANGE: {
                P o = s.exchange(make(v, mode, home, how));
                if (o) o->verify("exchange");
                break;
            }
            case READ: {
                P p = cs.load();
                if (p) {
                    p->verify("load");
                    yield_point();
                    yield_point();
                    p->verify("a loaded pointer");
                }
                break;
            }
            case UPDATE: {
                P cur = s.load();
                for (int i = 0; i < 3; ++i) {
                    if (cur) cur->verify("a load or a failed compare_exchange");
                    P nx = make((cur ? cur->a : 0) + 1, mode, home, how);
                    if (s.compare_exchange(cur, std::move(nx))) break;
                }
                break;
            }
            case CLEAR: s.store(P()); break;
            case PUSH: {
                P n = make(v, 0, nullptr, how);
                n->idx = int(scratch()[N_PUSHED]++);
                P h = head->load();
                for (;;) {
                    n->next.store(h);
                    if (head->compare_exchange(h, n)) break;
                    if (h) h->verify("the head of a stack");
                }
                break;
            }
            case POP: {
                P h = head->load();
                while (h) {
                    h->verify("the head of a stack");
                    P n = h->next.load();
                    if (head->compare_exchange(h, n)) {
                        const int i = 32 + h->idx;
                        SIM_CHECK(h->idx >= 0 && scratch()[i] == 0, "conservation", "an element of the stack is popped twice");
                        scratch()[i] = 1;
                        ++scratch()[N_POPPED];
                        break;
                    }
                }
                break;
            }
            case CAS_OWNED: {
                // the overwritten expected pointer is the last owner of something
                P e = make(v, mode, home, how);
                const bool ok = s.compare_exchange(e, make(v + 1, 0, nullptr, 0));
                SIM_CHECK(!ok, "wrong-value", "compare_exchange succeeded with a pointer nobody stored");
                if (e) e->verify("a failed compare_exchange");
                break;
            }
            case CAS_NULL: {
                P e;
                P nx = make(v, mode, home, how);
                const bool ok = s.compare_exchange(e, nx);
                if (ok) SIM_CHECK(!e, "wrong-value", "a successful compare_exchange changed the expected pointer");
                else { SIM_CHECK(!!e, "wrong-value", "compare_exchange(null) failed with null"); e->verify("a failed compare_exchange"); }
                nx->verify("an own pointer");
                break;
            }
            case KEEP: {
                P p = cs.load();
                if (p && nkept[tid] < 6) { p->verify("load"); kept[tid][nkept[tid]++] = p; }
                break;
            }
            case DROP:
                while (nkept[tid]) {
                    kept[tid][nkept[tid] - 1]->verify("a kept pointer");
                    kept[tid][--nkept[tid]].reset();
                }
                break;
            case WEAK: {
                std::weak_ptr<Node> w = cs.load();
                yield_point();
                if (P p = w.lock()) p->verify("a locked weak pointer");
                break;
            }
            case RESTORE: s.store(cs.load()); break;
            case SWAP: {
                P p = s.exchange(P());
                if (p) p->verify("exchange");
                p = st[~op.c & 1]->exchange(std::move(p));
                if (p) p->verify("exchange");
                s.store(std::move(p));
                break;
            }
            }
        }
    }
};

struct H : Harness {
    const char* property() override { return "C02"; }
    const char* op_name(int c) override { return c >= 0 && c < OPS ? names[c] : "?"; }
    const char* cfg_names() override { return "initial threads mode"; }
    void generate(Rng& r, Case& c) override {
        const int nt = 2 + int(r.below(4) == 3 ? 2 : r.below(2));
        c.cfg = {int(r.below(3)), nt, int(r.below(16))};
        const int total = nt == 2 ? int(r.range(2, 9)) : int(r.range(3, 12));
        const bool one = r.chance(2, 3);
        const bool quiet = r.chance(1, 3);
        const bool stack = r.chance(1, 5);
        for (int i = 0; i < total; ++i) {
            Op o;
            o.tid = 1 + int(i < nt ? u64(i) : r.below(u64(nt)));
            int w[] = {4, 4, 5, 5, 2, 1, 1, 2, 3, 3, 2, 1, 2, 1};
            int w2[] = {0, 0, 0, 0, 0, 5, 5, 0, 0, 0, 0, 0, 0, 0};
            o.code = r.pick(stack ? w2 : w, OPS);
            o.a = i64(r.below(1000));
            o.b = quiet ? 0 : i64(r.below(16));
            o.c = one ? 0 : i64(r.below(2));
            o.d = i64(r.below(3));
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override {
        Raw<S> r0, r1, r2;
        {
            Ctx x = {c, {nullptr, nullptr}, nullptr, {}, {}};
            x.st[0] = &r0.make();
            x.st[1] = &r1.make(make(3, 0, nullptr, 0));
            x.head = &r2.make();
            if (c.cfg[0]) x.st[0]->store(make(1, c.cfg[2] & 7, x.st[c.cfg[2] >> 3], c.cfg[0]));
            run_threads(c.cfg[1], x);
            // progress and reachability once it is quiet
            i64 left = 0;
            for (P p = x.head->load(); p; p = p->next.load()) { p->verify("the stack"); ++left; }
            SIM_CHECK(left + scratch()[N_POPPED] == scratch()[N_PUSHED], "conservation", "of %lld pushed elements %lld were popped and %lld are left",
                (long long)scratch()[N_PUSHED], (long long)scratch()[N_POPPED], (long long)left);
            for (int t = 0; t < 5; ++t) for (int i = 0; i < x.nkept[t]; ++i) x.kept[t][i]->verify("a kept pointer");
            scratch()[N_QUIET] = 1;
            for (S* s : x.st) if (P p = s->load()) p->verify("the storage");
            ev(u64(scratch()[N_LIVE]));
            state(u64(scratch()[N_LIVE]) + u64(scratch()[N_MADE]) * 64);
        }
        // only what the storages own is left
        i64 owned = 0;
        {
            P p = r0->load(), q = r1->load();
            owned += !!p + (q && q != p);
            for (P n = r2->load(); n; n = n->next.load()) ++owned;
        }
        SIM_CHECK(scratch()[N_LIVE] == owned, "lifetime", "%lld objects are alive while %lld are owned by the storages", (long long)scratch()[N_LIVE], (long long)owned);
        r0.kill();
        r1.kill();
        r2.kill();
        SIM_CHECK(scratch()[N_LIVE] == 0, "lifetime", "%lld objects outlive their owners and the storages", (long long)scratch()[N_LIVE]);
    }
};
}
namespace sim { Harness* make_harness() { static char mem[sizeof(H)]; static H* h = ::new (static_cast<void*>(mem)) H; return h; } }
