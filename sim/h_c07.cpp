// C07: enable_shared_from, make_shared, make_unique, make_aliased. C++11 and later.
#include "trt.hpp"
#include <itlib/shared_from.hpp>
#include <itlib/make_ptr.hpp>

using namespace sim;

namespace {
enum { SHARED_THIS, CSHARED_THIS, WEAK_THIS, CWEAK_THIS, SHARED_FROM, WEAK_FROM, COPY, DROP, DROP_EXTRA, LOCK, LOCK_ANY, EXPIRED, MAKE_SHARED, MAKE_UNIQUE,
    ALIASED, ALIASED_EMPTY, UNOWNED, NEW_OWNED, OPS };
const char* names[] = {"shared_from_this", "shared_from_this const", "weak_from_this", "weak_from_this const", "shared_from", "weak_from", "copy a pointer", "drop a pointer",
    "drop a derived pointer", "lock a weak pointer", "lock a derived weak pointer", "expired", "make_shared", "make_unique", "make_aliased", "make_aliased of no owner", "object without an owner", "object with a new owner"};
// per object: owners known to exist, when there last were none, destructions
enum { OWNERS = 0, ZEROED = 8, DEAD = 16, DELETED = 24, ALIVE = 32, PAY_LIVE = 40, PAY_COPIES = 48, PAY_MOVES = 56 };
#define PLAIN __attribute__((noinline, no_sanitize("thread")))
PLAIN void bump(int i, i64 by = 1) { scratch()[i] += by; }
PLAIN i64 at(int i) { return scratch()[i]; }
void gain(int w) { bump(OWNERS + w); }
PLAIN void lose(int w) { if (--scratch()[OWNERS + w] == 0) ++scratch()[ZEROED + w]; }
PLAIN void fresh(int w) { scratch()[OWNERS + w] = scratch()[DEAD + w] = scratch()[DELETED + w] = scratch()[ALIVE + w] = 0; }


struct Base {
    i64 x;
    Base() : x(7) {}
    virtual ~Base() {}
};
template <typename O>
void without_owner(O& o, const char* when) {
    const O& co = o;
    int threw = 0;
    try { auto p = o.sft(); } catch (std::bad_weak_ptr&) { ++threw; }
    try { auto p = co.sft(); } catch (std::bad_weak_ptr&) { ++threw; }
    try { auto p = o.sf(&o.vals[1]); } catch (std::bad_weak_ptr&) { ++threw; }
    SIM_CHECK(threw == 3, "false-owner", "%s an object without an owner gives a shared pointer (%d of 3 throw)", when, threw);
    bool none = true;
    try { auto p = o.wf(&o.vals[1]); none = p.expired() && !p.lock(); } catch (std::bad_weak_ptr&) {}
    SIM_CHECK(none, "false-owner", "%s weak_from of an object without an owner is not expired", when);
    try {
        std::weak_ptr<void> p = o.wft();
        SIM_CHECK(p.expired() && !p.lock(), "false-owner", "%s weak_from_this of an object without an owner is not expired", when);
    }
    catch (std::bad_weak_ptr&) {
        // before C++17 there is nothing it could be made from
        SIM_CHECK(__cplusplus < 201700, "false-owner", "%s weak_from_this of an object without an owner throws", when);
    }
    try {
        std::weak_ptr<const void> p = co.wft();
        SIM_CHECK(p.expired() && !p.lock(), "false-owner", "%s weak_from_this of an object without an owner is not expired", when);
    }
    catch (std::bad_weak_ptr&) {
        // before C++17 there is nothing it could be made from
        SIM_CHECK(__cplusplus < 201700, "false-owner", "%s weak_from_this of an object without an owner throws", when);
    }
}

template <typename Self>
struct Mix : itlib::enable_shared_from {
    std::shared_ptr<void> sft() { return shared_from_this(); }
    std::shared_ptr<const void> sft() const { return shared_from_this(); }
    std::weak_ptr<void> wft() { return weak_from_this(); }
    std::weak_ptr<const void> wft() const { return weak_from_this(); }
    template <typename T> std::shared_ptr<T> sf(T* p) const { return shared_from(p); }
    template <typename T> std::weak_ptr<T> wf(T* p) const { return weak_from(p); }
};
template <typename Self>
struct Body {
    int idx;
    i64 vals[3];
    explicit Body(int i) : idx(i) { for (int k = 0; k < 3; ++k) vals[k] = i * 10 + k; bump(ALIVE + idx); }
    void verify(const char* where) const {
        SIM_CHECK(vals[0] == idx * 10 && vals[1] == idx * 10 + 1 && vals[2] == idx * 10 + 2, "lifetime", "%s gives an object which is already destroyed", where);
    }
    void dying() {
        verify("the destructor");
        SIM_CHECK(at(OWNERS + idx) == 0, "lifetime", "an object is destroyed while %lld pointers own it", (long long)at(OWNERS + idx));
        bump(DEAD + idx);
        bump(ALIVE + idx, -1);
        SIM_CHECK(at(DEAD + idx) == 1, "lifetime", "an object is destroyed %lld times", (long long)at(DEAD + idx));
        SIM_PROBE("object_destroyed");
    }
    void gone() { for (auto& v : vals) v = -1; }
};
// the base is not at the start
struct O1 : Base, Body<O1>, Mix<O1> {
    explicit O1(int i) : Body<O1>(i) { without_owner(*this, "in its constructor"); }
    ~O1() { dying(); without_owner(*this, "in its destructor"); gone(); }
};
// a virtual base
struct O2 : virtual Mix<O2>, Base, Body<O2> {
    explicit O2(int i) : Body<O2>(i) { without_owner(*this, "in its constructor"); }
    ~O2() { dying(); without_owner(*this, "in its destructor"); gone(); }
};
// derived further
struct O3b : Mix<O3b>, Body<O3b> {
    explicit O3b(int i) : Body<O3b>(i) {}
    virtual ~O3b() { gone(); }
};
struct O3 : O3b, Base {
    explicit O3(int i) : O3b(i) { without_owner(*this, "in its constructor"); }
    ~O3() { dying(); without_owner(*this, "in its destructor"); }
};

struct Payload {
    i64 v, w;
    bool moved;
    explicit Payload(i64 x) : v(x), w(~x), moved(false) { bump(PAY_LIVE + self()); }
    Payload(const Payload& o) : v(o.v), w(o.w), moved(false) {
        if (fault(F_ELEM)) throw Injected{F_ELEM};
        bump(PAY_LIVE + self());
        bump(PAY_COPIES + self());
    }
    Payload(Payload&& o) : v(o.v), w(o.w), moved(false) {
        if (fault(F_ELEM)) throw Injected{F_ELEM};
        o.moved = true;
        o.v = 0;
        bump(PAY_LIVE + self());
        bump(PAY_MOVES + self());
    }
    ~Payload() { bump(PAY_LIVE + self(), -1); }
    bool intact(i64 x) const { return v == x && w == ~x && !moved; }
};
struct alignas(64) Wide { Payload p; explicit Wide(i64 x) : p(x) {} bool intact(i64 x) const { return p.intact(x) && (reinterpret_cast<uintptr_t>(this) & 63) == 0; } };

template <typename O>
struct W {
    typedef std::shared_ptr<O> P;

    struct Del { int w; void operator()(O* o) const { bump(DELETED + w); delete o; } };
    static P own(int w, int how) {
        fresh(w);
        P p;
        switch (how) {
        case 0: p = std::make_shared<O>(w); break;
        case 1: p = P(new O(w)); break;
        case 2: p = P(new O(w), Del{w}); break;
        case 3: p = std::allocate_shared<O>(std::allocator<int>(), w); break;
        case 4: { std::unique_ptr<O> u(new O(w)); without_owner(*u, "in a unique_ptr"); p = std::move(u); break; }
        case 5: { std::shared_ptr<Base> b(new O(w)); O* o = dynamic_cast<O*>(b.get()); p = P(b, o); break; }
        case 6: { std::shared_ptr<const O> k(new O(w)); p = std::const_pointer_cast<O>(k); break; }
        default: { std::shared_ptr<void> v(new O(w)); p = std::static_pointer_cast<O>(v); break; }
        }
        gain(w);
        return p;
    }

    struct Ctx {
        const Case& c;
        P mine[6][2];
        std::weak_ptr<O> weak[6][2];
        std::shared_ptr<const void> extra[6][6];
        int extra_w[6][6];
        std::weak_ptr<const void> wextra[6][4];
        int wextra_w[6][4];
        int n[6], wn[6];

        template <typename A, typename B>
        static bool same_owner(const A& a, const B& b) { return !a.owner_before(b) && !b.owner_before(a); }
        static bool within(const void* p, const O& o) { return p >= static_cast<const void*>(&o) && p < static_cast<const void*>(&o + 1); }

        void keep(int t, int w, std::shared_ptr<const void> p) {
            gain(w);
            if (n[t] < 6) { extra_w[t][n[t]] = w; extra[t][n[t]++] = std::move(p); }
            else { lose(w); p.reset(); }
        }
        void wkeep(int t, int w, std::weak_ptr<const void> p) {
            const int k = wn[t]++ & 3;
            wextra_w[t][k] = w;
            wextra[t][k] = std::move(p);
        }
        template <typename X>
        void check_owned(const std::shared_ptr<X>& p, int t, int w, const void* want, const char* what) {
            SIM_CHECK(p.use_count() >= 2, "foreign-owner", "%s is counted %ld times while another owner exists", what, p.use_count());
            SIM_CHECK(same_owner(p, mine[t][w]), "foreign-owner", "%s does not share ownership with the owner of the object", what);
            if (want) SIM_CHECK(static_cast<const void*>(p.get()) == want, "wrong-pointer", "%s points to the wrong place", what);
            else SIM_CHECK(within(p.get(), *mine[t][w]), "wrong-pointer", "%s points outside of the object", what);
        }
        template <typename X>
        void check_weak(const std::weak_ptr<X>& p, int t, int w, const void* want, const char* what) {
            SIM_CHECK(!p.expired(), "expired-early", "%s is expired while the object is owned", what);
            SIM_CHECK(same_owner(p, mine[t][w]), "foreign-owner", "%s does not share ownership with the owner of the object", what);
            const std::shared_ptr<X> l = p.lock();
            SIM_CHECK(bool(l.use_count()), "expired-early", "%s cannot be locked while the object is owned", what);
            check_owned(l, t, w, want, what);
        }
        template <typename X>
        std::shared_ptr<X> lock(const std::weak_ptr<X>& k, int w) {
            const i64 o = at(OWNERS + w), z = at(ZEROED + w), d = at(DEAD + w);
            std::shared_ptr<X> l = k.lock();
            if (!l.use_count()) SIM_CHECK(!(o > 0 && at(ZEROED + w) == z), "expired-early", "a weak pointer cannot be locked while the object is owned all the time");
            else SIM_CHECK(!d, "expired-late", "a weak pointer is locked after the object is gone");
            SIM_PROBE(l.use_count() ? "weak_lock_succeeds" : "weak_lock_fails");
            return l;
        }

        // the result of making something from an argument
        template <typename A, typename F>
        void making(A& arg, i64 v, const Op& op, bool copies, F f) {
            const int t = self();
            const i64 live = at(PAY_LIVE + t), cp = at(PAY_COPIES + t), mv = at(PAY_MOVES + t);
            bool threw = false;
            try {
                Sut s;
                auto p = f(arg);
                Host h;
                SIM_CHECK(p && p->intact(v), "wrong-value", "the made object is not equal to the argument");
                SIM_CHECK(static_cast<const void*>(&*p) != &arg, "wrong-value", "the made object is the argument itself");
                SIM_CHECK(at(PAY_LIVE + t) == live + 1, "wrong-value", "%lld objects were made instead of one", (long long)(at(PAY_LIVE + t) - live));
                SIM_CHECK(at(PAY_COPIES + t) - cp == (copies ? 1 : 0) && at(PAY_MOVES + t) - mv == (copies ? 0 : 1), "wrong-value", "the argument was copied %lld times and moved %lld times",
                    (long long)(at(PAY_COPIES + t) - cp), (long long)(at(PAY_MOVES + t) - mv));
            }
            catch (std::bad_alloc&) { threw = true; }
            catch (Injected&) { threw = true; }
            if (threw) SIM_CHECK(thread_faults_fired(), "unexpected-exception", "it throws though nothing fails");
            else SIM_CHECK(!thread_faults_fired(), "swallowed-exception", "something failed but nothing was thrown");
            SIM_CHECK(at(PAY_LIVE + t) == live, "leak", "an object is left behind");
            if (threw || copies) SIM_CHECK(arg.intact(v), "wrong-value", "the argument was changed");
            (void)op;
        }
        template <typename V>
        void make(const Op& op, bool shared) {
            const i64 v = op.b * 1000 + op.c;
            V a(v);
            const V& ca = a;
            switch (op.c % 4) {
            case 0:
                if (shared) making(a, v, op, true, [](V& x) { std::shared_ptr<V> p = itlib::make_shared(x); return p; });
                else making(a, v, op, true, [](V& x) { std::unique_ptr<V> p = itlib::make_unique(x); return p; });
                break;
            case 1:
                if (shared) making(ca, v, op, true, [](const V& x) { std::shared_ptr<const V> p = itlib::make_shared(x); return p; });
                else making(ca, v, op, true, [](const V& x) { std::unique_ptr<const V> p = itlib::make_unique(x); return p; });
                break;
            case 2:
                if (shared) making(a, v, op, false, [](V& x) { std::shared_ptr<V> p = itlib::make_shared(std::move(x)); return p; });
                else making(a, v, op, false, [](V& x) { std::unique_ptr<V> p = itlib::make_unique(std::move(x)); return p; });
                break;
            default:
                if (shared) making(ca, v, op, true, [](const V& x) { std::shared_ptr<const V> p = itlib::make_shared(std::move(x)); return p; });
                else making(ca, v, op, true, [](const V& x) { std::unique_ptr<const V> p = itlib::make_unique(std::move(x)); return p; });
            }
        }

        void drop_mine(int t, int w) {
            if (!mine[t][w]) return;
            lose(w);
            P p;
            p.swap(mine[t][w]);
            p.reset();
        }
        void operator()(int tid) {
            for (auto& op : c.ops) {
                if (op.tid != tid) continue;
                TOp scope(op);
                const int w = int(op.a & 1);
                P& p = mine[tid][w];
                const bool needs = op.code <= COPY || op.code == ALIASED;
                if (needs && !p) {
                    p = lock(weak[tid][w], w);
                    if (!p) continue;
                    gain(w);
                }
                if (needs) p->verify("an owning pointer");
                switch (op.code) {
                case SHARED_THIS: { std::shared_ptr<void> x = p->sft(); check_owned(x, tid, w, nullptr, "shared_from_this()"); keep(tid, w, x); break; }
                case CSHARED_THIS: { const O& k = *p; std::shared_ptr<const void> x = k.sft(); check_owned(x, tid, w, nullptr, "shared_from_this()"); keep(tid, w, x); break; }
                case WEAK_THIS: { std::weak_ptr<void> x = p->wft(); check_weak(x, tid, w, nullptr, "weak_from_this()"); wkeep(tid, w, x); break; }
                case CWEAK_THIS: { const O& k = *p; std::weak_ptr<const void> x = k.wft(); check_weak(x, tid, w, nullptr, "weak_from_this()"); wkeep(tid, w, x); break; }
                case SHARED_FROM: {
                    static const int other = 5;
                    switch (op.b % 5) {
                    case 0: { std::shared_ptr<i64> x = p->sf(&p->vals[op.c % 3]); check_owned(x, tid, w, &p->vals[op.c % 3], "shared_from"); keep(tid, w, x); break; }
                    case 1: { std::shared_ptr<Base> x = p->sf(static_cast<Base*>(p.get())); check_owned(x, tid, w, static_cast<Base*>(p.get()), "shared_from"); keep(tid, w, x); break; }
                    case 2: { std::shared_ptr<O> x = p->sf(p.get()); check_owned(x, tid, w, p.get(), "shared_from"); keep(tid, w, x); break; }
                    case 3: { const O& k = *p; std::shared_ptr<const O> x = k.sf(&k); check_owned(x, tid, w, &k, "shared_from"); keep(tid, w, x); break; }
                    default: {
                        std::shared_ptr<const int> x = p->sf(&other);
                        check_owned(x, tid, w, &other, "shared_from");
                        std::shared_ptr<int> z = p->sf(static_cast<int*>(nullptr));
                        SIM_CHECK(!z && same_owner(z, p), "wrong-pointer", "shared_from(nullptr)");
                        keep(tid, w, x);
                    }
                    }
                    break;
                }
                case WEAK_FROM: {
                    if (op.b & 1) { std::weak_ptr<i64> x = p->wf(&p->vals[op.c % 3]); check_weak(x, tid, w, &p->vals[op.c % 3], "weak_from"); wkeep(tid, w, x); }
                    else { const O& k = *p; std::weak_ptr<const O> x = k.wf(&k); check_weak(x, tid, w, &k, "weak_from"); wkeep(tid, w, x); }
                    if (op.c == 0) {
                        std::weak_ptr<int> z = p->wf(static_cast<int*>(nullptr));
                        SIM_CHECK(!z.lock() && same_owner(z, p), "wrong-pointer", "weak_from(nullptr)");
                    }
                    break;
                }
                case COPY: keep(tid, w, p); break;
                case DROP: drop_mine(tid, w); break;
                case DROP_EXTRA:
                    if (n[tid]) {
                        const int k = --n[tid];
                        lose(extra_w[tid][k]);
                        std::shared_ptr<const void> x;
                        x.swap(extra[tid][k]);
                        x.reset();
                    }
                    break;
                case LOCK: {
                    P x = lock(weak[tid][w], w);
                    if (x) {
                        x->verify("a locked weak pointer");
                        gain(w);
                        if (op.b & 1) drop_mine(tid, w);
                        if (!mine[tid][w]) mine[tid][w] = x;
                        else { lose(w); x.reset(); }
                    }
                    break;
                }
                case LOCK_ANY: {
                    const int k = int(op.c & 3);
                    if (k >= wn[tid]) break;
                    std::shared_ptr<const void> x = lock(wextra[tid][k], wextra_w[tid][k]);
                    if (x.use_count()) keep(tid, wextra_w[tid][k], x);
                    break;
                }
                case EXPIRED: {
                    const i64 o = at(OWNERS + w), z = at(ZEROED + w), d = at(DEAD + w);
                    const bool e = weak[tid][w].expired();
                    if (e) SIM_CHECK(!(o > 0 && at(ZEROED + w) == z), "expired-early", "a weak pointer is expired while the object is owned all the time");
                    else SIM_CHECK(!d, "expired-late", "a weak pointer is not expired after the object is gone");
                    break;
                }
                case MAKE_SHARED: case MAKE_UNIQUE:
#if __cplusplus >= 201703L
                    if (op.b & 1) { make<Wide>(op, op.code == MAKE_SHARED); break; }
#endif
                    make<Payload>(op, op.code == MAKE_SHARED);
                    break;
                case ALIASED: {
                    const std::shared_ptr<const O> k = p;
                    static int elsewhere = 3;
                    if (op.b & 1) { std::shared_ptr<int> x = itlib::make_aliased(k, &elsewhere); check_owned(x, tid, w, &elsewhere, "make_aliased"); keep(tid, w, x); }
                    else {
                        std::shared_ptr<i64> x = itlib::make_aliased(p, &p->vals[2]);
                        check_owned(x, tid, w, &p->vals[2], "make_aliased");
                        std::shared_ptr<i64> z = itlib::make_aliased(p, static_cast<i64*>(nullptr));
                        SIM_CHECK(!z && same_owner(z, p), "wrong-pointer", "make_aliased of a null pointer does not share ownership");
                        keep(tid, w, x);
                    }
                    break;
                }
                case ALIASED_EMPTY: {
                    i64 x = 4;
                    const std::shared_ptr<O> none;
                    std::shared_ptr<i64> r = itlib::make_aliased(none, &x);
                    SIM_CHECK(!r && r.use_count() == 0, "wrong-pointer", "make_aliased of an empty owner is not null");
                    // a pointer which points somewhere but owns nothing
                    const std::shared_ptr<i64> fake(std::shared_ptr<void>(), &x);
                    r = itlib::make_aliased(fake, &x);
                    SIM_CHECK(!r && r.use_count() == 0, "wrong-pointer", "make_aliased of a pointer which owns nothing is not null");
                    // an owner which points nowhere
                    const std::shared_ptr<i64> nowhere(static_cast<i64*>(nullptr));
                    r = itlib::make_aliased(nowhere, &x);
                    SIM_CHECK(r.get() == &x && r.use_count() == 2 && same_owner(r, nowhere), "wrong-pointer", "make_aliased of an owner of nothing does not share ownership");
                    break;
                }
                case UNOWNED: {
                    fresh(1 + tid);
                    {
                        O o(1 + tid);
                        without_owner(o, "on the stack");
                    }
                    std::shared_ptr<Base> b;
                    fresh(1 + tid);
                    {
                        Base* raw = new O(1 + tid);
                        O* o = dynamic_cast<O*>(raw);
                        gain(1 + tid);
                        b.reset(raw); // does not know about enable_shared_from
                        without_owner(*o, "owned through a base");
                        lose(1 + tid);
                        b.reset();
                    }
                    SIM_CHECK(at(DEAD + 1 + tid) == 1 && at(ALIVE + 1 + tid) == 0, "lifetime", "the object is destroyed %lld times", (long long)at(DEAD + 1 + tid));
                    break;
                }
                case NEW_OWNED: {
                    const int i = 1 + tid;
                    P x = own(i, int(op.b % 8));
                    std::weak_ptr<O> k = x;
                    std::shared_ptr<void> a = x->sft();
                    std::weak_ptr<const void> q = const_cast<const O&>(*x).wft();
                    std::shared_ptr<i64> m = x->sf(&x->vals[0]);
                    std::weak_ptr<i64> mw = x->wf(&x->vals[1]);
                    SIM_CHECK(x.use_count() == 3 && a.use_count() == 3 && m.use_count() == 3, "foreign-owner", "%ld owners are counted instead of 3", x.use_count());
                    SIM_CHECK(same_owner(x, a) && same_owner(x, m) && same_owner(x, q) && same_owner(x, mw), "foreign-owner", "derived pointers do not share ownership");
                    gain(i);
                    lose(i);
                    x.reset();
                    SIM_CHECK(!at(DEAD + i) && k.lock() && q.lock() && mw.lock(), "lifetime", "an object is gone while derived pointers own it");
                    a.reset();
                    SIM_CHECK(!at(DEAD + i) && m.use_count() == 1 && *m == i * 10, "lifetime", "an object is gone while a derived pointer owns it");
                    if (op.c & 1) { // a moved derived pointer
                        std::shared_ptr<i64> m2(std::move(m));
                        m = m2;
                    }
                    lose(i);
                    m.reset();
                    SIM_CHECK(at(DEAD + i) == 1 && at(ALIVE + i) == 0, "lifetime", "the object is destroyed %lld times after its last owner is gone", (long long)at(DEAD + i));
                    SIM_CHECK(k.expired() && q.expired() && mw.expired() && !mw.lock(), "expired-late", "weak pointers outlive the object");
                    if (op.b % 8 == 2) SIM_CHECK(at(DELETED + i) == 1, "lifetime", "the deleter ran %lld times", (long long)at(DELETED + i));
                    break;
                }
                }
            }
            if (c.cfg[3]) {
                Op last;
                last.code = DROP;
                TOp scope(last);
                for (int w = 0; w < 2; ++w) drop_mine(tid, w);
                while (n[tid]) {
                    const int k = --n[tid];
                    lose(extra_w[tid][k]);
                    extra[tid][k].reset();
                }
            }
        }
    };

    static void go(Case& c) {
        Ctx x = {c, {}, {}, {}, {}, {}, {}, {}, {}};
        for (auto& v : x.n) v = 0;
        for (auto& v : x.wn) v = 0;
        P own0[2];
        for (int w = 0; w < 2; ++w) {
            own0[w] = own(w, (c.cfg[1] >> (3 * w)) & 7);
            for (int t = 1; t <= c.cfg[2]; ++t) {
                x.weak[t][w] = own0[w];
                if ((c.cfg[4] >> (t + 4 * w)) & 1) { x.mine[t][w] = own0[w]; gain(w); }
            }
            if (!((c.cfg[4] >> (10 + w)) & 1)) { lose(w); own0[w].reset(); }
        }
        run_threads(c.cfg[2], x);
        for (int w = 0; w < 2; ++w) {
            long have = own0[w] ? 1 : 0;
            const P* any = own0[w] ? &own0[w] : nullptr;
            std::shared_ptr<const void> last;
            if (any) last = *any;
            for (int t = 1; t < 6; ++t) {
                if (x.mine[t][w]) { ++have; last = x.mine[t][w]; }
                for (int k = 0; k < x.n[t]; ++k) if (x.extra_w[t][k] == w) { ++have; last = x.extra[t][k]; }
            }
            SIM_CHECK(have == at(OWNERS + w), "harness", "owners are counted wrongly");
            if (have) SIM_CHECK(last.use_count() == have + 1, "foreign-owner", "%ld owners are counted instead of %ld", last.use_count() - 1, have);
            SIM_CHECK(at(DEAD + w) == (have ? 0 : 1), "lifetime", "an object with %ld owners is destroyed %lld times", have, (long long)at(DEAD + w));
            last.reset();
            if (own0[w]) { lose(w); own0[w].reset(); }
            for (int t = 1; t < 6; ++t) {
                if (x.mine[t][w]) { lose(w); x.mine[t][w].reset(); }
                for (int k = 0; k < x.n[t]; ++k) if (x.extra_w[t][k] == w) { lose(w); x.extra[t][k].reset(); }
            }
            SIM_CHECK(at(DEAD + w) == 1 && at(ALIVE + w) == 0, "lifetime", "an object is destroyed %lld times after its last owner is gone", (long long)at(DEAD + w));
            if (((c.cfg[1] >> (3 * w)) & 7) == 2) SIM_CHECK(at(DELETED + w) == 1, "lifetime", "the deleter ran %lld times", (long long)at(DELETED + w));
            for (int t = 1; t < 6; ++t) {
                SIM_CHECK(x.weak[t][w].expired(), "expired-late", "a weak pointer outlives the object");
                for (int k = 0; k < 4 && k < x.wn[t]; ++k) SIM_CHECK(x.wextra_w[t][k] != w || (x.wextra[t][k].expired() && !x.wextra[t][k].lock()), "expired-late", "a weak pointer outlives the object");
            }
            ev(u64(have));
            state(u64(have) + 64 * u64(c.cfg[0]) + 1024 * u64(c.cfg[1]));
        }
    }
};

struct H : Harness {
    const char* property() override { return "C07"; }
    const char* op_name(int c) override { return c >= 0 && c < OPS ? names[c] : "?"; }
    const char* cfg_names() override { return "class ownership threads drop_at_exit initial_owners"; }
    void generate(Rng& r, Case& c) override {
        const int nt = 2 + int(r.below(4) == 3 ? 2 : r.below(2));
        int init = int(r.next() & 0xfff);
        if (!(init & 0x1ee)) init |= 0x22;
        c.cfg = {int(r.below(3)), int(r.below(64)), nt, int(r.below(3) != 0), init};
        const int total = nt == 2 ? int(r.range(2, 10)) : int(r.range(3, 14));
        const bool one = r.chance(2, 3);
        for (int i = 0; i < total; ++i) {
            Op o;
            o.tid = 1 + int(i < nt ? u64(i) : r.below(u64(nt)));
            int w[] = {3, 3, 3, 3, 4, 4, 2, 6, 4, 5, 3, 2, 3, 3, 3, 1, 1, 2};
            o.code = r.pick(w, OPS);
            o.a = one ? 0 : i64(r.below(2));
            o.b = i64(r.below(16));
            o.c = i64(r.below(12));
            if ((o.code == MAKE_SHARED || o.code == MAKE_UNIQUE) && r.chance(1, 2)) { o.fk = r.chance(1, 2) ? F_ALLOC : F_ELEM; o.fn = 1; }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override {
        switch (c.cfg[0]) {
        case 0: W<O1>::go(c); break;
        case 1: W<O2>::go(c); break;
        default: W<O3>::go(c); break;
        }
    }
};
}
namespace sim { Harness* make_harness() { static char mem[sizeof(H)]; static H* h = ::new (static_cast<void*>(mem)) H; return h; } }
