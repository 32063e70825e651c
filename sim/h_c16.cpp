#include "vec.hpp"
#include <itlib/generator.hpp>
#include <string>

using namespace sim;

typedef Elem<1> EV; // yielded
typedef Elem<2> EA; // argument
typedef Elem<3> EL; // local
typedef MoveOnly<4> EM;

enum BAct { B_TEMP, B_LOCAL, B_THROW, B_THROW_STD, B_TRY, B_SCOPE, B_NEST_NEXT, B_NEST_FOR, B_SKIP, B_RETURN, B_ARG, B_NACT };
enum Last { NONE, YIELDED, RETURNED, THREW };

struct Script {
    std::vector<int> acts;
    i64 id = 0;
    // what the body did
    long resumed = 0;   // code segments begun
    Last last = NONE;   // how the last one ended
    i64 value = 0;      // what it yielded
    const void* addr = nullptr;
    int exc = 0;        // what it threw
    long yields = 0;
    bool running = false;
    Raw<EV> own[3];     // objects yielded by reference
    int depth = 0;
};

inline i64 val_of(const std::string& s) { return atoll(s.c_str()); }
using sim::val_of;
template <typename T> struct MkV { static T go(i64 v) { return T(v); } };
template <> struct MkV<std::string> { static std::string go(i64 v) { return std::to_string(v) + " some more text, too long for the object"; } };

// bookkeeping around every suspension
struct Seg {
    Script* s;
    explicit Seg(Script* x) : s(x) { Host h; if (s->running) fail("resume", "the body is resumed while it runs"); s->running = true; ++s->resumed; s->last = NONE; }
};
inline void note_yield(Script* s, i64 v, const void* addr) { Host h; s->running = false; s->last = YIELDED; s->value = v; s->addr = addr; ++s->yields; }

template <typename T>
itlib::generator<T> body(Script* s, EA arg, EA&& rv, std::vector<int> acts, i64 base) {
    typedef std::decay_t<T> D;
    constexpr bool ref = std::is_reference_v<T>;
    { Seg g(s); }
    struct AtExit { Script* s; ~AtExit() { Host h; s->running = false; } } at_exit{s};
    try {
        i64 av = arg.get();
        EL local(av);
        EL inner(rv.get());
        for (size_t i = 0; i < acts.size(); ++i) {
            i64 v = base + i64(i);
            int act = acts[i];
            if (act == B_TEMP || act == B_TRY || act == B_SCOPE || act == B_LOCAL || act == B_ARG) {
                bool caught = false;
                try {
                    EL scoped(v);
                    if constexpr (ref) {
                        if (act == B_LOCAL) {
                            D here(v);
                            note_yield(s, v, &here);
                            co_yield here;
                            { Seg g(s); }
                        }
                        else {
                            EV& o = *s->own[i % 3];
                            note_yield(s, o.get(), &o);
                            co_yield o;
                            { Seg g(s); }
                        }
                    }
                    else {
                        D here = MkV<D>::go(v);
                        if (act == B_LOCAL) {
                            note_yield(s, v, nullptr);
                            co_yield std::move(here);
                        }
                        else if (act == B_ARG) {
                            if constexpr (std::is_copy_constructible_v<D>) {
                                D copy(here);
                                note_yield(s, v, nullptr);
                                co_yield copy; // copied into the parameter of yield_value; may throw in here
                                (void)val_of(copy);
                            }
                            else { note_yield(s, v, nullptr); co_yield std::move(here); }
                        }
                        else {
                            D t = MkV<D>::go(v);
                            note_yield(s, v, nullptr);
                            co_yield std::move(t);
                        }
                        { Seg g(s); }
                    }
                    if (scoped.get() != v) fail("object", "a local changed over a suspension");
                    if (act == B_TRY) throw Injected{F_CALL};
                }
                catch (Injected&) {
                    Host h;
                    s->running = true;
                    caught = true;
                    if (act != B_TRY && act != B_SCOPE) throw;
                }
                if (caught && local.get() != av) fail("object", "a local changed over an exception");
            }
            else if (act == B_THROW) throw Injected{F_CALL};
            else if (act == B_THROW_STD) throw std::runtime_error("std");
            else if (act == B_NEST_NEXT || act == B_NEST_FOR) {
                if (s->depth) continue;
                s->depth = 1;
                std::vector<int> sub(acts.begin() + long(i) + 1, acts.end());
                Script in;
                in.depth = 1;
                for (int k = 0; k < 3; ++k) { NoFaults nf; in.own[k].make(v * 10 + k); }
                struct Own { Script& in; ~Own() { for (int k = 0; k < 3; ++k) in.own[k].kill(); } } own{in};
                EA a2(v), b2(v + 1);
                auto g = body<T>(&in, std::move(a2), std::move(b2), sub, v * 10);
                if (act == B_NEST_FOR) {
                    for (auto& x : g) {
                        i64 xv = val_of(x);
                        if constexpr (ref) { note_yield(s, xv, &x); co_yield x; }
                        else { note_yield(s, xv, nullptr); co_yield std::move(x); }
                        { Seg q(s); }
                    }
                }
                else {
                    while (true) {
                        auto x = g.next();
                        if (!x) break;
                        i64 xv = val_of(*x);
                        if constexpr (ref) { note_yield(s, xv, &*x); co_yield *x; }
                        else { note_yield(s, xv, nullptr); co_yield std::move(*x); }
                        { Seg q(s); }
                    }
                }
            }
            else if (act == B_RETURN) break;
        }
        if (inner.get() != val_of(rv)) fail("object", "a reference argument changed");
    }
    catch (Injected& e) { Host h; s->running = false; s->last = THREW; s->exc = 1; throw; }
    catch (std::bad_alloc&) { Host h; s->running = false; s->last = THREW; s->exc = 2; throw; }
    catch (std::runtime_error&) { Host h; s->running = false; s->last = THREW; s->exc = 3; throw; }
    Host h;
    s->running = false;
    s->last = RETURNED;
}

enum GOp { G_MAKE, G_NEXT, G_NEXT_KEEP, G_NEXT_N, G_FOR, G_FOR_PART, G_ITER, G_MOVE_CTOR, G_MOVE_ASSIGN, G_SELF_MOVE, G_RESET, G_KILL, G_SWAP, G_STATE, G_DROP_KEPT, G_NOPS };
static const char* gnames[] = {"create", "next", "next(keep)", "next(several)", "for all", "for part", "iterate", "move construct", "move assign", "self move assign",
    "reset", "destroy", "swap", "state", "drop kept values"};

template <typename T>
struct GenWorld {
    typedef itlib::generator<T> G;
    typedef itlib::generator_value<T> GV;
    typedef std::decay_t<T> D;
    static constexpr bool ref = std::is_reference_v<T>;
    static constexpr bool tracked = !std::is_same_v<D, i64> && !std::is_same_v<D, std::string> && !std::is_same_v<D, Selfy>;
    struct Model { Script* s = nullptr; bool finished = false; bool null = false; };
    Case& cs;
    Raw<G> slot[3];
    Model model[3];
    std::vector<std::unique_ptr<Script>> scripts;
    std::vector<std::pair<GV, i64>> kept;
    i64 nv = 0;
    size_t objs = 0; // objects owned by scripts
    explicit GenWorld(Case& c) : cs(c) { kept.reserve(4096); }

    void free_slot(int s) { { Sut g; slot[s].kill(); } drop_script(model[s]); model[s] = Model(); }
    void drop_script(Model& m) {
        if (!m.s) return;
        for (int k = 0; k < 3; ++k) m.s->own[k].kill();
        objs -= 3;
        for (size_t i = 0; i < scripts.size(); ++i) if (scripts[i].get() == m.s) { scripts.erase(scripts.begin() + long(i)); break; }
        m.s = nullptr;
    }

    // one step of the consumer: what did it get against what the body did
    // got: 0 nothing, 1 value, 2 exception; exc 1,2,3
    void judge(int s, const char* how, long resumed0, int got, i64 value, const void* addr, int exc, bool resumes) {
        Model& m = model[s];
        Script& b = *m.s;
        long steps = b.resumed - resumed0;
        SIM_CHECK(steps == (resumes && (b.last != THREW || steps) ? 1 : 0), "resume", "%s ran %ld steps of the body", how, steps);
        if (!resumes) { SIM_CHECK(got == 0, "finished", "%s of a finished generator gave something", how); return; }
        switch (b.last) {
        case YIELDED:
            SIM_CHECK(got == 1, "sequence", "%s: the body yielded %ld and the consumer got %s", how, long(b.value), got == 2 ? "an exception" : "nothing");
            SIM_CHECK(value == b.value, "sequence", "%s: the body yielded %ld and the consumer got %ld", how, long(b.value), long(value));
            if (ref) SIM_CHECK(addr == b.addr, "sequence", "%s: another object than the one yielded", how);
            break;
        case RETURNED: SIM_CHECK(got == 0, "sequence", "%s: the body returned and the consumer got %s", how, got == 1 ? "a value" : "an exception"); m.finished = true; break;
        case THREW: SIM_CHECK(got == 2 && exc == b.exc, "exception", "%s: the body threw (kind %d) and the consumer got %s (kind %d)", how, b.exc, got == 2 ? "an exception" : got == 1 ? "a value" : "nothing", exc); m.finished = true; break;
        default: fail("resume", "%s: the body was not resumed", how);
        }
        // a body with an exception before its first statement never began
        SIM_CHECK(slot[s]->done() == m.finished, "finished", "%s: done() is %d", how, int(slot[s]->done()));
    }
    template <typename F>
    int attempt(F&& f) { // 0 ok, otherwise the kind of exception
        Outcome o = sut([&] { f(); });
        return o == OK ? 0 : o == INJECTED ? 1 : o == BAD_ALLOC ? 2 : 3;
    }

    void do_next(int s, bool keep) {
        Model& m = model[s];
        bool fin = m.finished;
        long r0 = m.s->resumed;
        m.s->last = NONE;
        int got = 0;
        i64 value = 0;
        const void* addr = nullptr;
        int e = attempt([&] {
            GV v = slot[s]->next();
            Host h;
            NoFaults nf;
            if (v) {
                SIM_CHECK(v.has_value(), "sequence", "has_value()");
                got = 1; value = val_of(*v); addr = &*v;
                if (keep && !ref) { Sut g; kept.emplace_back(std::move(v), value); }
            }
            else SIM_CHECK(!v.has_value(), "sequence", "has_value()");
        });
        if (e) got = 2;
        judge(s, "next()", r0, got, value, addr, e, !fin);
    }
    // begin, then up to k increments
    void iterate(int s, int k, bool range) {
        Model& m = model[s];
        const bool fin = m.finished; // an empty range then
        if (range) {
            int n = 0;
            long r0 = m.s->resumed;
            m.s->last = NONE;
            int e = attempt([&] {
                for (auto&& x : *slot[s]) {
                    Host h;
                    NoFaults nf;
                    judge(s, "range for", r0, 1, val_of(x), &x, 0, !fin);
                    r0 = m.s->resumed;
                    m.s->last = NONE;
                    if (++n > k) { m.s->last = YIELDED; break; }
                }
            });
            if (n <= k) judge(s, "range for", r0, e ? 2 : 0, 0, nullptr, e, !(fin && !n));
            return;
        }
        long r0 = m.s->resumed;
        m.s->last = NONE;
        typename G::pseudo_iterator it;
        int e = attempt([&] { it = slot[s]->begin(); });
        if (e) { judge(s, "begin()", r0, 2, 0, nullptr, e, !fin); return; }
        if (fin) {
            SIM_CHECK(it == slot[s]->end() && slot[s]->end() == it && !(it != slot[s]->end()), "finished", "begin() of a finished generator is not at the end");
            judge(s, "begin()", r0, 0, 0, nullptr, 0, false);
            return;
        }
        for (int i = 0;; ++i) {
            bool end = it == slot[s]->end();
            SIM_CHECK(end == (slot[s]->end() == it) && end != (it != slot[s]->end()) && end != (slot[s]->end() != it), "sequence", "comparison with end()");
            if (end) { judge(s, "iterator", r0, 0, 0, nullptr, 0, true); return; }
            {
                NoFaults nf;
                auto& x = *it;
                auto& y = *it;
                SIM_CHECK(&x == &y, "sequence", "dereferencing twice gives two objects");
                judge(s, "iterator", r0, 1, val_of(x), &x, 0, true);
                judge(s, "iterator", r0, 1, val_of(y), &y, 0, true);
            }
            if (i >= k) return;
            r0 = m.s->resumed;
            m.s->last = NONE;
            e = attempt([&] { auto& r = ++it; if (&r != &it) fail("sequence", "operator++ returns something else"); });
            if (e) {
                judge(s, "operator++", r0, 2, 0, nullptr, e, true);
                SIM_CHECK(it == slot[s]->end(), "finished", "an iterator is not at the end after an exception");
                return;
            }
        }
    }

    void step(const Op& op) {
        int s = int(op.a & 3) % 3, t = int((op.a >> 2) & 3) % 3;
        if (op.code != G_MAKE && !slot[s].p) return;
        OpScope scope(op);
        Model& m = model[s];
        bool live = slot[s].p && !m.null;
        switch (op.code) {
        case G_MAKE: {
            if (slot[s].p) free_slot(s);
            scripts.emplace_back(new Script);
            Script* sc = scripts.back().get();
            u64 h = u64(op.b) * 131 + u64(op.c) * 17 + u64(op.d) + 3;
            int n = int(op.b % 7);
            bool calm = op.c & 1;
            for (int i = 0; i < n; ++i) {
                h = mix64(h);
                int a = int(h % B_NACT);
                if (calm && (a == B_THROW || a == B_THROW_STD || a == B_RETURN || a == B_SKIP)) a = B_TEMP;
                sc->acts.push_back(a);
            }
            sc->id = ++nv;
            {
                NoFaults nf;
                for (int k = 0; k < 3; ++k) sc->own[k].make(nv * 1000 + 500 + k);
                objs += 3;
            }
            model[s] = Model();
            model[s].s = sc;
            EA* rvp_ = rvarg(s);
            size_t lives = life_count();
            Raw<EA> a; // the rvalue reference argument outlives the generator: kept by the slot
            { NoFaults nf; a.make(nv); }
            Outcome o = sut([&] { slot[s].make(body<T>(sc, EA(std::move(*a)), std::move(*rvp_), sc->acts, sc->id * 1000)); });
            a.kill();
            if (o != OK) {
                slot[s].p = nullptr;
                SIM_CHECK(faults_fired() && o == (op.fk == F_ALLOC ? BAD_ALLOC : INJECTED), "unexpected-exception", "creating a generator ended with %s", outcome_name(o));
                SIM_CHECK(life_count() == lives, "object", "a failed creation left %zu objects", life_count() - lives);
                SIM_CHECK(sc->resumed == 0, "resume", "a failed creation ran the body");
                SIM_PROBE("creation failed");
                drop_script(model[s]);
                model[s] = Model();
            }
            else {
                SIM_CHECK(sc->resumed == 0, "resume", "creating a generator ran its body");
                SIM_CHECK(bool(*slot[s]) && !slot[s]->done(), "finished", "a new generator is done or empty");
            }
            break;
        }
        case G_NEXT: if (live) do_next(s, false); break;
        case G_NEXT_KEEP: if (live) do_next(s, true); break;
        case G_NEXT_N: if (live) for (int i = 0; i < int(op.b % 6); ++i) do_next(s, i & 1); break;
        case G_FOR: if (live) iterate(s, 1000000, true); break;
        case G_FOR_PART: if (live) iterate(s, int(op.b % 4), true); break;
        case G_ITER: if (live) iterate(s, int(op.b % 6), false); break;
        case G_MOVE_CTOR:
            if (s == t) break;
            if (slot[t].p) free_slot(t);
            { Sut g; slot[t].make(std::move(*slot[s])); }
            std::swap(rv[s], rv[t]);
            std::swap(model[t], model[s]);
            model[s].null = true;
            SIM_CHECK(!*slot[s] && bool(*slot[t]) == !model[t].null, "state", "operator bool after a move");
            break;
        case G_MOVE_ASSIGN:
            if (s == t || !slot[t].p) break;
            { Sut g; *slot[t] = std::move(*slot[s]); }
            drop_script(model[t]);
            std::swap(rv[s], rv[t]);
            model[t] = model[s];
            model[s] = Model();
            model[s].null = true;
            SIM_CHECK(!*slot[s] && bool(*slot[t]) == !model[t].null, "state", "operator bool after a move");
            break;
        case G_SWAP:
            if (!slot[t].p) break;
            { Sut g; std::swap(*slot[s], *slot[t]); } // also with itself
            std::swap(rv[s], rv[t]);
            std::swap(model[s], model[t]);
            break;
        case G_SELF_MOVE: { G& alias = *slot[s]; Sut g; *slot[s] = std::move(alias); break; }
        case G_RESET:
            { Sut g; slot[s]->reset(); }
            drop_script(m);
            m.null = true;
            m.finished = false;
            SIM_CHECK(!*slot[s], "state", "operator bool after reset");
            break;
        case G_KILL: free_slot(s); break;
        case G_STATE: break;
        case G_DROP_KEPT: { Sut g; kept.clear(); } break;
        default: break;
        }
        // invariants
        bool any = false;
        for (int i = 0; i < 3; ++i) if (slot[i].p) {
            SIM_CHECK(bool(*slot[i]) == !model[i].null, "state", "operator bool is %d", int(bool(*slot[i])));
            if (model[i].null) continue;
            any = true;
            SIM_CHECK(slot[i]->done() == model[i].finished, "finished", "done() is %d", int(slot[i]->done()));
        }
        if (!ref) for (auto& k : kept) { SIM_CHECK(k.first.has_value() && val_of(*k.first) == k.second, "sequence", "a value taken from a generator changed later"); }
        if (!any) {
            size_t want = objs + (tracked ? kept.size() : 0);
            for (auto& x : rv) if (x.p) ++want;
            SIM_CHECK(life_count() == want, "object", "%zu objects are alive without a generator, expected %zu", life_count(), want);
            if (kept.empty()) check_no_leaks("no generator is alive");
        }
        u64 h = u64(op.code);
        if (model[s].s) h = h * 64 + u64(model[s].s->last) * 8 + u64(model[s].s->yields & 7);
        ev(h); state(h);
    }
    // a long-lived object bound to the rvalue reference parameter
    Raw<EA> rvs[3];
    struct RvRef { EA* p = nullptr; };
    RvRef rv[3];
    EA* rvarg(int s) {
        Host h;
        NoFaults nf;
        if (!rv[s].p) { // one that no slot uses
            for (int i = 0; i < 3; ++i) {
                bool used = false;
                for (auto& x : rv) if (x.p == rvs[i].p && x.p) used = true;
                if (!used) { if (!rvs[i].p) rvs[i].make(77 + i); rv[s].p = rvs[i].p; break; }
            }
        }
        return rv[s].p;
    }
};

template <typename T> struct W {
    static void go(Case& c) {
        GenWorld<T> w(c);
        for (auto& o : c.ops) w.step(o);
        for (int s = 0; s < 3; ++s) if (w.slot[s].p) w.free_slot(s);
        { Sut g; w.kept.clear(); }
        for (auto& r : w.rvs) r.kill();
        life_check_none("the end");
        check_no_leaks("the end");
    }
};
SIM_CFG(0, W<EV>)
SIM_CFG(1, W<EM>)
SIM_CFG(2, W<i64>)
SIM_CFG(3, W<EV&>)
SIM_CFG(4, W<const EV&>)
SIM_CFG(5, W<std::string>)
SIM_CFG(6, W<Selfy>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C16"; }
    const char* op_name(int c) override { return c >= 0 && c < G_NOPS ? gnames[c] : "?"; }
    const char* cfg_names() override { return "yielded type"; }
    void generate(Rng& r, Case& c) override {
        c.cfg.push_back(int(r.below(u64(cfg_count()))));
        int w[G_NOPS];
        for (int i = 0; i < G_NOPS; ++i) w[i] = r.chance(1, 4) ? 0 : int(1 + r.below(5));
        w[G_MAKE] += 4; w[G_NEXT] += 4;
        int n = int(2 + r.below(r.chance(1, 8) ? 40 : 12)), frate = int(r.below(4)), slots = int(1 + r.below(3));
        for (int i = 0; i < n; ++i) {
            Op o;
            o.code = i ? r.pick(w, G_NOPS) : int(G_MAKE);
            o.a = i64(r.below(u64(slots))) | (i64(r.below(3)) << 2);
            o.b = i64(r.below(64));
            o.c = i64(r.below(64));
            o.d = i64(r.below(1024));
            if (frate && r.chance(unsigned(frate), 6)) {
                o.fk = r.chance(1, 2) ? F_ALLOC : F_ELEM;
                o.fn = int(1 + r.below(r.chance(1, 2) ? 2 : 9));
                if (r.chance(1, 6)) o.fn = -o.fn;
            }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
