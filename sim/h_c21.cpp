#include "elem.hpp"
#include <itlib/sentry.hpp>
#include <itlib/ufunction.hpp>
#include <itlib/throw_ex.hpp>
#include <functional>
#include <iomanip>
#include <memory>
#include <sstream>

using namespace sim;

[[noreturn]] static inline void boom() { note_fault(F_CALL); throw Injected{F_CALL}; }
enum { BAD_FUNCTION = 20 };
template <typename F>
int sut2(F&& f) {
    try { Sut s; f(); return OK; }
    catch (Injected&) { return INJECTED; }
    catch (std::bad_function_call&) { return BAD_FUNCTION; }
    catch (...) { return OTHER; }
}
struct Calm { Calm() { suspend_faults(true); } ~Calm() { suspend_faults(false); } };

enum SOp { S_SENTRY, S_SENTRIES, S_FACTORY, S_HEAP, S_MOVE, S_MEMBER, U_MAKE, U_ASSIGN, U_MOVE_CTOR, U_MOVE_ASSIGN, U_SELF, U_SWAP, U_CALL, U_RESET, U_DROP, U_ARGS, U_MISC, T_THROW, T_NOPS };
static const char* snames[] = {"sentry", "several sentries", "sentry from a function", "sentry on the heap", "sentry moved", "sentry as a member", "ufunction", "assign callable", "move construct",
    "move assign", "self move", "swap", "call", "reset", "destroy", "call with arguments", "other signatures", "throw_ex"};

// the record of calls
static std::vector<i64>* calls;
static void record(i64 v) { Host h; calls->push_back(v); }
static i64 fn_state;
static void plain_fn() { record(fn_state); }

// callables: move-only with tracked state; copyable, whose copies are counted
struct MoveFn {
    MoveOnly<1> e;
    explicit MoveFn(i64 v) : e(v) {}
    MoveFn(MoveFn&&) = default;
    MoveFn& operator=(MoveFn&&) = default;
    void operator()() { record(e.get()); }
};
static int copies;
struct CopyFn {
    Elem<2> e;
    explicit CopyFn(i64 v) : e(v) {}
    CopyFn(const CopyFn& o) : e(o.e) { ++copies; }
    CopyFn(CopyFn&& o) noexcept : e(std::move(o.e)) {}
    CopyFn& operator=(const CopyFn& o) { e = o.e; ++copies; return *this; }
    CopyFn& operator=(CopyFn&& o) noexcept { e = std::move(o.e); return *this; }
    void operator()() const { record(e.get()); }
};
template <typename F>
itlib::sentry<F> factory(F f, bool early, bool fails) {
    if (early) return itlib::make_sentry(std::forward<F>(f));
    if (fails) boom();
    return itlib::sentry<F>(std::forward<F>(f));
}
template <typename F> struct Holder {
    Elem<9> before;
    itlib::sentry<F> s;
    Elem<9> after;
    Holder(F&& f, bool fails) : before(1), s(std::move(f)), after(fails ? (boom(), 2) : 2) {}
};

// callables of ufunctions: return 1000 * own id + argument, count themselves
static i64 call_count[8];
template <int Kind, size_t Pad, size_t Align>
struct UFn {
    Elem<10 + Kind, BOTH, Pad, Align> e;
    bool fails;
    UFn(i64 v, bool f) : e(v), fails(f) {}
    UFn(const UFn& o) : e(o.e), fails(o.fails) { ++copies; }
    UFn(UFn&& o) noexcept : e(std::move(o.e)), fails(o.fails) {}
    UFn& operator=(const UFn& o) { e = o.e; fails = o.fails; ++copies; return *this; }
    UFn& operator=(UFn&& o) noexcept { e = std::move(o.e); fails = o.fails; return *this; }
    i64 operator()(i64 x) { if (fails) boom(); ++call_count[Kind]; e.set(e.get() + 1); return (e.get() - 1) * 1000 + x; }
};
struct UMove {
    MoveOnly<20> e;
    UMove(i64 v) : e(v) {}
    UMove(UMove&&) = default;
    UMove& operator=(UMove&&) = default;
    i64 operator()(i64 x) { ++call_count[5]; e.set(e.get() + 1); return (e.get() - 1) * 1000 + x; }
};
static i64 ufp(i64 x) { ++call_count[6]; return 7777000 + x; }
static i64 ufp2(i64 x) { ++call_count[7]; return 8888000 + x; }

struct Big { i64 a[20]; };
struct Args {
    Elem<30> seen;
    i64 operator()(MoveOnly<31> m, const Elem<32>& c, Elem<32>& l, std::unique_ptr<int> p, Elem<32>&& r, const char* s) {
        Host h;
        at_c = &c; at_l = &l; at_r = &r;
        Elem<32> taken(std::move(r));
        l.set(l.get() + 5);
        return m.get() * 1000000 + c.get() * 10000 + taken.get() * 100 + *p + i64(s[0] != 0);
    }
    const void* at_c; const void* at_l; const void* at_r;
    Args() : seen(i64(0)), at_c(nullptr), at_l(nullptr), at_r(nullptr) {}
    Args(Args&&) = default;
};

struct MyError {
    std::string text;
    static int alive;
    explicit MyError(const std::string& s) : text(s) { ++alive; }
    MyError(const MyError& o) : text(o.text) { ++alive; }
    ~MyError() { --alive; }
};
int MyError::alive = 0;
struct Printable { i64 v; friend std::ostream& operator<<(std::ostream& o, const Printable& p) { return o << '<' << p.v << '>'; } };

// f while k exceptions are being thrown
template <typename F> void nest(int k, F& f) {
    if (k <= 0) { f(); return; }
    struct D {
        int k; F& f;
        ~D() { nest(k - 1, f); }
    };
    try { D d{k, f}; boom(); } catch (Injected&) {}
}

struct World {
    Case& cs;
    typedef itlib::ufunction<i64(i64)> U;
    Raw<U> slot[3];
    struct Model { int kind; i64 id; bool fails; } model[3];
    i64 nv = 0;
    std::vector<i64> got;
    explicit World(Case& c) : cs(c) { for (auto& m : model) m = Model{-1, 0, false}; }

    void check(const char* when) {
        size_t want = 0;
        for (int s = 0; s < 3; ++s) if (slot[s].p) {
            bool b = bool(*slot[s]);
            SIM_CHECK(b == (model[s].kind >= 0), "state", "%s: ufunction %d is %s", when, s, b ? "not empty" : "empty");
            want += model[s].kind >= 0 && model[s].kind <= 5;
        }
        SIM_CHECK(life_count() == want, "object", "%s: %zu callables are alive, expected %zu", when, life_count(), want);
        SIM_CHECK(MyError::alive == 0, "object", "%s: exceptions left alive", when);
    }
    void fired(const std::vector<i64>& want, const char* when) {
        SIM_CHECK(got.size() == want.size(), "calls", "%s: %zu calls were made, expected %zu", when, got.size(), want.size());
        for (size_t i = 0; i < want.size(); ++i) SIM_CHECK(got[i] == want[i], "calls", "%s: call %zu was of function %ld, expected %ld", when, i, long(got[i]), long(want[i]));
    }

    // a scope with one sentry left in different ways
    template <typename Make>
    int scope(Make& make, i64 v, int how) {
        auto s = make(v);
        SIM_CHECK(got.empty(), "calls", "a sentry fired before the end of its scope");
        if (how == 0) return 1;
        if (how == 1) boom();
        for (int i = 0; i < 3; ++i) {
            auto t = make(v + 1 + i);
            if (how == 2 && i == 1) break;
            if (how == 3 && i == 1) continue;
            if (how == 4 && i == 1) return 2;
            if (how == 5 && i == 1) boom();
        }
        if (how == 6) { try { auto t = make(v + 10); boom(); } catch (Injected&) { record(-1); } }
        return 3;
    }
    template <typename Make>
    void sentry_scope(Make make, int how, const char* what, int deep = 0) {
        i64 v = ++nv * 100;
        fn_state = v;
        int o = 0;
        auto f = [&] { o = sut2([&] { scope(make, v, how); }); };
        nest(deep, f);
        SIM_CHECK(o == ((how == 1 || how == 5) ? int(INJECTED) : int(OK)), "outcome", "%s: the scope ended with %s", what, outcome_name(o));
        std::vector<i64> want;
        int n = how >= 2 ? (how == 2 || how == 4 || how == 5 ? 2 : 3) : 0;
        for (int i = 0; i < n; ++i) want.push_back(v + 1 + i);
        if (how == 6) { want.push_back(v + 10); want.push_back(-1); }
        want.push_back(v);
        fired(want, what);
    }
    void sentries(const Op& op) { // several kinds in one scope, with an exception at any point
        int at = int(op.b % 8);
        std::vector<i64> want;
        i64 v = ++nv * 100;
        CopyFn kept(v + 6);
        int o = 0;
        auto f = [&] { o = sut2([&] {
            if (at == 0) boom();
            auto a = itlib::make_sentry(MoveFn(v));
            if (at == 1) boom();
            auto b = itlib::make_sentry(CopyFn(v + 1));
            if (at == 2) boom();
            fn_state = v + 2;
            auto c = itlib::make_sentry(&plain_fn);
            if (at == 3) boom();
            i64 x = v + 3;
            auto d = itlib::make_sentry([x]() mutable { record(x); });
            x = -5;
            if (at == 4) boom();
            auto e = itlib::make_sentry(std::function<void()>([x, v] { record(v + 4); }));
            if (at == 5) boom();
            auto f = itlib::make_sentry(itlib::ufunction<void()>(MoveFn(v + 5)));
            if (at == 6) boom();
            auto g = itlib::make_sentry(kept); // refers to it
            kept.e.set(v + 16);
        }); };
        nest((op.c >> 4) % 4 ? 0 : int(op.c >> 6) % 3, f);
        if (at > 6) want.push_back(v + 16);
        for (int i = (at > 6 ? 6 : at) - 1; i >= 0; --i) want.push_back(v + i);
        SIM_CHECK(o == (at <= 6 ? int(INJECTED) : int(OK)), "outcome", "the scope ended with %s", outcome_name(o));
        fired(want, "several sentries");
    }

    void put(int s, const Op& op, bool assign) {
        i64 id = ++nv;
        int kind = int(op.b % 8);
        bool fails = (op.c & 7) == 0;
        bool lv = (op.c & 8) && !assign;
        copies = 0;
        if (!assign) drop(s);
        int o = sut2([&] {
#define PUT(...) do { if (assign) { U& r = (*slot[s] = __VA_ARGS__); SIM_CHECK(&r == slot[s].p, "state", "assignment returns another object"); } else slot[s].make(__VA_ARGS__); } while (0)
            switch (kind) {
            case 0: if (lv) { UFn<0, 0, 8> f(id, fails); slot[s].make(f); SIM_CHECK(f.e.get() == id, "argument", "the callable was moved from"); } else PUT(UFn<0, 0, 8>(id, fails)); break;
            case 1: PUT(UFn<1, 100, 8>(id, fails)); break;
            case 2: PUT(UFn<2, 0, 16>(id, fails)); break;
            case 3: PUT(UFn<3, 3, 8>(id, fails)); break;
            case 4: { UFn<4, 0, 8> f(id, fails); PUT(std::move(f)); break; }
            case 5: PUT(UMove(id)); break;
            case 6: PUT(ufp); break;
            case 7: PUT(&ufp2); break;
            }
        });
        SIM_CHECK(o == OK, "outcome", "storing a callable ended with %s", outcome_name(o));
        SIM_CHECK(copies <= (lv && kind == 0 ? 1 : 0), "object", "the callable was copied %d times", copies);
        model[s] = Model{kind, id, fails && kind < 5};
    }
    void drop(int s) { Sut g; slot[s].kill(); model[s] = Model{-1, 0, false}; }
    void call(int s, i64 x) {
        i64 before[8];
        memcpy(before, call_count, sizeof before);
        Model& m = model[s];
        i64 r = -1;
        const U& c = *slot[s];
        int o = sut2([&] { r = (x & 1) ? c(x) : (*slot[s])(x); });
        int want = m.kind < 0 ? int(BAD_FUNCTION) : m.fails ? int(INJECTED) : int(OK);
        SIM_CHECK(o == want, "outcome", "calling an %s ufunction ended with %s", m.kind < 0 ? "empty" : "owning", o == BAD_FUNCTION ? "bad_function_call" : outcome_name(o));
        i64 expect = m.kind == 6 ? 7777000 + x : m.kind == 7 ? 8888000 + x : m.id * 1000 + x;
        if (o == OK) {
            SIM_CHECK(r == expect, "calls", "the call gave %ld, expected %ld", long(r), long(expect));
            if (m.kind <= 5) ++m.id;
        }
        for (int k = 0; k < 8; ++k) SIM_CHECK(call_count[k] - before[k] == (o == OK && k == m.kind), "calls", "callables of kind %d were called %ld times", k, long(call_count[k] - before[k]));
    }

    void throws(const Op& op) {
        i64 v = ++nv;
        int how = int(op.b % 8);
        std::string text("nul\0inside", 10), big(300, 'x');
        std::ostringstream ref;
        const char* lit = (op.c & 1) ? "" : "text";
        char arr[8] = "array";
        Printable pr{v};
        switch (how) {
        case 0: break;
        case 1: ref << "value " << v << ' ' << 1.5 << lit; break;
        case 2: ref << std::hex << 255 << std::setw(6) << std::setfill('0') << 10 << std::string("s"); break;
        case 3: ref << text << arr << 'c'; break;
        case 4: ref << pr << big << pr; break;
        case 5: ref << true << std::boolalpha << false << static_cast<const void*>(nullptr) << short(4); break;
        case 6: ref << lit << lit << 1u << 2l << -3ll; break;
        case 7: ref << "named" << v; break;
        }
        int caught = 0;
        std::string what;
        i64 id = v * 100;
        auto go = [&](int type) {
            auto guard = itlib::make_sentry(MoveFn(id));
#define SAY(E) do { \
            switch (how) { \
            case 0: itlib::throw_ex<E>(); break; \
            case 1: itlib::throw_ex<E>() << "value " << v << ' ' << 1.5 << lit; break; \
            case 2: itlib::throw_ex<E>() << std::hex << 255 << std::setw(6) << std::setfill('0') << 10 << std::string("s"); break; \
            case 3: itlib::throw_ex<E>() << text << arr << 'c'; break; \
            case 4: itlib::throw_ex<E>() << pr << big << pr; break; \
            case 5: itlib::throw_ex<E>() << true << std::boolalpha << false << static_cast<const void*>(nullptr) << short(4); break; \
            case 6: itlib::throw_ex<E>() << lit << lit << 1u << 2l << -3ll; break; \
            case 7: { itlib::throw_ex<E> ex; ex << "named"; ex << v; } \
            } } while (0)
            if (type == 0) SAY(std::runtime_error);
            else if (type == 1) SAY(std::logic_error);
            else SAY(MyError);
            caught = -1; // not reached
        };
        int type = int(op.c >> 1) % 3;
        bool nested = op.c & 64;
        {
            auto attempt = [&] {
                try { go(type); }
                catch (std::runtime_error& e) { caught = type == 0 ? 1 : -2; what = e.what(); }
                catch (std::logic_error& e) { caught = type == 1 ? 1 : -2; what = e.what(); }
                catch (MyError& e) { caught = type == 2 ? 1 : -2; what = e.text; SIM_CHECK(MyError::alive == 1, "object", "%d exceptions are alive", MyError::alive); }
                catch (...) { caught = -3; }
            };
            if (nested) { try { boom(); } catch (Injected&) { attempt(); } }
            else attempt();
        }
        SIM_CHECK(caught == 1, "outcome", "throw_ex did not throw the requested exception (%d)", caught);
        std::string want = ref.str();
        if (type != 2) want = want.c_str(); // what() is a C string
        SIM_CHECK(what == want, "calls", "throw_ex carried \"%s\", expected \"%s\"", what.c_str(), want.c_str());
        std::vector<i64> w(1, id);
        fired(w, "throw_ex");
    }

    void run() {
        calls = &got;
        for (auto& o : cs.ops) step(o);
        for (int s = 0; s < 3; ++s) if (slot[s].p) drop(s);
        life_check_none("the end");
        check_no_leaks("the end");
    }
    struct MakeMove { itlib::sentry<MoveFn> operator()(i64 v) { return itlib::make_sentry(MoveFn(v)); } };
    struct MakeCopy { itlib::sentry<CopyFn> operator()(i64 v) { return itlib::make_sentry(CopyFn(v)); } };
    struct MakeFactory { itlib::sentry<MoveFn> operator()(i64 v) { return factory<MoveFn>(MoveFn(v), v & 1, false); } };
    struct MakeU { itlib::sentry<itlib::ufunction<void()>> operator()(i64 v) { return itlib::make_sentry(itlib::ufunction<void()>(CopyFn(v))); } };

    void step(const Op& op) {
        OpScope scope(op);
        int s = int(op.a & 3) % 3, t = int((op.a >> 2) & 3) % 3, code = op.code;
        got.clear();
        for (int k : {s, t}) if (!slot[k].p) { Calm c; Sut g; slot[k].make(); }
        switch (code) {
        case S_SENTRY:
            switch (op.c % 4) {
            case 0: sentry_scope(MakeMove(), int(op.b % 7), "sentry", (op.c >> 4) % 4 ? 0 : int(op.c >> 6) % 4); break;
            case 1: sentry_scope(MakeCopy(), int(op.b % 7), "sentry", (op.c >> 4) % 4 ? 0 : int(op.c >> 6) % 4); break;
            case 2: sentry_scope(MakeFactory(), int(op.b % 7), "sentry", (op.c >> 4) % 4 ? 0 : int(op.c >> 6) % 4); break;
            case 3: sentry_scope(MakeU(), int(op.b % 7), "sentry", (op.c >> 4) % 4 ? 0 : int(op.c >> 6) % 4); break;
            }
            break;
        case S_SENTRIES: sentries(op); break;
        case S_FACTORY: {
            i64 v = ++nv * 100;
            bool early = op.b & 1, fails = op.b & 2;
            int o = 0;
            auto f = [&] { o = sut2([&] { auto x = factory<MoveFn>(MoveFn(v), early, fails); SIM_CHECK(got.empty(), "calls", "a sentry fired while being returned"); }); };
            nest((op.c >> 4) % 4 ? 0 : int(op.c >> 6) % 3, f);
            std::vector<i64> w;
            if (early || !fails) w.push_back(v);
            SIM_CHECK(o == (!early && fails ? int(INJECTED) : int(OK)), "outcome", "the function ended with %s", outcome_name(o));
            fired(w, "sentry from a function");
            break;
        }
        case S_HEAP: {
            i64 v = ++nv * 100;
            sut2([&] {
                typedef itlib::sentry<CopyFn> X;
                std::unique_ptr<X> p(new X(CopyFn(v)));
                SIM_CHECK(got.empty(), "calls", "a sentry fired too early");
                if (op.b & 1) { std::unique_ptr<X> q = std::move(p); }
                else p.reset();
            });
            fired(std::vector<i64>(1, v), "sentry on the heap");
            break;
        }
        case S_MOVE: {
#if __cplusplus < 201703L
            i64 v = ++nv * 100;
            int how = int(op.b % 4);
            int o = sut2([&] {
                typedef itlib::sentry<MoveFn> X;
                if (how == 0) { X a(MoveFn{v}); X b(std::move(a)); X c(std::move(b)); SIM_CHECK(got.empty(), "calls", "moving a sentry fired it"); }
                else if (how == 1) { std::vector<X> l; for (int i = 0; i < 5; ++i) { l.push_back(itlib::make_sentry(MoveFn(v + i))); SIM_CHECK(got.empty(), "calls", "moving a sentry fired it"); } }
                else if (how == 2) { std::unique_ptr<X> p; { X a(MoveFn{v}); p.reset(new X(std::move(a))); } SIM_CHECK(got.empty(), "calls", "a moved-from sentry fired"); boom(); }
                else { X a(MoveFn{v}); { X b(std::move(a)); } SIM_CHECK(got.size() == 1, "calls", "a moved sentry fired %zu times", got.size()); X c(std::move(a)); }
            });
            SIM_CHECK(o == (how == 2 ? int(INJECTED) : int(OK)), "outcome", "the scope ended with %s", outcome_name(o));
            std::vector<i64> w;
            for (int i = 0; i < (how == 1 ? 5 : 1); ++i) w.push_back(v + i);
            fired(w, "sentry moved");
#endif
            break;
        }
        case S_MEMBER: {
            i64 v = ++nv * 100;
            bool fails = op.b & 1;
            int o = sut2([&] { Holder<MoveFn> h(MoveFn{v}, fails); SIM_CHECK(got.empty(), "calls", "a sentry fired too early"); });
            if (faults_fired()) { // the member before the sentry could not be made
                break;
            }
            SIM_CHECK(o == (fails ? int(INJECTED) : int(OK)), "outcome", "the scope ended with %s", outcome_name(o));
            fired(std::vector<i64>(1, v), "sentry as a member");
            break;
        }
        case U_MAKE: put(s, op, false); break;
        case U_ASSIGN: put(s, op, true); break;
        case U_MOVE_CTOR: if (s != t) {
            drop(s);
            sut2([&] { slot[s].make(std::move(*slot[t])); });
            model[s] = model[t]; model[t] = Model{-1, 0, false};
            break;
        } break;
        case U_MOVE_ASSIGN: if (s != t) {
            sut2([&] { U& r = (*slot[s] = std::move(*slot[t])); SIM_CHECK(&r == slot[s].p, "state", "assignment returns another object"); });
            model[s] = model[t]; model[t] = Model{-1, 0, false};
        } break;
        case U_SELF: {
            U& alias = *slot[s];
            sut2([&] { *slot[s] = std::move(alias); });
            bool b = bool(*slot[s]);
            if (!b) model[s] = Model{-1, 0, false}; // valid, but unspecified
            break;
        }
        case U_SWAP: { sut2([&] { std::swap(*slot[s], *slot[t]); }); std::swap(model[s], model[t]); } break;
        case U_CALL: for (int k = 0; k < 1 + int(op.c & 1); ++k) call(s, op.b + k); break;
        case U_RESET:
            sut2([&] {
                switch (op.b % 10) {
                case 0: { U& r = (*slot[s] = nullptr); SIM_CHECK(&r == slot[s].p, "state", "assignment returns another object"); break; }
                case 1: { i64 (*none)(i64) = nullptr; *slot[s] = none; break; }
                case 2: *slot[s] = U(); break;
                case 3: slot[s].kill(); slot[s].make(nullptr); break;
                case 4: { i64 (*none)(i64) = nullptr; slot[s].kill(); slot[s].make(none); break; }
                // nothing to call of another type
                case 5: { int (*none)(short) = nullptr; *slot[s] = none; break; }
                case 6: { int (*none)(short) = nullptr; slot[s].kill(); slot[s].make(none); break; }
                case 7: { itlib::ufunction<int(short)> none; *slot[s] = std::move(none); break; }
                case 8: { std::function<int(short)> none; slot[s].kill(); slot[s].make(none); break; }
                case 9: *slot[s] = std::function<i64(i64)>(); break;
                }
            });
            model[s] = Model{-1, 0, false};
            break;
        case U_DROP: drop(s); break;
        case U_ARGS: {
            Calm calm;
            i64 r = 0, want = 0;
            sut2([&] {
                typedef itlib::ufunction<i64(MoveOnly<31>, const Elem<32>&, Elem<32>&, std::unique_ptr<int>, Elem<32>&&, const char*)> F;
                Args a;
                F f(std::move(a));
                F g;
                if (op.c & 1) { g = std::move(f); SIM_CHECK(!f, "state", "a moved-from ufunction is not empty"); }
                F& h = (op.c & 1) ? g : f;
                Elem<32> c(3), l(4), x(i64(op.b % 90));
                r = h(MoveOnly<31>(i64(7)), c, l, std::unique_ptr<int>(new int(9)), std::move(x), "s");
                want = 7000000 + 30000 + (op.b % 90) * 100 + 9 + 1;
                SIM_CHECK(l.get() == 9 && c.get() == 3 && x.get() == MOVED, "argument", "the arguments did not reach the callable");
            });
            SIM_CHECK(r == want, "calls", "the call gave %ld, expected %ld", long(r), long(want));
            break;
        }
        case U_MISC: {
            Calm calm;
            sut2([&] {
                itlib::ufunction<Elem<40>&(Elem<40>&)> id = [](Elem<40>& x) -> Elem<40>& { return x; };
                Elem<40> e(5);
                SIM_CHECK(&id(e) == &e, "calls", "a reference result is another object");
                itlib::ufunction<MoveOnly<41>(i64)> mk = [](i64 v) { return MoveOnly<41>(v); };
                SIM_CHECK(mk(op.b).get() == op.b, "calls", "a move-only result is wrong");
                std::unique_ptr<int> up(new int(int(op.b)));
                int* raw = up.get();
                struct Own { std::unique_ptr<int> p; int* operator()() { return p.get(); } };
                itlib::ufunction<int*()> own = Own{std::move(up)};
                std::vector<itlib::ufunction<int*()>> l;
                l.push_back(std::move(own));
                for (int i = 0; i < 3; ++i) l.emplace_back(nullptr);
                SIM_CHECK(!own && l[0]() == raw && !l[1], "calls", "an owning callable lost its state");
                int (*other)(int) = [](int x) { return x + 2; };
                itlib::ufunction<i64(i64)> of(other);
                SIM_CHECK(of && of(5) == 7, "calls", "a function of another signature");
                itlib::ufunction<int(short)> inner = other;
                of = std::move(inner);
                SIM_CHECK(of && of(6) == 8, "calls", "a ufunction of another signature");
                itlib::ufunction<void(int)> discard = [](int x) { return x; };
                discard(3);
                itlib::ufunction<long(short)> conv = [](double d) { return short(d) + 1; };
                SIM_CHECK(conv(4) == 5, "calls", "converting call is wrong");
                std::function<i64(i64)> sf = [](i64 x) { return x * 2; };
                itlib::ufunction<i64(i64)> wrap(sf);
                SIM_CHECK(wrap(21) == 42 && sf(1) == 2, "calls", "a wrapped std::function is wrong");
            });
            break;
        }
        case T_THROW: { Calm calm; throws(op); break; }
        }
        check(snames[code]);
        ev(u64(code)); ev(u64(model[s].kind + 2)); ev(got.size()); for (i64 g : got) ev(u64(g % 100));
        state(mix64(u64(code) * 64 + u64(op.b % 8)) ^ mix64(u64(model[s].kind + 2) * 16 + u64(model[t].kind + 2)));
        nontrivial();
    }
};

struct H : Harness {
    const char* property() override { return "C21"; }
    const char* op_name(int c) override { return c >= 0 && c < T_NOPS ? snames[c] : "?"; }
    void generate(Rng& r, Case& c) override {
        int w[T_NOPS];
        for (int i = 0; i < T_NOPS; ++i) w[i] = r.chance(1, 4) ? 0 : int(2 + r.below(6));
        int n = int(1 + r.below(r.chance(1, 8) ? 30 : 12));
        for (int i = 0; i < n; ++i) {
            Op o;
            o.code = r.pick(w, T_NOPS);
            o.a = i64(r.below(16));
            o.b = i64(r.below(1 << 8));
            o.c = i64(r.below(1 << 8));
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { World w(c); w.run(); }
};
Harness* sim::make_harness() { static H h; return &h; }
