#include "vec.hpp"
#include <itlib/expected.hpp>

using namespace sim;
using itlib::unexpected;

enum XOp {
    X_CTOR, X_CTOR_VAL, X_CTOR_UNEX, X_CTOR_ERR_RV, X_CTOR_ERR_LV, X_CTOR_ERR_CLV, X_CTOR_ERR_CONV, X_MOVE_CTOR,
    X_ASSIGN_VAL, X_ASSIGN_UNEX, X_ASSIGN_ERR_RV, X_ASSIGN_ERR_LV, X_ASSIGN_ERR_CONV, X_MOVE_ASSIGN, X_SWAP,
    X_COPY_CTOR, X_COPY_ASSIGN, X_SELF_COPY, X_CLEAR, X_EMPLACE, X_VALUE_OR, X_VALUE_OR_RV, X_WRITE, X_WRITE_ERR,
    X_TAKE, X_TAKE_ERR, X_RETURN, X_REMAKE, X_NOPS
};
static const char* xnames[] = {"construct()", "construct(value)", "construct(unexpected())", "construct(unexpected(rvalue))", "construct(unexpected(lvalue))",
    "construct(unexpected(const lvalue))", "construct(unexpected(convertible))", "move construct", "assign value", "assign unexpected()", "assign unexpected(rvalue)",
    "assign unexpected(lvalue)", "assign unexpected(convertible)", "move assign", "swap", "copy construct", "copy assign", "self copy assign", "clear", "emplace",
    "value_or", "value_or on rvalue", "write value", "write error", "take value", "take error", "return from function", "remake"};

struct NoT { i64 get() const { return 0; } };

// T, E element types (NoT: void); Ref: the value is a reference; TrackT/TrackE: counted in the registry
template <typename T_, typename E_, bool Ref, bool TrackT, bool TrackE, bool Calm = false>
struct ET {
    typedef T_ T; typedef E_ E;
    static constexpr bool ref = Ref, track_t = TrackT, track_e = TrackE, calm = Calm;
    static constexpr bool tvoid = std::is_same<T, NoT>::value, evoid = std::is_same<E, NoT>::value;
    typedef typename std::conditional<tvoid, void, typename std::conditional<Ref, T&, T>::type>::type VT;
    typedef typename std::conditional<evoid, void, E>::type EV;
    typedef itlib::expected<VT, EV> X;
};

template <typename Tr>
struct ExpWorld {
    typedef typename Tr::X X;
    typedef typename Tr::T T;
    typedef typename Tr::E E;
    static constexpr bool tvoid = Tr::tvoid, evoid = Tr::evoid, ref = Tr::ref;
    static constexpr bool throwing = throwing_move<T>::value || throwing_move<E>::value;
    struct Model { bool has = true; i64 v = 0; i64 e = 0; int at = 0; };
    Case& cs;
    Raw<X> slot[3];
    Model model[3];
    Raw<T> target[4]; // for references
    i64 tv[4];
    i64 nv = 0;
    size_t extra = 0;
    explicit ExpWorld(Case& c) : cs(c) {}

    template <typename U> static void put(U& u, i64 v) { if constexpr (std::is_arithmetic<U>::value) u = U(v); else u.set(v); }
    static i64 dflt_t() { if constexpr (std::is_same<T, Pod>::value) return 0; else { NoFaults nf; T t = T(); return val(t); } }
    static i64 dflt_e() { NoFaults nf; E e = E(); return val(e); }
    // an rvalue given is moved from, not copied
    template <typename U> static void gave(const U& u, const char* what) {
        if constexpr (!Tr::calm && std::is_class<U>::value && !std::is_same<U, Pod>::value && !std::is_same<U, NoT>::value)
            SIM_CHECK(val(u) == MOVED, "argument", "%s copies an rvalue instead of moving it", what);
    }
    template <typename U> static i64 val(const U& u) { if constexpr (std::is_same<U, NoT>::value) return 0; else return val_of(u); }
    static T mt(i64 v) { if constexpr (tvoid) return T(); else return T(v); }
    static E me(i64 v) { if constexpr (evoid) return E(); else return E(v); }

    Model read(X& x) {
        Model m;
        m.has = x.has_value();
        if (m.has) {
            if constexpr (!tvoid) {
                m.v = val(x.value());
                if constexpr (ref) { m.at = -1; for (int i = 0; i < 4; ++i) if (&x.value() == target[i].p) m.at = i; }
            }
        }
        else if constexpr (!evoid) m.e = val(x.error());
        return m;
    }
    void check_slot(int s, const char* when) {
        X& x = *slot[s];
        const X& c = x;
        Model& m = model[s];
        SIM_CHECK(c.has_value() == m.has && c.has_error() == !m.has && bool(c) == m.has, "state", "%s: slot %d holds %s, expected %s", when, s, c.has_value() ? "a value" : "an error", m.has ? "a value" : "an error");
        if (m.has) {
            if constexpr (!tvoid) {
                auto* p = &x.value();
                auto* q = &c.value();
                if constexpr (ref) SIM_CHECK(p == target[m.at].p && q == p && &*x == p && x.operator->() == p && c.operator->() == p && &*c == p, "state", "%s: the reference is to another object", when);
                else {
                    SIM_CHECK(p == q && &*x == p && &*c == q && x.operator->() == p && c.operator->() == q, "state", "%s: accessors differ", when);
                    SIM_CHECK((const char*)p >= (const char*)&x && (const char*)(p + 1) <= (const char*)(&x + 1), "state", "%s: the value is not inside", when);
                    T&& rv = std::move(x).value();
                    T&& rd = *std::move(x);
                    SIM_CHECK(&rv == p && &rd == p, "state", "%s: rvalue accessors differ", when);
                    SIM_CHECK(val(*p) == m.v, "state", "%s: slot %d holds value %ld, expected %ld", when, s, long(val(*p)), long(m.v));
                }
            }
        }
        else {
            if constexpr (!evoid) {
                auto* p = &x.error();
                auto* q = &c.error();
                E&& rv = std::move(x).error();
                SIM_CHECK(p == q && &rv == p, "state", "%s: error accessors differ", when);
                SIM_CHECK(val(*p) == m.e, "state", "%s: slot %d holds error %ld, expected %ld", when, s, long(val(*p)), long(m.e));
            }
        }
    }
    void check_all(const char* when) {
        size_t want = extra + (ref && Tr::track_t ? 4 : 0);
        for (int s = 0; s < 3; ++s) if (slot[s].p) {
            check_slot(s, when);
            want += model[s].has ? (Tr::track_t && !ref && !tvoid ? 1 : 0) : (Tr::track_e && !evoid ? 1 : 0);
        }
        SIM_CHECK(life_count() == want, "object", "%s: %zu objects are alive, expected %zu", when, life_count(), want);
        if constexpr (ref) for (int i = 0; i < 4; ++i) SIM_CHECK(val(*target[i]) == tv[i], "state", "%s: a referenced object was changed", when);
    }
    void slot_kill(int s) { Sut g; slot[s].kill(); model[s] = Model(); }
    void ensure(int s) {
        if (slot[s].p) return;
        NoFaults nf;
        model[s] = Model();
        i64 v = ++nv;
        if constexpr (ref) { slot[s].make(*target[v % 4]); model[s].at = int(v % 4); }
        else if constexpr (tvoid) slot[s].make();
        else { slot[s].make(mt(v)); model[s].v = v; }
    }
    X produce(bool err, T& t, E& e) { // an expected returned from a function
        if (err) {
            if constexpr (evoid) return unexpected(); else return unexpected(std::move(e));
        }
        if constexpr (tvoid) return {};
        else if constexpr (ref) return t;
        else return std::move(t);
    }

    void run() {
        if constexpr (ref) for (int i = 0; i < 4; ++i) { target[i].make(mt(1000 + i)); tv[i] = 1000 + i; }
        for (auto& o : cs.ops) step(o);
        for (int s = 0; s < 3; ++s) if (slot[s].p) slot_kill(s);
        if constexpr (ref) for (int i = 0; i < 4; ++i) target[i].kill();
        life_check_none("the end");
        check_no_leaks("the end");
    }

    void step(const Op& op) {
        int s = int(op.a & 3) % 3, t = int((op.a >> 2) & 3) % 3;
        ensure(s);
        ensure(t);
        i64 v = ++nv;
        Raw<T> ta; Raw<E> ea;
        { NoFaults nf; ta.make(mt(v)); ea.make(me(v)); }
        extra = (Tr::track_t ? 1 : 0) + (Tr::track_e ? 1 : 0);
        step2(op, s, t, v, ta, ea);
        { NoFaults nf; ta.kill(); ea.kill(); }
        extra = 0;
    }
    void step2(const Op& op, int s, int t, i64 v, Raw<T>& ta, Raw<E>& ea) {
        OpScope scope(op);
        bool moves = op.code == X_MOVE_CTOR || op.code == X_MOVE_ASSIGN || op.code == X_SWAP || op.code == X_TAKE || op.code == X_TAKE_ERR || op.code == X_RETURN ||
            op.code == X_ASSIGN_VAL || op.code == X_ASSIGN_UNEX || op.code == X_ASSIGN_ERR_RV || op.code == X_ASSIGN_ERR_LV || op.code == X_ASSIGN_ERR_CONV;
        struct Calm { bool on; explicit Calm(bool o) : on(o) { if (on) suspend_faults(true); } ~Calm() { if (on) suspend_faults(false); } } calm(Tr::calm && moves);
        X& x = *slot[s];
        Model before = model[s], want = before;
        Outcome o = OK;
        bool ran = true, ctor = false, loose = false, lv = false;
        int code = op.code, at = int(op.b & 3);
        auto as_val = [&] { want = Model(); want.v = v; want.at = at; if (ref) want.v = 0; };
        auto as_err = [&](i64 e) { want = Model(); want.has = false; want.e = evoid ? 0 : e; };
        switch (code) {
        case X_CTOR: case X_REMAKE:
            if constexpr (ref) ran = false;
            else {
                i64 d = 0;
                if constexpr (!tvoid) d = dflt_t();
                ctor = true; slot_kill(s); as_val(); want.v = d;
                o = sut([&] { slot[s].make(); });
            }
            break;
        case X_CTOR_VAL:
            if constexpr (tvoid) ran = false;
            else {
                ctor = true; slot_kill(s); as_val();
                if constexpr (ref) o = sut([&] { slot[s].make(*target[at]); });
                else { o = sut([&] { slot[s].make(std::move(*ta)); }); if (o == OK) gave(*ta, xnames[code]); }
            }
            break;
        case X_CTOR_UNEX: { i64 d = dflt_e(); ctor = true; slot_kill(s); as_err(d); o = sut([&] { slot[s].make(unexpected()); }); break; }
        case X_ASSIGN_UNEX: { i64 d = dflt_e(); as_err(d); o = sut([&] { x = unexpected(); }); break; }
        case X_CTOR_ERR_RV: case X_CTOR_ERR_LV: case X_CTOR_ERR_CLV: case X_CTOR_ERR_CONV:
        case X_ASSIGN_ERR_RV: case X_ASSIGN_ERR_LV: case X_ASSIGN_ERR_CONV:
            if constexpr (evoid) ran = false;
            else {
                ctor = code <= X_CTOR_ERR_CONV;
                if constexpr (!std::is_copy_constructible<E>::value) if (code == X_CTOR_ERR_LV || code == X_CTOR_ERR_CLV || code == X_ASSIGN_ERR_LV) { ran = false; break; }
                if (ctor) slot_kill(s);
                as_err(v);
                if (code == X_CTOR_ERR_RV) o = sut([&] { slot[s].make(unexpected(std::move(*ea))); });
                if (code == X_ASSIGN_ERR_RV) o = sut([&] { x = unexpected(std::move(*ea)); });
                if (code == X_CTOR_ERR_CONV) o = sut([&] { slot[s].make(unexpected(int(v))); });
                if (code == X_ASSIGN_ERR_CONV) o = sut([&] { x = unexpected(int(v)); });
                if constexpr (std::is_copy_constructible<E>::value) {
                    if (code == X_CTOR_ERR_LV) { lv = true; o = sut([&] { slot[s].make(unexpected(*ea)); }); }
                    if (code == X_CTOR_ERR_CLV) { lv = true; const E& ce = *ea; o = sut([&] { slot[s].make(unexpected(ce)); }); }
                    if (code == X_ASSIGN_ERR_LV) { lv = true; o = sut([&] { x = unexpected(*ea); }); }
                }
                if (o == OK && (code == X_CTOR_ERR_RV || code == X_ASSIGN_ERR_RV)) gave(*ea, xnames[code]);
                if (lv) SIM_CHECK(val(*ea) == v, "argument", "an lvalue error was changed");
            }
            break;
        case X_ASSIGN_VAL:
            if constexpr (tvoid) { as_val(); want.v = 0; o = sut([&] { x = X(); }); }
            else {
                as_val();
                if constexpr (ref) o = sut([&] { x = *target[at]; });
                else { o = sut([&] { x = std::move(*ta); }); if (o == OK) gave(*ta, xnames[code]); }
            }
            break;
        case X_MOVE_CTOR:
            if (s == t) { ran = false; break; }
            ctor = true; slot_kill(s); want = model[t];
            o = sut([&] { slot[s].make(std::move(*slot[t])); });
            if (o == OK) { model[t] = read(*slot[t]); }
            break;
        case X_MOVE_ASSIGN:
            if (s == t) { ran = false; break; }
            want = model[t];
            o = sut([&] { x = std::move(*slot[t]); });
            if (o == OK) { model[t] = read(*slot[t]); }
            break;
        case X_SWAP:
            want = model[t];
            o = sut([&] { std::swap(x, *slot[t]); }); // also with itself
            if (o == OK) model[t] = before;
            break;
        case X_RETURN: {
            bool err = op.b & 4;
            if (err) as_err(v); else { as_val(); if (tvoid) want.v = 0; }
            T* tp = ta.p;
            if constexpr (ref) tp = target[at].p;
            if (op.c & 1) { ctor = true; slot_kill(s); o = sut([&] { slot[s].make(produce(err, *tp, *ea)); }); }
            else o = sut([&] { x = produce(err, *tp, *ea); });
            break;
        }
        case X_COPY_CTOR:
            if constexpr (evoid && std::is_copy_constructible<X>::value) {
                if (s == t) { ran = false; break; }
                ctor = true; slot_kill(s); want = model[t];
                o = sut([&] { slot[s].make(static_cast<const X&>(*slot[t])); });
            }
            else ran = false;
            break;
        case X_COPY_ASSIGN:
            if constexpr (evoid && std::is_copy_constructible<X>::value) {
                if (s == t) { ran = false; break; }
                want = model[t];
                o = sut([&] { x = static_cast<const X&>(*slot[t]); });
                loose = true;
            }
            else ran = false;
            break;
        case X_SELF_COPY:
            if constexpr (evoid && std::is_copy_constructible<X>::value) {
                X& alias = x; o = sut([&] { x = static_cast<const X&>(alias); }); loose = true;
            }
            else ran = false;
            break;
        case X_CLEAR:
            if constexpr (evoid) { as_err(0); o = sut([&] { x.clear(); }); }
            else ran = false;
            break;
        case X_EMPLACE:
            if constexpr (evoid) {
                as_val(); loose = true;
                if constexpr (tvoid) { want.v = 0; o = sut([&] { x.emplace(); }); }
                else if constexpr (ref) o = sut([&] { x.emplace(*target[at]); });
                else if (op.c & 1) o = sut([&] { x.emplace(v); });
                else if ((op.c & 2) && std::is_default_constructible<T>::value) { want.v = dflt_t(); if constexpr (std::is_same<T, Pod>::value) o = sut([&] { x.emplace(i64(0)); }); else o = sut([&] { x.emplace(); }); }
                else { o = sut([&] { x.emplace(std::move(*ta)); }); if (o == OK) gave(*ta, xnames[code]); }
            }
            else ran = false;
            break;
        case X_VALUE_OR: case X_VALUE_OR_RV:
            if constexpr (tvoid) ran = false;
            else if constexpr (ref) {
                T* r = nullptr;
                o = sut([&] { r = &x.value_or(*target[at]); });
                SIM_CHECK(r == (before.has ? target[before.at].p : target[at].p), "state", "value_or gives another object");
            }
            else {
                Raw<T> r;
                const X& cx = x;
                if constexpr (std::is_same<T, i64>::value) if (op.c & 8) { // a value which a default of another type cannot hold
                    if (!before.has) { if (code == X_VALUE_OR) SIM_CHECK(cx.value_or(float(v) + .5f) == v && cx.value_or((signed char)-5) == -5, "state", "value_or does not give the default converted");  break; }
                    i64 big = (i64(1) << 60) + v;
                    x.value() = big; want.v = big;
                    i64 got = 0;
                    float f = .5f;
                    o = sut([&] { got = code == X_VALUE_OR ? (op.c & 1 ? cx.value_or(2.5) : cx.value_or(f)) : (op.c & 1 ? std::move(x).value_or(2.5) : std::move(x).value_or(f)); });
                    SIM_CHECK(got == big, "state", "value_or gives %ld, the value held is %ld", long(got), long(big));
                    break;
                }
                if (code == X_VALUE_OR) {
                    if constexpr (std::is_copy_constructible<T>::value) {
                        if (op.c & 1) o = sut([&] { r.make(cx.value_or(std::move(*ta))); });
                        else { lv = true; o = sut([&] { r.make(cx.value_or(*ta)); }); }
                    }
                    else { ran = false; break; }
                }
                else {
                    if (op.c & 1) o = sut([&] { r.make(std::move(x).value_or(std::move(*ta))); });
                    else if constexpr (std::is_copy_constructible<T>::value) { lv = true; o = sut([&] { r.make(std::move(x).value_or(*ta)); }); }
                    else { ran = false; break; }
                }
                if (o == OK) SIM_CHECK(val(*r) == (before.has ? before.v : v), "state", "value_or gives %ld, expected %ld", long(val(*r)), long(before.has ? before.v : v));
                else r.p = nullptr;
                if (lv || before.has) SIM_CHECK(val(*ta) == v, "argument", "value_or changed its argument");
                else if (o == OK) gave(*ta, xnames[code]);
                { NoFaults nf; r.kill(); }
                // a value moved out leaves something behind
                if (code == X_VALUE_OR_RV) { Model m = read(x); SIM_CHECK(m.has == before.has, "state", "value_or changed the state"); if (before.has) want.v = m.v; }
            }
            break;
        case X_WRITE:
            if (!before.has || tvoid || ref) { ran = false; break; }
            if constexpr (!tvoid && !ref) {
                if ((op.c & 3) == 0) put(x.value(), v); else if ((op.c & 3) == 1) put(*x, v); else put(*x.operator->(), v);
                want.v = v;
            }
            break;
        case X_WRITE_ERR:
            if (before.has || evoid) { ran = false; break; }
            if constexpr (!evoid) { put(x.error(), v); want.e = v; }
            break;
        case X_TAKE:
            if (!before.has || tvoid || ref) { ran = false; break; }
            if constexpr (!tvoid && !ref) {
                Raw<T> r;
                o = sut([&] { if (op.c & 1) r.make(std::move(x).value()); else r.make(*std::move(x)); });
                if (o == OK) SIM_CHECK(val(*r) == before.v, "state", "the value taken is %ld, expected %ld", long(val(*r)), long(before.v)); else r.p = nullptr;
                { NoFaults nf; r.kill(); }
                Model m = read(x); SIM_CHECK(m.has, "state", "taking the value changed the state"); want.v = m.v;
            }
            break;
        case X_TAKE_ERR:
            if (before.has || evoid) { ran = false; break; }
            if constexpr (!evoid) {
                Raw<E> r;
                o = sut([&] { r.make(std::move(x).error()); });
                if (o == OK) SIM_CHECK(val(*r) == before.e, "state", "the error taken is %ld, expected %ld", long(val(*r)), long(before.e)); else r.p = nullptr;
                { NoFaults nf; r.kill(); }
                Model m = read(x); SIM_CHECK(!m.has, "state", "taking the error changed the state"); want.e = m.e;
            }
            break;
        default: ran = false;
        }
        if (!ran) return;
        ev(u64(o) * 7 + u64(before.has) * 2 + u64(want.has));
        if (o != OK) {
            SIM_CHECK(faults_fired(), "unexpected-exception", "%s ended with %s and no fault was injected", xnames[code], outcome_name(o));
            SIM_CHECK(o == INJECTED, "exception", "%s turned the injected failure into %s", xnames[code], outcome_name(o));
            SIM_PROBE("operation failed by a fault");
            if (ctor) { slot[s].p = nullptr; model[s] = Model(); }
            else if (loose) {
                // either state, but a real one
                Model m = read(*slot[s]);
                SIM_CHECK(!m.has || ((m.v == before.v || (throwing && m.v == MOVED)) && before.has), "state", "after a failed operation a value %ld is held which was never given", long(m.v));
                model[s] = m;
            }
            // the second of two moves may have failed
            if (throwing) for (int i = 0; i < 3; ++i) {
                if (!slot[i].p) continue;
                Model m = read(*slot[i]);
                if (m.has != model[i].has) continue;
                if (m.v == MOVED) model[i].v = MOVED;
                if (m.e == MOVED) model[i].e = MOVED;
            }
            check_all("after a failed operation");
            return;
        }
        model[s] = want;
        check_all(xnames[code]);
        state(u64(code) * 4 + u64(before.has) * 2 + u64(want.has));
    }
};

template <typename T> struct W { static void go(Case& c) { ExpWorld<T> w(c); w.run(); } };
typedef Elem<1> V1;
typedef Elem<2> E2;
typedef Elem<3, BOTH, 100> V3;
typedef Elem<4, BOTH, 0, 64> W4;
typedef MoveOnly<5> M5;
typedef MoveOnly<6> M6;
typedef CopyOnly<7> C7;
typedef CopyOnly<8> C8;
SIM_CFG(0, W<ET<V1, E2, false, true, true>>)
SIM_CFG(1, W<ET<V1, V1, false, true, true>>)
SIM_CFG(2, W<ET<M5, E2, false, true, true>>)
SIM_CFG(3, W<ET<V3, M6, false, true, true>>)
SIM_CFG(4, W<ET<i64, W4, false, false, true>>)
SIM_CFG(5, W<ET<W4, int, false, true, false>>)
SIM_CFG(6, W<ET<V1, E2, true, true, true>>)
SIM_CFG(7, W<ET<i64, M6, true, false, true>>)
SIM_CFG(8, W<ET<NoT, E2, false, false, true>>)
SIM_CFG(9, W<ET<NoT, int, false, false, false>>)
SIM_CFG(10, W<ET<V1, NoT, false, true, false>>)
SIM_CFG(11, W<ET<V3, NoT, false, true, false>>)
SIM_CFG(12, W<ET<V1, NoT, true, true, false>>)
SIM_CFG(13, W<ET<NoT, NoT, false, false, false>>)
SIM_CFG(14, W<ET<C7, C8, false, true, true, true>>)
SIM_CFG(15, W<ET<C7, NoT, false, true, false, true>>)
SIM_CFG(16, W<ET<NoT, W4, false, false, true>>)
SIM_CFG(17, W<ET<Selfy, Selfy, false, false, false>>)
SIM_CFG(18, W<ET<Selfy, NoT, false, false, false>>)
SIM_CFG(19, W<ET<int, Selfy, false, false, false>>)
SIM_CFG(22, W<ET<i64, NoT, false, false, false>>)
SIM_CFG(23, W<ET<Small<9>, NoT, false, true, false>>)
SIM_CFG(24, W<ET<Small<9>, Small<10>, false, true, true>>)
SIM_CFG(25, W<ET<Small<9>, E2, false, true, true>>)
SIM_CFG(26, W<ET<V1, Small<10>, false, true, true>>)
SIM_CFG(27, W<ET<NoT, Small<10>, false, false, true>>)
SIM_CFG(28, W<ET<Small<9>, int, false, true, false>>)
SIM_CFG(29, W<ET<ThrowMove<11>, ThrowMove<12>, false, true, true, true>>)
SIM_CFG(30, W<ET<ThrowMove<11>, NoT, false, true, false, true>>)
SIM_CFG(31, W<ET<NoT, ThrowMove<12>, false, false, true, true>>)
SIM_CFG(32, W<ET<ThrowMove<11>, ThrowMove<11>, false, true, true, true>>)
SIM_CFG(20, W<ET<Selfy, int, true, false, false>>)
SIM_CFG(21, W<ET<NoT, Selfy, false, false, false>>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C15"; }
    const char* op_name(int c) override { return c >= 0 && c < X_NOPS ? xnames[c] : "?"; }
    const char* cfg_names() override { return "value and error type"; }
    void generate(Rng& r, Case& c) override {
        c.cfg.push_back(int(r.below(u64(cfg_count()))));
        int w[X_NOPS];
        for (int i = 0; i < X_NOPS; ++i) w[i] = r.chance(1, 4) ? 0 : int(2 + r.below(6));
        int n = int(1 + r.below(r.chance(1, 8) ? 40 : 12)), frate = int(r.below(4)), slots = int(1 + r.below(3));
        for (int i = 0; i < n; ++i) {
            Op o;
            o.code = r.pick(w, X_NOPS);
            o.a = i64(r.below(u64(slots))) | (i64(r.below(3)) << 2);
            o.b = i64(r.below(64));
            o.c = i64(r.below(64));
            o.d = i64(r.below(64));
            if (frate && r.chance(unsigned(frate), 6)) {
                o.fk = F_ELEM;
                o.fn = int(1 + r.below(r.chance(2, 3) ? 1 : 3));
                if (r.chance(1, 6)) o.fn = -o.fn;
            }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
