#include "vec.hpp"
#include <itlib/any.hpp>
#include <itlib/pmr_allocator.hpp>
#include <itlib/any.hpp>
#include <itlib/pmr_allocator.hpp>
#include <memory>
#include <memory_resource>
#include <string>

using namespace sim;

// ---------------------------------------------- blocks no more aligned than asked
struct ABlock { char* raw; size_t off, n, align; int id; };
inline std::vector<ABlock>& ablocks() { static std::vector<ABlock> b; return b; }
inline void* a_alloc(size_t n, size_t align, int id) {
    Host h;
    if (!align || (align & (align - 1))) fail("contract", "an allocation is asked for with alignment %zu", align);
    if (n > max_alloc) return nullptr;
    size_t big = align * 2 < 16 ? 16 : align * 2;
    char* raw = (char*)sut_alloc(n + align, big, id);
    if (!raw) return nullptr;
    ABlock b = {raw, align, n, align, id};
    ablocks().push_back(b);
    return raw + align;
}
inline void a_free(void* p, size_t n, size_t align, int id) {
    Host h;
    for (size_t i = 0; i < ablocks().size(); ++i) {
        ABlock b = ablocks()[i];
        if (p != b.raw + b.off) continue;
        if (b.id != id) fail("bad-free", "a block from resource %d is given back to resource %d", b.id, id);
        if (b.n != n) fail("bad-free", "a block of %zu bytes is given back as %zu bytes", b.n, n);
        if (b.align != align) fail("bad-free", "a block aligned to %zu is given back with alignment %zu", b.align, align);
        ablocks().erase(ablocks().begin() + long(i));
        sut_free(b.raw, -1, -1, id);
        return;
    }
    fail("bad-free", "a block is given back which is not live: freed twice or never allocated");
}
struct AA {
    int id;
    AA(int i = 100) : id(i) {}
    void* allocate_bytes(size_t n, size_t a) { void* p = a_alloc(n, a, id); if (!p) throw std::bad_alloc(); return p; }
    void deallocate_bytes(void* p, size_t n, size_t a) noexcept { a_free(p, n, a, id); }
};
// resources 0 and 2 are equal though different objects
struct Res : std::pmr::memory_resource {
    int id;
    explicit Res(int i) : id(i) {}
    long allocs = 0, frees = 0;
    size_t last_n = 0, last_a = 0;
    void* do_allocate(size_t n, size_t a) override { ++allocs; last_n = n; last_a = a; void* p = a_alloc(n, a, 200 + (id & 1)); if (!p) throw std::bad_alloc(); return p; }
    void do_deallocate(void* p, size_t n, size_t a) override { ++frees; last_n = n; last_a = a; a_free(p, n, a, 200 + (id & 1)); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override {
        auto* r = dynamic_cast<const Res*>(&o);
        return r && (r->id & 1) == (id & 1);
    }
};
inline Res& res(int i) { static Res r[3] = {Res(0), Res(1), Res(2)}; return r[i % 3]; }
typedef itlib::pmr_allocator<std::byte> PA;

template <typename A> A mk_alloc(int i);
template <> inline itlib::anyimpl::default_allocator mk_alloc(int) { return {}; }
template <> inline AA mk_alloc(int i) { return AA(100 + i % 3); }
template <> inline PA mk_alloc(int i) { return PA(&res(i)); }
inline bool same_alloc(const itlib::anyimpl::default_allocator&, int) { return true; }
inline bool same_alloc(const AA& a, int i) { return a.id == 100 + i % 3; }
inline bool same_alloc(const PA& a, int i) { return a.resource() == &res(i); }

// ------------------------------------------------------------------ values
typedef Elem<1> E1;
typedef Elem<2, BOTH, 190> E2;
typedef Elem<3, BOTH, 0, 64> E3;
typedef MoveOnly<4> E4;
typedef CopyOnly<5> E5;
struct Multi { // several constructor arguments, a failing copy inside
    E1 a; i64 b; E4* tag;
    Multi(i64 x, E1&& e) : a(std::move(e)), b(x), tag(nullptr) {}
    Multi(const Multi& o) : a(o.a), b(o.b), tag(nullptr) {}
    i64 get() const { return a.get(); }
};
struct Giant { // more bytes than sixteen bits count
    i64 v;
    char pad[70000];
    explicit Giant(i64 x) : v(x) { pad[0] = pad[sizeof pad - 1] = char(x); }
    Giant(const Giant& o) : Giant(o.v) {}
    Giant& operator=(const Giant& o) { v = o.v; pad[0] = pad[sizeof pad - 1] = char(v); return *this; }
    i64 get() const { return pad[0] == char(v) && pad[sizeof pad - 1] == char(v) ? v : -1; }
    void set(i64 x) { *this = Giant(x); }
};
template <typename T> struct Ty { typedef T type; };
const int KINDS = 13;
template <typename F> void with_kind(int k, F&& f) {
    switch (k % KINDS) {
    case 0: f(Ty<E1>()); break;
    case 1: f(Ty<E2>()); break;
    case 2: f(Ty<E3>()); break;
    case 3: f(Ty<E4>()); break;
    case 4: f(Ty<E5>()); break;
    case 5: f(Ty<int>()); break;
    case 6: f(Ty<std::string>()); break;
    case 7: f(Ty<char>()); break;
    case 8: f(Ty<Pod>()); break;
    case 9: f(Ty<Small<6>>()); break;
    case 10: f(Ty<Giant>()); break;
    case 11: f(Ty<ThrowMove<7>>()); break;
    default: f(Ty<Selfy>()); break;
    }
}
inline i64 val_of(const std::string& s) { return atoll(s.c_str()); }
using sim::val_of;
template <typename T> struct Mk { static T go(i64 v) { return T(v); } };
template <> struct Mk<int> { static int go(i64 v) { return int(v); } };
template <> struct Mk<char> { static char go(i64 v) { return char(v % 100); } };
template <> struct Mk<std::string> { static std::string go(i64 v) { return std::to_string(v) + " a long string to be allocated"; } };
template <typename T> void put(T& t, i64 v) { t.set(v); }
inline void put(int& t, i64 v) { t = int(v); }
inline void put(char& t, i64 v) { t = char(v % 100); }
inline void put(std::string& t, i64 v) { t = Mk<std::string>::go(v); }
inline void put(Pod& t, i64 v) { t = Pod(v); }

enum AOp {
    A_EMPLACE, A_EMPLACE_MOVE, A_ASSIGN_LV, A_ASSIGN_RV, A_ASSIGN_OWN, A_RESET, A_COPY_ASSIGN, A_MOVE_ASSIGN, A_COPY_CTOR, A_MOVE_CTOR,
    A_SELF_COPY, A_SELF_MOVE, A_CTOR_LV, A_CTOR_RV, A_CTOR_ALLOC, A_CTOR_EMPTY, A_CTOR_EMPTY_ALLOC, A_CTOR_OTHER, A_COPY_FROM, A_COPY_FROM_OTHER,
    A_CAST, A_CAST_WRONG, A_CAST_MOVE, A_WRITE, A_SWAP, A_ASSIGN_OTHER, A_ASSIGN_NESTED, A_CONST_VALUE, A_UNWRAP, A_NOPS
};
static const char* anames[] = {"emplace", "emplace(move)", "assign lvalue", "assign rvalue", "assign own value", "reset", "copy assign", "move assign",
    "copy construct", "move construct", "self copy assign", "self move assign", "construct lvalue", "construct rvalue", "construct(allocator, value)",
    "construct()", "construct(allocator)", "construct from other any", "copy_from", "copy_from other any", "any_cast", "any_cast wrong type",
    "any_cast rvalue", "write", "swap", "assign other any", "assign const value", "emplace derived", "assign an any inside its value"};

// the pmr_allocator part
enum POp {
    P_MAKE = 40, P_ALLOC, P_FREE, P_ALLOC_BYTES, P_FREE_BYTES, P_ALLOC_OBJ, P_FREE_OBJ, P_NEW, P_DELETE, P_COMPARE, P_COPY, P_REBIND, P_HUGE, P_CONTAINER, P_END
};
static const char* ppnames[] = {"allocator(resource)", "allocate", "deallocate", "allocate_bytes", "deallocate_bytes", "allocate_object", "deallocate_object",
    "new_object", "delete_object", "compare allocators", "copy allocator", "rebind allocator", "allocate too much", "container"};

template <typename A, typename OA>
struct AnyWorld {
    typedef itlib::any<A> V;
    typedef itlib::any<OA> O;
    struct Val { int kind = -1; i64 v = 0; };
    struct Box { char more[40]; V child; };
    Case& cs;
    Raw<V> slot[3];
    Val model[3];
    Raw<O> other;
    Val omodel;
    i64 nv = 0;
    explicit AnyWorld(Case& c) : cs(c) {}

    template <typename T> static i64 stored(i64 v) { return val_of(Mk<T>::go(v)); }

    template <typename X>
    static void check_one(X& a, const Val& m, const char* when) {
        const X& c = a;
        SIM_CHECK(c.has_value() == (m.kind >= 0) && bool(c) == (m.kind >= 0), "contents", "%s: has_value() is %d", when, int(c.has_value()));
        if (m.kind < 0) {
            SIM_CHECK(c.type() == typeid(void) && !c.data() && !a.data(), "contents", "%s: an empty any has a type or data", when);
            SIM_CHECK(!itlib::any_cast<int>(nullptr) && !itlib::any_cast<int>(&c) && !itlib::any_cast<E1>(&a), "contents", "%s: an empty any can be cast", when);
            return;
        }
        with_kind(m.kind, [&](auto ty) {
            typedef typename decltype(ty)::type T;
            SIM_CHECK(c.type() == typeid(T), "contents", "%s: another type is held", when);
            const T* p = itlib::any_cast<T>(&c);
            T* q = itlib::any_cast<T>(&a);
            SIM_CHECK(p && p == q && p == c.data() && p == a.data() && p == c.template tdata<T>() && p == a.template tdata<T>(), "contents", "%s: casts and data differ", when);
            SIM_CHECK(reinterpret_cast<uintptr_t>(p) % alignof(T) == 0, "alignment", "%s: the value is not aligned to %zu", when, alignof(T));
            SIM_CHECK(val_of(*p) == m.v, "contents", "%s: the value is %ld, expected %ld", when, long(val_of(*p)), long(m.v));
        });
    }
    void check_all(const char* when) {
        for (int s = 0; s < 3; ++s) if (slot[s].p) check_one(*slot[s], model[s], when);
        if (other.p) check_one(*other, omodel, when);
    }
    void slot_kill(int s) { Sut x; slot[s].kill(); model[s] = Val(); }
    void ensure(int s) { if (!slot[s].p) { Sut x; slot[s].make(); model[s] = Val(); } }
    void run() {
        ablocks().clear();
        std::pmr::set_default_resource(&res(0));
        { Sut x; other.make(std::allocator_arg, mk_alloc<OA>(1)); }
        for (auto& o : cs.ops) step(o);
        for (int s = 0; s < 3; ++s) if (slot[s].p) slot_kill(s);
        { Sut x; other.kill(); }
        std::pmr::set_default_resource(nullptr);
        life_check_none("the end");
        check_no_leaks("the end");
    }
    static bool copyable(int kind) { return kind != 3; }

    void step(const Op& op) {
        int s = int(op.a & 3) % 3, t = int((op.a >> 2) & 3) % 3, kind = int(op.b % KINDS), ai = int(op.d % 3);
        if (op.code >= A_NOPS) return;
        ensure(s);
        ensure(t);
        OpScope scope(op);
        i64 v = ++nv;
        Val before = model[s], want = before;
        V& a = *slot[s];
        Outcome o = OK;
        bool keep = true, ran = true, ctor = false, bad = false; // bad: bad_cast is right
        int newslot = s;
        switch (op.code) {
        case A_EMPLACE: case A_EMPLACE_MOVE: case A_CONST_VALUE:
            keep = false;
            with_kind(kind, [&](auto ty) {
                typedef typename decltype(ty)::type T;
                if (op.code == A_EMPLACE || !std::is_move_constructible<T>::value) {
                    T* r = nullptr;
                    if constexpr (std::is_constructible<T, i64>::value && !std::is_same<T, std::string>::value && !std::is_arithmetic<T>::value) o = sut([&] { r = &a.template emplace<T>(v); });
                    else { T x = Mk<T>::go(v); o = sut([&] { r = &a.template emplace<T>(x); }); }
                    if (o == OK) SIM_CHECK(r == itlib::any_cast<T>(&a), "return", "emplace returned a reference to something else");
                    want.v = stored_nf<T>(v);
                }
                else {
                    NoFaults* nf = new NoFaults; T x = Mk<T>::go(v); delete nf;
                    o = sut([&] { a.template emplace<T>(std::move(x)); });
                    want.v = stored_nf<T>(v);
                }
                want.kind = kind;
            });
            if (o != OK) { SIM_CHECK(!a.has_value() || before.kind >= 0, "contents", "a failed emplace left a value"); }
            break;
        case A_ASSIGN_LV: case A_ASSIGN_RV: case A_CTOR_LV: case A_CTOR_RV: case A_CTOR_ALLOC:
            with_kind(kind, [&](auto ty) {
                typedef typename decltype(ty)::type T;
                Raw<T> x;
                { NoFaults nf; x.make(Mk<T>::go(v)); }
                want.kind = kind; want.v = stored_nf<T>(v);
                bool lv = op.code == A_ASSIGN_LV || op.code == A_CTOR_LV || (op.code == A_CTOR_ALLOC && (op.c & 1));
                ctor = op.code >= A_CTOR_LV;
                if (ctor) slot_kill(s);
                if constexpr (std::is_copy_constructible<T>::value) {
                    if (lv) {
                        const T& cx = *x;
                        if (op.code == A_ASSIGN_LV) { if (op.c & 2) o = sut([&] { a = cx; }); else o = sut([&] { a = *x; }); }
                        else if (op.code == A_CTOR_LV) { if (op.c & 2) o = sut([&] { slot[s].make(cx); }); else o = sut([&] { slot[s].make(*x); }); }
                        else o = sut([&] { slot[s].make(std::allocator_arg, mk_alloc<A>(ai), cx); });
                        NoFaults nf;
                        SIM_CHECK(val_of(*x) == want.v, "argument", "an lvalue argument was changed");
                        if (o == OK) put(*x, v + 5000); // a copy, not a reference
                    }
                }
                else lv = false;
                if (!lv) {
                    if (op.code == A_ASSIGN_LV || op.code == A_ASSIGN_RV) o = sut([&] { a = std::move(*x); });
                    else if (op.code == A_CTOR_ALLOC) o = sut([&] { slot[s].make(std::allocator_arg, mk_alloc<A>(ai), std::move(*x)); });
                    else o = sut([&] { slot[s].make(std::move(*x)); });
                }
                { Sut g; x.kill(); }
            });
            if (o == OK && op.code == A_CTOR_ALLOC) SIM_CHECK(same_alloc(slot[s]->get_allocator(), ai), "allocator", "the given allocator is not used");
            break;
        case A_ASSIGN_OWN:
            if (before.kind < 0 || !copyable(before.kind)) { ran = false; break; }
            with_kind(before.kind, [&](auto ty) {
                typedef typename decltype(ty)::type T;
                if constexpr (std::is_copy_constructible<T>::value) o = sut([&] { a = itlib::any_cast<const T&>(static_cast<const V&>(a)); });
            });
            break;
        case A_ASSIGN_NESTED:
            with_kind(kind, [&](auto ty) {
                typedef typename decltype(ty)::type T;
                if constexpr (std::is_copy_constructible<T>::value) {
                    Raw<T> x;
                    { NoFaults nf; x.make(Mk<T>::go(v)); }
                    want.kind = kind; want.v = stored_nf<T>(v);
                    const T& cx = *x;
                    o = sut([&] { V tmp(cx); a = tmp; });
                    { Sut g; x.kill(); }
                }
                else ran = false;
            });
            break;
        case A_RESET: o = sut([&] { a.reset(); }); want = Val(); break;
        case A_COPY_ASSIGN:
            if (s == t) { ran = false; break; }
            bad = !copyable(model[t].kind); want = model[t];
            o = sut([&] { a = static_cast<const V&>(*slot[t]); });
            break;
        case A_MOVE_ASSIGN:
            if (s == t) { ran = false; break; }
            want = model[t];
            o = sut([&] { a = std::move(*slot[t]); });
            model[t] = Val();
            break;
        case A_COPY_CTOR: case A_CTOR_OTHER: {
            if (s == t) { ran = false; break; }
            ctor = true;
            Val src = op.code == A_COPY_CTOR ? model[t] : omodel;
            bad = !copyable(src.kind);
            slot_kill(s);
            want = src;
            if (op.code == A_COPY_CTOR) {
                if (op.c & 1) { o = sut([&] { slot[s].make(static_cast<const V&>(*slot[t]), mk_alloc<A>(ai)); }); if (o == OK) SIM_CHECK(same_alloc(slot[s]->get_allocator(), ai), "allocator", "the given allocator is not used"); }
                else o = sut([&] { slot[s].make(static_cast<const V&>(*slot[t])); });
            }
            else {
                if (op.c & 1) { o = sut([&] { slot[s].make(static_cast<const O&>(*other), mk_alloc<A>(ai)); }); if (o == OK) SIM_CHECK(same_alloc(slot[s]->get_allocator(), ai), "allocator", "the given allocator is not used"); }
                else o = sut([&] { slot[s].make(static_cast<const O&>(*other)); });
            }
            break;
        }
        case A_MOVE_CTOR:
            if (s == t) { ran = false; break; }
            ctor = true;
            slot_kill(s);
            want = model[t];
            o = sut([&] { slot[s].make(std::move(*slot[t])); });
            model[t] = Val();
            break;
        case A_SELF_COPY: { bad = !copyable(before.kind); V& alias = a; o = sut([&] { a = static_cast<const V&>(alias); }); break; }
        case A_SELF_MOVE: { V& alias = a; o = sut([&] { a = std::move(alias); }); break; }
        case A_UNWRAP: {
            { NoFaults nf; Sut g; V inner(std::move(a)); a.template emplace<Box>().child = std::move(inner); }
            SIM_PROBE("any inside an any");
            if (op.c & 1) o = sut([&] { a = std::move(itlib::any_cast<Box>(&a)->child); });
            else {
                bad = !copyable(before.kind) && before.kind >= 0;
                o = sut([&] { a = itlib::any_cast<Box>(static_cast<const V*>(&a))->child; });
            }
            if (o != OK) {
                Box* b = itlib::any_cast<Box>(&a);
                SIM_CHECK(b, "contents", "a failed assignment changed the value");
                NoFaults nf; Sut g; V inner(std::move(b->child)); a = std::move(inner);
            }
            break;
        }
        case A_CTOR_EMPTY: slot_kill(s); ctor = true; want = Val(); o = sut([&] { slot[s].make(); }); break;
        case A_CTOR_EMPTY_ALLOC:
            slot_kill(s); ctor = true; want = Val();
            if (op.c & 1) { const A ca = mk_alloc<A>(ai); o = sut([&] { slot[s].make(ca); }); } else o = sut([&] { slot[s].make(std::allocator_arg, mk_alloc<A>(ai)); });
            if (o == OK) SIM_CHECK(same_alloc(slot[s]->get_allocator(), ai), "allocator", "the given allocator is not used");
            break;
        case A_COPY_FROM:
            if (s == t) { ran = false; break; }
            keep = false; bad = !copyable(model[t].kind); want = model[t];
            o = sut([&] { a.copy_from(static_cast<const V&>(*slot[t])); });
            break;
        case A_COPY_FROM_OTHER: case A_ASSIGN_OTHER:
            // the other any takes a value first
            if (op.code == A_ASSIGN_OTHER) {
                want = before;
                omodel = Val();
                with_kind(kind, [&](auto ty) {
                    typedef typename decltype(ty)::type T;
                    NoFaults nf; i64 k = stored_nf<T>(v);
                    Sut g;
                    other->reset();
                    other->template emplace<T>(Mk<T>::go(v));
                    omodel.kind = kind; omodel.v = k;
                });
            }
            else {
                keep = false; bad = !copyable(omodel.kind); want = omodel;
                o = sut([&] { a.copy_from(static_cast<const O&>(*other)); });
            }
            break;
        case A_CAST:
            if (before.kind < 0) { ran = false; break; }
            with_kind(before.kind, [&](auto ty) {
                typedef typename decltype(ty)::type T;
                const V& ca = a;
                const T* p = itlib::any_cast<T>(&ca);
                T& r = itlib::any_cast<T&>(a);
                const T& cr = itlib::any_cast<const T&>(ca);
                SIM_CHECK(&r == p && &cr == p && itlib::any_cast<const T>(&a) == p, "cast", "reference casts give another object");
                if constexpr (std::is_copy_constructible<T>::value) {
                    Raw<T> x;
                    o = sut([&] { if (op.c & 1) x.make(itlib::any_cast<T>(ca)); else x.make(itlib::any_cast<T>(a)); });
                    if (o == OK) { NoFaults nf; SIM_CHECK(val_of(*x) == before.v, "cast", "a value cast gives another value"); }
                    else x.p = nullptr;
                    { Sut g; x.kill(); }
                }
            });
            break;
        case A_CAST_WRONG: {
            int k2 = before.kind < 0 ? kind : (before.kind + 1 + kind % (KINDS - 1)) % KINDS;
            if (k2 == before.kind) { ran = false; break; }
            with_kind(k2, [&](auto ty) {
                typedef typename decltype(ty)::type T;
                const V& ca = a;
                SIM_CHECK(!itlib::any_cast<T>(&ca) && !itlib::any_cast<T>(&a), "cast", "a cast to another type gives a pointer");
                SIM_CHECK((!itlib::any_cast<T, A>(static_cast<V*>(nullptr)) && !itlib::any_cast<T, A>(static_cast<const V*>(nullptr))), "cast", "a cast of a null pointer gives a pointer");
                Outcome r1 = sut([&] { (void)itlib::any_cast<T&>(a); });
                Outcome r2 = sut([&] { (void)itlib::any_cast<const T&>(ca); });
                Outcome r3 = BAD_CAST;
                if constexpr (std::is_copy_constructible<T>::value) r3 = sut([&] { (void)itlib::any_cast<T>(ca); });
                Outcome r4 = sut([&] { (void)itlib::any_cast<T>(std::move(a)); });
                SIM_CHECK(r1 == BAD_CAST && r2 == BAD_CAST && r3 == BAD_CAST && r4 == BAD_CAST, "cast", "a cast to another type does not throw std::bad_cast");
            });
            break;
        }
        case A_CAST_MOVE:
            if (before.kind < 0) { ran = false; break; }
            with_kind(before.kind, [&](auto ty) {
                typedef typename decltype(ty)::type T;
                Raw<T> x;
                o = sut([&] { x.make(itlib::any_cast<T>(std::move(a))); });
                if (o == OK) {
                    NoFaults nf;
                    SIM_CHECK(val_of(*x) == before.v, "cast", "an rvalue cast gives another value");
                    if constexpr (std::is_same<T, E1>::value || std::is_same<T, E2>::value || std::is_same<T, E3>::value || std::is_same<T, Selfy>::value || std::is_same<T, Small<6>>::value || throwing_move<T>::value)
                        SIM_CHECK(i64(val_of(*static_cast<T*>(a.data()))) == MOVED, "cast", "an rvalue cast copied the value which it should move");
                    Sut g; a.reset(); want = Val();
                }
                else {
                    x.p = nullptr;
                    // the second of two moves may have failed
                    if constexpr (throwing_move<T>::value) { NoFaults nf; if (a.has_value() && i64(val_of(*static_cast<T*>(a.data()))) == MOVED) before.v = model[s].v = MOVED; }
                }
                { Sut g; x.kill(); }
            });
            break;
        case A_WRITE:
            if (before.kind < 0) { ran = false; break; }
            with_kind(before.kind, [&](auto ty) {
                typedef typename decltype(ty)::type T;
                NoFaults nf;
                Sut g;
                if (op.c & 1) put(itlib::any_cast<T&>(a), v); else put(*static_cast<T*>(a.data()), v);
                want.v = stored_nf<T>(v);
            });
            break;
        case A_SWAP:
            o = sut([&] { std::swap(a, *slot[t]); }); // also with itself
            want = model[t]; model[t] = before;
            break;
        default: ran = false;
        }
        (void)newslot;
        if (!ran) return;
        ev(u64(o) * 7 + u64(before.kind + 1));
        int fired = faults_fired();
        if (o != OK) {
            if (bad) SIM_CHECK(o == BAD_CAST || (fired && o == BAD_ALLOC && op.fk == F_ALLOC), "exception", "copying a non-copyable value ended with %s", outcome_name(o));
            else {
                SIM_CHECK(fired, "unexpected-exception", "%s ended with %s and no fault was injected", anames[op.code], outcome_name(o));
                SIM_CHECK((o == INJECTED && op.fk == F_ELEM) || (o == BAD_ALLOC && op.fk == F_ALLOC), "exception", "%s turned the injected failure into %s", anames[op.code], outcome_name(o));
                SIM_PROBE("operation failed by a fault");
            }
            if (ctor) { slot[s].p = nullptr; model[s] = Val(); }
            else if (!keep) {
                // emplace and copy_from may have dropped the old value
                model[s] = before;
                if (!slot[s]->has_value()) model[s] = Val();
            }
            check_all("after a failed operation");
            return;
        }
        SIM_CHECK(!bad || op.code == A_CAST || op.code == A_SELF_COPY, "exception", "%s copied a non-copyable value", anames[op.code]);
        model[s] = want;
        check_all(anames[op.code]);
        state(u64(op.code) * 256 + u64(before.kind + 1) * 16 + u64(want.kind + 1));
    }
    template <typename T> static i64 stored_nf(i64 v) { NoFaults nf; return val_of(Mk<T>::go(v)); }
};

struct PmrWorld {
    typedef itlib::pmr_allocator<E3> TA; // over-aligned
    struct Live { void* p; size_t n; int kind; int r; size_t al; i64 v; };
    struct Plain { i64 x; E1 e; Plain(i64 a, const E1& b) : x(a), e(b) {} };
    Case& cs;
    std::vector<Live> live;
    int rs[3] = {0, 1, 2};
    Raw<PA> slot[3];
    i64 nv = 0;
    explicit PmrWorld(Case& c) : cs(c) {}
    void drop(size_t i) {
        Live l = live[i];
        live.erase(live.begin() + long(i));
        NoFaults nf;
        // any equal allocator may give it back
        PA a(&res(l.r));
        Sut g;
        switch (l.kind) {
        case 0: { TA b(&res(l.r)); b.deallocate(static_cast<E3*>(l.p), l.n); break; }
        case 1: a.deallocate_bytes(l.p, l.n, l.al); break;
        case 2: a.deallocate_object(static_cast<E2*>(l.p), l.n); break;
        case 3: a.delete_object(static_cast<E3*>(l.p)); break;
        case 4: a.delete_object(static_cast<Plain*>(l.p)); break;
        case 5: a.delete_object(static_cast<std::pmr::string*>(l.p)); break;
        case 6: a.deallocate_bytes(l.p, l.n); break;
        default: a.deallocate_object(static_cast<char*>(l.p)); break;
        }
    }
    void run() {
        ablocks().clear();
        std::pmr::set_default_resource(&res(1));
        for (int i = 0; i < 3; ++i) { res(i).allocs = res(i).frees = 0; slot[i].make(&res(i)); }
        for (auto& o : cs.ops) step(o);
        while (!live.empty()) drop(live.size() - 1);
        for (int i = 0; i < 3; ++i) slot[i].kill();
        std::pmr::set_default_resource(nullptr);
        life_check_none("the end");
        check_no_leaks("the end");
    }
    void step(const Op& op) {
        int s = int(op.a & 3) % 3, t = int((op.a >> 2) & 3) % 3, r = int(op.d % 3);
        PA& a = *slot[s];
        i64 v = ++nv;
        Raw<E1> arg;
        { NoFaults nf; arg.make(v); }
        long before[3], fr[3];
        for (int i = 0; i < 3; ++i) { before[i] = res(i).allocs; fr[i] = res(i).frees; }
        OpScope scope(op);
        Outcome o = OK;
        int mr = rs[s];
        Live l = {nullptr, 0, 0, mr, 0, v};
        bool ran = true;
        size_t want_n = 0, want_a = 0;
        switch (op.code) {
        case P_MAKE: o = sut([&] { slot[s].kill(); if (op.c & 1) slot[s].make(&res(r)); else { slot[s].make(); } }); rs[s] = op.c & 1 ? r : 1; break;
        case P_ALLOC: l.kind = 0; l.n = size_t(op.b % 5) + 1; want_n = l.n * sizeof(E3); want_a = alignof(E3); o = sut([&] { TA b(a); E3* p = b.allocate(l.n); l.p = p; }); break;
        case P_ALLOC_BYTES:
            l.n = size_t(op.b % 60) + 1; want_n = l.n;
            if (op.c & 1) { l.kind = 1; l.al = size_t(1) << (op.d % 8); want_a = l.al; o = sut([&] { l.p = a.allocate_bytes(l.n, l.al); }); }
            else { l.kind = 6; want_a = alignof(std::max_align_t); o = sut([&] { l.p = a.allocate_bytes(l.n); }); }
            break;
        case P_ALLOC_OBJ:
            if (op.c & 1) { l.kind = 2; l.n = size_t(op.b % 4) + 1; want_n = l.n * sizeof(E2); want_a = alignof(E2); o = sut([&] { l.p = a.allocate_object<E2>(l.n); }); }
            else { l.kind = 7; l.n = 1; want_n = 1; want_a = 1; o = sut([&] { l.p = a.allocate_object<char>(); }); }
            break;
        case P_FREE: case P_FREE_BYTES: case P_FREE_OBJ: case P_DELETE:
            if (live.empty()) { ran = false; break; }
            {
                size_t i = size_t(op.b) % live.size();
                int x = live[i].r;
                long nested = live[i].kind == 5;
                drop(i);
                for (int k = 0; k < 3; ++k) SIM_CHECK(res(k).frees == fr[k] + (k == x ? 1 + nested : 0), "resource", "giving back to resource %d made %ld calls to resource %d", x, res(k).frees - fr[k], k);
            }
            break;
        case P_NEW: {
            int k = int(op.c % 3);
            if (k == 0) { l.kind = 3; want_n = sizeof(E3); want_a = alignof(E3); E3* p = nullptr; o = sut([&] { p = a.new_object<E3>(v); }); l.p = p; if (o == OK) SIM_CHECK(p->get() == v, "contents", "new_object"); }
            else if (k == 1) { l.kind = 4; want_n = sizeof(Plain); want_a = alignof(Plain); Plain* p = nullptr; o = sut([&] { p = a.new_object<Plain>(v, *arg); }); l.p = p; if (o == OK) SIM_CHECK(p->x == v && p->e.get() == v, "contents", "new_object"); }
            else {
                // uses-allocator construction: the string's memory is from there as well
                l.kind = 5;
                std::pmr::string* p = nullptr;
                o = sut([&] { p = a.new_object<std::pmr::string>("a string which is long enough to need memory of its own"); });
                l.p = p;
                if (o == OK) {
                    SIM_CHECK(p->get_allocator().resource() == &res(mr), "resource", "new_object did not hand its resource to the object");
                    SIM_CHECK(res(mr).allocs == before[mr] + 2, "resource", "new_object of a string made %ld allocations", res(mr).allocs - before[mr]);
                }
            }
            break;
        }
        case P_COMPARE: {
            PA& b = *slot[t];
            bool e = (rs[s] & 1) == (rs[t] & 1);
            SIM_CHECK((a == b) == e && (a != b) == !e, "compare", "allocators of resources %d and %d compare %s", rs[s], rs[t], a == b ? "equal" : "unequal");
            TA ta(&res(rs[t]));
            SIM_CHECK((a == ta) == e && (ta != a) == !e, "compare", "allocators of different types");
            SIM_CHECK(a.resource() == &res(rs[s]), "resource", "resource()");
            break;
        }
        case P_COPY:
            if (s == t) { ran = false; break; }
            o = sut([&] { slot[t].kill(); if (op.c & 1) slot[t].make(a); else slot[t].make(std::move(a)); });
            rs[t] = rs[s];
            SIM_CHECK(slot[t]->resource() == &res(rs[s]) && a.resource() == &res(rs[s]), "resource", "a copy has another resource");
            if (op.c & 2) { auto q = a.select_on_container_copy_construction(); SIM_CHECK(q.resource() == &res(1), "resource", "select_on_container_copy_construction"); }
            break;
        case P_REBIND: {
            TA b(a);
            itlib::pmr_allocator<char> c(b);
            std::pmr::polymorphic_allocator<int> d(c);
            std::pmr::polymorphic_allocator<std::byte>& base = a;
            SIM_CHECK(b.resource() == &res(rs[s]) && c.resource() == &res(rs[s]) && d.resource() == &res(rs[s]) && base.resource() == &res(rs[s]), "resource", "a converted allocator has another resource");
            break;
        }
        case P_HUGE: {
            size_t n = size_t(-1) / sizeof(E2) + 1 + size_t(op.b % 3);
            o = sut([&] { if (op.c & 1) (void)a.allocate_object<E2>(n); else { itlib::pmr_allocator<E2> b(a); (void)b.allocate(n); } });
            SIM_CHECK(o == BAD_ALLOC, "huge", "an overflowing size ended with %s", outcome_name(o));
            for (int k = 0; k < 3; ++k) SIM_CHECK(res(k).allocs == before[k], "huge", "an overflowing size reached the resource");
            { NoFaults nf; Sut g; arg.kill(); }
            return;
        }
        case P_CONTAINER: {
            size_t made = 0;
            o = sut([&] {
                std::pmr::vector<i64> x(a);
                for (int i = 0; i < int(op.b % 9); ++i) x.push_back(i);
                std::vector<i64, itlib::pmr_allocator<i64>> y(a);
                for (int i = 0; i < int(op.b % 9); ++i) y.push_back(i);
                made = x.size() + y.size();
            });
            if (o == OK) SIM_CHECK(made == 2 * size_t(op.b % 9), "contents", "container");
            for (int k = 0; k < 3; ++k) SIM_CHECK(k == mr || (res(k).allocs == before[k] && res(k).frees == fr[k]), "resource", "a container of resource %d used resource %d", mr, k);
            break;
        }
        default: ran = false;
        }
        { NoFaults nf; Sut g; arg.kill(); }
        if (!ran) return;
        ev(u64(o) * 7 + u64(mr));
        int fired = faults_fired();
        if (o != OK) {
            SIM_CHECK(fired, "unexpected-exception", "%s ended with %s and no fault was injected", ppnames[op.code - P_MAKE], outcome_name(o));
            SIM_CHECK((o == INJECTED && op.fk == F_ELEM) || (o == BAD_ALLOC && op.fk == F_ALLOC), "exception", "%s turned the injected failure into %s", ppnames[op.code - P_MAKE], outcome_name(o));
            SIM_PROBE("operation failed by a fault");
            if (op.code == P_NEW) SIM_CHECK(res(mr).allocs - before[mr] >= res(mr).frees - fr[mr], "resource", "a failed new_object gave back more than it took");
        }
        else if (l.p) {
            if (want_n) {
                SIM_CHECK(res(mr).allocs == before[mr] + 1 && res(mr).last_n == want_n && res(mr).last_a == want_a, "resource", "%s asked for %zu bytes aligned to %zu, expected %zu aligned to %zu",
                    ppnames[op.code - P_MAKE], res(mr).last_n, res(mr).last_a, want_n, want_a);
            }
            for (int k = 0; k < 3; ++k) SIM_CHECK(k == mr || res(k).allocs == before[k], "resource", "%s of an allocator of resource %d used resource %d", ppnames[op.code - P_MAKE], mr, k);
            live.push_back(l);
        }
        for (auto& x : live) {
            if (x.kind == 3) SIM_CHECK(static_cast<E3*>(x.p)->get() == x.v, "contents", "an object was changed");
            if (x.kind == 4) SIM_CHECK(static_cast<Plain*>(x.p)->e.get() == x.v, "contents", "an object was changed");
        }
        state(u64(op.code) * 256 + u64(mr) * 16 + u64(live.size() & 7));
    }
};

template <typename A, typename O> struct W { static void go(Case& c) { AnyWorld<A, O> w(c); w.run(); } };
struct WP { static void go(Case& c) { PmrWorld w(c); w.run(); } };
typedef itlib::anyimpl::default_allocator DA;
SIM_CFG(0, W<AA, AA>)
SIM_CFG(1, W<PA, PA>)
SIM_CFG(2, W<DA, DA>)
SIM_CFG(3, WP)
SIM_CFG(4, W<AA, PA>)
SIM_CFG(5, W<PA, DA>)
SIM_CFG(6, W<DA, AA>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C14"; }
    const char* op_name(int c) override { return c >= P_MAKE && c < P_END ? ppnames[c - P_MAKE] : c >= 0 && c < A_NOPS ? anames[c] : "?"; }
    const char* cfg_names() override { return "any and its allocator, or pmr_allocator"; }
    void generate(Rng& r, Case& c) override {
        c.cfg.push_back(int(r.below(u64(cfg_count()))));
        bool pmr = c.cfg[0] == 3;
        int w[64] = {0};
        if (pmr) for (int i = P_MAKE; i < P_END; ++i) w[i] = r.chance(1, 4) ? 0 : int(2 + r.below(6));
        else for (int i = 0; i < A_NOPS; ++i) w[i] = r.chance(1, 4) ? 0 : int(2 + r.below(6));
        int n = int(2 + r.below(r.chance(1, 8) ? 40 : 12)), frate = int(r.below(4)), slots = int(1 + r.below(3));
        int kinds = int(1 + r.below(KINDS)), k0 = int(r.below(KINDS));
        for (int i = 0; i < n; ++i) {
            Op o;
            o.code = r.pick(w, 64);
            o.a = i64(r.below(u64(slots))) | (i64(r.below(3)) << 2);
            o.b = pmr ? i64(r.below(64)) : i64((u64(k0) + r.below(u64(kinds))) % KINDS);
            o.c = i64(r.below(64));
            o.d = i64(r.below(64));
            if (frate && r.chance(unsigned(frate), 6)) {
                o.fk = r.chance(1, 2) ? F_ALLOC : F_ELEM;
                o.fn = int(1 + r.below(r.chance(2, 3) ? 2 : 4));
                if (r.chance(1, 6)) o.fn = -o.fn;
            }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
