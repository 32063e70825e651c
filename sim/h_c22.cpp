// C22: qalgorithm over every kind of container and transparent_umap, against
// models, while predicates, comparisons, hashes, elements and allocations fail.
#include "vec.hpp"
#include <itlib/pod_vector.hpp>
#include <itlib/qalgorithm.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/transparent_umap.hpp>
#include <algorithm>
#include <deque>
#include <list>

using namespace sim;

namespace c22 {
// what containers are searched for: matches by group
struct Key { i64 k; };
inline bool match(i64 v, i64 k) { return v / 8 == k; }
static size_t asked; // how often elements were looked at
template <typename T> bool operator==(const T& t, const Key& k) {
    ++asked;
    if (fault(F_CMP)) throw Injected{F_CMP};
    return match(val_of(t), k.k);
}
struct Pred {
    i64 k;
    template <typename T> bool operator()(const T& t) const {
        ++asked;
        if (fault(F_CALL)) throw Injected{F_CALL};
        return match(val_of(t), k);
    }
};
// a predicate which must be called as what it was passed as
struct MovePred {
    Pred p;
    explicit MovePred(i64 k) : p{k} {}
    template <typename T> bool operator()(const T& t) { return p(t); }
};

enum AOp { A_PUSH, A_POP, A_QFIND, A_QFIND_IF, A_PFIND, A_PFIND_IF, A_ERASE_FIRST, A_ERASE_FIRST_IF, A_ERASE_ALL, A_ERASE_ALL_IF,
    A_ALL, A_ANY, A_NONE, A_IDENTITY, A_CLEAR, A_FUNCS, A_NOPS };
static const char* anames[] = {"push_back", "pop_back", "qfind", "qfind_if", "pfind", "pfind_if", "erase_first", "erase_first_if", "erase_all", "erase_all_if",
    "qall_of", "qany_of", "qnone_of", "identity", "clear", "function pointers"};

template <typename T> bool is_even(const T& t) { return val_of(t) % 2 == 0; }
struct Truth { // evaluates to bool
    i64 v;
    explicit operator bool() const { return v != 0; }
};

// Throws: assigning (relocating) an element may throw; Cap: room
template <typename C_, bool Throws, size_t Cap = 40>
struct AT { typedef C_ C; static constexpr bool throws = Throws; static constexpr size_t cap = Cap; };

template <typename Tr>
struct AlgoWorld {
    typedef typename Tr::C C;
    typedef typename C::value_type T;
    typedef std::vector<i64> M;
    Case& cs;
    Raw<C> c;
    M model;
    i64 uid = 0;
    explicit AlgoWorld(Case& k) : cs(k) {}
    static M read(const C& x) { M m; for (auto& e : x) m.push_back(val_of(e)); return m; }
    void check(const char* when) {
        const M now = read(*c);
        SIM_CHECK(now.size() == c->size(), "contents", "%s: size", when);
        SIM_CHECK(now.size() == model.size(), "contents", "%s: %zu elements, expected %zu", when, now.size(), model.size());
        for (size_t i = 0; i < now.size(); ++i) SIM_CHECK(now[i] == model[i], "contents", "%s: element %zu is %ld, expected %ld", when, i, long(now[i]), long(model[i]));
    }
    void run() {
        { Sut s; c.make(); }
        for (auto& o : cs.ops) step(o);
        { Sut s; c.kill(); }
        life_check_none("the end");
        check_no_leaks("the end");
    }
    // the position an iterator or pointer designates
    template <typename It> size_t pos(It it) { size_t i = 0; for (auto b = c->begin(); b != c->end(); ++b, ++i) if (b == it) return i; return i; }
    size_t ppos(const T* p) { if (!p) return model.size(); size_t i = 0; for (auto& e : *c) { if (&e == p) return i; ++i; } return 999; }
    void step(const Op& op) {
        OpScope scope(op);
        C& x = *c;
        const C& cx = x;
        const i64 k = op.b % 5;
        const M before = model;
        M want = model;
        const size_t first = size_t(std::find_if(model.begin(), model.end(), [&](i64 v) { return match(v, k); }) - model.begin());
        const size_t hits = size_t(std::count_if(model.begin(), model.end(), [&](i64 v) { return match(v, k); }));
        size_t got = 0, expect = 0;
        bool erasing = false;
        asked = 0;
        Outcome o = OK;
        switch (op.code) {
        case A_PUSH: {
            const int wide = cs.cfg.size() > 1 && Tr::cap == 40 ? cs.cfg[1] : 0; // many elements at once
            if (model.size() >= (wide ? 70000u : Tr::cap)) return;
            const size_t many = wide == 0 ? 1 : wide == 1 ? 1 + size_t(op.c) * 8 : 20000;
            const i64 v0 = uid;
            uid += i64(many);
            o = sut([&] { for (size_t i = 0; i < many; ++i) x.push_back(T(decltype(val_of(std::declval<T>()))(k * 8 + ((v0 + i64(i)) % 8)))); });
            if (many > 1) SIM_PROBE("many elements");
            if (o != OK) {
                // (the container's own guarantees are not the subject here)
                SIM_CHECK(faults_fired(), "unexpected-exception", "push_back failed");
                model = read(x);
                return;
            }
            for (size_t i = 0; i < many; ++i) want.push_back(k * 8 + ((v0 + i64(i)) % 8));
            break;
        }
        case A_POP: if (!model.empty()) { o = sut([&] { x.pop_back(); }); want.pop_back(); } break;
        case A_CLEAR: if (op.c % 4 == 0) { o = sut([&] { x.clear(); }); want.clear(); } break;
        case A_QFIND:
            expect = first;
            o = sut([&] { if (op.c & 1) { auto f = itlib::qfind(cx, Key{k}); got = size_t(std::distance(cx.begin(), f)); } else { auto f = itlib::qfind(x, Key{k}); got = size_t(std::distance(x.begin(), f)); } });
            break;
        case A_QFIND_IF:
            expect = first;
            o = sut([&] {
                Pred p{k};
                if (op.c & 1) { auto f = itlib::qfind_if(cx, p); got = size_t(std::distance(cx.begin(), f)); }
                else { auto f = itlib::qfind_if(x, MovePred(k)); got = size_t(std::distance(x.begin(), f)); }
            });
            break;
        case A_PFIND: {
            expect = first;
            const T* p = nullptr;
            o = sut([&] { if (op.c & 1) p = itlib::pfind(cx, Key{k}); else p = itlib::pfind(x, Key{k}); });
            got = o == OK ? ppos(p) : 0;
            break;
        }
        case A_PFIND_IF: {
            expect = first;
            const T* p = nullptr;
            o = sut([&] { if (op.c & 1) p = itlib::pfind_if(cx, MovePred(k)); else { const Pred q{k}; p = itlib::pfind_if(x, q); } });
            got = o == OK ? ppos(p) : 0;
            break;
        }
        case A_ERASE_FIRST: case A_ERASE_FIRST_IF:
            erasing = true;
            expect = first < model.size();
            if (expect) want.erase(want.begin() + long(first));
            o = sut([&] {
                if (op.code == A_ERASE_FIRST) got = itlib::erase_first(x, Key{k});
                else if (op.c & 1) { MovePred p(k); got = itlib::erase_first_if(x, p); }
                else got = itlib::erase_first_if(x, Pred{k});
            });
            break;
        case A_ERASE_ALL: case A_ERASE_ALL_IF:
            // (the library subtracts iterators)
            if constexpr (std::is_same<typename std::iterator_traits<typename C::iterator>::iterator_category, std::random_access_iterator_tag>::value) {
                erasing = true;
                expect = hits;
                want.erase(std::remove_if(want.begin(), want.end(), [&](i64 v) { return match(v, k); }), want.end());
                o = sut([&] {
                    if (op.code == A_ERASE_ALL) got = size_t(itlib::erase_all(x, Key{k}));
                    else if (op.c & 1) { MovePred p(k); got = size_t(itlib::erase_all_if(x, p)); }
                    else got = size_t(itlib::erase_all_if(x, Pred{k}));
                });
                if (o == OK && hits > 1) SIM_PROBE("several elements erased at once");
            }
            break;
        case A_ALL: expect = hits == model.size(); o = sut([&] { if (op.c & 1) { Pred p{k}; got = itlib::qall_of(x, p); } else got = itlib::qall_of(cx, MovePred(k)); }); break;
        case A_ANY: expect = hits > 0; o = sut([&] { if (op.c & 1) { Pred p{k}; got = itlib::qany_of(x, p); } else got = itlib::qany_of(cx, MovePred(k)); }); break;
        case A_NONE: expect = hits == 0; o = sut([&] { if (op.c & 1) { Pred p{k}; got = itlib::qnone_of(x, p); } else got = itlib::qnone_of(cx, MovePred(k)); }); break;
        case A_IDENTITY: {
            std::vector<Truth> t;
            std::deque<bool> tb;
            std::list<const void*> tp;
            size_t n = 0;
            for (i64 v : model) { bool b = op.c & 8 ? op.c & 16 : (v >> (op.c & 1)) & 1; n += b; t.push_back(Truth{b ? v + 1 : 0}); tb.push_back(b); tp.push_back(b ? this : nullptr); }
            expect = (n == t.size()) | (n > 0) << 1 | (n == 0) << 2;
            o = sut([&] {
                size_t a = size_t(itlib::qall_of(t)) | size_t(itlib::qany_of(t)) << 1 | size_t(itlib::qnone_of(t)) << 2;
                size_t b = size_t(itlib::qall_of(tb)) | size_t(itlib::qany_of(tb)) << 1 | size_t(itlib::qnone_of(tb)) << 2;
                size_t d = size_t(itlib::qall_of(tp)) | size_t(itlib::qany_of(tp)) << 1 | size_t(itlib::qnone_of(tp)) << 2;
                got = a == b && b == d ? a : 99;
                itlib::identity id;
                const i64 v = 4;
                if (&id(v) != &v) got = 98;
            });
            break;
        }
        default: {
            // functions as predicates
            size_t even = 0, fe = model.size();
            for (size_t i = 0; i < model.size(); ++i) if (model[i] % 2 == 0) { ++even; if (fe == model.size()) fe = i; }
            expect = (even == model.size()) | (even > 0) << 1 | (even == 0) << 2 | fe << 3;
            o = sut([&] {
                got = size_t(itlib::qall_of(cx, is_even<T>)) | size_t(itlib::qany_of(cx, &is_even<T>)) << 1 | size_t(itlib::qnone_of(cx, is_even<T>)) << 2;
                auto f = itlib::qfind_if(x, is_even<T>);
                got |= size_t(std::distance(x.begin(), f)) << 3;
            });
        }
        }
        ev(u64(op.code) * 8 + u64(o));
        SIM_CHECK(asked <= before.size(), "calls", "%s looked %zu times at %zu elements", anames[op.code], asked, before.size());
        if (o != OK) {
            SIM_CHECK(faults_fired(), "unexpected-exception", "%s ended with %s and no fault was injected", anames[op.code], outcome_name(o));
            SIM_CHECK(o == INJECTED, "exception", "%s turned the injected failure into %s", anames[op.code], outcome_name(o));
            if (!erasing) { check("after a failed query"); return; }
            SIM_PROBE("erasing failed by a fault");
            const M now = read(x);
            if (op.code == A_ERASE_FIRST || op.code == A_ERASE_FIRST_IF) {
                // the search failed before anything was erased (or, with copying elements, the erasure itself)
                if (!Tr::throws) SIM_CHECK(now == before, "strong", "%s failed and yet changed the container", anames[op.code]);
            }
            if (!Tr::throws) {
                // no element which is not to be erased is lost, doubled or out of order
                M keep, kept;
                for (i64 v : before) if (!match(v, k)) keep.push_back(v);
                for (i64 v : now) if (v != MOVED && !match(v, k)) kept.push_back(v);
                // (moving away from a trivial element leaves it as it was)
                size_t i = 0;
                for (i64 v : kept) if (i < keep.size() && keep[i] == v) ++i;
                SIM_CHECK(i == keep.size() && (std::is_trivially_copyable<T>::value || kept.size() == i), "lost", "%s failed and lost, doubled or reordered elements which were not to be erased (%zu of %zu)", anames[op.code], kept.size(), keep.size());
            }
            SIM_CHECK(now.size() <= before.size(), "contents", "%s failed and the container has grown", anames[op.code]);
            for (i64 v : now) SIM_CHECK(v == MOVED || std::find(before.begin(), before.end(), v) != before.end(), "contents", "%s failed and left a value %ld which was never there", anames[op.code], long(v));
            // start afresh with real values
            NoFaults nf;
            Sut s;
            x.clear();
            { Host h; model.clear(); }
            return;
        }
        model = want;
        SIM_CHECK(got == expect, "result", "%s returns %zu, expected %zu", anames[op.code], got, expect);
        check(anames[op.code]);
        state(u64(op.code) * 1000 + model.size() * 16 + std::min<size_t>(hits, 3));
    }
};

// ---------------------------------------------------------- transparent_umap
typedef Elem<21> KE;
struct UK { // the stored key
    KE e;
    UK(i64 v) : e(v) {}
    bool operator==(const UK& o) const { return e == o.e; }
};
// a transparent key to look up with; knows whether it was used up
struct TK {
    using is_transparent = void;
    i64 k;
    bool used = false;
    explicit TK(i64 v) : k(v) {}
    TK(const UK& u) : k(u.e.get()) {} // (the overloads require this conversion)
    operator UK() const& { return UK(k); }
    operator UK() && { used = true; return UK(k); }
};
// transparent without any conversion from the stored key
struct LK {
    using is_transparent = void;
    i64 k;
    explicit LK(i64 v) : k(v) {}
};
struct UHash {
    using is_transparent = void;
    static size_t h(i64 k) { if (fault(F_CALL)) throw Injected{F_CALL}; return size_t(k % 7); }
    size_t operator()(const UK& k) const { return h(k.e.get()); }
    size_t operator()(const TK& k) const { return h(k.k); }
    size_t operator()(const LK& k) const { return h(k.k); }
};
struct UEq {
    using is_transparent = void;
    static bool e(i64 a, i64 b) { if (fault(F_CMP)) throw Injected{F_CMP}; return a == b; }
    static i64 k(const UK& x) { return x.e.get(); }
    static i64 k(const TK& x) { return x.k; }
    static i64 k(const LK& x) { return x.k; }
    template <typename A, typename B> bool operator()(const A& a, const B& b) const { return e(k(a), k(b)); }
};
enum UOp { U_TRY, U_TRY_HINT, U_TRY_LV, U_TRY_KEY, U_INDEX, U_INDEX_LV, U_INDEX_KEY, U_AT, U_CAT, U_AT_LK, U_AT_KEY, U_FIND, U_ERASE, U_SET, U_COPY, U_MOVE, U_ASSIGN, U_MOVE_ASSIGN, U_SWAP, U_CLEAR, U_RESERVE, U_NOPS };
static const char* unames[] = {"try_emplace", "try_emplace(hint)", "try_emplace(lvalue)", "try_emplace(key)", "operator[]", "operator[](lvalue)", "operator[](key)",
    "at", "at const", "at(other)", "at(key)", "find", "erase", "set", "copy construct", "move construct", "copy assign", "move assign", "swap", "clear", "reserve"};

template <typename V_, bool Al>
struct MapWorld {
    typedef V_ V;
    static constexpr bool copy = std::is_copy_constructible<V>::value;
    typedef std::pair<const UK, V> E;
    typedef std::conditional_t<Al, itlib::transparent_umap<UK, V, UHash, UEq, TAlloc<E>>, itlib::transparent_umap<UK, V, UHash, UEq>> U;
    typedef std::vector<std::pair<i64, i64>> M; // in order of insertion
    Case& cs;
    Raw<U> slot[2];
    M model[2];
    i64 nv = 100;
    explicit MapWorld(Case& c) : cs(c) {}
    static M::iterator mf(M& m, i64 k) { return std::find_if(m.begin(), m.end(), [&](auto& e) { return e.first == k; }); }
    void check(int s, const char* when) {
        NoFaults nf;
        const U& u = *slot[s];
        SIM_CHECK(u.size() == model[s].size(), "contents", "%s: map %d has %zu elements, expected %zu", when, s, u.size(), model[s].size());
        size_t n = 0;
        for (auto& e : u) {
            auto f = mf(model[s], e.first.e.get());
            SIM_CHECK(f != model[s].end(), "contents", "%s: map %d has a key %ld which was not put there", when, s, long(e.first.e.get()));
            SIM_CHECK(f->second == val_of(e.second), "contents", "%s: map %d has %ld for %ld, expected %ld", when, s, long(val_of(e.second)), long(f->first), long(f->second));
            ++n;
        }
        SIM_CHECK(n == model[s].size(), "contents", "%s: %zu elements are iterated of %zu", when, n, model[s].size());
        for (auto& e : model[s]) {
            Sut x;
            auto f = u.find(LK(e.first));
            Host h;
            SIM_CHECK(f != u.end() && f->first.e.get() == e.first, "contents", "%s: key %ld is not found", when, long(e.first));
        }
    }
    void run() {
        { Sut s; for (auto& x : slot) x.make(); }
        for (auto& o : cs.ops) { step(o); for (int i = 0; i < 2; ++i) check(i, unames[o.code]); }
        { Sut s; for (auto& x : slot) x.kill(); }
        life_check_none("the end");
        check_no_leaks("the end");
    }
    void step(const Op& op) {
        OpScope scope(op);
        const int s = int(op.a & 1), t = s ^ 1;
        U& u = *slot[s];
        const U& cu = u;
        const i64 k = op.b % 12, v = ++nv;
        M want = model[s];
        auto f = mf(want, k);
        const bool has = f != want.end();
        const i64 old = has ? f->second : 0;
        bool inserted = false, ran = true, exists_result = false;
        i64 got = 0, expect = 0;
        Outcome o = OK, expect_o = OK;
        Raw<UK> key; Raw<V> arg; Raw<TK> tk;
        { NoFaults nf; key.make(k); arg.make(v); tk.make(k); }
        switch (op.code) {
        case U_TRY: case U_TRY_LV: case U_TRY_KEY: case U_TRY_HINT: {
            exists_result = true;
            if (!has) want.push_back({k, v});
            expect = has ? old : v;
            bool ins = !has;
            o = sut([&] {
                typename U::iterator it;
                switch (op.code) {
                case U_TRY:
                    // the mapped value is made of the arguments, whatever they are
                    if (op.c & 1) { auto r = u.try_emplace(std::move(*tk), std::move(*arg)); it = r.first; ins = r.second; }
                    else { auto r = u.try_emplace(std::move(*tk), v); it = r.first; ins = r.second; }
                    break;
                case U_TRY_LV: { auto r = u.try_emplace(*tk, std::move(*arg)); it = r.first; ins = r.second; break; }
                case U_TRY_KEY: { auto r = u.try_emplace(std::move(*key), std::move(*arg)); it = r.first; ins = r.second; break; }
                default: it = u.try_emplace(op.c & 1 ? u.cbegin() : u.cend(), std::move(*tk), std::move(*arg)); break;
                }
                Host h;
                got = val_of(it->second);
                if (it->first.e.get() != k) got = -1;
            });
            if (o == OK) {
                SIM_CHECK(ins == !has, "result", "%s says inserted = %d", unames[op.code], int(ins));
                inserted = !has;
                if (has) {
                    NoFaults nf;
                    SIM_CHECK(val_of(*arg) == v, "consumed", "%s of an existing key used up the argument", unames[op.code]);
                    SIM_CHECK(!tk->used && key->e.get() == k, "consumed", "%s of an existing key used up the key", unames[op.code]);
                    SIM_PROBE("the key exists");
                }
            }
            break;
        }
        case U_INDEX: case U_INDEX_LV: case U_INDEX_KEY: {
            i64 z;
            { NoFaults nf; V d = V(); z = val_of(d); }
            if (!has) want.push_back({k, z});
            expect = has ? old : z;
            bool wrote = false;
            o = sut([&] {
                V& r = op.code == U_INDEX ? u[std::move(*tk)] : op.code == U_INDEX_LV ? u[*tk] : u[std::move(*key)];
                Host h;
                got = val_of(r);
                NoFaults nf;
                if (op.c & 1) { r = V(v); wrote = true; }
            });
            if (wrote) mf(want, k)->second = v;
            break;
        }
        case U_AT: case U_CAT: case U_AT_LK: case U_AT_KEY:
            expect = old;
            expect_o = has ? OK : OUT_OF_RANGE;
            {
                bool wrote = false;
                o = sut([&] {
                    const V* r; V* w = nullptr;
                    if (op.code == U_AT) r = w = &u.at(*tk);
                    else if (op.code == U_CAT) r = &cu.at(*tk);
                    else if (op.code == U_AT_LK && op.c & 2) r = w = &u.at(LK(k));
                    else if (op.code == U_AT_LK) r = &cu.at(LK(k));
                    else r = w = &u.at(*key);
                    Host h;
                    got = val_of(*r);
                    NoFaults nf;
                    if (w && op.c & 1) { *w = V(v); wrote = true; }
                });
                if (wrote) f->second = v;
            }
            break;
        case U_FIND:
            expect = has ? old * 4 + 3 : 0;
            o = sut([&] {
                auto i = cu.find(*tk);
                size_t n = cu.count(*tk);
                bool c = cu.contains(LK(k));
                Host h;
                got = i == cu.end() ? 0 : val_of(i->second) * 4;
                got += i64(n) + 2 * c;
            });
            break;
        case U_ERASE:
            // erasing calls the hash and may leave the map as it was
            expect = has;
            if (has) want.erase(f);
            o = sut([&] { got = i64(u.erase(*key)); });
            break;
        case U_SET:
            if (!has) { ran = false; break; }
            f->second = v;
            o = sut([&] { auto i = u.find(*tk); NoFaults nf; i->second = V(v); });
            break;
        case U_COPY: case U_ASSIGN:
            if constexpr (copy) {
                want = model[t];
                o = sut([&] {
                    if (op.code == U_ASSIGN) { U c(*slot[t]); u = std::move(c); }
                    else { U c(cu); Host h; NoFaults nf; M m = model[s]; size_t n = 0; for (auto& e : c) { auto i = mf(m, e.first.e.get()); if (i != m.end() && i->second == val_of(e.second)) ++n; } got = n == m.size() && c.size() == n; }
                });
                if (op.code == U_COPY) { want = model[s]; expect = 1; }
            }
            else ran = false;
            break;
        case U_MOVE: case U_MOVE_ASSIGN: {
            NoFaults nf;
            o = sut([&] { U c(std::move(u)); u.clear(); if (op.code == U_MOVE) u.swap(c); else u = std::move(c); });
            break;
        }
        case U_SWAP: { NoFaults nf; o = sut([&] { u.swap(*slot[t]); }); want = model[t]; model[t] = model[s]; break; }
        case U_CLEAR: if (op.c % 4) { ran = false; break; } o = sut([&] { u.clear(); }); want.clear(); break;
        default: o = sut([&] { u.reserve(size_t(op.c)); });
        }
        const bool used = tk->used;
        const bool rkey = op.code == U_TRY || op.code == U_TRY_HINT || op.code == U_INDEX;
        { NoFaults nf; key.kill(); arg.kill(); tk.kill(); }
        if (!ran) return;
        SIM_CHECK(!used || (rkey && !has), "consumed", "%s used up a key which it may not", unames[op.code]);
        if (rkey && !has && o == OK) SIM_CHECK(used, "consumed", "%s did not hand over the key which it was given", unames[op.code]);
        ev(u64(op.code) * 64 + u64(o) * 4 + u64(has) * 2 + u64(inserted));
        if (o != expect_o) {
            SIM_CHECK(faults_fired(), "unexpected-exception", "%s ended with %s and no fault was injected", unames[op.code], outcome_name(o));
            SIM_CHECK(o == INJECTED || o == BAD_ALLOC, "exception", "%s turned the injected failure into %s", unames[op.code], outcome_name(o));
            SIM_PROBE("map operation failed by a fault");
            if (op.code == U_SWAP) return;
            return; // nothing has changed: checked by the caller
        }
        model[s] = want;
        if (o == OK) SIM_CHECK(got == expect, "result", "%s gives %ld, expected %ld", unames[op.code], long(got), long(expect));
        (void)exists_result;
        state(100000 + u64(op.code) * 200 + want.size() * 4 + u64(has));
    }
};
}
using namespace c22;

template <typename Tr> struct WA { static void go(Case& c) { for (auto& o : c.ops) o.code %= A_NOPS; AlgoWorld<Tr> w(c); w.run(); } };
template <typename V, bool Al> struct WM { static void go(Case& c) { for (auto& o : c.ops) o.code %= U_NOPS; MapWorld<V, Al> w(c); w.run(); } };
typedef Elem<1> E1;
typedef MoveOnly<2> M2;
typedef CopyOnly<3> C3;
const int MAPS = 5;
SIM_CFG(0, WM<Elem<4>, false>)
SIM_CFG(1, WM<MoveOnly<5>, false>)
SIM_CFG(2, WM<Elem<4>, true>)
SIM_CFG(3, WM<i64, false>)
SIM_CFG(4, WM<C3, false>)
SIM_CFG(5, WA<AT<std::vector<E1>, false>>)
SIM_CFG(6, WA<AT<std::list<E1>, false>>)
SIM_CFG(7, WA<AT<std::deque<M2>, false>>)
SIM_CFG(8, WA<AT<itlib::small_vector<M2, 3>, false>>)
SIM_CFG(9, WA<AT<itlib::static_vector<E1, 12>, false, 12>>)
SIM_CFG(10, WA<AT<itlib::pod_vector<Pod>, false>>)
SIM_CFG(11, WA<AT<std::vector<C3>, true>>)
SIM_CFG(12, WA<AT<std::list<C3>, true>>)
SIM_CFG(13, WA<AT<std::basic_string<char>, false>>)
SIM_CFG(14, WA<AT<itlib::small_vector<E1, 2, 3>, false>>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C22"; }
    const char* op_name(int c) override { static std::string s; s = std::string(c >= 0 && c < A_NOPS ? anames[c] : "-") + " / " + (c >= 0 && c < U_NOPS ? unames[c] : "-"); return s.c_str(); }
    const char* cfg_names() override { return "container"; }
    void generate(Rng& r, Case& c) override {
        const bool map = r.chance(1, 2);
        c.cfg.push_back(int(map ? r.below(MAPS) : MAPS + r.below(u64(cfg_count() - MAPS))));
        c.cfg.push_back(map || !r.chance(1, 300) ? 0 : r.chance(1, 10) && (c.cfg[0] == 10 || c.cfg[0] == 13) ? 2 : 1);
        const int nops = map ? int(U_NOPS) : int(A_NOPS);
        int w[U_NOPS];
        for (int i = 0; i < nops; ++i) w[i] = r.chance(1, 4) ? 0 : int(2 + r.below(6));
        if (!map) w[A_PUSH] += 25;
        else if (c.cfg[0] == 3) { }
        const int n = int(1 + r.below(r.chance(1, 8) ? 60 : 20)), frate = int(r.below(4)), groups = int(1 + r.below(5)), keys = int(1 + r.below(12));
        const int fill = map ? 0 : int(r.below(14));
        for (int i = 0; i < n + fill; ++i) {
            Op o;
            o.code = i < fill ? int(A_PUSH) : r.pick(w, nops);
            o.a = i64(r.below(4));
            o.b = i64(r.below(u64(map ? keys : groups)));
            o.c = i64(r.below(64));
            if (i >= fill && frate && r.chance(unsigned(frate), 6)) {
                static const int kinds[] = {F_CALL, F_CMP, F_ELEM, F_ALLOC};
                o.fk = kinds[r.below(map ? 4 : 3)];
                if (!map && o.fk != F_ELEM) o.fk = o.code == A_QFIND || o.code == A_PFIND || o.code == A_ERASE_FIRST || o.code == A_ERASE_ALL ? F_CMP : F_CALL;
                o.fn = int(1 + r.below(r.chance(1, 2) ? 3 : 14));
                if (r.chance(1, 6)) o.fn = -o.fn;
            }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
