// Sequence containers against a plain vector of integers.
#pragma once
#include "elem.hpp"
#include <deque>
#include <initializer_list>
#include <iterator>
#include <memory>

namespace sim {

template <typename F>
Outcome sut(F&& f) {
    try {
        Sut s;
        f();
        return OK;
    }
    catch (Injected&) { return INJECTED; }
    catch (std::bad_alloc&) { return BAD_ALLOC; }
    catch (std::length_error&) { return BAD_ALLOC; }
    catch (std::out_of_range&) { return OUT_OF_RANGE; }
    catch (std::bad_cast&) { return BAD_CAST; }
    catch (...) { return OTHER; }
}

struct NoFaults {
    NoFaults() { suspend_faults(true); }
    ~NoFaults() { suspend_faults(false); }
};

enum VOp {
    V_PUSH, V_PUSH_MOVE, V_EMPLACE_BACK, V_POP, V_INSERT, V_INSERT_MOVE, V_INSERT_N, V_INSERT_RANGE,
    V_INSERT_ILIST, V_EMPLACE, V_ERASE, V_ERASE_RANGE, V_CLEAR, V_RESIZE, V_RESIZE_VAL, V_ASSIGN_N,
    V_ASSIGN_RANGE, V_ASSIGN_ILIST, V_RESERVE, V_SHRINK, V_REVERT, V_COPY_CTOR, V_MOVE_CTOR, V_COPY_ASSIGN,
    V_MOVE_ASSIGN, V_SWAP, V_READ, V_WRITE, V_ITERATE, V_COMPARE, V_CTOR_N, V_CTOR_VAL, V_CTOR_RANGE,
    V_CTOR_ILIST, V_REMAKE, V_OUT_OF_RANGE, V_HUGE, V_COMPARE_OTHER, V_CONVERT, V_SELF_ASSIGN, V_CHURN, V_ALIAS, V_NOPS
};
inline const char* vop_name(int c) {
    static const char* n[] = {"push_back", "push_back(move)", "emplace_back", "pop_back", "insert", "insert(move)", "insert(n)",
        "insert(range)", "insert(ilist)", "emplace", "erase", "erase(range)", "clear", "resize", "resize(value)", "assign(n)",
        "assign(range)", "assign(ilist)", "reserve", "shrink_to_fit", "revert_to_static", "copy construct", "move construct",
        "copy assign", "move assign", "swap", "read", "write", "iterate", "compare", "construct(n)", "construct(n, value)",
        "construct(range)", "construct(ilist)", "remake", "out of range position", "huge size", "compare other capacity", "convert",
        "self assign", "churn", "argument in the vector"};
    return c >= 0 && c < V_NOPS ? n[c] : "?";
}

const int V_SLOTS = 3;

// Traits:
//   V<T>: container; T: element; copyable; bounded (static_vector); cap; has_static (small_vector) N, R;
//   make_alloc etc.
template <typename V> auto member_swap(V& a, V& b, int) -> decltype(a.swap(b)) { a.swap(b); }
template <typename V> void member_swap(V& a, V& b, long) { using std::swap; swap(a, b); }

template <typename Tr>
struct VecWorld {
    typedef typename Tr::V V;
    typedef typename Tr::T T;
    typedef typename Tr::V2 V2;

    Raw<V> slot[V_SLOTS];
    std::vector<i64> model[V_SLOTS];
    int aid[V_SLOTS] = {-1, -1, -1}; // expected allocator, when there are different ones
    i64 next_val = 1000;
    Case& cs;

    explicit VecWorld(Case& c) : cs(c) {}

    i64 fresh() { return ++next_val; }

    // large containers and, in some cases, large amounts for the others
    static constexpr bool large = Tr::N > 64;
    bool wide() const { return large || (!Tr::bounded && cs.cfg.size() > 1 && cs.cfg[1]); }
    size_t amount(const Op& op, size_t small) const {
        const size_t c = size_t(op.c);
        if (!wide() || c % 2) return c % small;
        if (!large) { static const size_t k[] = {15, 16, 17, 33, 64, 100, 127, 128, 255, 256, 257, 300}; return k[c / 2 % 12]; }
        switch (c / 2 % 8) {
        case 0: return Tr::N;
        case 1: return Tr::N - 1;
        case 2: return Tr::N + 1;
        case 3: return Tr::N / 2;
        case 4: return Tr::bounded ? Tr::N : 2 * Tr::N + 3;
        case 5: return Tr::bounded ? Tr::N - 3 : Tr::N * 3 / 2 + 2;
        case 6: return Tr::R ? Tr::R - 1 : Tr::N - 2;
        default: return Tr::R ? Tr::R : Tr::N / 4 * 3;
        }
    }

    template <typename... A>
    Outcome make(int s, A&&... a) {
        Outcome o = sut([&] { Tr::make(slot[s], s, std::forward<A>(a)...); });
        aid[s] = Tr::own_id(s);
        return o;
    }

    void ensure(int s) {
        if (!slot[s].p) {
            NoFaults nf;
            Outcome o = make(s);
            SIM_CHECK(o == OK, "construct", "default construction failed: %s", outcome_name(o));
            model[s].clear();
        }
    }

    static size_t ucount(const V& v) { return v.size(); }

    void check_slot(int s, const char* when) {
        V& v = *slot[s];
        const V& cv = v;
        auto& m = model[s];
        SIM_CHECK(cv.size() == m.size(), "sequence", "%s: slot %d has size %zu, expected %zu", when, s, size_t(cv.size()), m.size());
        SIM_CHECK(cv.empty() == m.empty(), "sequence", "%s: empty() disagrees", when);
        SIM_CHECK(size_t(cv.end() - cv.begin()) == m.size(), "sequence", "%s: end() - begin() is not the size", when);
        SIM_CHECK(cv.capacity() >= cv.size(), "capacity", "%s: capacity below size", when);
        if (!m.empty()) {
            SIM_CHECK(cv.data() == &*cv.begin(), "sequence", "%s: data() is not the first element", when);
        }
        for (size_t i = 0; i < m.size(); ++i) {
            SIM_CHECK(&cv[i] == cv.data() + i, "sequence", "%s: not contiguous at %zu", when, i);
            i64 x = val_of(cv[i]);
            SIM_CHECK(x == m[i], "sequence", "%s: slot %d element %zu is %lld, expected %lld", when, s, i, (long long)x, (long long)m[i]);
        }
        if constexpr (Tr::has_static) {
            const char* d = reinterpret_cast<const char*>(cv.data());
            const char* o = reinterpret_cast<const char*>(&cv);
            bool inside = d >= o && d < o + sizeof(V);
            SIM_CHECK(inside == cv.is_static(), "static", "%s: is_static() is %d but the elements are %s the object", when, int(cv.is_static()), inside ? "inside" : "outside");
            if (inside) {
                SIM_CHECK(m.size() <= Tr::N, "static", "%s: %zu elements in the static buffer", when, m.size());
                SIM_CHECK(d + cv.capacity() * sizeof(T) <= o + sizeof(V), "capacity", "%s: static capacity %zu exceeds the buffer", when, size_t(cv.capacity()));
            }
            else {
                size_t n = 0;
                SIM_CHECK(block_size(const_cast<char*>(d), n), "memory", "%s: the elements are not in a live block", when);
                SIM_CHECK(n >= cv.capacity() * sizeof(T), "capacity", "%s: capacity %zu exceeds its block of %zu bytes", when, size_t(cv.capacity()), n);
            }
        }
        if constexpr (Tr::allocs) SIM_CHECK(Tr::id(cv) == aid[s], "allocator", "%s: slot %d has allocator %d, expected %d", when, s, Tr::id(cv), aid[s]);
        if constexpr (Tr::bounded) {
            const char* d = reinterpret_cast<const char*>(cv.data());
            const char* o = reinterpret_cast<const char*>(&cv);
            SIM_CHECK(d >= o && d + Tr::N * sizeof(T) <= o + sizeof(V), "memory", "%s: the elements are not inside the object", when);
        }
    }

    // after a move assignment or a swap each has its own allocator or the other's
    void allocators_moved(int s, int t) {
        if constexpr (Tr::allocs) {
            const int a = Tr::id(*slot[s]), b = Tr::id(*slot[t]);
            SIM_CHECK((a == aid[s] || a == aid[t]) && (b == aid[t] || b == aid[s]), "allocator", "vectors with allocators %d and %d have %d and %d after a move", aid[s], aid[t], a, b);
            aid[s] = a; aid[t] = b;
        }
    }

    void check_all(const char* when) {
        size_t total = 0;
        for (int s = 0; s < V_SLOTS; ++s) if (slot[s].p) { check_slot(s, when); total += model[s].size(); }
        if (Tr::tracked) SIM_CHECK(life_count() == total, "object", "%s: %zu elements alive, the vectors hold %zu", when, life_count(), total);
    }

    // after a failed operation with only the basic guarantee
    void resync(int s, size_t most) {
        if (!slot[s].p) return;
        V& v = *slot[s];
        SIM_CHECK(v.size() <= v.capacity(), "capacity", "after a failure: capacity below size");
        SIM_CHECK(v.size() <= most, "sequence", "after a failure: slot %d has %zu elements, more than there can be (%zu)", s, size_t(v.size()), most);
        model[s].clear();
        for (size_t i = 0; i < v.size(); ++i) model[s].push_back(val_of(v[i]));
    }

    std::vector<i64> vals(size_t n) {
        std::vector<i64> r;
        for (size_t i = 0; i < n; ++i) r.push_back(fresh());
        return r;
    }

    template <typename F>
    static Outcome with_ilist(const std::vector<i64>& x, F&& f) {
        // elements are created before the operation
        switch (x.size()) {
        case 0: { std::initializer_list<T> l; return sut([&] { f(l); }); }
        case 1: { suspend_faults(true); std::initializer_list<T> l = {T(x[0])}; suspend_faults(false); return sut([&] { f(l); }); }
        case 2: { suspend_faults(true); std::initializer_list<T> l = {T(x[0]), T(x[1])}; suspend_faults(false); return sut([&] { f(l); }); }
        case 3: { suspend_faults(true); std::initializer_list<T> l = {T(x[0]), T(x[1]), T(x[2])}; suspend_faults(false); return sut([&] { f(l); }); }
        default: { suspend_faults(true); std::initializer_list<T> l = {T(x[0]), T(x[1]), T(x[2]), T(x[3]), T(x[4])}; suspend_faults(false); return sut([&] { f(l); }); }
        }
    }

    // calls f(first, last) with a range of the given values, of several iterator types
    template <typename F>
    Outcome with_range(const std::vector<i64>& x, int kind, F&& f) {
        if constexpr (Tr::copyable) {
            if (kind % 4 == 0) {
                suspend_faults(true);
                std::vector<T> src(x.begin(), x.end());
                suspend_faults(false);
                const T* b = src.data();
                Outcome o = sut([&] { f(b, b + src.size()); });
                verify_source(src, x);
                return o;
            }
            if (kind % 4 == 1) {
                suspend_faults(true);
                std::deque<T> src(x.begin(), x.end());
                suspend_faults(false);
                Outcome o = sut([&] { f(src.begin(), src.end()); });
                verify_source(src, x);
                return o;
            }
            if (kind % 4 == 2) {
                suspend_faults(true);
                std::vector<T> src(x.rbegin(), x.rend());
                suspend_faults(false);
                return sut([&] { f(src.rbegin(), src.rend()); });
            }
        }
        if (kind % 2 && Tr::movable) {
            suspend_faults(true);
            std::vector<T> src;
            src.reserve(x.size());
            for (i64 v : x) src.emplace_back(v);
            suspend_faults(false);
            return sut([&] { f(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end())); });
        }
        const std::vector<i64>& cx = x;
        return sut([&] { f(cx.begin(), cx.end()); }); // constructs elements from integers
    }

    template <typename C>
    void verify_source(const C& src, const std::vector<i64>& x) {
        for (size_t i = 0; i < x.size(); ++i)
            SIM_CHECK(val_of(src[i]) == x[i], "source", "the source range of a copy was changed at %zu", i);
    }

    // without memory or place for an element, it stays with the caller
    void kept(const T& x, Outcome o, const char* what) {
        if ((o == BAD_ALLOC || o == OUT_OF_RANGE) && Tr::movable)
            SIM_CHECK(val_of(x) == next_val, "source", "%s consumed its argument, but failed to get the memory or place for it", what);
    }

    void run() {
        for (auto& o : cs.ops) step(o);
        // shut down in slot order
        for (int s = 0; s < V_SLOTS; ++s) {
            if (slot[s].p) { Sut x; slot[s].kill(); }
        }
        if (Tr::tracked) life_check_none("the end");
        check_no_leaks("the end");
    }

    void step(const Op& op) {
        int s = int(op.a & 3) % V_SLOTS;
        int t = int((op.a >> 2) & 3) % V_SLOTS;
        ensure(s);
        Op armed = op;
        // these are declared noexcept: no failures there when moving means copying
        if (!Tr::movable && Tr::has_static && (op.code == V_MOVE_CTOR || op.code == V_MOVE_ASSIGN || op.code == V_SWAP) && op.fk == F_ELEM) armed.fk = 0;
        OpScope scope(armed);
        V& v = *slot[s];
        std::vector<i64> before = model[s];
        std::vector<i64> want = before;
        std::vector<i64> tbefore = slot[t].p ? model[t] : std::vector<i64>();
        size_t n = before.size();
        const size_t at = wide() && op.b > 15 ? size_t(op.b == 63 ? n : size_t(op.b) * n / 64) : size_t(op.b);
        size_t pos = n ? at % (n + 1) : 0;      // insert position
        size_t epos = n ? at % n : 0;           // element position
        int cnt = int(op.c % 7);
        const size_t many = amount(op, 7);
        int code = op.code;
        Outcome o = OK;
        bool strong = false;  // unchanged on failure
        bool ran = true;
        bool touched_t = false;
        bool replaced = false; // slot s was rebuilt (constructor): on failure it does not exist
        bool expect_oor = false;
        bool allow_swallow = false;
        const void* data0 = v.data();
        size_t cap0 = v.capacity();
        bool static0 = true;
        if constexpr (Tr::has_static) static0 = v.is_static();
        u64 allocs0 = alloc_count();
        long ret = -1; // returned iterator as index
        long want_ret = -1;
        auto over = [&](size_t newsize) { if (Tr::bounded && newsize > Tr::N) { expect_oor = true; } };

        switch (code) {
        case V_PUSH:
            if constexpr (Tr::copyable) {
                suspend_faults(true); T x(fresh()); suspend_faults(false);
                want.push_back(next_val); strong = true; over(n + 1);
                o = sut([&] { v.push_back(static_cast<const T&>(x)); });
                SIM_CHECK(val_of(x) == next_val, "source", "push_back changed its argument");
            }
            else ran = false;
            break;
        case V_PUSH_MOVE: {
            suspend_faults(true); T x(fresh()); suspend_faults(false);
            want.push_back(next_val); strong = true; over(n + 1);
            o = sut([&] { v.push_back(std::move(x)); });
            kept(x, o, "push_back");
            break;
        }
        case V_EMPLACE_BACK: {
            i64 x = fresh();
            want.push_back(x); strong = true; over(n + 1);
            const void* r = nullptr;
            o = sut([&] { auto& ref = v.emplace_back(x); r = &ref; });
            if (o == OK) SIM_CHECK(r == &v.back(), "return", "emplace_back returned a reference to another place");
            break;
        }
        case V_POP:
            if (!n) { ran = false; break; }
            want.pop_back();
            o = sut([&] { v.pop_back(); });
            break;
        case V_INSERT:
            if constexpr (Tr::copyable) {
                suspend_faults(true); T x(fresh()); suspend_faults(false);
                want.insert(want.begin() + long(pos), next_val); want_ret = long(pos); over(n + 1);
                o = sut([&] { ret = v.insert(v.cbegin() + long(pos), static_cast<const T&>(x)) - v.begin(); });
            }
            else ran = false;
            break;
        case V_INSERT_MOVE: {
            suspend_faults(true); T x(fresh()); suspend_faults(false);
            want.insert(want.begin() + long(pos), next_val); want_ret = long(pos); over(n + 1);
            o = sut([&] { ret = v.insert(v.begin() + long(pos), std::move(x)) - v.begin(); });
            kept(x, o, "insert");
            break;
        }
        case V_INSERT_N:
            if constexpr (Tr::copyable) {
                suspend_faults(true); T x(fresh()); suspend_faults(false);
                want.insert(want.begin() + long(pos), many, next_val); want_ret = long(pos); over(n + many);
                o = sut([&] { ret = v.insert(v.cbegin() + long(pos), many, static_cast<const T&>(x)) - v.begin(); });
            }
            else ran = false;
            break;
        case V_INSERT_RANGE: {
            auto x = vals(many);
            want.insert(want.begin() + long(pos), x.begin(), x.end()); want_ret = long(pos); over(n + many);
            o = with_range(x, int(op.d), [&](auto b, auto e) { ret = v.insert(v.cbegin() + long(pos), b, e) - v.begin(); });
            break;
        }
        case V_INSERT_ILIST:
            if constexpr (Tr::copyable) {
                auto x = vals(size_t(cnt > 3 ? 5 : cnt));
                want.insert(want.begin() + long(pos), x.begin(), x.end()); want_ret = long(pos); over(n + x.size());
                o = with_ilist(x, [&](std::initializer_list<T> l) { ret = v.insert(v.cbegin() + long(pos), l) - v.begin(); });
            }
            else ran = false;
            break;
        case V_EMPLACE: {
            i64 x = fresh();
            want.insert(want.begin() + long(pos), x); want_ret = long(pos); over(n + 1);
            if (op.d & 1) {
                suspend_faults(true); T e(x); suspend_faults(false);
                o = sut([&] { ret = v.emplace(v.cbegin() + long(pos), std::move(e)) - v.begin(); });
                kept(e, o, "emplace");
                break;
            }
            o = sut([&] { ret = v.emplace(v.cbegin() + long(pos), x) - v.begin(); });
            break;
        }
        case V_ERASE:
            if (!n) { ran = false; break; }
            want.erase(want.begin() + long(epos)); want_ret = long(epos);
            o = sut([&] { ret = v.erase(v.cbegin() + long(epos)) - v.begin(); });
            break;
        case V_ERASE_RANGE: {
            size_t last = pos + (n - pos ? (wide() && op.c > 15 ? size_t(op.c) * (n - pos) / 63 : size_t(op.c)) % (n - pos + 1) : 0);
            want.erase(want.begin() + long(pos), want.begin() + long(last)); want_ret = long(pos);
            o = sut([&] { ret = v.erase(v.cbegin() + long(pos), v.cbegin() + long(last)) - v.begin(); });
            break;
        }
        case V_CLEAR:
            want.clear();
            o = sut([&] { v.clear(); });
            break;
        case V_RESIZE: {
            size_t k = amount(op, 14);
            want.resize(k, 0); over(k);
            o = sut([&] { v.resize(k); });
            break;
        }
        case V_RESIZE_VAL:
            if constexpr (Tr::copyable) {
                size_t k = amount(op, 14);
                suspend_faults(true); T x(fresh()); suspend_faults(false);
                want.resize(k, next_val); over(k);
                o = sut([&] { v.resize(k, x); });
            }
            else ran = false;
            break;
        case V_ASSIGN_N:
            if constexpr (Tr::copyable) {
                size_t k = amount(op, 14);
                suspend_faults(true); T x(fresh()); suspend_faults(false);
                want.assign(k, next_val); over(k);
                o = sut([&] { v.assign(k, x); });
            }
            else ran = false;
            break;
        case V_ASSIGN_RANGE: {
            auto x = vals(amount(op, 12));
            want = x; over(x.size());
            o = with_range(x, int(op.d), [&](auto b, auto e) { v.assign(b, e); });
            break;
        }
        case V_ASSIGN_ILIST:
            if constexpr (Tr::copyable) {
                auto x = vals(size_t(cnt > 3 ? 5 : cnt));
                want = x; over(x.size());
                o = with_ilist(x, [&](std::initializer_list<T> l) { if (op.d & 1) v.assign(l); else v.assign(l); });
            }
            else ran = false;
            break;
        case V_RESERVE:
            if constexpr (Tr::has_reserve) {
                size_t k = amount(op, 20);
                strong = true;
                o = sut([&] { v.reserve(k); });
                if (o == OK) {
                    SIM_CHECK(v.capacity() >= k, "capacity", "capacity is %zu after reserve(%zu)", size_t(v.capacity()), k);
                    if (k <= cap0) SIM_CHECK(v.data() == data0, "capacity", "reserve(%zu) moved the elements though the capacity was %zu", k, cap0);
                }
            }
            else ran = false;
            break;
        case V_SHRINK:
            if constexpr (Tr::has_reserve) {
                bool r = false;
                allow_swallow = true;
                strong = true;
                o = sut([&] { r = v.shrink_to_fit(); });
                if (o == OK && !faults_fired()) {
                    SIM_CHECK(r == (v.data() != data0), "return", "shrink_to_fit returned %d but %s the elements", int(r), r ? "did not move" : "moved");
                    if constexpr (Tr::has_static) {
                        if (n <= Tr::N) SIM_CHECK(v.is_static(), "static", "shrink_to_fit of %zu elements did not revert to the static buffer", n);
                        else SIM_CHECK(v.capacity() == n, "capacity", "capacity %zu after shrink_to_fit of %zu elements", size_t(v.capacity()), n);
                    }
                }
            }
            else ran = false;
            break;
        case V_REVERT:
            if constexpr (Tr::has_static) {
                bool r = false;
                o = sut([&] { r = v.revert_to_static(); });
                if (o == OK && !faults_fired()) {
                    SIM_CHECK(r == (n <= Tr::N), "static", "revert_to_static of %zu elements returned %d", n, int(r));
                    SIM_CHECK(v.is_static() == r, "static", "revert_to_static returned %d but is_static() is %d", int(r), int(v.is_static()));
                    if (!r) SIM_CHECK(v.data() == data0, "static", "revert_to_static returned false but moved the elements");
                }
            }
            else ran = false;
            break;
        case V_COPY_CTOR:
            if constexpr (Tr::copyable) {
                if (s == t) { ran = false; break; }
                if (slot[t].p) { Sut x; slot[t].kill(); }
                model[t].clear();
                o = sut([&] { if (op.d & 1) Tr::make_copy(slot[t], t, v); else slot[t].make(static_cast<const V&>(v)); });
                touched_t = true;
                aid[t] = op.d & 1 ? Tr::own_id(t) : Tr::copied_id(aid[s]);
                if (o == OK) model[t] = before;
            }
            else ran = false;
            break;
        case V_MOVE_CTOR: {
            if (s == t) { ran = false; break; }
            if (slot[t].p) { Sut x; slot[t].kill(); }
            model[t].clear();
            o = sut([&] { slot[t].make(std::move(v)); });
            touched_t = true;
            aid[t] = aid[s];
            if (o == OK) { model[t] = before; want.clear(); if (Tr::lenient_moved) resync(s, n); if (Tr::lenient_moved) want = model[s]; }
            else if (throwing_move<T>::value) resync(s, n); // some elements may have been moved
            break;
        }
        case V_COPY_ASSIGN:
            if constexpr (Tr::copyable) {
                if (s == t) { ran = false; break; }
                ensure_nofault(t);
                o = sut([&] { auto& r = (*slot[t] = static_cast<const V&>(v)); if (&r != &*slot[t]) fail("return", "assignment returned another object"); });
                touched_t = true;
                if (o == OK) model[t] = before;
                else if (slot[t].p) resync(t, tbefore.size() + n);
            }
            else ran = false;
            break;
        case V_MOVE_ASSIGN: {
            if (s == t) { ran = false; break; }
            ensure_nofault(t);
            o = sut([&] { *slot[t] = std::move(v); });
            touched_t = true;
            allocators_moved(s, t);
            if (o == OK) { model[t] = before; want.clear(); }
            else { resync(t, tbefore.size() + n); resync(s, n); before = model[s]; strong = true; }
            break;
        }
        case V_SWAP: {
            if (s == t) { ran = false; break; }
            ensure_nofault(t);
            tbefore = model[t];
            o = sut([&] { if constexpr (Tr::std_swap) { if (op.d & 1) { using std::swap; swap(v, *slot[t]); } else member_swap(v, *slot[t], 0); } else member_swap(v, *slot[t], 0); });
            allocators_moved(s, t);
            if (o == OK) { want = model[t]; model[t] = before; }
            else resync(t, n + tbefore.size());
            touched_t = true;
            break;
        }
        case V_READ:
            if (!n) { ran = false; break; }
            {
                const V& cv = v;
                SIM_CHECK(val_of(cv.at(epos)) == before[epos] && val_of(v.at(epos)) == before[epos], "sequence", "at(%zu)", epos);
                SIM_CHECK(val_of(v[epos]) == before[epos] && val_of(cv.data()[epos]) == before[epos], "sequence", "[%zu]", epos);
                SIM_CHECK(val_of(cv.front()) == before.front() && val_of(v.front()) == before.front(), "sequence", "front()");
                SIM_CHECK(val_of(cv.back()) == before.back() && val_of(v.back()) == before.back(), "sequence", "back()");
                SIM_CHECK(v.data() == cv.data() && &*v.begin() == v.data(), "sequence", "data()");
                SIM_CHECK(cv.max_size() >= n, "capacity", "max_size() is below the size");
            }
            break;
        case V_WRITE:
            if (!n) { ran = false; break; }
            {
                i64 x = fresh();
                want[epos] = x;
                T* p = nullptr;
                switch (op.d % 7) {
                case 0: p = &v[epos]; break;
                case 1: p = &v.at(epos); break;
                case 2: p = &*(v.begin() + long(epos)); break;
                case 3: p = v.data() + epos; break;
                case 4: p = &*(v.rbegin() + long(n - 1 - epos)); break;
                case 5: p = &v.front() + epos; break;
                default: p = &v.back() - (n - 1 - epos); break;
                }
                Tr::set(*p, x);
            }
            break;
        case V_ITERATE: {
            const V& cv = v;
            size_t i = 0;
            for (auto it = v.begin(); it != v.end(); ++it, ++i) SIM_CHECK(i < n && val_of(*it) == before[i], "sequence", "begin()..end() at %zu", i);
            SIM_CHECK(i == n, "sequence", "begin()..end() has %zu elements", i);
            i = 0;
            for (auto& e : cv) { SIM_CHECK(i < n && val_of(e) == before[i], "sequence", "const iteration at %zu", i); ++i; }
            SIM_CHECK(i == n, "sequence", "const iteration has %zu elements", i);
            i = 0;
            for (auto it = v.cbegin(); it != v.cend(); ++it, ++i) SIM_CHECK(i < n && val_of(*it) == before[i], "sequence", "cbegin()..cend() at %zu", i);
            SIM_CHECK(i == n, "sequence", "cbegin()..cend() has %zu elements", i);
            i = n;
            for (auto it = v.rbegin(); it != v.rend(); ++it) { SIM_CHECK(i > 0 && val_of(*it) == before[i - 1], "sequence", "rbegin()..rend() at %zu", i); --i; }
            SIM_CHECK(i == 0, "sequence", "rbegin()..rend() misses %zu elements", i);
            i = n;
            for (auto it = cv.rbegin(); it != cv.rend(); ++it) { SIM_CHECK(i > 0 && val_of(*it) == before[i - 1], "sequence", "const rbegin()..rend() at %zu", i); --i; }
            SIM_CHECK(i == 0, "sequence", "const rbegin()..rend() misses %zu elements", i);
            i = n;
            for (auto it = v.crbegin(); it != v.crend(); ++it) { SIM_CHECK(i > 0 && val_of(*it) == before[i - 1], "sequence", "crbegin()..crend() at %zu", i); --i; }
            SIM_CHECK(i == 0, "sequence", "crbegin()..crend() misses %zu elements", i);
            break;
        }
        case V_COMPARE: {
            ensure_nofault(t);
            const V& a = v; const V& b = *slot[t];
            bool e = before == model[t];
            SIM_CHECK((a == b) == e, "compare", "== gives %d", int(!e));
            SIM_CHECK((a != b) == !e, "compare", "!= gives %d", int(e));
            break;
        }
        case V_CTOR_N: {
            size_t k = amount(op, 14);
            slot_kill(s); replaced = true; want.assign(k, 0); over(k);
            o = make(s, k);
            break;
        }
        case V_CTOR_VAL:
            if constexpr (Tr::copyable) {
                size_t k = amount(op, 14);
                suspend_faults(true); T x(fresh()); suspend_faults(false);
                slot_kill(s); replaced = true; want.assign(k, next_val); over(k);
                o = make(s, k, static_cast<const T&>(x));
            }
            else ran = false;
            break;
        case V_CTOR_RANGE: {
            auto x = vals(amount(op, 12));
            slot_kill(s); replaced = true; want = x; over(x.size());
            o = with_range(x, int(op.d), [&](auto b, auto e) { Tr::make(slot[s], s, b, e); });
            aid[s] = Tr::own_id(s);
            break;
        }
        case V_CTOR_ILIST:
            if constexpr (Tr::copyable) {
                auto x = vals(size_t(cnt > 3 ? 5 : cnt));
                slot_kill(s); replaced = true; want = x; over(x.size());
                o = with_ilist(x, [&](std::initializer_list<T> l) { Tr::make(slot[s], s, l); });
                aid[s] = Tr::own_id(s);
            }
            else ran = false;
            break;
        case V_REMAKE:
            slot_kill(s); replaced = true; want.clear();
            o = make(s);
            break;
        case V_OUT_OF_RANGE:
            if constexpr (Tr::has_static) {
                strong = true;
                expect_oor = true;
                SIM_PROBE("out of range position");
                if constexpr (Tr::copyable) {
                    suspend_faults(true); T x(fresh()); suspend_faults(false);
                    switch (op.d % 8) {
                    case 0: o = sut([&] { v.insert(v.cend() + 1, x); }); break;
                    case 1: o = sut([&] { v.insert(v.cend() + 1 + cnt, size_t(2), x); }); break;
                    case 2: o = sut([&] { v.erase(v.cend()); }); break;
                    case 3: o = sut([&] { v.erase(v.cend() + 1); }); break;
                    case 4: o = sut([&] { v.erase(v.cbegin() + long(pos), v.cend() + 1 + cnt); }); break;
                    case 5: o = sut([&] { v.emplace(v.cend() + 1, i64(5)); }); break;
                    case 6: o = sut([&] { v.insert(v.cbegin() - 1, x); }); break;
                    default:
                        if (n) o = sut([&] { v.erase(v.cbegin() + 1 + long(epos), v.cbegin()); });
                        else o = sut([&] { v.erase(v.cbegin()); });
                        break;
                    }
                }
                else {
                    if (op.d & 1) o = sut([&] { v.emplace(v.cend() + 1, i64(5)); });
                    else o = sut([&] { v.erase(v.cend()); });
                }
            }
            else ran = false;
            break;
        case V_HUGE: {
            // sizes nobody can satisfy
            size_t big;
            switch (op.c % 5) {
            case 0: big = ~size_t(0); break;
            case 1: big = ~size_t(0) / sizeof(T) + 1; break;
            case 2: big = ~size_t(0) - n; break;
            case 3: big = size_t(1) << 60; break;
            default: big = size_t(1) << 40; break;
            }
            SIM_PROBE("huge size");
            strong = true;
            if (Tr::bounded) expect_oor = true;
            if constexpr (Tr::copyable) {
                suspend_faults(true); T x(fresh()); suspend_faults(false);
                switch (op.d % 5) {
                case 0: if constexpr (Tr::has_reserve) o = sut([&] { v.reserve(big); }); else o = sut([&] { v.resize(big); }); break;
                case 1: o = sut([&] { v.resize(big); }); break;
                case 2: o = sut([&] { v.resize(big, x); }); break;
                case 3: o = sut([&] { v.insert(v.cbegin() + long(pos), big, x); }); break;
                default: o = sut([&] { v.assign(big, x); }); strong = false; break;
                }
            }
            else o = sut([&] { v.resize(big); });
            if (!Tr::bounded) {
                SIM_CHECK(o == BAD_ALLOC || (o == INJECTED && faults_fired()), "huge", "a size of %zu elements ended with %s", big, outcome_name(o));
                if (op.d % 5 != 0) strong = false;
                if (strong) want = before; else { resync(s, n); want = model[s]; }
                model[s] = want;
                check_all("after a huge size");
                ev(u64(o));
                return;
            }
            break;
        }
        case V_COMPARE_OTHER: {
            // a container of another capacity
            Raw<V2> other;
            std::vector<i64> m2 = before;
            if (op.d % 3 == 1 && n) m2[epos] += 1;
            if (op.d % 3 == 2) m2.push_back(1);
            if (Tr::bounded && m2.size() > Tr::N2) { ran = false; break; }
            suspend_faults(true);
            {
                Sut x;
                Tr::make2(other);
                for (i64 e : m2) other->emplace_back(e);
            }
            suspend_faults(false);
            bool e = m2 == before;
            const V& cv = v; const V2& co = *other;
            SIM_CHECK((cv == co) == e && (co == cv) == e && (cv != co) == !e, "compare", "comparison with another capacity");
            { Sut x; other.kill(); }
            break;
        }
        case V_CONVERT:
            if constexpr (Tr::bounded && Tr::copyable) {
                Raw<V2> other;
                auto x = vals(std::min<size_t>(amount(op, Tr::N2 + 1), Tr::N2));
                suspend_faults(true);
                { Sut g; Tr::make2(other); for (i64 e : x) other->emplace_back(e); }
                suspend_faults(false);
                slot_kill(s); replaced = true; want = x; over(x.size());
                o = sut([&] { slot[s].make(static_cast<const V2&>(*other)); });
                for (size_t i = 0; i < x.size(); ++i) SIM_CHECK(val_of((*other)[i]) == x[i], "source", "conversion changed its source");
                { Sut g; other.kill(); }
            }
            else ran = false;
            break;
        case V_SELF_ASSIGN:
            if ((op.d & 3) == 1) { // moved onto itself it keeps its elements or has none, like a moved-from one
                NoFaults nf;
                V& alias = v;
                o = sut([&] { v = std::move(alias); });
                if (v.empty()) want.clear();
            }
            else if ((op.d & 3) == 2) {
                NoFaults nf;
                V& alias = v;
                o = sut([&] { if constexpr (Tr::std_swap) { if (op.d & 4) { using std::swap; swap(v, alias); } else member_swap(v, alias, 0); } else member_swap(v, alias, 0); });
            }
            else if constexpr (Tr::copyable) {
                V& alias = v;
                strong = true;
                o = sut([&] { v = static_cast<const V&>(alias); });
            }
            else ran = false;
            break;
        case V_CHURN: {
            // many small operations: long histories
            o = sut([&] { for (int i = 0; i < 9; ++i) v.emplace_back(i64(i)); for (int i = 0; i < 9; ++i) v.pop_back(); });
            if (Tr::bounded && n + 9 > Tr::N) {
                SIM_CHECK(o == OUT_OF_RANGE || faults_fired(), "capacity", "exceeding the capacity ended with %s", outcome_name(o));
                want = before;
                for (i64 i = 0; want.size() < Tr::N; ++i) want.push_back(i);
                if (faults_fired()) { resync(s, n + 9); want = model[s]; }
                model[s] = want;
                check_all("after exceeding the capacity");
                return;
            }
            break;
        }
        case V_ALIAS:
            // the argument is (made from) an element of the same vector
            if constexpr (Tr::copyable) {
                if (!n) { ran = false; break; }
                const size_t src = size_t(op.c) % n;
                const i64 x = before[src];
                const T& own = static_cast<const V&>(v)[src];
                SIM_PROBE("argument in the vector");
                switch (op.d % 6) {
                case 0: want.push_back(x); strong = true; over(n + 1); o = sut([&] { v.push_back(own); }); break;
                case 1: want.push_back(x); strong = true; over(n + 1); o = sut([&] { T& r = v.emplace_back(own); ret = &r - v.data(); }); want_ret = long(n); break;
                case 2: want.insert(want.begin() + long(pos), x); want_ret = long(pos); over(n + 1); o = sut([&] { ret = v.insert(v.cbegin() + long(pos), own) - v.begin(); }); break;
                case 3: want.insert(want.begin() + long(pos), x); want_ret = long(pos); over(n + 1); o = sut([&] { ret = v.emplace(v.cbegin() + long(pos), own) - v.begin(); }); break;
                case 4: want.insert(want.begin() + long(pos), size_t(op.c / 8), x); want_ret = long(pos); over(n + size_t(op.c / 8)); o = sut([&] { ret = v.insert(v.cbegin() + long(pos), size_t(op.c / 8), own) - v.begin(); }); break;
                default: want.resize(n + size_t(op.c / 8), x); over(n + size_t(op.c / 8)); o = sut([&] { v.resize(n + size_t(op.c / 8), own); }); break;
                }
            }
            else ran = false;
            break;
        default:
            ran = false;
        }

        if (!ran) return;
        ev(u64(o) * 7 + n);
        int fired = faults_fired();
        if (expect_oor && !fired) {
            SIM_CHECK(o == OUT_OF_RANGE, "out-of-range", "%s of an impossible size or position ended with %s", vop_name(code), outcome_name(o));
            SIM_PROBE("out_of_range thrown");
            if (replaced) { slot[s].p = nullptr; model[s].clear(); check_all("after out_of_range"); return; }
            if (code == V_ASSIGN_N || code == V_ASSIGN_RANGE || code == V_ASSIGN_ILIST || (code == V_HUGE && !strong)) resync(s, n > Tr::N ? n : Tr::N);
            check_all("after out_of_range");
            return;
        }
        if (o != OK) {
            SIM_CHECK(fired, "unexpected-exception", "%s ended with %s and no fault was injected", vop_name(code), outcome_name(o));
            if (op.fk == F_ALLOC) SIM_CHECK(o == BAD_ALLOC, "exception", "%s turned an allocation failure into %s", vop_name(code), outcome_name(o));
            else if (!expect_oor) SIM_CHECK(o == INJECTED, "exception", "%s turned an element's exception into %s", vop_name(code), outcome_name(o));
            SIM_PROBE("operation failed by a fault");
            if (replaced) { slot[s].p = nullptr; model[s].clear(); check_all("after a failed construction"); return; }
            if (touched_t && (code == V_COPY_CTOR || code == V_MOVE_CTOR)) { slot[t].p = nullptr; model[t].clear(); }
            bool insert_family = code >= V_INSERT && code <= V_EMPLACE;
            bool s_is_dest = !(touched_t && code != V_SWAP);
            if ((strong && !throwing_move<T>::value) || (Tr::bounded && (insert_family || code == V_RESIZE || code == V_RESIZE_VAL) && o == OUT_OF_RANGE)) model[s] = before;
            else if (Tr::bounded && code == V_ALIAS && o == OUT_OF_RANGE) model[s] = before;
            else if (s_is_dest) resync(s, std::max(before.size(), want.size()) + (touched_t ? tbefore.size() : 0) + (code == V_CHURN ? 9 : 0));
            check_all("after a failed operation");
            return;
        }
        if (fired && !allow_swallow) {
            fail("swallowed", "%s succeeded although an injected %s was thrown inside it", vop_name(code), fault_name(op.fk));
        }
        model[s] = want;
        if (want_ret >= 0) SIM_CHECK(ret == want_ret, "return", "%s returned an iterator to %ld, expected %ld", vop_name(code), ret, want_ret);
        check_all(vop_name(code));
        if constexpr (Tr::bounded) SIM_CHECK(alloc_count() == allocs0, "alloc", "%s allocated memory", vop_name(code));
        if constexpr (Tr::has_static) {
            V& w = *slot[s];
            bool removing = (code == V_ERASE || code == V_ERASE_RANGE || code == V_POP || code == V_CLEAR) && want.size() < n;
            if (removing && !static0) {
                bool rev = want.size() < Tr::R;
                SIM_CHECK(w.is_static() == rev, "static", "%s from %zu to %zu elements: is_static() is %d (revert below %zu)", vop_name(code), n, want.size(), int(w.is_static()), Tr::R);
                if (rev) SIM_PROBE("automatic revert");
            }
            if (Tr::R == 0 && !static0 && !touched_t && !replaced && code != V_SHRINK && code != V_REVERT)
                SIM_CHECK(!w.is_static(), "static", "%s put the elements back into the static buffer though reverting is off", vop_name(code));
            if (static0 && !touched_t && !replaced && code != V_RESERVE && code != V_CHURN && want.size() <= Tr::N)
                SIM_CHECK(w.is_static(), "static", "%s left the static buffer though %zu elements fit", vop_name(code), want.size());
            bool growing = (code <= V_EMPLACE_BACK || (code >= V_INSERT && code <= V_EMPLACE) || code == V_RESIZE || code == V_RESIZE_VAL) && want.size() >= n;
            if (growing && want.size() <= cap0) // in a reserved capacity as well (reverting is for shrinking)
                SIM_CHECK(w.data() == data0, "capacity", "%s to %zu elements moved them though the capacity was %zu", vop_name(code), want.size(), cap0);
            state(u64(w.size()) * 64 + u64(w.is_static()) * 32 + u64(code) * 8192 + u64(n));
        }
        else state(u64(want.size()) + u64(code) * 8192 + u64(n) * 64);
    }

    void ensure_nofault(int t) {
        if (!slot[t].p) ensure(t);
    }
    void slot_kill(int s) {
        Sut x;
        slot[s].kill();
        model[s].clear();
    }
};

inline void gen_vec(Rng& r, Case& c, int maxops, const int* basew) {
    if (r.chance(1, 16)) c.cfg.push_back(1);
    int w[V_NOPS];
    // swarm: each case uses its own mix
    for (int i = 0; i < V_NOPS; ++i) w[i] = r.chance(1, 3) ? 0 : basew[i] * int(1 + r.below(4));
    w[V_EMPLACE_BACK] += 2;
    int n = int(1 + r.below(u64(r.chance(1, 8) ? maxops * 4 : maxops)));
    int frate = int(r.below(4)); // 0: fault free
    int slots = int(1 + r.below(3));
    for (int i = 0; i < n; ++i) {
        Op o;
        o.code = r.pick(w, V_NOPS);
        int s = int(r.below(u64(slots))), t = int(r.below(3));
        o.a = s | (t << 2);
        o.b = r.chance(1, 3) ? 0 : i64(r.below(64));
        o.c = i64(r.below(64));
        o.d = i64(r.below(64));
        if (frate && r.chance(unsigned(frate), 8)) {
            o.fk = r.chance(1, 2) ? F_ALLOC : F_ELEM;
            o.fn = int(1 + r.below(r.chance(1, 2) ? 2 : 8));
            if (r.chance(1, 8)) o.fn = -o.fn;
        }
        c.ops.push_back(o);
    }
}
}
