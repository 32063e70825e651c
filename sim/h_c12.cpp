#include "vec.hpp"
#include <itlib/pod_vector.hpp>
#include <algorithm>
#include <deque>
#include <sanitizer/asan_interface.h>

using namespace sim;

// ------------------------------------------------------------ the allocators
struct PBlock { char* raw; size_t off, n, slack; int id; };
inline std::vector<PBlock>& pblocks() { static std::vector<PBlock> b; return b; }
inline Rng policy(1);
inline int p_expand = 50, p_inplace = 50;

inline PBlock* find_block(const void* p) { // containing p
    for (auto& b : pblocks()) if ((const char*)p >= b.raw + b.off && (const char*)p <= b.raw + b.off + b.n) return &b;
    return nullptr;
}
inline PBlock* exact_block(const void* p) {
    for (auto& b : pblocks()) if ((const char*)p == b.raw + b.off) return &b;
    return nullptr;
}
inline void* p_malloc(size_t n, size_t align, int id) {
    Host h;
    if (n > max_alloc) { fault(F_NONE); return nullptr; }
    size_t off = align >= 16 ? 0 : align * (1 + 2 * policy.below(16 / align / 2 ? 16 / align / 2 : 1));
    size_t slack = policy.chance(1, 2) ? policy.below(90) : 0;
    char* raw = (char*)sut_alloc(off + n + slack, 16, id);
    if (!raw) return nullptr;
    memset(raw, 0x5C, off);
    PBlock b = {raw, off, n, slack, id};
    ASAN_POISON_MEMORY_REGION(raw + off + n, slack);
    pblocks().push_back(b);
    return raw + off;
}
inline void p_free(void* p, int id) {
    if (!p) return;
    Host h;
    PBlock* b = exact_block(p);
    if (!b) fail("bad-free", "a pointer is given back which the allocator never returned, or twice");
    if (b->id != id) fail("bad-free", "a block from allocator %d is given back to allocator %d", b->id, id);
    for (size_t i = 0; i < b->off; ++i) if (b->raw[i] != 0x5C) fail("memory", "memory before a block was written to");
    ASAN_UNPOISON_MEMORY_REGION(b->raw, b->off + b->n + b->slack);
    char* raw = b->raw;
    pblocks().erase(pblocks().begin() + (b - pblocks().data()));
    sut_free(raw, -1, 16, id);
}
inline bool p_resize(PBlock* b, size_t n) {
    if (n > b->n + b->slack) return false;
    ASAN_UNPOISON_MEMORY_REGION(b->raw, b->off + b->n + b->slack);
    size_t all = b->n + b->slack;
    b->n = n;
    b->slack = all - n;
    if (b->slack) { memset(b->raw + b->off + n, 0xE3, b->slack); ASAN_POISON_MEMORY_REGION(b->raw + b->off + n, b->slack); }
    return true;
}
inline bool p_expand_block(void* p, size_t n, int id) {
    Host h;
    PBlock* b = exact_block(p);
    if (!b) fail("bad-free", "expand of a pointer which the allocator never returned");
    if (b->id != id) fail("bad-free", "a block from allocator %d is expanded by allocator %d", b->id, id);
    if (fault(F_NO_EXPAND)) return false;
    if (int(policy.below(100)) >= p_expand) { SIM_PROBE("expand refused"); return false; }
    bool r = p_resize(b, n);
    if (r) SIM_PROBE("expanded in place"); else SIM_PROBE("expand impossible");
    return r;
}
inline void* p_realloc(void* p, size_t n, size_t align, int id) {
    Host h;
    if (!p) return p_malloc(n, align, id);
    PBlock* b = exact_block(p);
    if (!b) fail("bad-free", "realloc of a pointer which the allocator never returned");
    if (b->id != id) fail("bad-free", "a block from allocator %d is reallocated by allocator %d", b->id, id);
    if (int(policy.below(100)) < p_inplace && n <= b->n + b->slack && !fault_would(F_ALLOC)) { p_resize(b, n); SIM_PROBE("reallocated in place"); return p; }
    size_t old = b->n;
    void* q = p_malloc(n, align, id);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    p_free(p, id);
    SIM_PROBE("block moved by realloc");
    return q;
}

template <size_t Align, bool Expand, bool Zero, size_t Max, size_t Wasteful>
struct PAlloc {
    typedef size_t size_type;
    int id;
    explicit PAlloc(int i = 100) : id(i) {}
    void* malloc(size_type n) { if (n > Max) fail("contract", "malloc of %zu bytes, over max_size %zu", n, Max); return p_malloc(n, Align, id); }
    void free(void* p) { p_free(p, id); }
    static constexpr size_type max_size() { return Max; }
    static constexpr bool zero_fill_new() { return Zero; }
    static constexpr size_type alloc_align() { return Align; }
    static constexpr bool has_expand() { return Expand; }
    void* realloc(void* p, size_type n) {
        if (Expand) fail("contract", "realloc called though the allocator has expand");
        return p_realloc(p, n, Align, id);
    }
    bool expand(void* p, size_type n) {
        if (!Expand) fail("contract", "expand called though the allocator has no expand");
        return p_expand_block(p, n, id);
    }
    static constexpr size_type realloc_wasteful_copy_size() { return Wasteful; }
};

// ----------------------------------------------------------------- elements
struct B3 { unsigned char b[3]; };
struct P16 { i64 a, b; };
struct alignas(32) W32 { i64 x[4]; };
struct alignas(128) W128 { i64 x[16]; };

template <typename T> T val(i64 x) {
    T t;
    unsigned char* p = (unsigned char*)&t;
    for (size_t i = 0; i < sizeof(T); ++i) p[i] = (unsigned char)(mix64(u64(x) * 31 + i));
    return t;
}
template <typename T> bool same(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }

enum POp {
    P_PUSH, P_EMPLACE_BACK, P_EMPLACE_BACK_0, P_POP, P_INSERT, P_INSERT_N, P_INSERT_RANGE, P_INSERT_ILIST, P_EMPLACE,
    P_ERASE, P_ERASE_RANGE, P_CLEAR, P_RESIZE, P_RESIZE_VAL, P_ASSIGN_N, P_ASSIGN_RANGE, P_ASSIGN_ILIST, P_RESERVE,
    P_SHRINK, P_COPY_CTOR, P_MOVE_CTOR, P_COPY_ASSIGN, P_MOVE_ASSIGN, P_SWAP, P_READ, P_WRITE, P_ITERATE, P_COMPARE,
    P_CTOR_N, P_CTOR_VAL, P_CTOR_RANGE, P_CTOR_ILIST, P_REMAKE, P_HUGE, P_RECAST_COPY, P_RECAST_TAKE, P_SELF_ASSIGN,
    P_CHURN, P_RECAST_BACK, P_ALIAS, P_NOPS
};
static const char* pnames[] = {"push_back", "emplace_back(value)", "emplace_back()", "pop_back", "insert", "insert(n)", "insert(range)",
    "insert(ilist)", "emplace", "erase", "erase(range)", "clear", "resize", "resize(value)", "assign(n)", "assign(range)", "assign(ilist)",
    "reserve", "shrink_to_fit", "copy construct", "move construct", "copy assign", "move assign", "swap", "read", "write", "iterate",
    "compare", "construct(n)", "construct(n, value)", "construct(range)", "construct(ilist)", "remake", "huge size", "recast_copy_from",
    "recast_take_from", "self assign", "churn", "recast_take_from(back)", "argument in the vector"};

template <typename T_, typename U_, typename A_, bool Own, bool CanTake>
struct PT {
    typedef T_ T; typedef U_ U; typedef A_ A;
    static constexpr bool own = Own, can_take = CanTake;
    static A alloc(int s) { if constexpr (Own) return A(100 + s); else return A(); }
};

template <typename Tr>
struct PodWorld {
    typedef typename Tr::T T;
    typedef typename Tr::U U;
    typedef typename Tr::A A;
    typedef itlib::pod_vector<T, A> V;
    typedef itlib::pod_vector<U, A> VU;
    typedef std::vector<T> M;
    Raw<V> slot[3];
    M model[3];
    int aid[3] = {-1, -1, -1}; // expected allocator
    i64 nv = 0;
    Case& cs;
    explicit PodWorld(Case& c) : cs(c) {}
    T fresh() { return val<T>(++nv); }
    M vals(int n) { M m; for (int i = 0; i < n; ++i) m.push_back(fresh()); return m; }
    static bool msame(const M& a, const M& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(T))); }

    void check_slot(int s, const char* when) {
        const V& v = *slot[s];
        M& m = model[s];
        SIM_CHECK(v.size() == m.size(), "sequence", "%s: slot %d has size %zu, expected %zu", when, s, size_t(v.size()), m.size());
        SIM_CHECK(v.empty() == m.empty() && v.byte_size() == m.size() * sizeof(T), "sequence", "%s: empty() or byte_size()", when);
        SIM_CHECK(v.capacity() >= v.size(), "capacity", "%s: capacity below size", when);
        SIM_CHECK(v.max_size() >= v.size(), "capacity", "%s: max_size() is below the size", when);
        SIM_CHECK(size_t(v.end() - v.begin()) == m.size(), "sequence", "%s: end() - begin()", when);
        if constexpr (Tr::own) SIM_CHECK(v.get_allocator().id == aid[s], "allocator", "%s: slot %d has allocator %d, expected %d", when, s, int(v.get_allocator().id), aid[s]);
        if (v.capacity()) {
            SIM_CHECK(reinterpret_cast<uintptr_t>(v.data()) % alignof(T) == 0, "alignment", "%s: data is not aligned to %zu", when, alignof(T));
            if (Tr::own) {
                PBlock* b = find_block(v.data());
                SIM_CHECK(b, "memory", "%s: the elements are not in a live block", when);
                SIM_CHECK((const char*)(v.data() + v.capacity()) <= b->raw + b->off + b->n, "capacity", "%s: capacity %zu exceeds its block", when, size_t(v.capacity()));
            }
            else {
                SIM_CHECK(inside_block(v.data(), v.capacity() * sizeof(T)), "capacity", "%s: capacity exceeds the block", when);
            }
        }
        for (size_t i = 0; i < m.size(); ++i) {
            SIM_CHECK(&v[i] == v.data() + i, "sequence", "%s: not contiguous", when);
            SIM_CHECK(same(v[i], m[i]), "sequence", "%s: slot %d element %zu has other bytes than expected", when, s, i);
        }
    }
    // after a move assignment, a take or a swap each has its own allocator or the other's
    void taken(const V& v, int& id, int other) {
        if constexpr (Tr::own) {
            const int a = v.get_allocator().id;
            SIM_CHECK(a == id || a == other, "allocator", "vectors with allocators %d and %d have %d after a move", id, other, a);
            id = a;
        }
    }
    void allocators_moved(int s, int t) {
        const int a = aid[s], b = aid[t];
        taken(*slot[s], aid[s], b);
        taken(*slot[t], aid[t], a);
    }
    void check_all(const char* when) { for (int s = 0; s < 3; ++s) if (slot[s].p) check_slot(s, when); }
    void resync(int s) {
        if (!slot[s].p) return;
        V& v = *slot[s];
        SIM_CHECK(v.size() <= v.capacity() || v.capacity() == 0, "capacity", "after a failure: capacity below size");
        model[s].clear();
        for (size_t i = 0; i < v.size(); ++i) model[s].push_back(v[i]);
    }
    void ensure(int s) {
        if (slot[s].p) return;
        model[s].clear();
        Sut x;
        if constexpr (Tr::own) slot[s].make(Tr::alloc(s)); else slot[s].make();
        aid[s] = 100 + s;
    }
    void slot_kill(int s) { Sut x; slot[s].kill(); model[s].clear(); }

    // setup pushes; a limited allocator may refuse, then there are fewer
    template <typename Vec>
    int push_some(Vec& u, int k, size_t spare, std::vector<U>* uw) {
        suspend_faults(true);
        int done = 0;
        try {
            Sut g;
            for (; done < k; ++done) {
                U x = val<U>(++nv);
                u.push_back(x);
                if (uw) { Host h; uw->push_back(x); }
            }
            if (spare) u.reserve(u.size() + spare);
        }
        catch (std::bad_alloc&) { SIM_PROBE("allocator limit reached in setup"); }
        suspend_faults(false);
        return done;
    }

    template <typename F>
    static Outcome with_ilist(const M& x, F&& f) {
        switch (x.size()) {
        case 0: { std::initializer_list<T> l; return sut([&] { f(l); }); }
        case 1: { std::initializer_list<T> l = {x[0]}; return sut([&] { f(l); }); }
        case 2: { std::initializer_list<T> l = {x[0], x[1]}; return sut([&] { f(l); }); }
        default: { std::initializer_list<T> l = {x[0], x[1], x[2], x[3], x[4]}; return sut([&] { f(l); }); }
        }
    }
    template <typename F>
    static Outcome with_range(const M& x, int kind, F&& f) {
        switch (kind % 4) {
        case 0: { const T* b = x.data(); return sut([&] { f(b, b + x.size()); }); }
        case 1: { std::deque<T> d(x.begin(), x.end()); return sut([&] { f(d.begin(), d.end()); }); }
        case 2: { M y(x); T* b = y.data(); return sut([&] { f(b, b + y.size()); }); }
        default: { M y(x.rbegin(), x.rend()); return sut([&] { f(y.rbegin(), y.rend()); }); }
        }
    }

    void run() {
        pblocks().clear();
        policy = Rng(cs.seed ^ 0xabcdef);
        p_expand = int(policy.below(101));
        p_inplace = int(policy.below(101));
        for (auto& o : cs.ops) step(o);
        for (int s = 0; s < 3; ++s) if (slot[s].p) slot_kill(s);
        check_no_leaks("the end");
    }

    void step(const Op& op) {
        int s = int(op.a & 3) % 3, t = int((op.a >> 2) & 3) % 3;
        ensure(s);
        if (op.code >= P_COPY_CTOR && op.code <= P_COMPARE) ensure(t);
        OpScope scope(op);
        V& v = *slot[s];
        M before = model[s], want = before;
        size_t n = before.size();
        const bool wide = cs.cfg.size() > 1 && cs.cfg[1]; // large sizes, and positions anywhere in them
        const size_t place = wide && op.b > 15 ? size_t(op.b == 63 ? n : size_t(op.b) * n / 64) : size_t(op.b);
        size_t pos = n ? place % (n + 1) : 0, epos = n ? place % n : 0;
        int cnt = int(op.c % 7);
        Outcome o = OK;
        bool strong = false, ran = true, touched_t = false, replaced = false, swallow = false;
        const T* data0 = v.data();
        size_t cap0 = v.capacity();
        long ret = -1, want_ret = -1;
        int code = op.code;
        bool growth = false;
        // big values make blocks cross the thresholds of realloc
        size_t k = size_t(op.d % 16 == 0 ? (op.c % 5) * 40 : wide && op.d % 16 < 4 ? (op.c % 9) * 111 : op.c % 14);
        if (wide && op.d == 17) k = op.c & 1 ? 65537 / sizeof(T) + 1 : 70000 / sizeof(T);
        switch (code) {
        case P_PUSH: { T x = fresh(); want.push_back(x); strong = growth = true; const T* r = nullptr; o = sut([&] { r = &v.push_back(x); }); if (o == OK) SIM_CHECK(r == &v.back(), "return", "push_back"); break; }
        case P_EMPLACE_BACK: { T x = fresh(); want.push_back(x); strong = growth = true; o = sut([&] { v.emplace_back(x); }); break; }
        case P_EMPLACE_BACK_0: { T x = fresh(); want.push_back(x); strong = growth = true; o = sut([&] { T& r = v.emplace_back(); r = x; }); break; }
        case P_POP: if (!n) { ran = false; break; } want.pop_back(); o = sut([&] { v.pop_back(); }); break;
        case P_INSERT: { T x = fresh(); want.insert(want.begin() + long(pos), x); strong = growth = true; want_ret = long(pos); o = sut([&] { ret = v.insert(v.cbegin() + long(pos), x) - v.begin(); }); break; }
        case P_INSERT_N: { T x = fresh(); want.insert(want.begin() + long(pos), k, x); strong = growth = true; want_ret = long(pos); o = sut([&] { ret = v.insert(v.cbegin() + long(pos), k, x) - v.begin(); }); break; }
        case P_INSERT_RANGE: { M x = vals(int(k)); want.insert(want.begin() + long(pos), x.begin(), x.end()); strong = growth = true; want_ret = long(pos); o = with_range(x, int(op.d), [&](auto b, auto e) { ret = v.insert(v.cbegin() + long(pos), b, e) - v.begin(); }); break; }
        case P_INSERT_ILIST: { M x = vals(cnt > 2 ? 5 : cnt); want.insert(want.begin() + long(pos), x.begin(), x.end()); strong = growth = true; want_ret = long(pos); o = with_ilist(x, [&](std::initializer_list<T> l) { ret = v.insert(v.cbegin() + long(pos), l) - v.begin(); }); break; }
        case P_EMPLACE: { T x = fresh(); want.insert(want.begin() + long(pos), x); strong = growth = true; want_ret = long(pos); o = sut([&] { ret = v.emplace(v.cbegin() + long(pos), x) - v.begin(); }); break; }
        case P_ERASE: if (!n) { ran = false; break; } want.erase(want.begin() + long(epos)); want_ret = long(epos); o = sut([&] { ret = v.erase(v.cbegin() + long(epos)) - v.begin(); }); break;
        case P_ERASE_RANGE: { size_t last = pos + (n - pos ? (wide && op.c > 15 ? size_t(op.c) * (n - pos) / 63 : size_t(op.c)) % (n - pos + 1) : 0); want.erase(want.begin() + long(pos), want.begin() + long(last)); want_ret = long(pos); o = sut([&] { ret = v.erase(v.cbegin() + long(pos), v.cbegin() + long(last)) - v.begin(); }); break; }
        case P_CLEAR: want.clear(); o = sut([&] { v.clear(); }); break;
        case P_RESIZE: {
            strong = growth = k > n;
            bool r = false;
            o = sut([&] { r = v.resize(k); });
            if (o == OK) {
                T z; memset(&z, 0, sizeof z);
                want.resize(k, z);
                if (!A::zero_fill_new() && v.size() == k) for (size_t i = n; i < k; ++i) want[i] = v[i];
                SIM_CHECK(r == (v.data() != data0), "return", "resize returned %d but %s the elements", int(r), r ? "did not move" : "moved");
            }
            break;
        }
        case P_RESIZE_VAL: {
            T x = fresh(); strong = growth = k > n; want.resize(k, x); bool r = false;
            o = sut([&] { r = v.resize(k, x); });
            if (o == OK) SIM_CHECK(r == (v.data() != data0), "return", "resize returned %d but %s the elements", int(r), r ? "did not move" : "moved");
            break;
        }
        case P_ASSIGN_N: { T x = fresh(); want.assign(k, x); o = sut([&] { v.assign(k, x); }); break; }
        case P_ASSIGN_RANGE: { M x = vals(int(k)); want = x; o = with_range(x, int(op.d), [&](auto b, auto e) { v.assign(b, e); }); break; }
        case P_ASSIGN_ILIST: { M x = vals(cnt > 2 ? 5 : cnt); want = x; o = with_ilist(x, [&](std::initializer_list<T> l) { v.assign(l); }); break; }
        case P_RESERVE: {
            strong = growth = true; bool r = false;
            size_t q = size_t(op.c % 40);
            if (wide && op.d % 16 < 4) q *= 29;
            o = sut([&] { r = v.reserve(q); });
            if (o == OK) {
                SIM_CHECK(v.capacity() >= q, "capacity", "capacity is %zu after reserve(%zu)", size_t(v.capacity()), q);
                SIM_CHECK(r == (v.data() != data0), "return", "reserve returned %d but %s the elements", int(r), r ? "did not move" : "moved");
            }
            break;
        }
        case P_SHRINK: {
            bool r = false; swallow = true;
            o = sut([&] { r = v.shrink_to_fit(); });
            if (o == OK) {
                SIM_CHECK(r == (v.data() != data0), "return", "shrink_to_fit returned %d but %s the elements", int(r), r ? "did not move" : "moved");
                if (!faults_fired()) SIM_CHECK(v.capacity() <= cap0, "capacity", "shrink_to_fit enlarged the capacity");
            }
            break;
        }
        case P_COPY_CTOR:
            if (s == t) { ran = false; break; }
            slot_kill(t); touched_t = true;
            o = sut([&] { if ((op.d & 1) && Tr::own) slot[t].make(static_cast<const V&>(v), Tr::alloc(t)); else slot[t].make(static_cast<const V&>(v)); });
            aid[t] = (op.d & 1) ? 100 + t : aid[s];
            if (o == OK) model[t] = before;
            break;
        case P_MOVE_CTOR:
            if (s == t) { ran = false; break; }
            slot_kill(t); touched_t = true;
            o = sut([&] { slot[t].make(std::move(v)); });
            aid[t] = aid[s];
            if (o == OK) { model[t] = before; want.clear(); }
            break;
        case P_COPY_ASSIGN:
            if (s == t) { ran = false; break; }
            touched_t = true;
            o = sut([&] { *slot[t] = static_cast<const V&>(v); });
            if (o == OK) model[t] = before; else resync(t);
            break;
        case P_MOVE_ASSIGN:
            if (s == t) { ran = false; break; }
            touched_t = true;
            o = sut([&] { *slot[t] = std::move(v); });
            allocators_moved(s, t);
            if (o == OK) { model[t] = before; want.clear(); }
            break;
        case P_SWAP:
            if (s == t) { ran = false; break; }
            touched_t = true;
            o = sut([&] { if (op.d & 1) { using std::swap; swap(v, *slot[t]); } else v.swap(*slot[t]); });
            allocators_moved(s, t);
            if (o == OK) { want = model[t]; model[t] = before; }
            break;
        case P_READ: {
            if (!n) { ran = false; break; }
            const V& cv = v;
            SIM_CHECK(same(cv.at(epos), before[epos]) && same(v.at(epos), before[epos]) && same(cv[epos], before[epos]), "sequence", "at(%zu)", epos);
            SIM_CHECK(same(cv.front(), before.front()) && same(v.front(), before.front()), "sequence", "front()");
            SIM_CHECK(same(cv.back(), before.back()) && same(v.back(), before.back()), "sequence", "back()");
            SIM_CHECK(v.data() == cv.data() && &*v.begin() == v.data(), "sequence", "data()");
            break;
        }
        case P_WRITE: {
            if (!n) { ran = false; break; }
            T x = fresh(); want[epos] = x;
            switch (op.d % 5) {
            case 0: v[epos] = x; break;
            case 1: v.at(epos) = x; break;
            case 2: *(v.begin() + long(epos)) = x; break;
            case 3: v.data()[epos] = x; break;
            default: *(v.rbegin() + long(n - 1 - epos)) = x; break;
            }
            break;
        }
        case P_ITERATE: {
            const V& cv = v; size_t i = 0;
            for (auto& e : v) { SIM_CHECK(i < n && same(e, before[i]), "sequence", "iteration at %zu", i); ++i; }
            SIM_CHECK(i == n, "sequence", "iteration has %zu elements", i);
            i = 0;
            for (auto it = cv.cbegin(); it != cv.cend(); ++it, ++i) SIM_CHECK(i < n && same(*it, before[i]), "sequence", "cbegin() at %zu", i);
            SIM_CHECK(i == n && cv.begin() == cv.cbegin() && cv.end() == cv.cend(), "sequence", "const iteration");
            i = n;
            for (auto it = v.rbegin(); it != v.rend(); ++it) { SIM_CHECK(i && same(*it, before[i - 1]), "sequence", "rbegin() at %zu", i); --i; }
            SIM_CHECK(!i, "sequence", "rbegin()");
            i = n;
            for (auto it = cv.crbegin(); it != cv.crend(); ++it) { SIM_CHECK(i && same(*it, before[i - 1]), "sequence", "crbegin() at %zu", i); --i; }
            SIM_CHECK(!i, "sequence", "crbegin()");
            i = n;
            for (auto it = cv.rbegin(); it != cv.rend(); ++it) { SIM_CHECK(i && same(*it, before[i - 1]), "sequence", "const rbegin() at %zu", i); --i; }
            SIM_CHECK(!i, "sequence", "const rbegin()");
            break;
        }
        case P_COMPARE: {
            const V& a = v; const V& b = *slot[t];
            bool e = msame(before, model[t]);
            SIM_CHECK((a == b) == e && (a != b) == !e, "compare", "comparison");
            break;
        }
        case P_CTOR_N: {
            slot_kill(s); replaced = true; aid[s] = 100 + s; T z; memset(&z, 0, sizeof z); want.assign(k, z);
            o = sut([&] { if constexpr (Tr::own) slot[s].make(k, Tr::alloc(s)); else slot[s].make(k); });
            if (o == OK && !A::zero_fill_new() && slot[s]->size() == k) for (size_t i = 0; i < k; ++i) want[i] = (*slot[s])[i];
            break;
        }
        case P_CTOR_VAL: {
            slot_kill(s); replaced = true; aid[s] = 100 + s; T x = fresh(); want.assign(k, x);
            o = sut([&] { if constexpr (Tr::own) slot[s].make(k, x, Tr::alloc(s)); else slot[s].make(k, x); });
            break;
        }
        case P_CTOR_RANGE: {
            slot_kill(s); replaced = true; aid[s] = 100 + s; M x = vals(int(k)); want = x;
            o = with_range(x, int(op.d), [&](auto b, auto e) { if constexpr (Tr::own) slot[s].make(b, e, Tr::alloc(s)); else slot[s].make(b, e); });
            break;
        }
        case P_CTOR_ILIST: {
            slot_kill(s); replaced = true; aid[s] = 100 + s; M x = vals(cnt > 2 ? 5 : cnt); want = x;
            o = with_ilist(x, [&](std::initializer_list<T> l) { if constexpr (Tr::own) slot[s].make(l, Tr::alloc(s)); else slot[s].make(l); });
            break;
        }
        case P_REMAKE: slot_kill(s); ensure(s); want.clear(); break;
        case P_HUGE: {
            size_t big;
            switch (op.c % 6) {
            case 0: big = ~size_t(0); break;
            case 1: big = ~size_t(0) / sizeof(T) + 1; break;
            case 2: big = ~size_t(0) - n; break;
            case 3: big = ~size_t(0) / sizeof(T); break;
            case 4: big = (~size_t(0) - alignof(T)) / sizeof(T) + 1; break;
            default: big = size_t(1) << 40; break;
            }
            if (big < (size_t(1) << 40)) big = ~size_t(0);
            SIM_PROBE("huge size");
            T x = fresh();
            bool grow = true;
            switch (op.d % 5) {
            case 0: o = sut([&] { v.reserve(big); }); break;
            case 1: o = sut([&] { v.resize(big); }); break;
            case 2: o = sut([&] { v.resize(big, x); }); break;
            case 3: o = sut([&] { v.insert(v.cbegin() + long(pos), big, x); }); break;
            default: grow = false; o = sut([&] { v.assign(big, x); }); break;
            }
            SIM_CHECK(o == BAD_ALLOC, "huge", "a size of %zu elements ended with %s", big, outcome_name(o));
            if (!grow) resync(s);
            check_all("after a huge size");
            return;
        }
        case P_RECAST_COPY: {
            // from another element type
            typename std::conditional<true, Raw<VU>, int>::type u;
            { Sut g; if constexpr (Tr::own) u.make(Tr::alloc(t)); else u.make(); }
            push_some(*u, int(wide && op.d % 16 < 4 ? op.c * 9 : op.c % 9), 0, nullptr);
            size_t bytes = u->byte_size();
            want.clear();
            for (size_t i = 0; i + sizeof(T) <= bytes; i += sizeof(T)) { T x; memcpy(&x, (const char*)u->data() + i, sizeof(T)); want.push_back(x); }
            o = sut([&] { v.recast_copy_from(static_cast<const VU&>(*u)); });
            SIM_CHECK(u->byte_size() == bytes, "source", "recast_copy_from changed its source");
            { Sut g; u.kill(); }
            break;
        }
        case P_RECAST_TAKE:
        case P_RECAST_BACK:
            if constexpr (Tr::can_take) {
                Raw<VU> u;
                { Sut g; if constexpr (Tr::own) u.make(Tr::alloc(t)); else u.make(); }
                push_some(*u, int(wide && op.d % 16 < 4 ? op.c * 9 : op.c % 9), op.d & 1 ? 3 : 0, nullptr);
                if (code == P_RECAST_TAKE) {
                    size_t bytes = u->byte_size();
                    want.clear();
                    for (size_t i = 0; i + sizeof(T) <= bytes; i += sizeof(T)) { T x; memcpy(&x, (const char*)u->data() + i, sizeof(T)); want.push_back(x); }
                    o = sut([&] { v.recast_take_from(std::move(*u)); });
                    taken(v, aid[s], 100 + t);
                    if (o == OK) {
                        SIM_CHECK(u->size() == 0, "sequence", "the source of recast_take_from is not empty");
                        if (op.d & 2) push_some(*u, 1, 0, nullptr);
                    }
                }
                else {
                    std::vector<U> uw;
                    for (size_t i = 0; i + sizeof(U) <= n * sizeof(T); i += sizeof(U)) { U x; memcpy(&x, (const char*)before.data() + i, sizeof(U)); uw.push_back(x); }
                    o = sut([&] { u->recast_take_from(std::move(v)); });
                    taken(v, aid[s], 100 + t);
                    if (o == OK) {
                        want.clear();
                        SIM_CHECK(u->size() == uw.size() && (uw.empty() || !memcmp(u->data(), uw.data(), uw.size() * sizeof(U))), "sequence", "bytes taken differ");
                        SIM_CHECK(reinterpret_cast<uintptr_t>(u->data()) % alignof(U) == 0, "alignment", "after recast_take_from: data is not aligned to %zu", alignof(U));
                        SIM_CHECK(u->capacity() >= u->size(), "capacity", "capacity below size after recast_take_from");
                        push_some(*u, int(op.d % 4), 0, &uw);
                        SIM_CHECK(u->size() == uw.size() && (uw.empty() || !memcmp(u->data(), uw.data(), uw.size() * sizeof(U))), "sequence", "growing after recast_take_from");
                    }
                }
                { Sut g; u.kill(); }
            }
            else ran = false;
            break;
        case P_SELF_ASSIGN: {
            V& alias = v;
            if ((op.d & 3) == 1) { // moved onto itself it keeps its elements or has none, like a moved-from one
                o = sut([&] { v = std::move(alias); });
                if (v.empty()) want.clear();
            }
            else if ((op.d & 3) == 2) o = sut([&] { if (op.d & 4) { using std::swap; swap(v, alias); } else v.swap(alias); });
            else o = sut([&] { v = static_cast<const V&>(alias); });
            break;
        }
        case P_CHURN:
            growth = false;
            o = sut([&] { for (int i = 0; i < 12; ++i) v.push_back(val<T>(i)); for (int i = 0; i < 12; ++i) v.pop_back(); });
            break;
        case P_ALIAS: {
            if (!n) { ran = false; break; }
            const size_t src = size_t(op.c) % n, many = size_t(op.c / 4);
            const T x = before[src];
            const T& own = static_cast<const V&>(v)[src];
            strong = growth = true;
            SIM_PROBE("argument in the vector");
            switch (op.d % 6) {
            case 0: want.push_back(x); o = sut([&] { v.push_back(own); }); break;
            case 1: want.push_back(x); o = sut([&] { v.emplace_back(own); }); break;
            case 2: want.insert(want.begin() + long(pos), x); want_ret = long(pos); o = sut([&] { ret = v.insert(v.cbegin() + long(pos), own) - v.begin(); }); break;
            case 3: want.insert(want.begin() + long(pos), x); want_ret = long(pos); o = sut([&] { ret = v.emplace(v.cbegin() + long(pos), own) - v.begin(); }); break;
            case 4: want.insert(want.begin() + long(pos), many, x); want_ret = long(pos); o = sut([&] { ret = v.insert(v.cbegin() + long(pos), many, own) - v.begin(); }); break;
            default: want.resize(n + many, x); o = sut([&] { v.resize(n + many, own); }); break;
            }
            break;
        }
        default: ran = false;
        }
        if (!ran) return;
        ev(u64(o) * 7 + n);
        int fired = faults_fired();
        if (o != OK) {
            // a limited allocator may also refuse
            bool limited = A::max_size() < size_t(1) << 20;
            SIM_CHECK(fired || limited, "unexpected-exception", "%s ended with %s and no fault was injected", pnames[code], outcome_name(o));
            SIM_CHECK(o == BAD_ALLOC, "exception", "%s turned an allocation failure into %s", pnames[code], outcome_name(o));
            SIM_PROBE("operation failed by a fault");
            if (!fired) SIM_PROBE("allocator limit reached");
            if (replaced) { slot[s].p = nullptr; model[s].clear(); check_all("after a failed construction"); return; }
            if (touched_t && code == P_COPY_CTOR) { slot[t].p = nullptr; model[t].clear(); }
            if (!strong && !touched_t) resync(s);
            check_all("after a failed operation");
            return;
        }
        if (fired && op.fk == F_ALLOC && !swallow) {
            // an allocation failure may only be survived by doing without that allocation
            SIM_PROBE("allocation failure survived");
        }
        model[s] = want;
        if (want_ret >= 0) SIM_CHECK(ret == want_ret, "return", "%s returned an iterator to %ld, expected %ld", pnames[code], ret, want_ret);
        check_all(pnames[code]);
        if (growth && want.size() <= cap0 && data0 && code != P_RESERVE)
            SIM_CHECK(slot[s]->data() == data0, "capacity", "%s to %zu elements moved them though the capacity was %zu", pnames[code], want.size(), cap0);
        state(u64(want.size()) + u64(code) * 8192 + u64(n) * 64);
    }
};

template <typename T> struct W { static void go(Case& c) { PodWorld<T> w(c); w.run(); } };
const size_t MX = ~size_t(0);
typedef PAlloc<16, false, true, MX, 4096> AR;   // realloc
typedef PAlloc<16, true, true, MX, 0> AE;       // expand
typedef PAlloc<16, false, false, MX, 0> ARW;    // realloc considered wasteful, no zero fill
typedef PAlloc<8, false, true, MX, 64> AR8;
typedef PAlloc<8, true, false, MX, 64> AE8;
typedef PAlloc<1, false, true, MX, 16> AR1;
typedef PAlloc<1, true, true, MX, 16> AE1;
typedef PAlloc<16, true, true, 700, 16> AElim;
typedef PAlloc<16, false, true, 700, 48> ARlim;
SIM_CFG(0, W<PT<int, unsigned char, itlib::impl::pod_allocator, false, true>>)
SIM_CFG(1, W<PT<int, P16, AR, true, true>>)
SIM_CFG(2, W<PT<int, B3, AE, true, true>>)
SIM_CFG(3, W<PT<P16, i64, ARW, true, true>>)
SIM_CFG(4, W<PT<W32, i64, AR8, true, false>>)
SIM_CFG(5, W<PT<W32, i64, AE8, true, false>>)
SIM_CFG(6, W<PT<int, int, AR1, true, true>>)
SIM_CFG(7, W<PT<i64, unsigned char, AE1, true, false>>)
SIM_CFG(8, W<PT<unsigned char, int, AR, true, true>>)
SIM_CFG(9, W<PT<B3, int, AE, true, true>>)
SIM_CFG(10, W<PT<W128, int, AR, true, false>>)
SIM_CFG(11, W<PT<P16, i64, AElim, true, true>>)
SIM_CFG(12, W<PT<int, i64, ARlim, true, true>>)
SIM_CFG(13, W<PT<W32, unsigned char, itlib::impl::pod_allocator, false, false>>)
SIM_CFG(14, W<PT<P16, W32, AR1, true, true>>)
SIM_CFG(15, W<PT<W128, i64, AE1, true, true>>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C12"; }
    const char* op_name(int c) override { return c >= 0 && c < P_NOPS ? pnames[c] : "?"; }
    const char* cfg_names() override { return "element type and allocator, large sizes"; }
    void generate(Rng& r, Case& c) override {
        c.cfg.push_back(int(r.below(u64(cfg_count()))));
        c.cfg.push_back(r.chance(1, 16) ? 1 : 0);
        int w[P_NOPS];
        for (int i = 0; i < P_NOPS; ++i) w[i] = r.chance(1, 3) ? 0 : int(3 + r.below(9));
        w[P_HUGE] = int(r.below(2)); w[P_CHURN] = int(r.below(3)); w[P_PUSH] += 2;
        int n = int(1 + r.below(r.chance(1, 8) ? 60 : 16));
        int frate = int(r.below(4));
        int slots = int(1 + r.below(3));
        for (int i = 0; i < n; ++i) {
            Op o;
            o.code = r.pick(w, P_NOPS);
            o.a = i64(r.below(u64(slots))) | (i64(r.below(3)) << 2);
            o.b = r.chance(1, 3) ? 0 : i64(r.below(64));
            o.c = i64(r.below(64));
            o.d = i64(r.below(64));
            if (frate && r.chance(unsigned(frate), 6)) {
                o.fk = r.chance(3, 4) ? F_ALLOC : F_NO_EXPAND;
                o.fn = int(1 + r.below(r.chance(1, 2) ? 1 : 4));
                if (r.chance(1, 6)) o.fn = -o.fn;
            }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
