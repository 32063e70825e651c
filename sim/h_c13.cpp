#include "vec.hpp"
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/small_vector.hpp>
#include <algorithm>
#include <deque>

using namespace sim;

struct HK { i64 k; }; // a key of another type
inline i64 kval(const HK& h) { return h.k; }
template <typename T> auto kval(const T& t) -> decltype(val_of(t)) { return val_of(t); }

struct Cmp {
    int dir, grp;
    Cmp() : dir(1), grp(1) {}
    Cmp(int d, int g) : dir(d), grp(g) {}
    template <typename A, typename B>
    bool operator()(const A& a, const B& b) const {
        if (fault(F_CMP)) throw Injected{F_CMP};
        return dir * (kval(a) / grp) < dir * (kval(b) / grp);
    }
};
struct MC { // the model's comparator
    int dir = 1, grp = 1;
    bool less(i64 a, i64 b) const { return dir * (a / grp) < dir * (b / grp); }
    bool eq(i64 a, i64 b) const { return a / grp == b / grp; }
    bool operator==(const MC& o) const { return dir == o.dir && grp == o.grp; }
};
typedef std::pair<i64, i64> KV;
typedef std::vector<KV> M;

enum FOp {
    F_INSERT_COPY, F_INSERT_MOVE, F_INSERT_OTHER, F_EMPLACE, F_ERASE_IT, F_ERASE_CIT, F_ERASE_KEY, F_ERASE_HET, F_FIND, F_BOUNDS,
    F_COUNT, F_INDEX_COPY, F_INDEX_MOVE, F_INDEX_HET, F_AT, F_AT_MISSING, F_ITERATE, F_CLEAR, F_RESERVE, F_SETVAL,
    F_COPY_CTOR, F_MOVE_CTOR, F_COPY_ASSIGN, F_MOVE_ASSIGN, F_SWAP, F_COMPARE, F_SELF,
    F_CTOR_CMP, F_CTOR_CONT, F_CTOR_ILIST, F_CTOR_RANGE, F_CTOR_DEF, F_NOPS
};
static const char* fnames[] = {"insert(const&)", "insert(move)", "insert(other type)", "emplace", "erase(iterator)", "erase(const_iterator)",
    "erase(key)", "erase(other key)", "find", "bounds", "count", "operator[](const&)", "operator[](move)", "operator[](other)", "at", "at(missing)",
    "iterate", "clear", "reserve", "set value", "copy construct", "move construct", "copy assign", "move assign", "swap", "compare", "self assign",
    "construct(comparator)", "construct(container)", "construct(ilist)", "construct(range)", "construct()"};

// C: flat_map/flat_set type; IsMap; K,V element types; Copy: elements copyable; State: comparator is Cmp
// Cap: capacity of a bounded container (0: none); Al: the container takes a TAlloc
template <typename C_, bool IsMap, typename K_, typename V_, bool Copy, bool State, size_t Cap, bool Al, bool Eq = true>
struct FT {
    typedef C_ C; typedef K_ K; typedef V_ V;
    static constexpr bool is_map = IsMap, copyable = Copy, state = State, al = Al, eq = Eq;
    static constexpr size_t cap = Cap;
};

template <typename Tr>
struct FlatWorld {
    typedef typename Tr::C C;
    typedef typename Tr::K K;
    typedef typename Tr::V V;
    typedef typename C::container_type Cont;
    typedef typename C::value_type E;
    typedef typename C::key_compare KC;
    typedef typename C::allocator_type AL;
    Case& cs;
    Raw<C> slot[3];
    M model[3];
    MC comp[3];
    i64 nv = 100;
    int aid = 100;
    explicit FlatWorld(Case& c) : cs(c) {}

    static i64 key(const E& e) { if constexpr (Tr::is_map) return kval(e.first); else return kval(e); }
    static i64 mapped(const E& e) { if constexpr (Tr::is_map) return kval(e.second); else return 0; }
    static E make_e(i64 k, i64 v) { if constexpr (Tr::is_map) return E(K(k), V(v)); else return E(K(k)); }
    static i64 zero() { NoFaults nf; V v = V(); return kval(v); }
    KC kc(const MC& m) { if constexpr (Tr::state) return KC(m.dir, m.grp); else return KC(); }
    AL al() { if constexpr (Tr::al) return AL(aid); else return AL(); }

    static M::iterator mfind(M& m, const MC& c, i64 k) { return std::find_if(m.begin(), m.end(), [&](const KV& e) { return c.eq(e.first, k); }); }
    static size_t mlow(const M& m, const MC& c, i64 k) { size_t i = 0; while (i < m.size() && c.less(m[i].first, k)) ++i; return i; }
    static size_t mup(const M& m, const MC& c, i64 k) { size_t i = 0; while (i < m.size() && !c.less(k, m[i].first)) ++i; return i; }
    static bool minsert(M& m, const MC& c, i64 k, i64 v) {
        size_t i = mlow(m, c, k);
        if (i < m.size() && c.eq(m[i].first, k)) return false;
        m.insert(m.begin() + long(i), KV(k, v));
        return true;
    }

    static M contents(const C& c) { M m; for (auto& e : c) m.push_back(KV(key(e), mapped(e))); return m; }
    void check_slot(int s, const char* when) {
        const C& c = *slot[s];
        M& m = model[s];
        SIM_CHECK(c.size() == m.size() && c.empty() == m.empty(), "contents", "%s: slot %d has size %zu, expected %zu", when, s, size_t(c.size()), m.size());
        SIM_CHECK(size_t(c.end() - c.begin()) == m.size(), "contents", "%s: end() - begin()", when);
        size_t i = 0;
        for (auto& e : c) {
            SIM_CHECK(key(e) == m[i].first, "contents", "%s: slot %d has key %ld at %zu, expected %ld", when, s, long(key(e)), i, long(m[i].first));
            SIM_CHECK(mapped(e) == m[i].second, "contents", "%s: slot %d maps %ld to %ld, expected %ld", when, s, long(m[i].first), long(mapped(e)), long(m[i].second));
            ++i;
        }
        sorted(c, comp[s], when);
        if constexpr (Tr::al) SIM_CHECK(c.container().get_allocator().id == aid, "allocator", "%s: the container has another allocator", when);
    }
    static void sorted(const C& c, const MC& mc, const char* when) {
        const E* prev = nullptr;
        for (auto& e : c) {
            if (prev) SIM_CHECK(mc.less(key(*prev), key(e)), "order", "%s: keys %ld, %ld are out of order or equivalent", when, long(key(*prev)), long(key(e)));
            prev = &e;
        }
    }
    void check_all(const char* when) { for (int s = 0; s < 3; ++s) if (slot[s].p) check_slot(s, when); }
    void resync(int s, const char* when) { if (slot[s].p) { sorted(*slot[s], comp[s], when); model[s] = contents(*slot[s]); } }
    void slot_kill(int s) { Sut x; slot[s].kill(); model[s].clear(); }
    void ensure(int s) {
        if (slot[s].p) return;
        NoFaults nf;
        comp[s] = MC();
        model[s].clear();
        Sut x;
        if constexpr (Tr::al) slot[s].make(kc(comp[s]), al()); else slot[s].make();
    }
    // which comparator does the map in slot s have: one of two
    MC which(int s, const MC& a, const MC& b) {
        if (a == b) return a;
        NoFaults nf;
        std::vector<MC> ok;
        for (auto& m : {a, b}) {
            bool fit = true;
            { Sut x; C c(kc(m), al()); Host h; (void)c; }
            // look at the order it keeps: exists a probe key where the answers differ
            const C& c = *slot[s];
            for (i64 k = 0; k < (wide() ? 200 : 12) && fit; ++k) {
                size_t lo, up;
                { Sut x; HK h{k}; lo = size_t(c.lower_bound(h) - c.begin()); up = size_t(c.upper_bound(h) - c.begin()); }
                M cur = contents(c);
                if (lo != mlow(cur, m, k) || up != mup(cur, m, k)) fit = false;
            }
            if (fit) ok.push_back(m);
        }
        SIM_CHECK(!ok.empty(), "order", "after a failed assignment the order fits neither comparator");
        return ok[0];
    }

    void run() {
        aid = Tr::al ? int(100 + cs.seed % 3) : 100;
        for (auto& o : cs.ops) step(o);
        for (int s = 0; s < 3; ++s) if (slot[s].p) slot_kill(s);
        life_check_none("the end");
        check_no_leaks("the end");
    }

    // cases with many keys
    bool wide() const { return !Tr::cap && cs.cfg.size() > 1 && cs.cfg[1]; }
    // elements for construction from unsorted data
    M raw_data(const Op& op) {
        M r;
        u64 h = u64(op.b) * 77 + u64(op.c) * 31 + 5;
        size_t n = size_t(wide() ? op.d * 3 : op.d % 11);
        for (size_t i = 0; i < n; ++i) { h = mix64(h); r.push_back(KV(i64(h % (wide() ? 200 : 12)), ++nv)); }
        return r;
    }

    void step(const Op& op) {
        int s = int(op.a & 3) % 3, t = int((op.a >> 2) & 3) % 3;
        ensure(s);
        if (op.code >= F_COPY_CTOR && op.code <= F_COMPARE) ensure(t);
        // the arguments exist before the operation
        i64 k = op.b % (wide() ? 200 : 12), v = ++nv;
        NoFaults* nf = new NoFaults;
        K ka(k); K kb(k); V va(v); E ea = make_e(k, v), eb = make_e(k, v);
        delete nf;
        M raw = raw_data(op);
        std::deque<E> rl;
        Cont* rc = nullptr;
        suspend_faults(true);
        if (op.code == F_CTOR_RANGE) for (auto& e : raw) rl.push_back(make_e(e.first, e.second));
        if (op.code == F_CTOR_CONT) {
            if (Tr::cap && raw.size() > Tr::cap) raw.resize(Tr::cap);
            Sut g;
            rc = new Cont(al());
            for (auto& e : raw) rc->push_back(make_e(e.first, e.second));
        }
        suspend_faults(false);
        Outcome o;
        {
            OpScope scope(op);
            o = step2(op, s, t, k, v, ka, kb, va, ea, eb, raw, rl, rc);
        }
        if (rc) { Sut g; delete rc; }
        (void)o;
    }

    Outcome step2(const Op& op, int s, int t, i64 k, i64 v, K& ka, K& kb, V& va, E& ea, E& eb, M& raw, std::deque<E>& rl, Cont* rc) {
        C& c = *slot[s];
        const C& cc = c;
        MC mc = comp[s];
        M want = model[s];
        size_t n = want.size();
        bool full = Tr::cap && n >= Tr::cap;
        size_t at = mlow(want, mc, k);
        bool present = at < n && mc.eq(want[at].first, k);
        Outcome o = OK;
        int code = op.code;
        bool strong = true, ran = true, ctor = false, room = false, loose = false;
        switch (code) {
        case F_INSERT_COPY: case F_INSERT_MOVE: case F_INSERT_OTHER: case F_EMPLACE: {
            long pos = -1; bool added = false;
            auto use = [&](std::pair<typename C::iterator, bool> r) { pos = r.first - c.begin(); added = r.second; };
            if (code == F_INSERT_COPY) {
                if constexpr (Tr::copyable) o = sut([&] { use(c.insert(static_cast<const E&>(ea))); }); else { ran = false; break; }
            }
            else if (code == F_INSERT_MOVE) {
                if constexpr (Tr::copyable) { if (op.d & 1) o = sut([&] { use(c.insert(ea)); }); else o = sut([&] { use(c.insert(std::move(ea))); }); }
                else o = sut([&] { use(c.insert(std::move(ea))); });
            }
            else if (code == F_INSERT_OTHER) {
                if constexpr (Tr::is_map) o = sut([&] { use(c.insert(KV(k, v))); });
                else o = sut([&] { use(c.insert(k)); });
            }
            else {
                if constexpr (Tr::is_map) {
                    if (op.d & 1) o = sut([&] { use(c.emplace(k, v)); });
                    else o = sut([&] { use(c.emplace(std::move(ka), std::move(va))); });
                }
                else { if (op.d & 1) o = sut([&] { use(c.emplace(k)); }); else o = sut([&] { use(c.emplace(std::move(ka))); }); }
            }
            room = true;
            if (o == OK) {
                SIM_CHECK(present || !full, "capacity", "an insertion beyond the capacity succeeded");
                if (!present) want.insert(want.begin() + long(at), KV(k, Tr::is_map ? v : 0));
                SIM_CHECK(added == !present, "return", "%s returned %s for a key which was %s", fnames[code], added ? "true" : "false", present ? "present" : "absent");
                SIM_CHECK(pos == long(at), "return", "%s returned an iterator to %ld, expected %zu", fnames[code], pos, at);
            }
            break;
        }
        case F_ERASE_IT: case F_ERASE_CIT: {
            if (!n) { ran = false; break; }
            size_t p = size_t(op.b) % n; long pos = -1;
            if (code == F_ERASE_IT) o = sut([&] { pos = c.erase(c.begin() + long(p)) - c.begin(); });
            else o = sut([&] { pos = c.erase(c.cbegin() + long(p)) - c.begin(); });
            if (o == OK) { want.erase(want.begin() + long(p)); SIM_CHECK(pos == long(p), "return", "erase returned an iterator to %ld, expected %zu", pos, p); }
            break;
        }
        case F_ERASE_KEY: case F_ERASE_HET: {
            size_t r = 99;
            if (code == F_ERASE_KEY) o = sut([&] { r = c.erase(ka); }); else o = sut([&] { r = c.erase(HK{k}); });
            if (o == OK) {
                if (present) want.erase(want.begin() + long(at));
                SIM_CHECK(r == (present ? 1u : 0u), "return", "erase returned %zu for a key which was %s", r, present ? "present" : "absent");
            }
            break;
        }
        case F_FIND: {
            long p1 = -1, p2 = -1;
            if (op.d & 1) o = sut([&] { p1 = c.find(ka) - c.begin(); p2 = cc.find(ka) - cc.begin(); });
            else o = sut([&] { p1 = c.find(HK{k}) - c.begin(); p2 = cc.find(HK{k}) - cc.begin(); });
            long w = present ? long(at) : long(n);
            if (o == OK) SIM_CHECK(p1 == w && p2 == w, "lookup", "find gave %ld and %ld, expected %ld", p1, p2, w);
            break;
        }
        case F_BOUNDS: {
            long r[8] = {};
            auto all = [&](auto&& q) {
                r[0] = c.lower_bound(q) - c.begin(); r[1] = cc.lower_bound(q) - cc.begin();
                r[2] = c.upper_bound(q) - c.begin(); r[3] = cc.upper_bound(q) - cc.begin();
                auto a = c.equal_range(q); r[4] = a.first - c.begin(); r[6] = a.second - c.begin();
                auto b = cc.equal_range(q); r[5] = b.first - cc.begin(); r[7] = b.second - cc.begin();
            };
            if (op.d & 1) o = sut([&] { all(ka); }); else o = sut([&] { all(HK{k}); });
            if (o == OK) {
                long lo = long(mlow(want, mc, k)), up = long(mup(want, mc, k));
                SIM_CHECK(r[0] == lo && r[1] == lo, "lookup", "lower_bound gave %ld and %ld, expected %ld", r[0], r[1], lo);
                SIM_CHECK(r[2] == up && r[3] == up, "lookup", "upper_bound gave %ld and %ld, expected %ld", r[2], r[3], up);
                SIM_CHECK(r[4] == lo && r[5] == lo && r[6] == up && r[7] == up, "lookup", "equal_range gave %ld-%ld and %ld-%ld", r[4], r[6], r[5], r[7]);
            }
            break;
        }
        case F_COUNT: {
            size_t r = 99;
            if (op.d & 1) o = sut([&] { r = cc.count(ka); }); else o = sut([&] { r = cc.count(HK{k}); });
            if (o == OK) SIM_CHECK(r == (present ? 1u : 0u), "lookup", "count gave %zu", r);
            break;
        }
        case F_INDEX_COPY: case F_INDEX_MOVE: case F_INDEX_HET:
            if constexpr (Tr::is_map) {
                i64 got = -1; bool wr = op.d & 1; const V* addr = nullptr;
                auto use = [&](V& r) { addr = &r; { Host h; got = kval(r); } if (wr) r = std::move(va); };
                if (code == F_INDEX_COPY) { if constexpr (Tr::copyable) o = sut([&] { use(c[static_cast<const K&>(ka)]); }); else { ran = false; break; } }
                else if (code == F_INDEX_MOVE) o = sut([&] { use(c[std::move(ka)]); });
                else o = sut([&] { i64 kk = k; use(c[kk]); });
                room = true;
                if (o == OK) {
                    SIM_CHECK(present || !full, "capacity", "operator[] beyond the capacity succeeded");
                    i64 w = present ? want[at].second : zero();
                    SIM_CHECK(got == w, "return", "operator[] gave %ld, expected %ld", long(got), long(w));
                    if (!present) want.insert(want.begin() + long(at), KV(k, w));
                    if (wr) want[at].second = v;
                    SIM_CHECK(addr == &(c.begin() + long(at))->second, "return", "operator[] does not refer to its entry");
                }
            }
            else ran = false;
            break;
        case F_AT: case F_AT_MISSING:
            if constexpr (Tr::is_map) {
                i64 g1 = -1; bool wr = op.d & 1;
                if (op.d & 2) o = sut([&] { const V& r = cc.at(ka); Host h; g1 = kval(r); });
                else o = sut([&] { V& r = c.at(ka); { Host h; g1 = kval(r); } if (wr) r = std::move(va); });
                if (o == OK || o == OUT_OF_RANGE) {
                    SIM_CHECK((o == OK) == present, "lookup", "at() %s for a key which is %s", o == OK ? "returned" : "threw out_of_range", present ? "present" : "absent");
                    if (present) { SIM_CHECK(g1 == want[at].second, "lookup", "at() gave %ld", long(g1)); if (wr && !(op.d & 2)) want[at].second = v; }
                    o = OK;
                }
            }
            else ran = false;
            break;
        case F_ITERATE: {
            size_t i = 0;
            for (auto it = c.begin(); it != c.end(); ++it, ++i) SIM_CHECK(i < n && key(*it) == want[i].first, "contents", "begin()");
            SIM_CHECK(i == n, "contents", "iteration");
            i = 0;
            for (auto it = cc.cbegin(); it != cc.cend(); ++it, ++i) SIM_CHECK(i < n && key(*it) == want[i].first && mapped(*it) == want[i].second, "contents", "cbegin()");
            SIM_CHECK(i == n, "contents", "iteration");
            i = n;
            for (auto it = c.rbegin(); it != c.rend(); ++it) { SIM_CHECK(i && key(*it) == want[i - 1].first, "contents", "rbegin()"); --i; }
            SIM_CHECK(!i, "contents", "reverse iteration");
            i = n;
            for (auto it = cc.rbegin(); it != cc.rend(); ++it) { SIM_CHECK(i && key(*it) == want[i - 1].first, "contents", "const rbegin()"); --i; }
            SIM_CHECK(!i, "contents", "reverse iteration");
            i = n;
            SIM_CHECK(cc.container().size() == n && cc.max_size() >= n, "contents", "container() or max_size()");
            if constexpr (!Tr::is_map && Tr::state) { KC q = cc.key_comp(); SIM_CHECK(q.dir == mc.dir && q.grp == mc.grp, "comparator", "key_comp()"); }
            break;
        }
        case F_CLEAR: o = sut([&] { c.clear(); }); want.clear(); break;
        case F_RESERVE: {
            if constexpr (Tr::cap != 0) { ran = false; break; }
            else {
                size_t q = size_t(op.d % 20) * (wide() ? 17 : 1);
                o = sut([&] { c.reserve(q); });
                if (o == OK) SIM_CHECK(c.capacity() >= q, "capacity", "capacity() after reserve");
            }
            break;
        }
        case F_SETVAL:
            if constexpr (Tr::is_map) {
                if (!n) { ran = false; break; }
                size_t p = size_t(op.d) % n;
                o = sut([&] { if (op.d & 16) (c.modify_container().begin() + long(p))->second = std::move(va); else (c.begin() + long(p))->second = std::move(va); });
                if (o == OK) want[p].second = v;
            }
            else { // the elements may be changed behind its back, as long as they stay in order
                if (!n) { ran = false; break; }
                o = sut([&] { c.modify_container().pop_back(); });
                want.pop_back();
            }
            break;
        case F_COPY_CTOR:
            if constexpr (Tr::copyable) {
                if (s == t) { ran = false; break; }
                slot_kill(t);
                o = sut([&] { slot[t].make(cc); });
                if (o == OK) { model[t] = want; comp[t] = mc; } else slot[t].p = nullptr;
            }
            else ran = false;
            break;
        case F_MOVE_CTOR:
            if (s == t) { ran = false; break; }
            slot_kill(t);
            o = sut([&] { slot[t].make(std::move(c)); });
            model[t] = want; comp[t] = mc;
            sorted(c, mc, "moved-from"); want = contents(c);
            break;
        case F_COPY_ASSIGN:
            if constexpr (Tr::copyable) {
                if (s == t) { ran = false; break; }
                o = sut([&] { *slot[t] = cc; });
                if (o == OK) { model[t] = want; comp[t] = mc; }
                else { comp[t] = which(t, mc, comp[t]); resync(t, "after a failed copy assignment"); SIM_PROBE("copy assignment failed"); }
            }
            else ran = false;
            break;
        case F_MOVE_ASSIGN:
            if (s == t) { ran = false; break; }
            o = sut([&] { *slot[t] = std::move(c); });
            model[t] = want; comp[t] = mc;
            sorted(c, mc, "moved-from"); want = contents(c);
            break;
        case F_SWAP:
            if (s == t) { ran = false; break; }
            if (op.d & 1) o = sut([&] { std::swap(c, *slot[t]); }); else o = sut([&] { c.swap(*slot[t]); });
            std::swap(want, model[t]); std::swap(comp[s], comp[t]); mc = comp[s];
            if (o != OK) { resync(t, "after a failed swap"); loose = true; }
            break;
        case F_COMPARE:
            if constexpr (Tr::eq) {
                bool e = want == model[t];
                const C& d = *slot[t];
                SIM_CHECK((cc == d) == e && (cc != d) == !e, "compare", "comparison of %zu and %zu entries", n, model[t].size());
            }
            else ran = false;
            break;
        case F_SELF:
            if ((op.d & 3) == 1) { // moved onto itself it stays a sorted map
                NoFaults nf;
                C& alias = c;
                o = sut([&] { c = std::move(alias); });
                sorted(c, mc, "moved onto itself"); want = contents(c);
            }
            else if ((op.d & 3) == 2) {
                NoFaults nf;
                C& alias = c;
                o = sut([&] { if (op.d & 4) std::swap(c, alias); else c.swap(alias); });
            }
            else if constexpr (Tr::copyable) { C& alias = c; o = sut([&] { c = static_cast<const C&>(alias); }); }
            else ran = false;
            break;
        case F_CTOR_CMP: case F_CTOR_CONT: case F_CTOR_ILIST: case F_CTOR_RANGE: case F_CTOR_DEF: {
            ctor = true;
            slot_kill(s);
            MC m2;
            bool with_cmp = (op.c & 1) && code != F_CTOR_DEF;
            if (Tr::state && with_cmp) { m2.dir = op.c & 2 ? -1 : 1; m2.grp = int(1 + (op.c >> 2) % 3); }
            KC kcmp = kc(m2);
            bool data = true;
            bool over = false;
            if (code == F_CTOR_DEF) { if constexpr (Tr::al) o = sut([&] { slot[s].make(KC(), al()); }); else o = sut([&] { slot[s].make(); }); data = false; }
            else if (code == F_CTOR_CMP) { if constexpr (Tr::al) o = sut([&] { slot[s].make(kcmp, al()); }); else o = sut([&] { slot[s].make(kcmp); }); data = false; }
            else if (code == F_CTOR_CONT) {
                if (with_cmp) o = sut([&] { slot[s].make(std::move(*rc), kcmp); }); else o = sut([&] { slot[s].make(std::move(*rc)); });
            }
            else if (code == F_CTOR_RANGE) {
                if constexpr (Tr::copyable) {
                    over = Tr::cap && raw.size() > Tr::cap;
                    if constexpr (Tr::al) {
                        if (with_cmp) o = sut([&] { slot[s].make(rl.begin(), rl.end(), kcmp, al()); }); else o = sut([&] { slot[s].make(rl.begin(), rl.end(), al()); });
                    }
                    else {
                        if (with_cmp) o = sut([&] { slot[s].make(rl.begin(), rl.end(), kcmp); }); else o = sut([&] { slot[s].make(rl.begin(), rl.end()); });
                    }
                }
                else { ensure(s); return OK; }
            }
            else {
                if constexpr (Tr::copyable) {
                    raw.resize(5, KV(k, v));
                    over = Tr::cap && raw.size() > Tr::cap;
                    suspend_faults(true);
                    {
                        std::initializer_list<E> il = {make_e(raw[0].first, raw[0].second), make_e(raw[1].first, raw[1].second), make_e(raw[2].first, raw[2].second),
                            make_e(raw[3].first, raw[3].second), make_e(raw[4].first, raw[4].second)};
                        suspend_faults(false);
                        if constexpr (Tr::al) {
                            if (with_cmp) o = sut([&] { slot[s].make(il, kcmp, al()); }); else o = sut([&] { slot[s].make(il, al()); });
                        }
                        else {
                            if (with_cmp) o = sut([&] { slot[s].make(il, kcmp); }); else o = sut([&] { slot[s].make(il); });
                        }
                    }
                }
                else { ensure(s); return OK; }
            }
            if (o != OK) {
                slot[s].p = nullptr;
                if (o == OUT_OF_RANGE && over) { check_all("after a refused construction"); ensure(s); return OK; }
            }
            else {
                SIM_CHECK(!over, "capacity", "construction beyond the capacity succeeded");
                comp[s] = mc = m2;
                sorted(*slot[s], mc, fnames[code]);
                want = contents(*slot[s]);
                if (data) {
                    M u;
                    for (auto& e : raw) minsert(u, mc, e.first, e.second);
                    SIM_CHECK(u.size() == want.size(), "contents", "%zu distinct keys constructed, expected %zu", want.size(), u.size());
                    for (size_t i = 0; i < u.size(); ++i) {
                        SIM_CHECK(mc.eq(u[i].first, want[i].first), "contents", "construction lost or invented a key");
                        bool found = false;
                        for (auto& e : raw) if (e.first == want[i].first && (!Tr::is_map || e.second == want[i].second)) found = true;
                        SIM_CHECK(found, "contents", "construction invented the entry %ld, %ld", long(want[i].first), long(want[i].second));
                    }
                }
                else SIM_CHECK(want.empty(), "contents", "a new map is not empty");
            }
            strong = false;
            break;
        }
        default: ran = false;
        }
        (void)kb; (void)eb;
        if (!ran) return OK;
        ev(u64(o) * 7 + n);
        int fired = faults_fired();
        if (o != OK) {
            bool full_out = room && full && !present && o == OUT_OF_RANGE;
            SIM_CHECK(fired || full_out, "unexpected-exception", "%s ended with %s and no fault was injected", fnames[code], outcome_name(o));
            if (!full_out) SIM_CHECK((o == INJECTED && op.fk != F_ALLOC) || (o == BAD_ALLOC && op.fk == F_ALLOC), "exception", "%s turned the injected failure into %s", fnames[code], outcome_name(o));
            SIM_PROBE("operation failed by a fault");
            if (full_out) SIM_PROBE("insertion into a full container");
            if (ctor) { model[s].clear(); check_all("after a failed construction"); return o; }
            bool keep = code == F_INSERT_COPY || code == F_INSERT_MOVE || code == F_INSERT_OTHER || code == F_EMPLACE || code == F_FIND || code == F_BOUNDS ||
                code == F_COUNT || code == F_INDEX_COPY || code == F_INDEX_MOVE || code == F_INDEX_HET || code == F_AT || code == F_AT_MISSING || code == F_COPY_CTOR || code == F_COPY_ASSIGN || code == F_COMPARE;
            // an assignment to the mapped value may fail after the entry was made
            bool after = (code == F_INDEX_COPY || code == F_INDEX_MOVE || code == F_INDEX_HET) && false;
            if (!keep || after || loose) resync(s, "after a failed operation");
            (void)strong;
            check_all("after a failed operation");
            return o;
        }
        model[s] = want;
        check_all(fnames[code]);
        if (code == F_MOVE_CTOR || code == F_MOVE_ASSIGN) { Sut g; c.clear(); model[s].clear(); }
        state(u64(want.size()) + u64(code) * 256 + u64(present) * 64);
        return o;
    }
};

template <typename T> struct W { static void go(Case& c) { FlatWorld<T> w(c); w.run(); } };
typedef Elem<1> EK;
typedef Elem<2, BOTH, 24> EV;
typedef MoveOnly<3> MK;
typedef MoveOnly<4> MV;
template <typename K, typename V> using P = std::pair<K, V>;
template <typename E> using SV = std::vector<E, TAlloc<E>>;
template <typename E> using DV = std::vector<E>;
template <typename E> using SM = itlib::small_vector<E, 4, 0, TAlloc<E>>;
template <typename E> using ST = itlib::static_vector<E, 7>;
template <typename K, typename V, typename C, template <typename> class Co> using FM = itlib::flat_map<K, V, C, Co<P<K, V>>>;
template <typename K, typename C, template <typename> class Co> using FS = itlib::flat_set<K, C, Co<K>>;

struct DLess : itlib::fmimpl::less { // the default comparator, also for HK
    using itlib::fmimpl::less::operator();
    template <typename A> bool operator()(const A& a, const HK& b) const { return kval(a) < b.k; }
    template <typename B> bool operator()(const HK& a, const B& b) const { return a.k < kval(b); }
};

struct SLess : itlib::fsimpl::less { // the same for sets
    using itlib::fsimpl::less::operator();
    template <typename A> bool operator()(const A& a, const HK& b) const { return kval(a) < b.k; }
    template <typename B> bool operator()(const HK& a, const B& b) const { return a.k < kval(b); }
};

SIM_CFG(0, W<FT<FM<EK, EV, Cmp, SV>, true, EK, EV, true, true, 0, true>>)
SIM_CFG(1, W<FT<FM<EK, EV, Cmp, SM>, true, EK, EV, true, true, 0, true>>)
SIM_CFG(2, W<FT<FM<EK, EV, Cmp, ST>, true, EK, EV, true, true, 7, false>>)
SIM_CFG(3, W<FT<FM<MK, MV, Cmp, SV>, true, MK, MV, false, true, 0, true>>)
SIM_CFG(4, W<FT<FM<i64, int, DLess, DV>, true, i64, int, true, false, 0, false>>)
SIM_CFG(5, W<FT<FS<EK, Cmp, SV>, false, EK, EK, true, true, 0, true>>)
SIM_CFG(6, W<FT<FS<EK, Cmp, SM>, false, EK, EK, true, true, 0, true>>)
SIM_CFG(7, W<FT<FS<EK, Cmp, ST>, false, EK, EK, true, true, 7, false>>)
SIM_CFG(8, W<FT<FS<MK, Cmp, SM>, false, MK, MK, false, true, 0, true>>)
SIM_CFG(9, W<FT<FS<i64, SLess, DV>, false, i64, i64, true, false, 0, false>>)
SIM_CFG(10, W<FT<FM<EK, i64, DLess, DV>, true, EK, i64, true, false, 0, false>>)
SIM_CFG(11, W<FT<FM<MK, i64, Cmp, ST>, true, MK, i64, false, true, 7, false>>)
SIM_CFG(12, W<FT<FM<Selfy, Selfy, Cmp, SM>, true, Selfy, Selfy, true, true, 0, true>>)
SIM_CFG(13, W<FT<FS<Selfy, Cmp, SV>, false, Selfy, Selfy, true, true, 0, true>>)
SIM_CFG(14, W<FT<FM<Small<5>, Small<6>, Cmp, SM>, true, Small<5>, Small<6>, true, true, 0, true>>)
SIM_CFG(15, W<FT<FS<Small<5>, Cmp, SV>, false, Small<5>, Small<5>, true, true, 0, true>>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C13"; }
    const char* op_name(int c) override { return c >= 0 && c < F_NOPS ? fnames[c] : "?"; }
    const char* cfg_names() override { return "map or set, element types and container, many keys"; }
    void generate(Rng& r, Case& c) override {
        c.cfg.push_back(int(r.below(u64(cfg_count()))));
        const bool wide = r.chance(1, 16);
        c.cfg.push_back(wide ? 1 : 0);
        int w[F_NOPS];
        for (int i = 0; i < F_NOPS; ++i) w[i] = r.chance(1, 3) ? 0 : int(2 + r.below(8));
        w[F_INSERT_COPY] += 3; w[F_INSERT_OTHER] += 4;
        for (int i = F_CTOR_CMP; i < F_NOPS; ++i) w[i] = w[i] / 3;
        w[F_CTOR_CMP] += 1;
        w[F_CLEAR] = int(r.below(2));
        int n = int(1 + r.below(r.chance(1, 8) ? 60 : 16));
        int frate = int(r.below(4)), slots = int(1 + r.below(3));
        i64 keys = i64(wide ? 200 : 2 + r.below(11));
        if (wide) n *= 2;
        if (r.chance(2, 3)) { // start from another comparator
            Op o; o.code = r.chance(1, 2) ? F_CTOR_CMP : F_CTOR_CONT; o.c = i64(r.below(64)) | 1; o.d = i64(r.below(32)); o.b = i64(r.below(64));
            c.ops.push_back(o);
        }
        for (int i = 0; i < n; ++i) {
            Op o;
            o.code = r.pick(w, F_NOPS);
            o.a = i64(r.below(u64(slots))) | (i64(r.below(3)) << 2);
            o.b = i64(r.below(u64(keys)));
            o.c = i64(r.below(64));
            o.d = i64(r.below(64));
            if (frate && r.chance(unsigned(frate), 6)) {
                u64 k = r.below(3);
                o.fk = k == 0 ? F_ALLOC : k == 1 ? F_ELEM : F_CMP;
                o.fn = int(1 + r.below(r.chance(1, 2) ? 2 : 8));
                if (r.chance(1, 6)) o.fn = -o.fn;
            }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
