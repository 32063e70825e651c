// C08: const use of shared objects and any use of objects that are not shared,
// of every type of the library, by several threads. C++17 and C++20.
#include "trt.hpp"
#include <itlib/any.hpp>
#include <itlib/atomic.hpp>
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <itlib/data_mutex.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/expected.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/make_ptr.hpp>
#include <itlib/mem_streambuf.hpp>
#define ITLIB_NO_DEPRECATION_WARNINGS 1
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include <itlib/memory_view.hpp>
#include <itlib/mutex.hpp>
#include <itlib/pmr_allocator.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/qalgorithm.hpp>
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#include <itlib/rstream.hpp>
#include <itlib/sentry.hpp>
#include <itlib/shared_from.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/strutil.hpp>
#include <itlib/tep_vector.hpp>
#include <itlib/throw_ex.hpp>
#include <itlib/time_t.hpp>
#if __cplusplus >= 202002L
#   include <itlib/generator.hpp>
#   include <itlib/transparent_umap.hpp>
#endif
#include <itlib/type_traits.hpp>
#include <itlib/ufunction.hpp>
#include <itlib/utility.hpp>
#include <istream>
#include <memory>
#include <mutex>
#include <ostream>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <vector>

using namespace sim;

namespace {
// what an operation observes
struct D {
    u64 h = 1;
    int exceptions = 0;
    D& operator<<(u64 v) { h = mix64(h ^ v) + 1; return *this; }
    D& operator<<(const std::string& s) { *this << u64(s.size()); for (unsigned char c : s) *this << u64(c); return *this; }
    D& operator<<(const char* s) { return *this << std::string(s); }
};
template <typename T>
void put(D& d, const T& v) { d << v; }
void put(D& d, const std::pair<std::string, int>& v) { d << v.first << u64(v.second); }
void put(D& d, const std::pair<int, std::string>& v) { d << u64(v.first) << v.second; }
void put(D& d, const std::pair<int, int>& v) { d << u64(v.first) << u64(v.second); }
template <typename C>
void all(D& d, const C& c) {
    d << u64(c.size());
    for (auto& e : c) put(d, e);
}
template <typename F>
void attempt(D& d, F f) {
    try { f(); d << 1u; }
    catch (std::out_of_range&) { d << 2u; }
    catch (std::bad_cast&) { d << 3u; }
}

template <typename T> T val(i64 i);
template <> int val<int>(i64 i) { return int(i * 7 + 3); }
template <> std::string val<std::string>(i64 i) {
    std::string s = "element ";
    s += char('0' + (i & 15));
    if (i & 4) s += " which is too long for the small buffer of a string";
    return s;
}

// -------------------------------------------------------------- sequences
// the const part of a vector's interface
template <typename V>
void seq_use(const V& v, D& d) {
    d << u64(v.size()) << u64(v.empty()) << u64(v.capacity()) << u64(v.max_size());
    if (!v.empty()) {
        put(d, v.at(0));
        put(d, v.front());
        put(d, v.back());
        put(d, v[v.size() / 2]);
        put(d, *v.data());
    }
    d << u64(v.end() - v.begin()) << u64(v.cend() - v.cbegin()) << u64(v.rend() - v.rbegin()) << u64(v.crend() - v.crbegin());
    for (auto it = v.begin(); it != v.end(); ++it) put(d, *it);
    for (auto it = v.crbegin(); it != v.crend(); ++it) put(d, *it);
}
template <typename V>
void seq_copy(const V& v, i64 a, D& d) {
    V w(v);
    d << u64(w == v) << u64(w != v);
    if (!w.empty()) w.erase(w.begin());
    d << u64(w == v) << u64(w != v);
    w.insert(w.begin(), v.begin(), v.begin() + ptrdiff_t(v.size() / 2));
    all(d, w);
    w = v;
    w.assign(v.begin(), v.end());
    V x(v.begin(), v.end());
    d << u64(x == w);
    x.push_back(val<typename V::value_type>(a));
    x.swap(w);
    all(d, w);
    V y(std::move(w));
    w = x;
    x = std::move(y);
    all(d, x);
}
template <typename V> auto revert(V& v, int) -> decltype(v.revert_to_static()) { return v.revert_to_static(); }
template <typename V> bool revert(V&, long) { return false; }
template <typename V>
void seq_own(i64 a, D& d) {
    typedef typename V::value_type T;
    V v;
    for (i64 i = 0; i < (a & 3) + 1; ++i) v.push_back(val<T>(i + a));
    v.insert(v.begin(), val<T>(a));
    v.insert(v.begin() + 1, size_t(a & 1), val<T>(a + 1));
    { T t = val<T>(a + 3); v.insert(v.end(), std::move(t)); }
    v.insert(v.begin(), {val<T>(1)});
    v.emplace(v.begin() + 1, val<T>(2));
    v.emplace_back(val<T>(5));
    v.front() = val<T>(6);
    v.at(1) = val<T>(8);
    v.pop_back();
    v.erase(v.begin());
    v.erase(v.begin(), v.begin() + 1);
    seq_use(v, d);
    v.reserve(v.size() + 1);
    v.resize(3);
    v.resize(4, val<T>(a));
    all(d, v);
    v.shrink_to_fit();
    const T cv = val<T>(a + 9);
    v.push_back(cv);
    v.insert(v.begin(), cv);
    put(d, *v.data());
    revert(v, 0);
    for (auto& e : v) put(d, e);
    for (auto it = v.rbegin(); it != v.rend(); ++it) put(d, *it);
    v.assign(2, val<T>(a + 2));
    v.assign({val<T>(1), val<T>(4)});
    V w(3, val<T>(a)), x(2), y{val<T>(7)};
    w.swap(v);
    all(d, w); all(d, v); all(d, x); all(d, y);
    v.clear();
    d << u64(v.size());
}
template <typename V>
struct Seq {
    V full, empty, one;
    Seq() {
        for (int i = 0; i < 5; ++i) full.push_back(val<typename V::value_type>(i));
        one.push_back(val<typename V::value_type>(9));
    }
    void use(const Op& o, D& d) const {
        const V& v = o.a & 1 ? full : o.a & 2 ? one : empty;
        if (o.b & 1) seq_use(v, d);
        else seq_copy(v, o.a, d);
        d << u64(v == full) << u64(v != one);
    }
    static void own(const Op& o, D& d) { seq_own<V>(o.a, d); }
};
// pod_vector and static_vector differ a little
template <typename V>
void no_shrink(i64 a, D& d) {
    typedef typename V::value_type T;
    V v;
    for (i64 i = 0; i < (a & 3) + 1; ++i) v.push_back(val<T>(i + a));
    v.insert(v.begin(), val<T>(a));
    v.insert(v.begin() + 1, size_t(a & 1), val<T>(a + 1));
    v.insert(v.begin(), {val<T>(1)});
    v.emplace(v.begin() + 1, val<T>(2));
    v.emplace_back(val<T>(5));
    v.pop_back();
    v.erase(v.begin());
    v.erase(v.begin(), v.begin() + 1);
    seq_use(v, d);
    v.resize(3);
    v.resize(4, val<T>(a));
    all(d, v);
    const T cv = val<T>(a + 9);
    v.push_back(cv);
    v.insert(v.begin(), cv);
    v[1] = cv;
    v.at(0) = val<T>(a + 10);
    v.front() = val<T>(a + 11);
    v.back() = cv;
    put(d, *v.data());
    for (auto it = v.rbegin(); it != v.rend(); ++it) put(d, *it);
    all(d, v);
    v.assign(2, val<T>(a + 2));
    v.assign({val<T>(1), val<T>(4)});
    V w(3, val<T>(a)), x(2), y{val<T>(7)};
    w.swap(v);
    all(d, w); all(d, v); all(d, x); all(d, y);
    v.clear();
}
template <typename V>
struct StaticSeq : Seq<V> {
    static void own(const Op& o, D& d) {
        no_shrink<V>(o.a, d);
        V v;
        v.push_back(val<typename V::value_type>(o.a));
        itlib::static_vector<typename V::value_type, 15> w(v), x(typename itlib::static_vector<typename V::value_type, 15>::allocator_type{});
        x = v;
        all(d, w);
        all(d, x);
    }
};
struct Pod {
    typedef itlib::pod_vector<int> V;
    V full, empty, one;
    itlib::pod_vector<unsigned char> bytes;
    Pod() {
        for (int i = 0; i < 5; ++i) full.push_back(i * 5);
        one.push_back(9);
        for (int i = 0; i < 11; ++i) bytes.push_back((unsigned char)(i * 3));
    }
    void use(const Op& o, D& d) const {
        const V& v = o.a & 1 ? full : o.a & 2 ? one : empty;
        if (o.b & 1) seq_use(v, d);
        else {
            seq_copy(v, o.a, d);
            V w;
            w.recast_copy_from(bytes);
            all(d, w);
            itlib::pod_vector<unsigned short> s;
            s.recast_copy_from(v);
            all(d, s);
        }
        d << u64(v == full) << u64(v.byte_size()) << u64(bytes.byte_size());
    }
    static void own(const Op& o, D& d) {
        no_shrink<V>(o.a, d);
        V v(size_t(o.a & 7) + 1, int(o.a));
        v.reserve(20);
        v.shrink_to_fit();
        itlib::pod_vector<unsigned char> b;
        b.recast_take_from(std::move(v));
        all(d, b);
        struct alignas(64) Big { int x; };
        itlib::pod_vector<Big> big;
        for (int i = 0; i < 3; ++i) { Big e; e.x = i; big.push_back(e); }
        big.insert(big.begin(), big.size(), Big{int(o.a)});
        for (auto& e : big) d << u64(e.x);
        if (o.b & 2) { // much spare room which is still not enough; an allocator which expands its blocks
            large<V>(o.a, d);
            large<itlib::pod_vector<int, Expander>>(o.a, d);
        }
    }
    struct Expander {
        typedef size_t size_type;
        static void* malloc(size_t n) { return std::malloc(room(n)); }
        static void free(void* p) { std::free(p); }
        static constexpr size_t max_size() { return ~size_t(0); }
        static constexpr bool zero_fill_new() { return true; }
        static constexpr size_t alloc_align() { return alignof(std::max_align_t); }
        static constexpr bool has_expand() { return true; }
        static size_t room(size_t n) { return n < 9000 ? 9000 : n; }
        static bool expand(void*, size_t n) { return n <= 9000; }
        static void* realloc(void*, size_t) { return nullptr; }
        static constexpr size_t realloc_wasteful_copy_size() { return max_size(); }
        bool operator==(const Expander&) const { return true; }
        bool operator!=(const Expander&) const { return false; }
    };
    template <typename P>
    static void large(i64 a, D& d) {
        P v(size_t(50), int(a));
        v.reserve(1200);
        v.insert(v.begin() + 10, size_t(1300), 7);
        v.reserve(2600);
        std::vector<int> more(1500, int(a) + 1);
        v.insert(v.begin() + 20, more.begin(), more.end());
        v.reserve(4500);
        v.resize(20);
        v.reserve(6000);
        v.push_back(3);
        v.shrink_to_fit();
        v.push_back(4);
        P w(std::move(v));
        v = w;
        d << u64(v == w);
        for (auto x : w) d << u64(x);
    }
};

// ------------------------------------------------------- flat map and set
struct Flat {
    itlib::flat_map<std::string, int> m;
    itlib::flat_map<int, std::string, std::less<int>, itlib::static_vector<std::pair<int, std::string>, 8>> sm;
    itlib::flat_set<std::string> s;
    itlib::flat_set<int, std::less<int>, itlib::small_vector<int, 2>> ss;
    Flat() {
        for (int i = 0; i < 6; ++i) {
            m[val<std::string>(i * 2)] = i;
            sm[i * 2] = val<std::string>(i);
            s.insert(val<std::string>(i * 3));
            ss.insert(i * 3);
        }
    }
    // the queries of an object which is not const
    template <typename M, typename K>
    static void change(M& m, const K& k, const typename M::value_type& v, D& d) {
        d << u64(m.lower_bound(k) - m.begin()) << u64(m.end() - m.upper_bound(k));
        auto e = m.equal_range(k);
        d << u64(e.second - e.first);
        for (auto it = m.rbegin(); it != m.rend(); ++it) put(d, *it);
        auto i = m.insert(v);
        d << u64(i.second) << u64(i.first - m.begin());
        if (m.find(k) != m.end()) d << u64(m.erase(m.find(k)) - m.begin());
        d << u64(m.erase(m.cbegin()) - m.begin());
        M c;
        c = m;
        M x(std::move(c));
        c = std::move(x);
        c.swap(m);
        d << u64(c == m) << u64(c != m);
        m.reserve(30);
    }
    template <typename M, typename K>
    static void query(const M& m, const K& k, D& d) {
        auto f = m.find(k);
        d << u64(f != m.end());
        if (f != m.end()) put(d, *f);
        d << u64(m.count(k)) << u64(m.lower_bound(k) - m.begin()) << u64(m.upper_bound(k) - m.begin());
        auto e = m.equal_range(k);
        d << u64(e.first - m.begin()) << u64(e.second - m.begin());
        d << u64(m.size()) << u64(m.empty()) << u64(m.max_size()) << u64(m.container().size());
        d << u64(m.cend() - m.cbegin()) << u64(m.capacity() >= m.size());
        for (auto it = m.rbegin(); it != m.rend(); ++it) put(d, *it);
        all(d, m);
        M copy(m);
        d << u64(copy == m) << u64(copy != m);
    }
    void use(const Op& o, D& d) const {
        const std::string k = val<std::string>(o.a & 15);
        switch (o.b & 3) {
        case 0: query(m, k, d); query(m, k.c_str(), d); attempt(d, [&] { d << u64(m.at(k)); }); break;
        case 1: query(sm, int(o.a & 15), d); attempt(d, [&] { d << sm.at(int(o.a & 15)); }); break;
        case 2: query(s, k, d); query(s, k.c_str(), d); break;
        default: query(ss, int(o.a & 15), d);
        }
    }
    static void own(const Op& o, D& d) {
        if (o.b & 1) {
            itlib::flat_map<std::string, int> x = {{"b", 1}, {"a", 2}, {"b", 3}};
            x.insert(std::make_pair(val<std::string>(o.a), 4));
            x.emplace(val<std::string>(o.a + 1), 5);
            x["q"] = 6;
            d << u64(x.erase("a")) << u64(x.erase("zz"));
            attempt(d, [&] { d << u64(x.at("nothing")); });
            attempt(d, [&] { x.at("q") = 9; });
            x.reserve(20);
            itlib::flat_map<std::string, int> y(x.begin(), x.end());
            y.erase(y.begin());
            y.swap(x);
            all(d, x); all(d, y);
            x = y;
            x = std::move(y);
            all(d, x);
            x.modify_container().push_back({"zzz", 1});
            all(d, x);
            change(x, std::string("zzz"), {val<std::string>(o.a + 2), 1}, d);
            itlib::flat_map<int, int> z(std::vector<std::pair<int, int>>{{3, 1}, {1, 2}, {3, 4}}), t(itlib::flat_map<int, int>::key_compare{});
            change(z, int(o.a & 3), {int(o.a & 7), 1}, d);
            z.emplace(4, 5);
            t = z;
            t[int(o.a)] += 1;
            t[3] = 5;
            const std::pair<int, int> np(77, 1);
            t.insert(np);
            all(d, z); all(d, t);
            itlib::flat_map<int, int> ia({{3, 1}, {1, 2}, {int(o.a & 3), 4}}, std::allocator<std::pair<int, int>>()), ca(itlib::flat_map<int, int>::key_compare{}, std::allocator<std::pair<int, int>>());
            itlib::flat_map<int, int> ra(ia.begin(), ia.end(), itlib::flat_map<int, int>::key_compare{}, std::allocator<std::pair<int, int>>());
            ca[int(o.a)] = 2;
            all(d, ia); all(d, ra); all(d, ca);
            x.clear();
        }
        else {
            itlib::flat_set<int> x = {3, 1, int(o.a & 7), 2, 2};
            x.insert(int(o.a));
            x.emplace(5);
            d << u64(x.erase(1)) << u64(x.erase(100));
            itlib::flat_set<int> y(x);
            y.erase(y.begin());
            y.swap(x);
            all(d, x); all(d, y);
            x = std::move(y);
            d << u64(x.find(3) != x.end());
            itlib::flat_set<int> z(x.container());
            d << u64(z == x);
            z.modify_container().push_back(1000);
            change(z, int(o.a & 3), int(o.a & 31), d);
            const int k = 55;
            z.insert(k);
            z.emplace(54);
            itlib::flat_set<std::string> w, u(itlib::flat_set<std::string>::key_compare{}), r(w.begin(), w.end(), w.key_comp());
            d << u64(u.key_comp()(std::string("a"), std::string("b")));
            w.insert(val<std::string>(o.a));
            w.emplace("b");
            change(w, std::string("b"), val<std::string>(o.a + 1), d);
            u = w;
            all(d, u); all(d, z); all(d, r);
            itlib::flat_set<int> ia({3, 1, int(o.a & 3)}, std::allocator<int>()), ra(x.begin(), x.end()), ca(itlib::flat_set<int>::key_compare{}, std::allocator<int>());
            ca.insert(int(o.a));
            all(d, ia); all(d, ra); all(d, ca);
            z.clear();
        }
    }
};

// --------------------------------------------------------------------- any
struct Big32 { i64 v[9]; };
struct alignas(64) Aligned { int x; };
struct MoveOnly { int x; explicit MoveOnly(int i) : x(i) {} MoveOnly(MoveOnly&&) = default; };
struct Any {
    typedef itlib::any<> A;
    A s, i, none, big;
    Any() : s(val<std::string>(4)), i(5), big(Big32{{1, 2, 3}}) {}
    void use(const Op& o, D& d) const {
        const A& x = o.a & 1 ? s : o.a & 2 ? i : o.a & 4 ? big : none;
        d << u64(x.has_value()) << u64(!!x) << u64(x.data() != nullptr) << x.type().name();
        if (auto p = itlib::any_cast<std::string>(&x)) d << *p;
        if (auto p = itlib::any_cast<int>(&x)) d << u64(*p);
        attempt(d, [&] { d << u64(itlib::any_cast<int>(x)); });
        attempt(d, [&] { d << itlib::any_cast<const std::string&>(x); });
        if (o.a & 1) d << *x.tdata<std::string>();
        A c(x);
        d << c.type().name();
        A e;
        e.copy_from(x);
        e = x;
        if (auto p = itlib::any_cast<Big32>(&e)) d << u64(p->v[2]);
        (void)x.get_allocator();
    }
    static void own(const Op& o, D& d) {
        A a(int(o.a)), b;
        b = std::move(a);
        d << u64(a.has_value()) << u64(itlib::any_cast<int>(b));
        b = val<std::string>(o.a);
        d << itlib::any_cast<std::string&>(b);
        A c(b);
        std::swap(b, c);
        d << itlib::any_cast<std::string>(std::move(c));
        b.emplace<Aligned>().x = 4;
        d << u64(itlib::any_cast<Aligned&>(b).x) << u64(reinterpret_cast<uintptr_t>(b.data()) & 63);
        b.emplace<MoveOnly>(6);
        attempt(d, [&] { A e(b); d << u64(e.has_value()); });
        A e(std::move(b));
        d << u64(itlib::any_cast<MoveOnly>(&e)->x);
        e.reset();
        d << u64(e.has_value());
        typedef itlib::any<itlib::pmr_allocator<>> P;
        const itlib::pmr_allocator<> pa(std::pmr::new_delete_resource());
        P f(pa), g(std::allocator_arg, pa), h(std::allocator_arg, pa, int(o.a));
        g.emplace<std::string>("some text");
        f.copy_from(c);
        f = g;
        g = std::move(h);
        d << itlib::any_cast<std::string>(f) << u64(itlib::any_cast<int>(g)) << u64(f.get_allocator() == g.get_allocator());
        d << u64(itlib::any_cast<int>(static_cast<const A*>(nullptr)) == nullptr) << u64(itlib::any_cast<int>(nullptr) == nullptr);
    }
};

// ---------------------------------------------------------------- expected
struct Exp {
    typedef itlib::expected<std::string, int> E;
    typedef itlib::expected<int&, std::string> R;
    typedef itlib::expected<void, std::string> V;
    typedef itlib::expected<int, void> N;
    typedef itlib::expected<std::string, void> NS;
    typedef itlib::expected<std::string&, void> RN;
    typedef itlib::expected<void, void> VV;
    std::string starget = val<std::string>(4);
    NS nsv{val<std::string>(4)}, nse{itlib::unexpected()};
    RN rnv{starget}, rne{itlib::unexpected()};
    VV vvv, vve{itlib::unexpected()};
    int target = 5;
    E ev, ee;
    R rv, re;
    V vv, ve;
    N nv, ne;
    static E mk(bool ok) { if (ok) return val<std::string>(4); return itlib::unexpected(3); }
    Exp() : ev(mk(true)), ee(mk(false)), rv(target), re(itlib::unexpected(val<std::string>(4))), ve(itlib::unexpected(val<std::string>(5))), nv(4), ne(itlib::unexpected()) {}
    void use(const Op& o, D& d) const {
        const E& e = o.a & 1 ? ev : ee;
        d << u64(e.has_value()) << u64(e.has_error()) << u64(!!e);
        if (e) d << e.value() << *e << u64(e->size());
        else d << u64(e.error());
        d << e.value_or("other");
        const R& r = o.a & 2 ? rv : re;
        d << u64(r.has_value()) << u64(r.has_error()) << u64(!!r);
        int alt = 8;
        if (r) d << u64(r.value()) << u64(*r);
        else d << r.error();
        d << u64(r.value_or(alt));
        const V& v = o.a & 4 ? vv : ve;
        d << u64(v.has_value()) << u64(v.has_error()) << u64(!!v);
        if (!v) d << v.error();
        const N& n = o.a & 8 ? nv : ne;
        d << u64(n.has_value()) << u64(n.has_error()) << u64(!!n) << u64(n.value_or(3));
        if (n) d << u64(*n);
        const NS& ns = o.b & 1 ? nsv : nse;
        d << u64(ns.has_value()) << u64(ns.has_error()) << u64(!!ns) << ns.value_or("no");
        if (ns) d << *ns << ns.value() << u64(ns->size());
        NS nc(ns), na;
        na = ns;
        d << nc.value_or("copy") << na.value_or("assigned");
        const RN& rn = o.b & 2 ? rnv : rne;
        std::string other = "other";
        d << u64(rn.has_value()) << u64(rn.has_error()) << u64(!!rn) << rn.value_or(other);
        if (rn) d << *rn << rn.value() << u64(rn->size());
        RN rc(rn);
        rc = rn;
        d << u64(rc.has_value());
        const VV& x = o.b & 4 ? vvv : vve;
        d << u64(x.has_value()) << u64(x.has_error()) << u64(!!x);
        VV xc(x);
        xc = x;
        d << u64(xc.has_value());
    }
    static void own(const Op& o, D& d) {
        E a = mk(o.a & 1), b = mk(o.a & 2);
        a = std::move(b);
        b = mk(o.a & 4);
        if (b) d << std::move(b).value();
        else d << u64(std::move(b).error());
        d << std::move(a).value_or(val<std::string>(o.a));
        int x = 3, y = 4;
        R r(x), s(y);
        r = std::move(s);
        r = R(itlib::unexpected(val<std::string>(o.a)));
        d << r.error();
        r = R(y);
        d << u64(*r);
        V v, w(itlib::unexpected(val<std::string>(o.a)));
        v = std::move(w);
        d << v.error();
        N n(5), m = itlib::unexpected();
        n = std::move(m);
        d << u64(n.has_value());
        // every constructor, accessor and assignment of every specialisation
        E dflt, noerr(itlib::unexpected()), moved(std::move(dflt));
        d << u64(dflt.value().size()) << u64(noerr.error()) << *moved << u64(moved->size());
        *moved = val<std::string>(o.a);
        d << *std::move(moved);
        noerr.error() = 4;
        dflt = std::move(noerr);
        d << u64(dflt.has_error());
        std::string str = val<std::string>(o.a), alt = "alternative";
        typedef itlib::expected<std::string&, int> RS;
        RS rs(str), rs0(itlib::unexpected()), rs1(std::move(rs));
        *rs1 += 'x';
        d << *rs1 << u64(rs1->size()) << rs0.value_or(alt) << u64(std::move(rs0).error());
        RS rs2(itlib::unexpected(5));
        rs0 = std::move(rs2);
        rs0.error() += 1;
        RS rs3(std::move(rs0));
        rs1 = std::move(rs3);
        d << u64(rs1.error());
        V v0(itlib::unexpected()), v1(std::move(v0)), v2;
        v1.error() = val<std::string>(o.a);
        v2 = std::move(v1);
        v0 = std::move(v2);
        d << std::move(v0).error();
        NS ns, ne0(itlib::unexpected()), nm(val<std::string>(o.a));
        ns = nm;
        ns.value() += 'y';
        *ns += 'z';
        d << u64(ns->size());
        NS nz(std::move(ns));
        d << std::move(nz).value_or("zz") << std::move(ne0).value_or("none");
        nz = ne0;
        ne0 = std::move(nm);
        d << *std::move(ne0);
        ne0.emplace(val<std::string>(o.a + 1));
        d << std::move(ne0).value();
        ne0.clear();
        d << u64(ne0.has_value());
        RN rn(str), rm(itlib::unexpected());
        rm.emplace(alt);
        *rm += '1';
        rn.value() += '2';
        rn->push_back('3');
        std::swap(rn, rm);
        d << *rn << rm.value_or(alt);
        rn.clear();
        d << u64(rn.has_error());
        VV q, q0(itlib::unexpected());
        std::swap(q, q0);
        d << u64(q.has_value());
        q0.clear();
        q.emplace();
        d << u64(!!q) << u64(q0.has_error());
    }
};

// ------------------------------------------------------------------ bitset
template <typename Buf>
struct Bits {
    typedef itlib::dynamic_bitset<Buf> B;
    B b, full, empty, late, zero;
    Bits() : b(75), full(70, typename B::word_type(~0)), late(80), zero(66) {
        for (int i = 0; i < 75; i += 3) b.set(size_t(i));
        late.set(69);
        full.reset(67);
    }
    void use(const Op& o, D& d) const {
        const B* const shapes[] = {&b, &late, &full, &empty, &zero, &late};
        const B& x = *shapes[o.a % 6];
        d << u64(x.size()) << u64(x.word_size()) << u64(x.byte_size()) << u64(x.empty()) << u64(x.any()) << u64(x.none()) << u64(x.buffer().size());
        if (!x.empty()) {
            d << u64(x.all()) << u64(x.test(7)) << u64(x[9]) << u64(*x.data());
            for (auto it = x.begin(); it != x.end(); ++it) d << u64(*it);
        }
        B c(x), e;
        c.append(b);
        e.resize(80);
        e.copy(e.begin() + (o.a & 31), e.begin() + (o.a & 31) + 40, b.begin() + (o.c & 31));
        c.append(e);
        for (size_t i = 0; i < c.size(); ++i) d << u64(c.test(i));
    }
    static void own(const Op& o, D& d) {
        B x, al{typename B::allocator_type()};
        al.push_back(true);
        d << u64(al.all());
        const B sized(size_t(o.a & 63) + 3, typename B::word_type(5));
        d << u64(sized.all()) << u64(sized.any());
        for (i64 i = 0; i < 10 + (o.a & 31); ++i) x.push_back(i % 3 == 0);
        x.flip(2); x.reset(3); x.set(4, o.a & 1);
        x[5] = true;
        x[6].flip();
        x.resize(40);
        x.reserve(100);
        *x.begin() = true;
        for (auto it = x.begin(); it != x.end(); it++) d << u64(bool(*it));
        for (auto it = x.end(); it != x.begin();) { --it; d << u64(bool(*it)); }
        const B& cx = x;
        for (auto it = cx.end(); it != cx.begin();) { it--; d << u64(*it); }
        typename B::const_iterator ci = x.begin() + 1;
        ++ci; ci++; --ci;
        d << u64(*(ci - 1)) << u64(*(x.end() - 1));
        { auto it = x.end(); it--; const auto kit = it; d << u64(*kit); ++it; }
        *x.data() ^= 5;
        B y(std::move(x));
        x.assign(y.buffer());
        y = x;
        x = std::move(y);
        d << u64(x.size()) << u64(x.any()) << u64(x.all());
    }
};

// ------------------------------------------------------------------- views
struct Pt { int x; double y; short z; };
struct PtD : Pt { int w; };
int& pt_x(Pt& p) { return p.x; }
int pt_sum(Pt& p) { return p.x + p.z; }
int int_twice(int& i) { return i * 2; }
struct Views {
    int nums[9];
    Pt pts[5];
    PtD ptd[4];
    std::vector<int> vec;
    itlib::span<int> sp;
    itlib::span<const int> csp;
    itlib::stride_span<int> ss, sb;
    itlib::stride_span<const int> css;
    itlib::poly_span<int&> ps;
    itlib::poly_span<int> pv, pn;
    itlib::memory_view<int> mv;
    itlib::const_memory_view<int> cmv;
    Views() : vec{5, 4, 3, 2, 1} {
        for (int i = 0; i < 9; ++i) nums[i] = i * i;
        for (int i = 0; i < 5; ++i) pts[i] = Pt{i, i * 0.5, short(-i)};
        for (int i = 0; i < 4; ++i) { ptd[i].x = i * 4; ptd[i].w = i; ptd[i].y = 0; ptd[i].z = 1; }
        sp = itlib::make_span(nums);
        csp = itlib::span<const int>(vec);
        ss = itlib::make_stride_span_member_view(pts, 5, &Pt::x);
        sb = itlib::make_stride_span_from_array(nums, 9, 1, 2);
        css = itlib::make_stride_span_member_view(static_cast<const Pt*>(pts), 5, &Pt::x);
        ps = itlib::poly_span<int&>(pts, 5, pt_x);
        pv = itlib::poly_span<int>(pts, 5, pt_sum);
        pn = itlib::poly_span<int>(nums, 9, int_twice);
        mv = itlib::make_memory_view(vec);
        cmv = itlib::make_memory_view(static_cast<const std::vector<int>&>(vec), 1);
    }
    template <typename S>
    static void indexed(const S& s, D& d) {
        d << u64(s.size()) << u64(s.empty()) << u64(!!s);
        if (!s.empty()) d << u64(s.front()) << u64(s.back()) << u64(s.at(0)) << u64(s[s.size() - 1]) << u64(s.data() != nullptr);
        for (auto it = s.begin(); it != s.end(); ++it) d << u64(*it);
    }
    template <typename S>
    static void sliced(const S& s, i64 a, D& d) {
        indexed(s.subspan(size_t(a & 3)), d);
        indexed(s.subspan(1, size_t(a & 3)), d);
        indexed(s.first(size_t(a & 3)), d);
        indexed(s.last(size_t(a & 3)), d);
        S t(s);
        t.remove_prefix(size_t(a & 1));
        t.remove_suffix(1);
        indexed(t, d);
        t = s;
        for (auto it = t.rbegin(); it != t.rend(); ++it) d << u64(*it);
    }
    void use(const Op& o, D& d) const {
        switch (o.b & 7) {
        case 0: indexed(sp, d); sliced(sp, o.a, d); for (auto v : sp.as_bytes()) d << u64(v); d << u64(sp.size_bytes()); break;
        case 1: indexed(csp, d); sliced(csp, o.a, d); d << u64(csp.cend() - csp.cbegin()) << u64(csp.crend() - csp.crbegin()); break;
        case 2: indexed(ss, d); sliced(ss, o.a, d); d << u64(ss.stride()); indexed(css, d); break;
        case 3: indexed(sb, d); sliced(sb, o.a, d); for (auto it = sb.rbegin(); it != sb.rend(); ++it) d << u64(*it); break;
        case 4: indexed(ps, d); sliced(ps, o.a, d); d << u64(ps.stride()); for (auto it = ps.rbegin(); it != ps.rend(); ++it) d << u64(*it); break;
        case 5: indexed(pv, d); sliced(pv, o.a, d); indexed(pn, d); break;
        case 6: indexed(mv, d); indexed(mv.slice(1), d); indexed(mv.slice(1, size_t(o.a & 3)), d); break;
        default: indexed(cmv, d); indexed(cmv.slice(1), d); { itlib::const_memory_view<int> x(mv); x.remove_prefix(1); x.remove_suffix(1); indexed(x, d); }
        }
    }
    template <typename S>
    static void strided(S& s, D& d) {
        auto b = s.begin(), e = s.end();
        d << u64(e - b) << u64(b < e) << u64(b > e) << u64(b <= e) << u64(b >= e) << u64(b == e) << u64(b != e);
        d << u64(*(b + 1)) << u64(*(e - 1));
        b += 2; e -= 1; --e; ++b;
        d << u64(*b) << u64(*e) << u64(s.cend() - s.cbegin()) << u64(s.front()) << u64(s.back()) << u64(s.at(1)) << u64(s[2]) << u64(s.data() != nullptr);
        for (auto it = s.rbegin(); it != s.rend(); ++it) d << u64(*it);
    }
    template <typename S>
    static void memory(S&& s, D& d) {
        d << u64(s.size()) << u64(s.empty()) << u64(!!s) << u64(s.front()) << u64(s.back()) << u64(s.at(1)) << u64(s[0]) << u64(*s.data()) << u64(*s.get());
        d << u64(s.cend() - s.cbegin()) << u64(s.end() - s.begin()) << u64(s.crend() - s.crbegin()) << u64(s.rend() - s.rbegin()) << u64(*s.rbegin());
        d << u64(s.slice(1).size()) << u64(s.slice(0, 1).size()) << u64(s.slice(100).size());
    }
    static void own(const Op& o, D& d) {
        Views v;
        for (auto& x : v.sp) x += int(o.a);
        for (size_t i = 0; i < v.ss.size(); ++i) v.ss[i] += 1;
        for (auto it = v.sb.begin(); it != v.sb.end(); ++it) *it += 2;
        for (size_t i = 0; i < v.ps.size(); ++i) v.ps[i] *= 2;
        for (auto it = v.ps.begin(); it != v.ps.end(); ++it) *it += 5;
        for (auto& x : v.mv) x -= 1;
        auto base = itlib::make_stride_span_base_view<Pt>(v.ptd, 4);
        for (size_t i = 0; i < base.size(); ++i) d << u64(base[i].x);
        auto raw = itlib::make_stride_span_from_buf<int>(v.nums, 4, 8, 3);
        for (size_t i = 0; i < raw.size(); ++i) d << u64(raw[i]);
        v.sp.as_writable_bytes()[0] = 1;
        v.mv.reset(3);
        strided(v.ss, d);
        strided(v.ps, d);
        strided(static_cast<const itlib::stride_span<int>&>(v.sb), d);
        strided(static_cast<const itlib::poly_span<int>&>(v.pv), d);
        v.css = v.ss;
        d << u64(*v.ss.begin().operator->()) << u64(v.ss.begin().ptr() - v.ss.end().ptr());
        v.csp = v.sp;
        v.ss.front() += 1; v.ss.back() += 1; v.ps.front() += 3; v.ps.back() += 3;
        d << u64(itlib::make_span(v.nums, v.nums + 3).size()) << u64(itlib::make_span(v.nums, size_t(4)).back()) << u64(itlib::make_span(v.vec).back());
        itlib::span<const int> sc(v.sp);
        itlib::stride_span<const int> stc(v.ss);
        d << u64(sc.size()) << u64(stc.size());
        itlib::span<int> sv(v.vec), se(v.nums, size_t(0)), sr(v.nums, v.nums + 4);
        d << u64(sv.at(1)) << u64(se.empty()) << u64(sr.size_bytes());
        memory(v.mv, d);
        memory(v.cmv, d);
        v.mv.front() = 4; v.mv.back() = 5; v.mv[1] = 6; v.mv.at(2) = 7;
        *v.mv.data() = 8; *v.mv.get() = 9;
        memory(static_cast<const itlib::memory_view<int>&>(v.mv), d);
        { itlib::memory_view<int> x(v.mv); x.remove_prefix(1); memory(x, d); x.reset(v.nums, 4); x.remove_suffix(1); memory(x, d); x.reset(); d << u64(!!x) << u64(x.empty()); }
        { itlib::const_memory_view<int> x; d << u64(!!x); x.reset(v.nums, 4); memory(x, d); x.reset(2); memory(x, d); x.reset(); d << u64(x.empty()); }
        memory(itlib::make_memory_view(v.nums, 5), d);
        memory(itlib::make_memory_view(v.nums), d);
        memory(itlib::make_memory_view(static_cast<const int*>(v.nums), 5), d);
        Op q = o;
        for (q.b = 0; q.b < 8; ++q.b) v.use(q, d);
    }
};

// --------------------------------------------------- strings and algorithms
struct Util {
    std::string text = "ababab--the text--xyxyxy";
    std::vector<int> nums = {3, 1, 4, 1, 5, 9, 2, 6};
    struct Owner { int pad; std::string a; int b; } owner{1, "owned", 7};
    struct Thrown : std::runtime_error { using std::runtime_error::runtime_error; };
    void use(const Op& o, D& d) const {
        static const char* const parts[] = {"ab", "", "xy", "ababab--the text--xyxyxy", "b", "abab", "yx"};
        const char* p = parts[o.a % 7];
        d << u64(itlib::starts_with(text, p)) << u64(itlib::ends_with(text, p));
        d << std::string(itlib::remove_prefix_all(text, p)) << std::string(itlib::remove_suffix_all(text, p));
        d << std::string(itlib::make_string_view(text.begin() + 2, text.begin() + 9)) << std::string(itlib::make_string_view(text.data(), text.data() + 4));
        const int k = int(o.a % 10);
        auto pred = [k](int x) { return x == k; };
        d << u64(itlib::qfind(nums, k) - nums.begin()) << u64(itlib::qfind_if(nums, pred) - nums.begin());
        auto f = itlib::pfind(nums, k);
        d << u64(f ? f - nums.data() : -1);
        f = itlib::pfind_if(nums, pred);
        d << u64(f ? f - nums.data() : -1);
        d << u64(itlib::qall_of(nums)) << u64(itlib::qany_of(nums)) << u64(itlib::qnone_of(nums)) << u64(itlib::qall_of(nums, pred)) << u64(itlib::qany_of(nums, pred)) << u64(itlib::qnone_of(nums, pred));
        d << u64(itlib::owner_from_member(owner.b, &Owner::b)->pad) << u64(itlib::owner_from_member(owner.a, &Owner::a) == &owner);
        d << u64(itlib::bit_cast<uint32_t>(float(o.a))) << u64(itlib::make_nullptr<Owner>() == nullptr);
        d << u64(itlib::is_instantiation_of_v<std::vector, std::vector<int>>) << u64(itlib::is_noop_convertible_v<int, unsigned>);
    }
    static void own(const Op& o, D& d) {
        std::vector<int> v = {1, 2, 3, 2, 1, int(o.a & 3)};
        d << u64(itlib::erase_first(v, 2)) << u64(itlib::erase_first_if(v, [](int x) { return x == 3; }));
        d << u64(itlib::erase_all(v, 1)) << u64(itlib::erase_all_if(v, [](int x) { return x > 1; }));
        all(d, v);
        std::string s = val<std::string>(o.a), t = itlib::force_move(s);
        d << t;
        suspend_faults(true); // a failing allocation is not specified for these
        struct Resume { ~Resume() { suspend_faults(false); } } resume;
        try { itlib::throw_ex<Thrown>() << "thrown by " << int(o.a) << ' ' << t; }
        catch (Thrown& e) { d << e.what(); }
        int calls = 0;
        {
            auto once = itlib::make_sentry([&] { calls += 1; });
            itlib::sentry twice([&calls] { calls += 10; });
        }
        d << u64(calls);
        itlib::ufunction<int(int)> f = [k = std::make_unique<int>(int(o.a))](int x) { return *k + x; }, g;
        d << u64(!!f) << u64(f(4));
        g = std::move(f);
        d << u64(!!f) << u64(g(5));
        g = [](int x) { return x * 2; };
        d << u64(g(6));
        itlib::ufunction<int(int)> fn(nullptr), fp(+[](int x) { return x * 3; });
        d << u64(!!fn) << u64(fp(5));
        fn = +[](int x) { return x * 4; };
        d << u64(fn(6));
        fn = std::move(fp);
        d << u64(fn(6));
        std::function<int(int)> sf = [](int x) { return x + 1; }, sn;
        itlib::ufunction<int(int)> h(std::move(sf)), hn(std::move(sn));
        itlib::ufunction<long(int)> other(std::move(h)), on(std::move(hn));
        d << u64(!!other) << u64(other(4)) << u64(!!on);
        on = std::move(other);
        d << u64(on(3));
        int (*fpt)(int) = +[](int x) { return x - 1; }, (*fnull)(int) = nullptr;
        itlib::ufunction<long(int)> lp(std::move(fpt)), ln(std::move(fnull));
        d << u64(lp(3)) << u64(!!ln);
        g = nullptr;
        try { g(1); } catch (std::bad_function_call&) { d << 77u; }
        itlib::tep_vector tv;
        (void)tv;
    }
};

// ------------------------------------------------------------------ streams
// std::ios construction touches the global locale (not the library's), so
// these work on the buffers; the streams are those of rstream
struct Streams {
    std::string text = "12 345 six 7.5 the end of the text which is read by everyone";
    itlib::mem_ostreambuf<std::string> written;
    Streams() { written.sputn("already written", 15); }
    template <typename B>
    static void readbuf(B& b, i64 a, D& d) {
        char buf[16];
        d << u64(b.goff()) << u64(b.size());
        d << u64(b.sgetc()) << u64(b.sbumpc()) << u64(b.snextc());
        d << u64(b.sgetn(buf, a & 15));
        d << std::string(buf, size_t(a & 15));
        d << u64(std::streamoff(b.pubseekoff(-3, std::ios_base::end, std::ios_base::in))) << u64(b.sgetn(buf, 10));
        d << u64(std::streamoff(b.pubseekpos(a, std::ios_base::in))) << u64(std::streamoff(b.pubseekoff(2, std::ios_base::cur, std::ios_base::in)));
        d << u64(b.in_avail()) << u64(b.sgetc()) << u64(b.goff());
    }
    void use(const Op& o, D& d) const {
        d << u64(written.poff()) << u64(written.peek_container().size());
        d << written.peek_container().substr(0, 15);
        itlib::mem_istreambuf<char> b(text.data(), text.size()); // everyone reads the same memory
        if (o.b & 1) readbuf(b, o.a & 31, d);
        else {
            std::istream in(&b);
            int i = 0, j = 0;
            std::string w;
            in >> i >> j >> w;
            d << u64(i) << u64(j) << w << u64(std::streamoff(in.tellg()));
            itlib::rstream r(in);
            int seven = 0;
            r >> seven;
            d << u64(seven);
            char buf[8] = {};
            d << u64(!!r.read(buf, 4)) << std::string(buf, 4) << u64(r.good()) << u64(r.eof()) << u64(r.fail());
            {
                itlib::redirect_rstream rr(in, std::streampos(o.a & 15));
                rr.read(buf, 5);
                d << std::string(buf, 5) << u64(!!rr);
            }
            d << u64(std::streamoff(in.tellg()));
        }
    }
    static void own(const Op& o, D& d) {
        itlib::mem_ostreambuf<std::string> b(size_t(o.a & 15));
        const std::string t = val<std::string>(o.a);
        if (o.b & 1) {
            b.sputn(t.data(), std::streamsize(t.size()));
            b.sputc('x');
            d << u64(b.poff()) << u64(std::streamoff(b.pubseekpos(2, std::ios_base::out)));
            b.sputn("YY", 2);
            d << u64(std::streamoff(b.pubseekoff(1, std::ios_base::cur, std::ios_base::out)));
            d << u64(std::streamoff(b.pubseekpos(std::streamoff(t.size() + 1), std::ios_base::out)));
            d << b.get_container();
            b.sputn("again", 5);
            b.clear();
            b.sputn("finally", 7);
            d << b.get_container();
        }
        else {
            std::ostream out(&b);
            out << t << ' ' << int(o.a) << ' ' << 2.5;
            d << u64(!!out) << b.get_container();
            std::vector<char> v;
            itlib::mem_ostreambuf<std::vector<char>> c;
            std::ostream(&c) << "abc" << o.b;
            for (auto x : c.get_container()) d << u64(x);
        }
        if (o.b & 2) { // copied, moved and assigned
            b.sputn("before", 6);
            itlib::mem_ostreambuf<std::string> e(b), f(std::move(b));
            b.sputn("own", 3);
            e.sputc('1');
            f.sputc('2');
            d << e.peek_container().substr(0, e.poff()) << u64(f.poff());
            e = f;
            e.sputc('3');
            f = std::move(e);
            d << f.get_container() << b.get_container() << u64(e.poff());
        }
    }
};

// -------------------------------------------- pointers, locks, counters, time
struct Sf : itlib::enable_shared_from {
    int v[3] = {1, 2, 3};
    std::shared_ptr<const int> part(int i) const { return shared_from(&v[i]); }
    std::weak_ptr<const int> wpart(int i) const { return weak_from(&v[i]); }
    std::shared_ptr<void> me() { return shared_from_this(); }
    std::weak_ptr<void> wme() { return weak_from_this(); }
    std::weak_ptr<const void> wme() const { return weak_from_this(); }
};
struct Sync {
    std::shared_ptr<const Sf> sf = std::make_shared<Sf>();
    itlib::atomic_relaxed_counter<int> counter{5};
    itlib::atomic_shared_ptr_storage<const int> storage{std::make_shared<const int>(9)};
    itlib::time_t when = itlib::time_t::from_seconds(1234567890);
    itlib::data_mutex<std::string, std::shared_mutex> guarded{"guarded"};
    itlib::data_mutex<std::string, std::mutex> cguarded{"guarded exclusively"};
    void use(const Op& o, D& d) const {
        auto p = sf->part(int(o.a % 3));
        d << u64(*p);
        auto w = sf->wpart(int(o.a % 3)).lock();
        d << u64(w ? *w : -1);
        d << u64(sf->wme().lock() == sf);
        auto al = itlib::make_aliased(sf, &sf->v[o.a % 3]);
        d << u64(*al);
        d << u64(counter.load()) << u64(int(counter));
        d << u64(*storage.load());
        const std::tm g = when.gmtime(), l = when.localtime();
        d << u64(g.tm_hour) << u64(g.tm_yday) << u64(l.tm_min);
        d << itlib::strftime("%Y-%m-%d %H:%M:%S", g);
        d << u64(when.seconds_since_epoch()) << u64((when + std::chrono::hours(o.a)).seconds_since_epoch()) << u64(when < itlib::time_t::from_seconds(o.a));
        d << u64(when == itlib::time_t::from_seconds(o.a)) << u64(when != itlib::time_t::from_seconds(o.a)) << u64(when <= itlib::time_t::from_seconds(o.a))
          << u64(when > itlib::time_t::from_seconds(o.a)) << u64(when >= itlib::time_t::from_seconds(o.a)) << u64((when - std::chrono::minutes(o.a)).seconds_since_epoch());
        d << u64((when - itlib::time_t::from_seconds(o.a)).count());
        itlib::atomic_relaxed_counter<int> cc(counter);
        d << u64(cc.load());
        if (o.b & 1) { // exclusive locks of a const object
            { auto l = cguarded.unique_lock(); d << *l << u64(l->size()); }
        }
        d << *guarded.shared_lock();
        if (auto t = guarded.try_shared_lock()) d << t->size(); // only readers
    }
    static void own(const Op& o, D& d) {
        // distinct objects do not know of each other
        itlib::strong_try_rec_mutex m, n;
        d << u64(m.try_lock()) << u64(n.try_lock()) << u64(m.try_lock());
        m.unlock();
        itlib::data_mutex<int, std::mutex> x(int(o.a));
        {
            auto l = x.unique_lock();
            *l += 4;
            const auto& cl = l;
            d << u64(*l) << u64(*cl) << u64(cl.operator->() == &*l) << u64(!!x.try_unique_lock());
        }
        { auto t = x.try_unique_lock(); d << u64(!!t); if (t) d << u64(*t); }
        {
            const auto& cx = x;
            { auto l = cx.unique_lock(); auto k = std::move(l); d << u64(*k); }
            auto t = cx.try_unique_lock();
            d << u64(!!t);
            if (t) d << u64(*t);
        }
        itlib::time_t now = itlib::time_t::now(), n2 = now;
        now += std::chrono::seconds(o.a);
        n2 -= std::chrono::minutes(o.a);
        d << u64((now - n2).count());
        itlib::atomic_relaxed_counter<int> c1(5), c2(6);
        c1 = c2;
        c2.store(3);
        d << u64(c1 += 4) << u64(c1 -= 2) << u64(--c1) << u64(c1--) << u64(c2 = 9) << u64(c2.load());
        m.unlock();
        n.unlock();
        itlib::atomic_relaxed_counter<unsigned char> c(250);
        for (i64 i = 0; i < (o.a & 15); ++i) d << u64(c++) << u64(++c);
        itlib::atomic_shared_ptr_storage<std::string> st(std::make_shared<std::string>(val<std::string>(o.a)));
        auto old = st.exchange(std::make_shared<std::string>("new"));
        d << *old << u64(old.use_count());
        auto expect = st.load();
        d << u64(st.compare_exchange(expect, old)) << *st.load();
        st.store(nullptr);
        auto q = itlib::make_shared(val<std::string>(o.a));
        auto u = itlib::make_unique(val<std::string>(o.a + 1));
        d << *q << *u;
        auto s = std::make_shared<Sf>();
        d << u64(*s->part(1)) << u64(s.use_count()) << u64(s->me() == s) << u64(s->wme().lock() == s);
        const auto t = itlib::time_t::from_seconds(o.a * 100000007);
        std::tm g = t.gmtime(), l = t.localtime();
        d << u64(itlib::time_t::from_gmtime(g).seconds_since_epoch()) << u64(itlib::time_t::from_localtime(l).seconds_since_epoch());
        d << itlib::strftime(val<std::string>(o.a).c_str(), t.gmtime());
    }
};

// ----------------------------------------------------- pmr, maps, generators
struct Res : std::pmr::memory_resource {
    i64 bytes = 0;
    int calls = 0;
    void* do_allocate(size_t n, size_t a) override {
        bytes += i64(n);
        ++calls;
        return ::operator new(n, std::align_val_t(a));
    }
    void do_deallocate(void* p, size_t n, size_t a) override { bytes -= i64(n); ::operator delete(p, n, std::align_val_t(a)); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
#if __cplusplus >= 202002L
struct Key { // transparency is asked of the looked up type
    using is_transparent = void;
    std::string s;
    Key(std::string p) : s(std::move(p)) {}
    operator const std::string&() const { return s; }
    friend bool operator==(const Key& a, const std::string& b) { return a.s == b; }
};
struct SHash {
    using is_transparent = void;
    size_t operator()(const Key& k) const { return (*this)(std::string_view(k.s)); }
    size_t operator()(const std::string& k) const { return (*this)(std::string_view(k)); }
    size_t operator()(std::string_view s) const { size_t h = 5; for (char c : s) h = h * 31 + size_t((unsigned char)c); return h; }
};
itlib::generator<int> range(int n) { for (int i = 0; i < n; ++i) co_yield i; }
itlib::generator<std::string> words(int n) {
    for (int i = 0; i < n; ++i) co_yield val<std::string>(i);
    if (n & 1) throw Injected{F_CALL};
}
itlib::generator<int&> refs(std::vector<int>& v) { for (auto& x : v) co_yield x; }
#endif
struct Misc {
    itlib::pmr_allocator<int> alloc;
#if __cplusplus >= 202002L
    typedef itlib::transparent_umap<std::string, int, SHash, std::equal_to<>> M;
    M map;
#endif
    Misc() : alloc(std::pmr::new_delete_resource()) {
#if __cplusplus >= 202002L
        for (int i = 0; i < 6; ++i) map.emplace(val<std::string>(i), i);
#endif
    }
    void use(const Op& o, D& d) const {
        itlib::pmr_allocator<int> a(alloc);
        d << u64(a == alloc) << u64(a.resource() == alloc.resource());
        int* p = a.allocate(size_t(o.a & 7) + 1);
        p[0] = 4;
        d << u64(p[0]);
        a.deallocate(p, size_t(o.a & 7) + 1);
        itlib::any<itlib::pmr_allocator<>> x(std::allocator_arg, itlib::pmr_allocator<>(alloc.resource()), val<std::string>(o.a));
        d << *itlib::any_cast<std::string>(&x);
#if __cplusplus >= 202002L
        const std::string k = val<std::string>(o.a & 15);
        auto f = map.find(std::string_view(k));
        d << u64(f == map.end() ? -1 : f->second) << u64(map.count(std::string_view(k))) << u64(map.size());
        attempt(d, [&] { d << u64(map.at(k)); });
        attempt(d, [&] { d << u64(map.at(Key(k))); });
        M c(map);
        d << u64(c == map);
#endif
    }
    static void own(const Op& o, D& d) {
        Res r;
        {
            itlib::pmr_allocator<> a(&r);
            auto p = a.new_object<std::string>(val<std::string>(o.a));
            d << *p << u64(r.bytes);
            a.delete_object(p);
            void* q = a.allocate_bytes(10, 64);
            d << u64(reinterpret_cast<uintptr_t>(q) & 63) << u64(r.bytes);
            a.deallocate_bytes(q, 10, 64);
            auto z = a.allocate_object<i64>(3);
            z[2] = 5;
            d << u64(z[2]);
            a.deallocate_object(z, 3);
        }
        d << u64(r.bytes) << u64(r.calls);
#if __cplusplus >= 202002L
        M m;
        m.try_emplace(val<std::string>(o.a), 5);
        d << u64(m.try_emplace(Key(val<std::string>(o.a)), 6).first->second) << u64(m.try_emplace(Key(val<std::string>(o.a + 1)), 6).first->second);
        d << u64(++m[Key(val<std::string>(o.a))]);
        d << u64(m.try_emplace(m.begin(), Key(val<std::string>(o.a + 2)), 8)->second);
        attempt(d, [&] { d << u64(m.at(Key("none"))); });
        m["key"] = 7;
        attempt(d, [&] { d << u64(m.at("key")); });
        attempt(d, [&] { d << u64(m.at("none")); });
        d << u64(m.size());
        for (int v : range(int(o.a & 7))) d << u64(v);
        auto g = words(int(o.a & 7));
        try {
            while (auto v = g.next()) d << *v;
            d << u64(g.done());
        }
        catch (Injected&) { d << 88u; }
        std::vector<int> v = {1, 2, 3};
        for (int& x : refs(v)) x *= 3;
        all(d, v);
        auto h = range(5);
        h.next();
        g.reset();
        auto h2 = std::move(h);
        d << u64(*h2.next()) << u64(!!h);
        h = range(2);
        h = std::move(h2);
        d << u64(!!h2) << u64(*h.next());
        auto rg = refs(v);
        while (true) {
            auto x = rg.next();
            d << u64(x.has_value()) << u64(!!x);
            if (!x) break;
            *x += 1;
        }
        all(d, v);
        auto it = h.begin();
        d << u64(it == h.end()) << u64(h.end() == it) << u64(it != h.end()) << u64(h.end() != it) << u64(*it);
        decltype(it) null;
        null = it;
        ++null;
        d << u64(null == h.end()) << u64(std::move(*it));
#endif
    }
};

// ------------------------------------------------------------------- driver
typedef itlib::static_vector<int, 12> SV12;
template <typename... A>
struct Areas {
    static const int count = sizeof...(A);
    struct Table {
        void* shared[sizeof...(A)];
        template <typename T> static void use_fn(const void* p, const Op& o, D& d) { static_cast<const T*>(p)->use(o, d); }
        template <typename T> static void own_fn(const Op& o, D& d) { T::own(o, d); }
        template <typename T> static void* make_fn() { return new T(); }
        template <typename T> static void kill_fn(void* p) { delete static_cast<T*>(p); }
        void use(int i, const Op& o, D& d) const {
            static void (*const fns[])(const void*, const Op&, D&) = {use_fn<A>...};
            fns[i](shared[i], o, d);
        }
        static void own(int i, const Op& o, D& d) {
            static void (*const fns[])(const Op&, D&) = {own_fn<A>...};
            fns[i](o, d);
        }
        void make(int i) {
            static void* (*const fns[])() = {make_fn<A>...};
            if (!shared[i]) shared[i] = fns[i]();
        }
        void kill(int i) {
            static void (*const fns[])(void*) = {kill_fn<A>...};
            if (shared[i]) fns[i](shared[i]);
        }
        Table() { for (auto& s : shared) s = nullptr; }
        ~Table() { for (int i = 0; i < count; ++i) kill(i); }
        Table(const Table&) = delete;
    };
};
typedef Areas<
    Seq<itlib::small_vector<std::string, 2>>, Seq<itlib::small_vector<int, 4, 3>>, StaticSeq<itlib::static_vector<std::string, 12>>, StaticSeq<SV12>, Pod,
    Flat, Any, Exp, Bits<std::vector<uint32_t>>, Bits<itlib::small_vector<unsigned char, 3>>, Views, Util, Streams, Sync, Misc> All;
const char* names[] = {"small_vector<string>", "small_vector<int>", "static_vector<string>", "static_vector<int>", "pod_vector", "flat containers", "any", "expected",
    "bitset", "bitset over small_vector", "views", "utilities", "streams", "pointers, locks and time", "pmr, maps and generators"};

struct Ctx {
    const Case& c;
    const All::Table& t;
    u64* got;
    // what the operation observes
    u64 go(const Op& op) const {
        TOp top(op);
        D d;
        try {
            if (op.d & 1) t.use(op.code, op, d);
            else All::Table::own(op.code, op, d);
        }
        catch (std::bad_alloc&) {
            SIM_CHECK(thread_faults_fired() > 0, "unexpected-exception", "bad_alloc although no allocation failed");
            d << 0xBADu;
        }
        catch (Injected&) { d << 0xBAFu; }
        return d.h;
    }
    void operator()(int tid) {
        Sut sut;
        for (size_t i = 0; i < c.ops.size(); ++i) {
            const Op& op = c.ops[i];
            if (op.tid == tid) got[i] = go(op);
        }
    }
};

struct H : Harness {
    const char* property() override { return "C08"; }
    const char* op_name(int c) override { return c >= 0 && c < All::count ? names[c] : "?"; }
    const char* cfg_names() override { return "threads alone_first"; }
    void generate(Rng& r, Case& c) override {
        const int nt = 2 + int(r.below(4) == 3);
        c.cfg = {nt, int(r.below(2))};
        const int main = int(r.below(All::count)), second = int(r.below(All::count));
        const int total = int(r.range(nt, nt + 3));
        // the same arguments again make the same code run in several threads
        const i64 a = i64(r.below(64)), b = i64(r.below(8));
        for (int i = 0; i < total; ++i) {
            Op o;
            o.tid = 1 + int(i < nt ? u64(i) : r.below(u64(nt)));
            o.code = r.chance(4, 5) ? main : second;
            o.a = r.chance(1, 3) ? a : i64(r.below(64));
            o.b = r.chance(1, 2) ? b : i64(r.below(8));
            o.c = i64(r.below(64));
            o.d = r.chance(2, 3);
            if (r.chance(1, 8)) { o.fk = F_ALLOC; o.fn = r.chance(1, 4) ? -1 - int(r.below(4)) : 1 + int(r.below(10)); }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override {
        u64 h = u64(c.cfg[1]);
        for (auto& o : c.ops) h = h * 31 + u64(o.code) * 64 + u64(o.d * 8 + o.b);
        state(h);
        Sut sut;
        std::vector<u64> got(c.ops.size(), 0), alone(c.ops.size(), 0);
        All::Table t;
        for (auto& o : c.ops) t.make(o.code);
        Ctx x = {c, t, got.data()};
        if (c.cfg[1]) for (size_t i = 0; i < c.ops.size(); ++i) alone[i] = x.go(c.ops[i]);
        run_threads(c.cfg[0], x);
        if (!c.cfg[1]) for (size_t i = 0; i < c.ops.size(); ++i) alone[i] = x.go(c.ops[i]);
        for (size_t i = 0; i < c.ops.size(); ++i) {
            ev(got[i]);
            SIM_CHECK(got[i] == alone[i], "other-result", "operation %zu (%s, %s) observes something else than when it runs alone", i, names[c.ops[i].code], c.ops[i].d & 1 ? "const use of a shared object" : "own objects");
        }
    }
};
}
namespace sim { Harness* make_harness() { static char mem[sizeof(H)]; static H* h = ::new (static_cast<void*>(mem)) H; return h; } }
