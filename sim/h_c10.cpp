#include "vec.hpp"
#include <itlib/small_vector.hpp>

using namespace sim;

template <typename T_, size_t N_, size_t R_, bool Copy, bool Track, bool Movable, bool OwnAlloc, int Kind = 0>
struct Tr {
    typedef T_ T;
    typedef typename std::conditional<OwnAlloc, TAlloc<T, Kind>, std::allocator<T>>::type A;
    typedef itlib::small_vector<T, N_, R_, A> V;
    typedef itlib::small_vector<T, N_ + 3, 0, A> V2;
    static constexpr bool copyable = Copy, tracked = Track, bounded = false, has_static = true, has_reserve = true,
        movable = Movable, std_swap = true, lenient_moved = false, allocs = OwnAlloc;
    static constexpr size_t N = N_, R = R_, N2 = N_ + 3;
    static A alloc(int s) { return mk(s, std::integral_constant<bool, OwnAlloc>()); }
    static A mk(int s, std::true_type) { return A(100 + s); }
    static A mk(int, std::false_type) { return A(); }
    static int own_id(int s) { return OwnAlloc ? 100 + s : 0; }
    static int copied_id(int i) { return Kind ? i % 1000 + 1000 : i; }
    static int id(const V& v) { return v.get_allocator().id; }
    template <typename... X>
    static void make(Raw<V>& r, int s, X&&... x) { r.make(std::forward<X>(x)..., alloc(s)); }
    static void make_copy(Raw<V>& r, int s, const V& o) { r.make(o, alloc(s)); }
    static void make2(Raw<V2>& r) { r.make(alloc(5)); }
    template <typename E> static auto set(E& e, i64 x) -> decltype(e.set(x)) { e.set(x); }
    static void set(Pod& e, i64 x) { e = Pod(x); }
    static void set(int& e, i64 x) { e = int(x); }
};

template <typename T> struct W { static void go(Case& c) { VecWorld<T> w(c); w.run(); } };
typedef Elem<1> E;
typedef Elem<2, BOTH, 40> Big;
typedef Elem<3, BOTH, 0, 32> Wide;
typedef MoveOnly<4> MO;
typedef CopyOnly<5> CO;

SIM_CFG(0, W<Tr<E, 4, 0, true, true, true, true>>)
SIM_CFG(1, W<Tr<E, 4, 5, true, true, true, true>>)
SIM_CFG(2, W<Tr<E, 4, 3, true, true, true, true, 1>>)
SIM_CFG(3, W<Tr<E, 1, 0, true, true, true, true>>)
SIM_CFG(4, W<Tr<E, 1, 2, true, true, true, false>>)
SIM_CFG(5, W<Tr<E, 6, 4, true, true, true, false>>)
SIM_CFG(6, W<Tr<Big, 3, 2, true, true, true, true>>)
SIM_CFG(7, W<Tr<Wide, 3, 4, true, true, true, true>>)
SIM_CFG(8, W<Tr<MO, 4, 2, false, true, true, true>>)
SIM_CFG(9, W<Tr<MO, 3, 0, false, true, true, false>>)
SIM_CFG(10, W<Tr<CO, 4, 3, true, true, false, true>>)
SIM_CFG(11, W<Tr<int, 5, 3, true, false, true, true>>)
SIM_CFG(12, W<Tr<Pod, 4, 0, true, false, true, false>>)
SIM_CFG(13, W<Tr<E, 2, 1, true, true, true, true, 1>>)
SIM_CFG(14, W<Tr<Selfy, 4, 3, true, false, true, true>>)
// large ones: used rarely
SIM_CFG(15, W<Tr<int, 256, 200, true, false, true, true>>)
SIM_CFG(16, W<Tr<E, 130, 0, true, true, true, true>>)
SIM_CFG(17, W<Tr<Small<6>, 4, 2, true, true, true, true>>)
SIM_CFG(18, W<Tr<ThrowMove<7>, 4, 3, true, true, false, true>>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C10"; }
    const char* op_name(int c) override { return vop_name(c); }
    const char* cfg_names() override { return "element type, static capacity and revert limit"; }
    void generate(Rng& r, Case& c) override {
        static int w[V_NOPS];
        for (int i = 0; i < V_NOPS; ++i) w[i] = 3;
        w[V_HUGE] = 1; w[V_CONVERT] = 0; w[V_CHURN] = 1; w[V_OUT_OF_RANGE] = 1; w[V_REMAKE] = 1;
        c.cfg.push_back(r.chance(1, 60) ? 15 + int(r.below(2)) : r.chance(1, 9) ? 17 + int(r.below(2)) : int(r.below(15)));
        gen_vec(r, c, 14, w);
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
