#include "vec.hpp"
#include <itlib/static_vector.hpp>

using namespace sim;

template <typename T_, size_t N_, bool Copy, bool Track, bool Movable>
struct Tr {
    typedef T_ T;
    typedef itlib::static_vector<T, N_> V;
    typedef itlib::static_vector<T, N_ + 3> V2;
    static constexpr bool copyable = Copy, tracked = Track, bounded = true, has_static = false, has_reserve = false,
        movable = Movable, std_swap = true, lenient_moved = false, allocs = false;
    static int own_id(int) { return 0; }
    static int copied_id(int) { return 0; }
    static constexpr size_t N = N_, R = 0, N2 = N_ + 3;
    template <typename... X>
    static void make(Raw<V>& r, int, X&&... x) { r.make(std::forward<X>(x)...); }
    static void make_copy(Raw<V>& r, int, const V& o) { r.make(o); }
    static void make2(Raw<V2>& r) { r.make(); }
    template <typename E> static auto set(E& e, i64 x) -> decltype(e.set(x)) { e.set(x); }
    static void set(Pod& e, i64 x) { e = Pod(x); }
    static void set(int& e, i64 x) { e = int(x); }
};

template <typename T> struct W { static void go(Case& c) { VecWorld<T> w(c); w.run(); } };
typedef Elem<1> E;
typedef Elem<2, BOTH, 40> Big;
typedef Elem<3, BOTH, 0, 32> Wide;
typedef MoveOnly<4> MO;
typedef CopyOnly<5> CO;

SIM_CFG(0, W<Tr<E, 6, true, true, true>>)
SIM_CFG(1, W<Tr<E, 1, true, true, true>>)
SIM_CFG(2, W<Tr<E, 13, true, true, true>>)
SIM_CFG(3, W<Tr<E, 3, true, true, true>>)
SIM_CFG(4, W<Tr<Big, 5, true, true, true>>)
SIM_CFG(5, W<Tr<Wide, 6, true, true, true>>)
SIM_CFG(6, W<Tr<MO, 6, false, true, true>>)
SIM_CFG(7, W<Tr<MO, 10, false, true, true>>)
SIM_CFG(8, W<Tr<CO, 6, true, true, false>>)
SIM_CFG(9, W<Tr<CO, 10, true, true, false>>)
SIM_CFG(10, W<Tr<int, 8, true, false, true>>)
SIM_CFG(11, W<Tr<Pod, 7, true, false, true>>)
SIM_CFG(12, W<Tr<Selfy, 7, true, false, true>>)
// large ones: used rarely
SIM_CFG(13, W<Tr<int, 256, true, false, true>>)
SIM_CFG(14, W<Tr<E, 131, true, true, true>>)
SIM_CFG(15, W<Tr<int, 65536, true, false, true>>)
SIM_CFG(16, W<Tr<Small<6>, 6, true, true, true>>)
SIM_CFG(17, W<Tr<ThrowMove<7>, 6, true, true, false>>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C11"; }
    const char* op_name(int c) override { return vop_name(c); }
    const char* cfg_names() override { return "element type and capacity"; }
    void generate(Rng& r, Case& c) override {
        static int w[V_NOPS];
        for (int i = 0; i < V_NOPS; ++i) w[i] = 3;
        w[V_RESERVE] = w[V_SHRINK] = w[V_REVERT] = w[V_OUT_OF_RANGE] = 0;
        w[V_HUGE] = 1; w[V_CHURN] = 1; w[V_REMAKE] = 1;
        c.cfg.push_back(r.chance(1, 60) ? r.chance(1, 20) ? 15 : 13 + int(r.below(2)) : r.chance(1, 8) ? 16 + int(r.below(2)) : int(r.below(13)));
        gen_vec(r, c, 14, w);
        for (auto& o : c.ops) if (o.fk == F_ALLOC) o.fk = F_ELEM; // nothing to allocate
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
