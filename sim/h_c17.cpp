#include "vec.hpp"
#include <itlib/dynamic_bitset.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>

using namespace sim;

enum BOp {
    B_CTOR, B_CTOR_SIZE, B_COPY_CTOR, B_MOVE_CTOR, B_COPY_ASSIGN, B_MOVE_ASSIGN, B_SELF_COPY, B_SWAP, B_SET, B_RESET, B_SETB, B_FLIP,
    B_REF, B_ITER, B_ITER_WRITE, B_RESIZE, B_RESERVE, B_PUSH, B_ASSIGN, B_APPEND, B_COPY, B_COPY_SELF, B_DATA, B_STATIC, B_HUGE, B_FILL, B_NOPS
};
static const char* bnames[] = {"construct()", "construct(size, value)", "copy construct", "move construct", "copy assign", "move assign", "self assign", "swap",
    "set", "reset", "set(bool)", "flip", "bit reference", "iterate", "write through iterators", "resize", "reserve", "push_back", "assign", "append", "copy",
    "copy within", "write words", "static functions", "huge size", "set all"};

template <typename Buf_, size_t Cap = 0, bool Ids = false>
struct BT {
    typedef Buf_ Buf;
    static constexpr size_t cap = Cap; // words, of bounded buffers
    static constexpr bool ids = Ids;
};

template <typename Tr>
struct BitWorld {
    typedef typename Tr::Buf Buf;
    typedef itlib::dynamic_bitset<Buf> B;
    typedef typename B::word_type Word;
    typedef typename B::allocator_type Al;
    static constexpr size_t bpw = sizeof(Word) * 8;
    Case& cs;
    Raw<B> slot[3];
    std::vector<bool> model[3];
    int ids[3] = {1, 1, 1};
    explicit BitWorld(Case& c) : cs(c) {}

    static Al al(int id) { if constexpr (Tr::ids) return Al(id); else return Al(); }
    static size_t words(size_t bits) { return bits / bpw + (bits % bpw ? 1 : 0); }
    static bool fits(size_t bits) { return !Tr::cap || words(bits) <= Tr::cap; }

    void check_slot(int s, const char* when) {
        B& b = *slot[s];
        const B& c = b;
        auto& m = model[s];
        SIM_CHECK(c.size() == m.size(), "state", "%s: slot %d has %zu bits, expected %zu", when, s, c.size(), m.size());
        SIM_CHECK(c.empty() == m.empty() && c.word_size() == words(m.size()) && c.byte_size() == (m.size() + 7) / 8 && c.buffer().size() == words(m.size()), "state", "%s: slot %d reports wrong sizes", when, s);
        SIM_CHECK(c.data() == c.buffer().data() && b.data() == c.data(), "state", "%s: data is not the buffer", when);
        bool any = false, all = true;
        const Word* w = c.data();
        for (size_t i = 0; i < m.size(); ++i) {
            bool x = m[i];
            any |= x; all &= x;
            SIM_CHECK(c.test(i) == x && c[i] == x && bool((w[i / bpw] >> (i % bpw)) & 1) == x, "bits", "%s: slot %d bit %zu of %zu is %d, expected %d", when, s, i, m.size(), int(c.test(i)), int(x));
        }
        SIM_CHECK(c.any() == any && c.none() == !any, "bits", "%s: slot %d of %zu bits: any is %d, none is %d", when, s, m.size(), int(c.any()), int(c.none()));
        if (!m.empty()) SIM_CHECK(c.all() == all, "bits", "%s: slot %d of %zu bits: all is %d", when, s, m.size(), int(c.all()));
    }
    void check_all(const char* when) { for (int s = 0; s < 3; ++s) if (slot[s].p) check_slot(s, when); }
    void kill(int s) { { Sut g; slot[s].kill(); } model[s].clear(); }
    void ensure(int s, u64 bits) {
        if (slot[s].p) return;
        NoFaults nf;
        size_t n = size_t(bits % (3 * bpw));
        { Sut g; slot[s].make(n, Word(0), al(1)); }
        ids[s] = 1;
        model[s].assign(n, false);
        for (size_t i = 0; i < n; ++i) if (mix64(bits * 131 + i) & 1) { slot[s]->set(i); model[s][i] = true; }
    }
    static size_t size_from(i64 x) { // sizes near word boundaries, or anywhere
        u64 h = u64(x);
        size_t w = size_t((h >> 8) % 6);
        if ((h >> 4 & 0xff) == 0xff) { // large ones: word counts and sizes around 2^8 and 2^16
            static const size_t big[] = {255 * bpw, 256 * bpw, 257 * bpw + 3, 255, 256, 257, 65535, 65536, 65537, 256 * bpw - 1, 256 * bpw + 1, 1000};
            return big[h & 3 ? (h & 3) : 4 + mix64(h) % 8];
        }
        if ((h & 3) == 0) return size_t(mix64(h) % (5 * bpw));
        if ((h & 3) == 1) return w * bpw;
        i64 n = i64(w * bpw) + i64((h >> 4) % 5) - 2;
        return n < 0 ? 0 : size_t(n);
    }
    size_t pos(i64 x, size_t n) const { // below n
        u64 h = u64(x);
        switch (h & 7) {
        case 0: return 0;
        case 1: return n - 1;
        case 2: { size_t p = (n - 1) / bpw * bpw; return p; }
        case 3: { size_t p = size_t((h >> 8) % (n / bpw + 1)) * bpw; p = p ? p - 1 : 0; return p < n ? p : n - 1; }
        default: return size_t(mix64(h) % n);
        }
    }

    void run() {
        for (auto& o : cs.ops) step(o);
        for (int s = 0; s < 3; ++s) if (slot[s].p) kill(s);
        check_no_leaks("the end");
    }

    void step(const Op& op) {
        int s = int(op.a & 3) % 3, t = int((op.a >> 2) & 3) % 3;
        ensure(s, u64(op.a) >> 4);
        ensure(t, u64(op.a) >> 10);
        OpScope scope(op);
        B& b = *slot[s];
        auto& m = model[s];
        auto before = m, want = m;
        Outcome o = OK;
        bool ran = true, ctor = false, must_throw = false;
        int code = op.code, id = 1 + int(op.d & 1);
        size_t n = m.size();
        switch (code) {
        case B_CTOR:
            ctor = true; kill(s); want.clear();
            o = sut([&] { if (op.c & 1) slot[s].make(al(id)); else { id = 100; slot[s].make(); } });
            if (o == OK) ids[s] = Tr::ids ? id : 1;
            break;
        case B_CTOR_SIZE: {
            size_t k = size_from(op.b);
            Word v = Word(mix64(u64(op.c)));
            if ((op.c & 3) == 0) v = Word(~Word(0));
            if ((op.c & 3) == 1) v = 0;
            must_throw = !fits(k);
            ctor = true; kill(s); want.assign(k, false);
            for (size_t i = 0; i < k; ++i) want[i] = (v >> (i % bpw)) & 1;
            if (v == 0 && (op.c & 4)) { id = 100; o = sut([&] { slot[s].make(k); }); }
            else if (op.c & 8) { id = 100; o = sut([&] { slot[s].make(k, v); }); }
            else o = sut([&] { slot[s].make(k, v, al(id)); });
            if (o == OK) ids[s] = Tr::ids ? id : 1;
            break;
        }
        case B_COPY_CTOR:
            if (s == t) { ran = false; break; }
            ctor = true; kill(s); want = model[t];
            o = sut([&] { slot[s].make(static_cast<const B&>(*slot[t])); });
            if (o == OK) ids[s] = ids[t];
            break;
        case B_MOVE_CTOR:
            if (s == t) { ran = false; break; }
            ctor = true; kill(s); want = model[t];
            o = sut([&] { slot[s].make(std::move(*slot[t])); });
            if (o == OK) { model[t].clear(); ids[s] = ids[t]; }
            break;
        case B_COPY_ASSIGN:
            if (s == t) { ran = false; break; }
            want = model[t];
            o = sut([&] { b = static_cast<const B&>(*slot[t]); });
            break;
        case B_MOVE_ASSIGN:
            if (s == t || ids[s] != ids[t]) { ran = false; break; }
            want = model[t];
            o = sut([&] { b = std::move(*slot[t]); });
            if (o == OK) model[t].clear();
            break;
        case B_SELF_COPY:
            if (op.c & 1) { // moved onto itself it keeps its bits or has none, like a moved-from one
                B& alias = b;
                o = sut([&] { b = std::move(alias); });
                if (!b.size()) want.clear();
                break;
            }
            { B& alias = b; o = sut([&] { b = static_cast<const B&>(alias); }); break; }
        case B_SWAP:
            if (ids[s] != ids[t]) { ran = false; break; }
            want = model[t];
            o = sut([&] { std::swap(b, *slot[t]); }); // also with itself
            if (o == OK) model[t] = before;
            break;
        case B_SET: if (!n) { ran = false; break; } { size_t i = pos(op.b, n); want[i] = true; o = sut([&] { b.set(i); }); } break;
        case B_RESET: if (!n) { ran = false; break; } { size_t i = pos(op.b, n); want[i] = false; o = sut([&] { b.reset(i); }); } break;
        case B_SETB: if (!n) { ran = false; break; } { size_t i = pos(op.b, n); want[i] = op.c & 1; o = sut([&] { b.set(i, op.c & 1); }); } break;
        case B_FLIP: if (!n) { ran = false; break; } { size_t i = pos(op.b, n); want[i] = !want[i]; o = sut([&] { b.flip(i); }); } break;
        case B_FILL:
            for (size_t i = 0; i < n; ++i) want[i] = op.c & 1;
            o = sut([&] { for (size_t i = 0; i < n; ++i) b.set(i, op.c & 1); });
            if (n && (op.c & 2)) { size_t i = pos(op.b, n); want[i] = !want[i]; b.flip(i); }
            break;
        case B_REF: {
            if (!n) { ran = false; break; }
            size_t i = pos(op.b, n);
            bool x = op.c & 1, got = !x, got2 = !x;
            bool old = want[i];
            o = sut([&] {
                auto r = b[i];
                got = r.test();
                got2 = r;
                switch ((op.c >> 1) % 6) {
                case 0: r.set(); want[i] = true; break;
                case 1: r.reset(); want[i] = false; break;
                case 2: r.flip(); want[i] = !old; break;
                case 3: r.set(x); want[i] = x; break;
                case 4: { bool y = (r = x); want[i] = x; SIM_CHECK(y == x, "bits", "assigning a bit reference gives %d", int(y)); break; }
                case 5: b[i] = x; want[i] = x; break;
                }
                SIM_CHECK(r.test() == want[i] && bool(r) == want[i], "bits", "a bit reference does not follow its bit");
            });
            SIM_CHECK(got == old && got2 == old, "bits", "a bit reference reads %d, expected %d", int(got), int(old));
            break;
        }
        case B_ITER: {
            o = sut([&] {
                const B& c = b;
                size_t k = 0;
                SIM_CHECK(size_t(c.end() - c.begin()) == n && size_t(b.end() - b.begin()) == n, "iterate", "end - begin is not the size");
                for (bool x : c) { SIM_CHECK(k < n && x == want[k], "iterate", "element %zu of iteration is wrong", k); ++k; }
                SIM_CHECK(k == n, "iterate", "iteration gave %zu of %zu bits", k, n);
                k = 0;
                for (auto it = b.begin(); it != b.end(); ) {
                    typename B::const_iterator ci = it;
                    SIM_CHECK(bool(*it) == want[k] && *ci == want[k], "iterate", "element %zu of iteration is wrong", k);
                    if (op.c & 1) ++it; else { auto old = it++; SIM_CHECK(it - old == 1 && !(old == it), "iterate", "post increment is wrong"); }
                    ++k;
                }
                SIM_CHECK(k == n, "iterate", "iteration gave %zu of %zu bits", k, n);
                for (auto it = c.end(); it != c.begin(); ) {
                    if (op.c & 2) --it; else { auto old = it--; SIM_CHECK(old - it == 1, "iterate", "post decrement is wrong"); }
                    --k;
                    SIM_CHECK(*it == want[k], "iterate", "element %zu of backward iteration is wrong", k);
                }
                if (n) {
                    size_t i = pos(op.b, n);
                    const auto it = b.begin() + ptrdiff_t(i);
                    auto back = b.end() - ptrdiff_t(n - i);
                    auto ct = c.begin() + ptrdiff_t(i);
                    auto cb = c.end() - ptrdiff_t(n - i);
                    SIM_CHECK(*it == want[i] && it == back && ct == cb && *ct == want[i] && size_t(it - b.begin()) == i && size_t(ct - c.begin()) == i, "iterate", "iterator arithmetic is wrong");
                    auto p = c.begin() + ptrdiff_t(i);
                    auto q = p++;
                    SIM_CHECK(q == ct && p - q == 1, "iterate", "post increment is wrong");
                    --p;
                    SIM_CHECK(p == ct, "iterate", "decrement is wrong");
                    auto r = b.begin() + ptrdiff_t(i);
                    auto r2 = ++r;
                    auto r3 = r--;
                    SIM_CHECK(r2 == r3 && r == it && size_t((--r2) - b.begin()) == i, "iterate", "decrement is wrong");
                }
            });
            break;
        }
        case B_ITER_WRITE: {
            if (!n) { ran = false; break; }
            size_t i = pos(op.b, n), k = 1 + size_t(op.d) % 9;
            o = sut([&] {
                auto it = b.begin() + ptrdiff_t(i);
                for (; k && it != b.end(); --k) {
                    bool x = (op.c >> (k & 7)) & 1;
                    want[i] = x;
                    *it = x;
                    ++it;
                    ++i;
                }
            });
            break;
        }
        case B_RESIZE: {
            size_t k = op.c & 8 ? (n + size_t(op.b & 7) > 3 ? n + size_t(op.b & 7) - 3 : 0) : size_from(op.b);
            must_throw = !fits(k);
            want.resize(k, false);
            o = sut([&] { b.resize(k); });
            break;
        }
        case B_RESERVE: {
            if constexpr (Tr::cap) { ran = false; break; }
            else {
                size_t k = size_from(op.b);
                o = sut([&] { b.reserve(k); });
                if (o == OK) SIM_CHECK(b.buffer().capacity() >= words(k), "state", "reserve(%zu) left %zu words", k, size_t(b.buffer().capacity()));
            }
            break;
        }
        case B_PUSH:
            must_throw = !fits(n + 1);
            want.push_back(op.c & 1);
            o = sut([&] { b.push_back(op.c & 1); });
            break;
        case B_ASSIGN: {
            size_t k = size_t(op.b) % 6;
            if (Tr::cap && k > Tr::cap) k = Tr::cap;
            Raw<Buf> buf;
            { NoFaults nf; Sut g; buf.make(al(id)); for (size_t i = 0; i < k; ++i) buf->push_back(Word(mix64(u64(op.c) + i))); }
            want.assign(k * bpw, false);
            for (size_t i = 0; i < k * bpw; ++i) want[i] = ((*buf)[i / bpw] >> (i % bpw)) & 1;
            const Buf& cb = *buf;
            o = sut([&] { b.assign(cb); });
            for (size_t i = 0; i < k; ++i) SIM_CHECK(cb[i] == Word(mix64(u64(op.c) + i)), "argument", "assign changed its argument");
            NoFaults nf; Sut g;
            buf.kill();
            break;
        }
        case B_APPEND:
            if (n + model[t].size() > (n > 12 * bpw ? 70000 : 12 * bpw)) { ran = false; break; }
            must_throw = !fits(n + model[t].size());
            want.insert(want.end(), model[t].begin(), model[t].end()); // also to itself
            o = sut([&] { b.append(*slot[t]); });
            break;
        case B_COPY: case B_COPY_SELF: {
            if (code == B_COPY_SELF) t = s;
            else if (s == t) { ran = false; break; }
            size_t tn = model[t].size(), f, g, k;
            if (s == t) {
                // two disjoint ranges
                if (n < 2) { ran = false; break; }
                f = pos(op.b, n); g = pos(op.c, n);
                if (f == g) g = g ? g - 1 : g + 1;
                size_t lo = f < g ? f : g, hi = f < g ? g : f, room = hi - lo < n - hi ? hi - lo : n - hi;
                k = (op.d & 1) ? room : size_t(op.d >> 1) % (room + 1);
            }
            else {
                f = n ? pos(op.b, n) : 0; g = tn ? pos(op.c, tn) : 0;
                if ((op.b & 0x100) && n) f = 0;
                size_t room = n - f < tn - g ? n - f : tn - g;
                k = (op.d & 1) ? room : size_t(op.d >> 1) % (room + 1);
            }
            for (size_t i = 0; i < k; ++i) want[f + i] = model[t][g + i];
            o = sut([&] {
                auto from = b.begin() + ptrdiff_t(f), to = b.begin() + ptrdiff_t(f + k);
                if (op.c & 0x100) b.copy(from, to, static_cast<const B&>(*slot[t]).begin() + ptrdiff_t(g));
                else b.copy(from, to, slot[t]->begin() + ptrdiff_t(g));
            });
            break;
        }
        case B_DATA: {
            if (!n) { ran = false; break; }
            size_t w = size_t(op.b) % words(n);
            if (op.d & 1) w = words(n) - 1;
            Word v = Word(mix64(u64(op.c)));
            b.data()[w] = v; // includes bits beyond the size
            for (size_t i = w * bpw; i < n && i < (w + 1) * bpw; ++i) want[i] = (v >> (i % bpw)) & 1;
            break;
        }
        case B_STATIC: {
            size_t i = size_t(op.b) * 7 + size_t(op.c);
            SIM_CHECK(B::word_size(i) == words(i) && B::word_index(i) == i / bpw && B::bit_index(i) == i % bpw && B::word_mask(i) == Word(Word(1) << (i % bpw)), "static", "static functions are wrong at %zu", i);
            break;
        }
        case B_HUGE: {
            size_t k = ~size_t(0) - size_t(op.b) % 80;
            if (op.c & 1) k = (size_t(1) << 62) + size_t(op.b);
            must_throw = true;
            if (op.c & 2) { ctor = true; kill(s); o = sut([&] { slot[s].make(k, Word(0), al(1)); }); if (o == OK) { slot[s].kill(); want.clear(); } }
            else if ((op.c & 4) && !Tr::cap) { if constexpr (!Tr::cap) o = sut([&] { b.reserve(k); }); }
            else o = sut([&] { b.resize(k); });
            break;
        }
        }
        if (!ran) return;
        if (o == OK) {
            SIM_CHECK(!must_throw, "outcome", "%s beyond what the buffer can hold succeeded", bnames[code]);
            SIM_CHECK(!faults_fired(), "outcome", "%s hid an allocation failure", bnames[code]);
            model[s] = want;
        }
        else {
            SIM_CHECK(must_throw || (o == BAD_ALLOC && faults_fired()), "outcome", "%s ended with %s without cause", bnames[code], outcome_name(o));
            if (ctor) { slot[s].p = nullptr; model[s].clear(); }
            else model[s] = before;
        }
        check_all(bnames[code]);
        ev(u64(code)); ev(u64(o)); ev(u64(slot[s].p ? model[s].size() : 99999));
        state(mix64(u64(cs.cfg[0]) * 64 + u64(code) * 8 + u64(o)) ^ mix64(before.size() % bpw + 1000 * (model[s].size() % bpw)));
    }
};

template <typename T> struct W { static void go(Case& c) { BitWorld<T> w(c); w.run(); } };
SIM_CFG(0, W<BT<std::vector<uint32_t, TAlloc<uint32_t>>, 0, true>>)
SIM_CFG(1, W<BT<std::vector<uint8_t, TAlloc<uint8_t>>, 0, true>>)
SIM_CFG(2, W<BT<std::vector<uint16_t>>>)
SIM_CFG(3, W<BT<std::vector<uint64_t, TAlloc<uint64_t>>, 0, true>>)
SIM_CFG(4, W<BT<itlib::small_vector<uint16_t, 3, 0, TAlloc<uint16_t>>, 0, true>>)
SIM_CFG(5, W<BT<itlib::small_vector<uint64_t, 2, 1>>>)
SIM_CFG(6, W<BT<itlib::pod_vector<uint32_t>>>)
SIM_CFG(7, W<BT<itlib::pod_vector<uint8_t>>>)
SIM_CFG(8, W<BT<itlib::static_vector<uint32_t, 4>, 4>>)
SIM_CFG(9, W<BT<itlib::static_vector<uint8_t, 7>, 7>>)
SIM_CFG(10, W<BT<std::vector<uint32_t>>>)
SIM_CFG(11, W<BT<itlib::pod_vector<uint64_t>>>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C17"; }
    const char* op_name(int c) override { return c >= 0 && c < B_NOPS ? bnames[c] : "?"; }
    const char* cfg_names() override { return "buffer type"; }
    void generate(Rng& r, Case& c) override {
        c.cfg.push_back(int(r.below(u64(cfg_count()))));
        int w[B_NOPS];
        for (int i = 0; i < B_NOPS; ++i) w[i] = r.chance(1, 4) ? 0 : int(2 + r.below(6));
        w[B_HUGE] = w[B_HUGE] ? 1 : 0;
        int n = int(1 + r.below(r.chance(1, 8) ? 40 : 14)), frate = int(r.below(3)), slots = int(1 + r.below(3));
        for (int i = 0; i < n; ++i) {
            Op o;
            o.code = r.pick(w, B_NOPS);
            o.a = i64(r.below(u64(slots))) | (i64(r.below(3)) << 2) | (i64(r.below(1 << 16)) << 4);
            o.b = i64(r.below(1 << 12));
            o.c = i64(r.below(1 << 12));
            o.d = i64(r.below(1 << 10));
            if (frate && r.chance(unsigned(frate), 4)) {
                o.fk = F_ALLOC;
                o.fn = int(1 + r.below(r.chance(2, 3) ? 1 : 3));
                if (r.chance(1, 6)) o.fn = -o.fn;
            }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
