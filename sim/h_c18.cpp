#include "vec.hpp"
#include <itlib/mem_streambuf.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
#include <iomanip>
#include <ostream>
#include <sstream>
#include "huge.hpp"

using namespace sim;

enum OOp { O_PUTC, O_SPUTC, O_WRITE, O_SPUTN, O_BIG, O_FORMAT, O_TELL, O_SEEK, O_SEEK_CUR, O_SEEK_OUT, O_PEEK, O_CLEAR, O_GET, O_REMAKE, O_FLUSH, O_STREAM, O_COPY, O_MOVE, O_NOPS };
static const char* onames[] = {"put", "sputc", "write", "sputn", "big write", "formatted write", "tellp", "seekp", "seekp(cur)", "seek outside", "peek_container", "clear",
    "get_container", "remake", "flush", "new stream", "copy", "move"};

template <typename C_, size_t Cap = 0>
struct OT { typedef C_ C; static constexpr size_t cap = Cap; };

template <typename Tr>
struct OWorld {
    typedef typename Tr::C C;
    typedef typename C::value_type Ch;
    typedef itlib::mem_ostreambuf<C> B;
    typedef std::basic_ostream<Ch> S;
    Case& cs;
    Raw<B> buf;
    Raw<S> out;
    std::vector<Ch> m; // what was written
    size_t pos = 0;
    u64 nc = 0;
    explicit OWorld(Case& c) : cs(c) {}

    Ch next() { ++nc; u64 h = mix64(nc); return (h & 15) == 0 ? Ch(0) : (h & 15) == 1 ? Ch(-1 - (sizeof(Ch) > 1 ? 2 : 0)) : Ch(h >> 8) == Ch(-1) ? Ch(1) : Ch(h >> 8); }
    void expect_written(const Ch* s, size_t n) {
        if (m.size() < pos + n) m.resize(pos + n);
        for (size_t i = 0; i < n; ++i) m[pos + i] = s[i];
        pos += n;
    }
    void check(const char* when) {
        B& b = *buf;
        SIM_CHECK(b.poff() == pos, "offset", "%s: poff is %zu, expected %zu", when, b.poff(), pos);
        const C& c = b.peek_container();
        SIM_CHECK(size_t(c.size()) >= m.size(), "lost", "%s: the container holds %zu characters, %zu were written", when, size_t(c.size()), m.size());
        for (size_t i = 0; i < m.size(); ++i) SIM_CHECK(c.data()[i] == m[i], "lost", "%s: character %zu of %zu is wrong", when, i, m.size());
    }
    void stream_up() { NoFaults nf; Host h; out.make(buf.p); }
    void stream_down() { NoFaults nf; out.kill(); }

    // a write of exactly s: either accepted as a whole, or only a prefix of it and a failure reported
    void written(const Ch* s, size_t n, Outcome o, bool ok, const char* what) {
        if (o == OK && ok) {
            SIM_CHECK(!faults_fired(), "outcome", "%s hid a failure to grow", what);
            expect_written(s, n);
            return;
        }
        SIM_CHECK(faults_fired() || (Tr::cap && pos + n > Tr::cap), "outcome", "%s of %zu characters at %zu failed without cause", what, n, pos);
        size_t p = buf->poff();
        SIM_CHECK(p >= pos && p <= pos + n, "offset", "%s: poff is %zu after a failed write of %zu at %zu", what, p, n, pos);
        expect_written(s, p - pos);
    }

    // characters put into b from where it is; then b holds all of v
    void put_into(B& b, std::vector<Ch>& v, size_t at, const char* what) {
        NoFaults nf;
        Ch d[12];
        size_t n = 1 + v.size() % 11;
        for (size_t i = 0; i < n; ++i) d[i] = next();
        if (Tr::cap && at + n > Tr::cap) n = 0;
        std::streamsize r = -1;
        sut([&] { r = b.sputn(d, std::streamsize(n)); });
        SIM_CHECK(r == std::streamsize(n), "outcome", "%s: a write gave %ld", what, long(r));
        if (v.size() < at + n) v.resize(at + n);
        for (size_t i = 0; i < n; ++i) v[at + i] = d[i];
        SIM_CHECK(b.poff() == at + n, "offset", "%s: poff is %zu, expected %zu", what, b.poff(), at + n);
        const C& c = b.peek_container();
        SIM_CHECK(size_t(c.size()) >= v.size(), "lost", "%s: the container holds %zu characters, %zu were written", what, size_t(c.size()), v.size());
        for (size_t i = 0; i < v.size(); ++i) SIM_CHECK(c.data()[i] == v[i], "lost", "%s: character %zu of %zu is wrong", what, i, v.size());
    }
    // another buffer made from (or assigned) this one: the same characters at the same offset, in memory of its own
    void copied(const Op& op) {
        bool move = op.code == O_MOVE, assign = op.c & 1, source_lives = op.c & 2;
        Raw<B> to;
        std::vector<Ch> tm;
        if (assign) {
            { NoFaults nf; Sut g; to.make(); }
            if (op.c & 4) put_into(*to, tm, 0, "another buffer");
        }
        size_t tpos = tm.size();
        if ((op.c & 8) && !move) { // to itself
            B& self = *buf;
            Outcome o = sut([&] { *buf = self; });
            SIM_CHECK(o == OK || faults_fired(), "outcome", "assigning itself threw without cause");
            check("assigned to itself");
        }
        Outcome o = sut([&] {
            if (assign) { B& r = move ? (*to = std::move(*buf)) : (*to = *buf); SIM_CHECK(&r == to.p, "state", "assignment returns another object"); }
            else if (move) to.make(std::move(*buf));
            else to.make(static_cast<const B&>(*buf));
        });
        NoFaults nf;
        if (o != OK) {
            SIM_CHECK(faults_fired() && !move, "outcome", "%s threw without cause", onames[op.code]);
            if (assign) { put_into(*to, tm, tpos, "the target of a failed copy"); Sut g; to.kill(); }
            else to.p = nullptr;
            return;
        }
        stream_down();
        std::vector<Ch> sm;
        size_t spos = 0;
        if (move) SIM_CHECK(buf->poff() == 0, "offset", "poff is %zu after the buffer was moved", buf->poff());
        else { sm = m; spos = pos; check("copied"); }
        SIM_CHECK(to->poff() == pos, "offset", "poff of the new buffer is %zu, expected %zu", to->poff(), pos);
        if (source_lives) { put_into(*buf, sm, spos, "the source"); spos = buf->poff(); }
        tm = m;
        put_into(*to, tm, pos, "the new buffer");
        if (source_lives) put_into(*buf, sm, spos, "the source");
        tpos = to->poff();
        { Sut g; buf.kill(); }
        put_into(*to, tm, tpos, "the new buffer alone");
        // go on with the new one
        m = tm; pos = to->poff();
        o = sut([&] { buf.make(std::move(*to)); to.kill(); });
        SIM_CHECK(o == OK, "outcome", "moving a buffer threw");
        stream_up();
    }

    void run() {
        bool rs = cs.cfg[1] & 1;
        { NoFaults nf; Sut g; if (rs && !(Tr::cap && size_t(cs.cfg[2]) > Tr::cap)) buf.make(size_t(cs.cfg[2])); else buf.make(); }
        stream_up();
        check("construct");
        for (auto& o : cs.ops) step(o);
        stream_down();
        if (buf.p) { Sut g; buf.kill(); }
        check_no_leaks("the end");
    }

    void step(const Op& op) {
        OpScope scope(op);
        B& b = *buf;
        S& st = *out;
        Outcome o = OK;
        int code = op.code;
        bool mask = op.d & 1; // stream throws
        static Ch data[70000];
        if (!st.good()) st.clear();
        if (mask) st.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        switch (code) {
        case O_PUTC: { Ch c = next(); o = sut([&] { st.put(c); }); written(&c, 1, o, st.good(), "put"); break; }
        case O_SPUTC: {
            Ch c = next();
            typename B::int_type r = std::char_traits<Ch>::eof();
            o = sut([&] { r = st.rdbuf()->sputc(c); });
            written(&c, 1, o, !std::char_traits<Ch>::eq_int_type(r, std::char_traits<Ch>::eof()), "sputc");
            if (o == OK) SIM_CHECK(r == std::char_traits<Ch>::to_int_type(c), "outcome", "sputc returned another character");
            break;
        }
        case O_WRITE: case O_SPUTN: case O_BIG: {
            size_t n = size_t(op.b) % ((op.b & 0x100) ? 80 : 12);
            if (code == O_BIG) n = (sizeof(Ch) == 2 && (op.c & 3) == 0) ? 65530 + size_t(op.b) % 40 : 100 + size_t(op.b) % 1000;
            if (op.b & 0x200) { // fill what is left exactly, or one more
                size_t left = b.peek_container().size() - pos;
                n = (op.c & 1) ? left : left + 1;
                if (n > 2000) n = 2000;
            }
            for (size_t i = 0; i < n; ++i) data[i] = next();
            bool ok = true;
            if (code == O_SPUTN) {
                std::streamsize r = -1;
                o = sut([&] { r = st.rdbuf()->sputn(data, std::streamsize(n)); });
                ok = o == OK && r == std::streamsize(n);
                if (o == OK) SIM_CHECK(r >= 0 && b.poff() == pos + size_t(r), "offset", "sputn returned %ld but moved by %ld", long(r), long(b.poff()) - long(pos));
            }
            else { o = sut([&] { st.write(data, std::streamsize(n)); }); ok = st.good(); }
            written(data, n, o, ok, onames[code]);
            break;
        }
        case O_FORMAT:
            if constexpr (std::is_same<Ch, char>::value || std::is_same<Ch, wchar_t>::value) {
                std::basic_ostringstream<Ch> ref;
                auto put = [&](std::basic_ostream<Ch>& x) {
                    switch (op.c % 6) {
                    case 0: x << int(op.b) << Ch('-') << long(op.b * 1000003); break;
                    case 1: x << std::setw(int(op.b % 20)) << std::setfill(Ch('*')) << int(op.c); break;
                    case 2: x << std::hex << std::showbase << unsigned(op.b) << std::dec << std::endl; break;
                    case 3: x << double(op.b) / 7 << std::ends; break;
                    case 4: x << std::setw(int(op.b % 30)) << "text" << bool(op.c & 64); break;
                    case 5: x << std::boolalpha << bool(op.b & 1) << Ch('x') << std::flush << short(op.b); break;
                    }
                };
                auto reset = [&](std::basic_ostream<Ch>& x) { x.flags(std::ios_base::fmtflags(std::ios_base::skipws | std::ios_base::dec)); x.width(0); x.fill(Ch(' ')); };
                put(ref);
                auto text = ref.str();
                o = sut([&] { put(st); });
                written(text.data(), text.size(), o, st.good(), "formatted write");
                reset(st);
            }
            break;
        case O_TELL: {
            SIM_CHECK(size_t(st.tellp()) == pos && size_t(b.pubseekoff(0, std::ios_base::cur)) == pos, "offset", "tellp is not the write position");
            break;
        }
        case O_SEEK: case O_SEEK_CUR: {
            size_t to = size_t(op.b) % (m.size() + 1);
            if (op.c & 1) to = m.size();
            std::streamoff off = std::streamoff(to), rel = off - std::streamoff(pos);
            typename B::pos_type r = typename B::off_type(-1);
            o = sut([&] {
                if (op.c & 2) { if (code == O_SEEK) st.seekp(typename B::pos_type(off)); else st.seekp(rel, std::ios_base::cur); r = st.tellp(); }
                else if (op.c & 4) { if (code == O_SEEK) st.seekp(off, std::ios_base::beg); else st.seekp(rel, std::ios_base::cur); r = st.tellp(); }
                else r = code == O_SEEK ? b.pubseekpos(typename B::pos_type(off)) : b.pubseekoff(rel, std::ios_base::cur, std::ios_base::out);
            });
            SIM_CHECK(o == OK && st.good() && typename B::off_type(r) == off, "seek", "a seek to %zu of %zu failed", to, m.size());
            pos = to;
            break;
        }
        case O_SEEK_OUT: {
            std::streamoff size = std::streamoff(b.peek_container().size()), far = 1 + std::streamoff(op.b % 50);
            if (op.c & 64) far += std::streamoff(1) << 40;
            typename B::pos_type r = typename B::off_type(0);
            bool via = op.c & 8, failed = false;
            o = sut([&] {
                std::ios_base::seekdir way = std::ios_base::beg;
                std::streamoff off = 0;
                switch (op.c % 6) {
                case 0: off = size + far; break;
                case 1: off = -far; break;
                case 2: way = std::ios_base::cur; off = -std::streamoff(pos) - far; break;
                case 3: way = std::ios_base::cur; off = size - std::streamoff(pos) + far; break;
                case 4: way = std::ios_base::end; off = far; break;
                case 5: way = std::ios_base::end; off = -size - far; break;
                }
                if (via) st.seekp(off, way);
                else if (way == std::ios_base::beg && (op.c & 16)) r = b.pubseekpos(off, std::ios_base::out);
                else r = b.pubseekoff(off, way, std::ios_base::out);
            });
            failed = via ? (o != OK || st.fail()) : typename B::off_type(r) == -1;
            SIM_CHECK(failed, "seek", "a seek outside the buffer of %ld succeeded", long(size));
            break;
        }
        case O_PEEK: break; // every check peeks
        case O_CLEAR: o = sut([&] { b.clear(); }); SIM_CHECK(o == OK, "outcome", "clear threw"); m.clear(); pos = 0; break;
        case O_GET: {
            Raw<C> got;
            o = sut([&] { got.make(b.get_container()); });
            if (o != OK) { SIM_CHECK(faults_fired(), "outcome", "get_container threw without cause"); got.p = nullptr; break; }
            const C& c = *got;
            SIM_CHECK(size_t(c.size()) == pos, "container", "the container has %zu characters, expected %zu", size_t(c.size()), pos);
            for (size_t i = 0; i < pos; ++i) SIM_CHECK(c.data()[i] == m[i], "container", "character %zu of %zu is wrong in the container", i, pos);
            m.clear();
            pos = 0;
            NoFaults nf; Sut g;
            got.kill();
            break;
        }
        case O_REMAKE: {
            stream_down();
            { Sut g; buf.kill(); }
            m.clear();
            pos = 0;
            size_t n = size_t(op.b) % 100;
            o = sut([&] { buf.make(n); });
            if (o != OK) {
                SIM_CHECK(faults_fired() || (Tr::cap && n > Tr::cap), "outcome", "construct(%zu) threw without cause", n);
                NoFaults nf; Sut g;
                buf.make();
            }
            else SIM_CHECK(buf->peek_container().size() >= n, "state", "construct(%zu) reserved %zu", n, size_t(buf->peek_container().size()));
            stream_up();
            break;
        }
        case O_FLUSH: o = sut([&] { st.flush(); }); SIM_CHECK(o == OK && st.good(), "outcome", "flush failed"); break;
        case O_STREAM: stream_down(); stream_up(); break;
        case O_COPY: case O_MOVE: copied(op); break;
        }
        { NoFaults nf; S& s2 = *out; s2.exceptions(std::ios_base::goodbit); s2.clear(); }
        check(onames[code]);
        ev(u64(code)); ev(u64(o)); ev(pos); ev(m.size());
        state(mix64(u64(cs.cfg[0]) * 64 + u64(code) * 4 + u64(o)) ^ mix64(100 * (pos == m.size()) + (pos == size_t(buf->peek_container().size())) + 10 * (pos == 0)));
    }
};


// a container of more than 2^31 characters: growing costs nothing, the characters lie in aliased memory
template <typename Ch>
struct HugeC {
    typedef Ch value_type;
    static Huge& mem() { static Huge h(size_t(15) << 30); return h; }
    static Huge& src() { static Huge h(size_t(9) << 30); return h; }
    typedef size_t size_type;
    typedef ptrdiff_t difference_type;
    typedef Ch* iterator;
    typedef const Ch* const_iterator;
    typedef Ch& reference;
    typedef const Ch& const_reference;
    size_t n = 0, cap = 0;
    HugeC() = default;
    explicit HugeC(size_t k) { resize(k); }
    HugeC(const HugeC&) = default;
    HugeC& operator=(const HugeC&) = default;
    HugeC(HugeC&& o) noexcept : n(o.n), cap(o.cap) { o.n = o.cap = 0; }
    HugeC& operator=(HugeC&& o) noexcept { if (&o != this) { n = o.n; cap = o.cap; o.n = o.cap = 0; } return *this; }
    bool empty() const { return !n; }
    size_t max_size() const { return limit(); }
    Ch* begin() { return data(); }
    Ch* end() { return data() + n; }
    const Ch* begin() const { return data(); }
    const Ch* end() const { return data() + n; }
    Ch& operator[](size_t i) { return data()[i]; }
    const Ch& operator[](size_t i) const { return data()[i]; }
    Ch& back() { return data()[n - 1]; }
    void push_back(Ch c) { resize(n + 1); data()[n - 1] = c; }
    static size_t limit() { return mem().size / sizeof(Ch); }
    Ch* data() { return reinterpret_cast<Ch*>(mem().base); }
    const Ch* data() const { return reinterpret_cast<const Ch*>(mem().base); }
    size_t size() const { return n; }
    size_t capacity() const { return cap; }
    void reserve(size_t k) { if (k > limit()) throw std::bad_alloc(); if (k > cap) cap = k; }
    void resize(size_t k) { if (k > cap) { reserve(k); size_t c = cap + cap / 3; if (c <= limit()) cap = c; } n = k; }
    void clear() { n = 0; }
    void swap(HugeC& o) { std::swap(n, o.n); std::swap(cap, o.cap); }
};

template <typename Ch>
struct HugeOWorld {
    typedef HugeC<Ch> C;
    typedef itlib::mem_ostreambuf<C> B;
    typedef std::basic_ostream<Ch> S;
    Case& cs;
    Raw<B> buf;
    Raw<S> out;
    size_t pos = 0, end = 0; // end: what was certainly written or reserved
    u64 nc = 0;
    explicit HugeOWorld(Case& c) : cs(c) {}
    void check(const char* when) { SIM_CHECK(buf->poff() == pos, "offset", "%s: poff is %zu, expected %zu", when, buf->poff(), pos); }
    void wrote(const Ch* s, size_t n, const char* what) {
        for (size_t i = 0; i < n; ++i) SIM_CHECK(buf->peek_container().data()[pos + i] == s[i], "lost", "%s: character %zu of %zu at %zu is wrong", what, i, n, pos);
        pos += n;
        if (pos > end) end = pos;
        check(what);
        SIM_CHECK(buf->peek_container().size() >= end, "lost", "%s: the container holds %zu characters, %zu were written", what, size_t(buf->peek_container().size()), end);
    }
    void run() {
        if (!C::mem().base || !C::src().base) { SIM_PROBE("no huge memory here"); return; }
        SIM_PROBE("a container beyond 2^31 characters");
        static const size_t sizes[] = {(size_t(1) << 31) - 1, size_t(1) << 31, 3000000019u, (size_t(1) << 31) - 40};
        size_t r = sizes[cs.cfg[2] & 3];
        Outcome o = sut([&] { if (cs.cfg[1] & 1) buf.make(r); else { buf.make(); } });
        SIM_CHECK(o == OK, "outcome", "the construction failed");
        out.make(buf.p);
        if (!(cs.cfg[1] & 1)) { // grow into it
            Ch c = Ch('x');
            buf->sputc(c); pos = end = 1;
        }
        for (auto& op : cs.ops) step(op);
        out.kill(); buf.kill();
    }
    void step(const Op& op) {
        OpScope scope(op);
        B& b = *buf;
        S& st = *out;
        st.clear();
        const size_t have = b.peek_container().size();
        static const size_t p2[] = {size_t(1) << 31, size_t(1) << 32, size_t(1) << 16, size_t(3) << 30};
        size_t to;
        switch (op.c & 7) {
        case 0: to = size_t(op.b) % 40; break;
        case 1: to = have - size_t(op.b) % (have < 40 ? have + 1 : 40); break;
        case 2: case 3: case 4: to = p2[(op.c >> 4) & 3] + size_t(op.b) % 40 - 20; break;
        default: to = size_t(mix64(u64(op.b) * 4096 + u64(op.c)) % (have + 1)); break;
        }
        if (to > have) to = have;
        typename B::off_type r = -2;
        switch (op.code) {
        case O_SEEK: case O_STREAM: case O_FORMAT: case O_FLUSH:
            sut([&] { switch (op.c & 3) {
                case 0: r = typename B::off_type(b.pubseekpos(std::streamoff(to), std::ios_base::out)); break;
                case 1: r = typename B::off_type(b.pubseekoff(std::streamoff(to), std::ios_base::beg, std::ios_base::out)); break;
                case 2: r = typename B::off_type(b.pubseekoff(std::streamoff(to) - std::streamoff(have), std::ios_base::end, std::ios_base::out)); break;
                default: st.seekp(std::streamoff(to), std::ios_base::beg); r = st.fail() ? -1 : std::streamoff(to); break;
            } });
            // where the end lies is not specified exactly: the container is larger than what was written
            if ((op.c & 3) == 2) { if (r >= 0) { pos = size_t(r); SIM_CHECK(pos == to || pos <= end, "seek", "a seek to %zu before the end gave %zu", have - to, pos); } check("seek"); break; }
            SIM_CHECK(r == std::streamoff(to) || (r == -1 && to > end), "seek", "a seek to %zu of %zu gave %ld", to, have, long(r));
            if (r >= 0) pos = to;
            check("seek");
            break;
        case O_SEEK_CUR:
            sut([&] { r = typename B::off_type(b.pubseekoff(std::streamoff(to) - std::streamoff(pos), std::ios_base::cur, std::ios_base::out)); });
            SIM_CHECK(r == std::streamoff(to) || (r == -1 && to > end), "seek", "a relative seek to %zu of %zu gave %ld", to, have, long(r));
            if (r >= 0) pos = to;
            check("seek");
            break;
        case O_SEEK_OUT:
            sut([&] { r = typename B::off_type((op.c & 1) ? b.pubseekoff(-std::streamoff(pos) - 1 - std::streamoff(op.b % 3) * 0x7fffffff, std::ios_base::cur, std::ios_base::out) : b.pubseekpos(std::streamoff(have) + 1 + std::streamoff(op.b % 3) * 0x7fffffff, std::ios_base::out)); });
            SIM_CHECK(r == -1, "seek", "a seek outside gave %ld", long(r));
            check("seek outside");
            break;
        case O_TELL: case O_PEEK:
            SIM_CHECK(std::streamoff(st.tellp()) == std::streamoff(pos), "offset", "tellp");
            break;
        case O_PUTC: case O_SPUTC: {
            Ch c = Ch('a' + ++nc % 26);
            Outcome o = sut([&] { if (op.code == O_PUTC) st.put(c); else b.sputc(c); });
            if (o != OK || !st.good()) { SIM_CHECK(pos >= C::limit(), "outcome", "a character at %zu was not taken", pos); return; }
            wrote(&c, 1, "put");
            break;
        }
        case O_GET: case O_CLEAR: case O_REMAKE: {
            if (op.code == O_GET && (op.c & 1)) {
                C got;
                sut([&] { got = b.get_container(); });
                SIM_CHECK(got.size() == pos, "lost", "get_container gave %zu characters, expected %zu", got.size(), pos);
            }
            else if (op.code == O_GET) return;
            else { sut([&] { b.clear(); }); }
            pos = end = 0;
            check("cleared");
            out.kill(); buf.kill();
            buf.make(size_t(3000000019u) - size_t(op.b));
            out.make(buf.p);
            break;
        }
        case O_BIG:
            if ((op.c & 511) == 3) { // more than an int can count
                SlowOp slow;
                size_t n = (size_t(1) << 31) + size_t(op.b);
                if (pos + n > C::limit()) return;
                const Ch* d = reinterpret_cast<const Ch*>(C::src().base);
                if (n * sizeof(Ch) > C::src().size) n = C::src().size / sizeof(Ch);
                std::streamsize got = -1;
                // the container's memory shows its last writes only: write the period which lies there
                sut([&] { got = b.sputn(d, std::streamsize(n)); });
                SIM_CHECK(got == std::streamsize(n), "outcome", "sputn of %zu gave %ld", n, long(got));
                for (size_t i = n - 100; i < n; ++i) SIM_CHECK(b.peek_container().data()[pos + i] == d[i], "lost", "sputn: character %zu of %zu", i, n);
                pos += n;
                if (pos > end) end = pos;
                check("sputn");
                SIM_PROBE("a write of more than 2^31 characters");
                break;
            }
            // fallthrough
        default: {
            Ch d[64];
            size_t n = size_t(op.b) % 60;
            for (size_t i = 0; i < n; ++i) d[i] = Ch('a' + ++nc % 26);
            std::streamsize got = std::streamsize(n);
            if (pos + n > C::limit()) return;
            sut([&] { if (op.c & 1) st.write(d, std::streamsize(n)); else got = b.sputn(d, std::streamsize(n)); });
            SIM_CHECK(st.good() && got == std::streamsize(n), "outcome", "a write at %zu failed", pos);
            wrote(d, n, "write");
            break;
        }
        }
        ev(u64(op.code)); ev(pos);
        nontrivial();
    }
};

template <typename T> struct W { static void go(Case& c) { OWorld<T> w(c); w.run(); } };
template <typename T> struct HW { static void go(Case& c) { HugeOWorld<T> w(c); w.run(); } };
SIM_CFG(0, W<OT<std::string>>)
SIM_CFG(1, W<OT<std::vector<char>>>)
SIM_CFG(2, W<OT<std::vector<char, TAlloc<char>>>>)
SIM_CFG(3, W<OT<std::wstring>>)
SIM_CFG(4, W<OT<std::u16string>>)
SIM_CFG(5, W<OT<itlib::small_vector<char, 20>>>)
SIM_CFG(6, W<OT<itlib::pod_vector<char>>>)
SIM_CFG(7, W<OT<itlib::static_vector<char, 60>, 60>>)
SIM_CFG(8, W<OT<itlib::pod_vector<wchar_t>>>)
SIM_CFG(9, W<OT<std::vector<char32_t>>>)
SIM_CFG(10, W<OT<itlib::small_vector<char16_t, 6, 3>>>)
SIM_CFG(11, W<OT<itlib::static_vector<wchar_t, 33>, 33>>)
SIM_CFG(12, HW<char>)
SIM_CFG(13, HW<wchar_t>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C18"; }
    const char* op_name(int c) override { return c >= 0 && c < O_NOPS ? onames[c] : "?"; }
    const char* cfg_names() override { return "container type, whether a reserve is given, reserve"; }
    void generate(Rng& r, Case& c) override {
        c.cfg.push_back(int(r.below(u64(cfg_count()))));
        c.cfg.push_back(int(r.below(2)));
        c.cfg.push_back(int(r.below(100)));
        int w[O_NOPS];
        for (int i = 0; i < O_NOPS; ++i) w[i] = r.chance(1, 4) ? 0 : int(2 + r.below(6));
        if (w[O_BIG]) w[O_BIG] = 1;
        int n = int(1 + r.below(r.chance(1, 8) ? 40 : 14)), frate = int(r.below(3));
        for (int i = 0; i < n; ++i) {
            Op o;
            o.code = r.pick(w, O_NOPS);
            o.b = i64(r.below(1 << 12));
            o.c = i64(r.below(1 << 12));
            o.d = i64(r.chance(1, 4));
            if (frate && r.chance(unsigned(frate), 4)) {
                o.fk = F_ALLOC;
                o.fn = int(1 + r.below(r.chance(2, 3) ? 1 : 3));
                if (r.chance(1, 6)) o.fn = -o.fn;
            }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
