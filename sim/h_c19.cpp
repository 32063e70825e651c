#include "vec.hpp"
#include <itlib/mem_streambuf.hpp>
#include <istream>
#include <limits>
#include <sstream>
#include "huge.hpp"

using namespace sim;

enum IOp { I_GET, I_GETN, I_READ, I_READSOME, I_GETLINE, I_GETLINE_BUF, I_INT, I_WORD, I_DOUBLE, I_PEEK, I_PUTBACK, I_UNGET, I_TELL, I_SEEK, I_SEEK_REL, I_SEEK_OUT, I_IGNORE,
    I_CLEAR, I_RESET, I_BUF, I_SGETN, I_BUFSEEK, I_STREAM, I_ITER, I_MASK, I_NOPS };
static const char* inames[] = {"get", "get(buffer)", "read", "readsome", "getline", "getline(buffer)", ">> int", ">> word", ">> double", "peek", "putback", "unget", "tellg", "seekg",
    "seekg(relative)", "seek outside", "ignore", "clear", "reset", "sgetc/sbumpc/snextc", "sgetn", "pubseek", "new stream", "istreambuf_iterator", "exceptions"};

template <typename Ch>
struct IWorld {
    typedef itlib::mem_istreambuf<Ch> B;
    typedef std::basic_istream<Ch> S;
    typedef std::basic_stringbuf<Ch> RB;
    typedef std::basic_string<Ch> Str;
    static constexpr bool formats = std::is_same<Ch, char>::value || std::is_same<Ch, wchar_t>::value;
    Case& cs;
    Ch* mem = nullptr; // exactly the given memory
    Str text;
    Raw<B> buf;
    Raw<S> in;
    Raw<RB> rbuf;
    Raw<S> ref;
    explicit IWorld(Case& c) : cs(c) {}

    void make_text(i64 a, i64 b) {
        Rng r(mix64(u64(a) * 1009 + u64(b)));
        size_t n = size_t(r.below(4) ? r.below(60) : r.below(3));
        if (r.chance(1, 300)) n = size_t(r.chance(1, 20) ? 65530 + r.below(5000) : 250 + r.below(5000)); // a long one
        int kind = int(r.below(4));
        text.clear();
        while (text.size() < n) {
            switch (kind == 3 ? int(r.below(3)) : kind) {
            case 0: { std::string s = std::to_string(r.range(-99999, 99999)) + (r.chance(1, 3) ? "\n" : r.chance(1, 3) ? "." : " "); for (char c : s) text.push_back(Ch(c)); break; }
            case 1: { for (size_t k = r.below(6); k; --k) text.push_back(Ch('a' + r.below(26))); text.push_back(Ch(r.chance(1, 2) ? ' ' : '\n')); break; }
            case 2: { u64 h = r.next(); Ch c = (h & 7) == 0 ? Ch(0) : (h & 7) == 1 && sizeof(Ch) == 1 ? Ch(-1) : Ch((h >> 8) & 0x7fff); text.push_back(c); break; }
            }
        }
        if (sizeof(Ch) > 1) for (auto& c : text) if (c == Ch(-1)) c = Ch(1);
        text.resize(n);
        ::free(mem);
        mem = static_cast<Ch*>(::malloc(n * sizeof(Ch) + (n ? 0 : 1)));
        if (n) memcpy(mem, text.data(), n * sizeof(Ch));
        rbuf.kill();
        rbuf.make(text, std::ios_base::in);
    }
    void streams(bool keep) {
        auto st = std::ios_base::goodbit;
        if (keep && in.p) { st = in->rdstate(); in->exceptions(std::ios_base::goodbit); }
        in.kill(); ref.kill();
        in.make(buf.p); ref.make(rbuf.p);
        in->setstate(st); ref->setstate(st);
    }
    size_t ref_pos() { auto p = rbuf->pubseekoff(0, std::ios_base::cur, std::ios_base::in); return size_t(p); }
    void check(const char* when) {
        B& b = *buf;
        SIM_CHECK(b.size() == text.size(), "offset", "%s: size is %zu, expected %zu", when, b.size(), text.size());
        SIM_CHECK(b.goff() == ref_pos(), "offset", "%s: goff is %zu, expected %zu", when, b.goff(), ref_pos());
        SIM_CHECK(in->rdstate() == ref->rdstate(), "state", "%s: the stream state is %d, expected %d", when, int(in->rdstate()), int(ref->rdstate()));
        if (text.size()) SIM_CHECK(memcmp(mem, text.data(), text.size() * sizeof(Ch)) == 0, "written", "%s: the memory was written to", when);
    }
    // the same operation on both streams must give the same
    template <typename F>
    void both(const char* what, F f) {
        typedef decltype(f(*in)) R;
        R a{}, r{};
        Outcome oa, orf;
        oa = sut([&] { a = f(*in); });
        orf = OK;
        try { r = f(*ref); } catch (...) { orf = OTHER; }
        SIM_CHECK((oa == OK) == (orf == OK), "outcome", "%s ended with %s, expected %s", what, outcome_name(oa), outcome_name(orf));
        if (oa == OK) SIM_CHECK(a == r, "content", "%s gave another result", what);
        SIM_CHECK(in->gcount() == ref->gcount(), "content", "%s: gcount is %ld, expected %ld", what, long(in->gcount()), long(ref->gcount()));
        ev(u64(oa));
    }

    void run() {
        if (cs.cfg[1] & 1) buf.make();
        else { make_text(cs.cfg[2], 1); buf.make(mem, text.size()); }
        if (cs.cfg[1] & 1) { text.clear(); rbuf.make(text, std::ios_base::in); }
        streams(false);
        check("construct");
        for (auto& o : cs.ops) step(o);
        in.kill(); ref.kill(); rbuf.kill(); buf.kill();
        ::free(mem);
        check_no_leaks("the end");
    }

    void step(const Op& op) {
        OpScope scope(op);
        B& b = *buf;
        int code = op.code;
        u64 allocs = alloc_count();
        size_t n = size_t(op.b) % 20;
        Ch delim = (op.c & 1) ? Ch(' ') : (op.c & 2) ? Ch('\n') : Ch('e');
        switch (code) {
        case I_GET: both("get", [&](S& s) { return s.get(); }); break;
        case I_GETN: both("get(buffer)", [&](S& s) { Ch d[24]; memset(d, 7, sizeof d); s.get(d, std::streamsize(n + 1), delim); return Str(d, 24); }); break;
        case I_READ: both("read", [&](S& s) { Ch d[24]; memset(d, 7, sizeof d); s.read(d, std::streamsize(n)); return Str(d, 24); }); break;
        case I_READSOME: both("readsome", [&](S& s) { Ch d[24]; memset(d, 7, sizeof d); auto k = s.readsome(d, std::streamsize(n)); return std::make_pair(k, Str(d, 24)); }); break;
        case I_GETLINE: both("getline", [&](S& s) { Str x; if (op.c & 4) std::getline(s, x, delim); else std::getline(s, x, Ch('\n')); return x; }); break;
        case I_GETLINE_BUF: both("getline(buffer)", [&](S& s) { Ch d[24]; memset(d, 7, sizeof d); s.getline(d, std::streamsize(n + 1), delim); return Str(d, 24); }); break;
        case I_INT: if constexpr (formats) both(">> int", [&](S& s) { int x = -5; s >> x; return x; }); break;
        case I_WORD: if constexpr (formats) both(">> word", [&](S& s) { Str x; s >> x; return x; }); break;
        case I_DOUBLE: if constexpr (formats) both(">> double", [&](S& s) { double x = -5; s >> x; return x; }); break;
        case I_PEEK: both("peek", [&](S& s) { return s.peek(); }); break;
        case I_PUTBACK: {
            size_t p = ref_pos();
            Ch c = p ? text[p - 1] : Ch('q');
            if ((op.c & 7) == 0) c = Ch(c + 1); // another character: must fail, never be written
            both("putback", [&](S& s) { s.putback(c); return s.fail(); });
            break;
        }
        case I_UNGET: both("unget", [&](S& s) { s.unget(); return s.fail(); }); break;
        case I_TELL: both("tellg", [&](S& s) { return typename B::off_type(s.tellg()); }); break;
        case I_SEEK: {
            size_t to = (op.c & 1) ? text.size() : size_t(op.b) % (text.size() + 1);
            if (op.c & 8) { in->clear(); ref->clear(); }
            both("seekg", [&](S& s) { if (op.c & 2) s.seekg(typename B::pos_type(typename B::off_type(to))); else s.seekg(std::streamoff(to), std::ios_base::beg); return s.fail(); });
            break;
        }
        case I_SEEK_REL: {
            size_t p = ref_pos(), to = (op.c & 1) ? text.size() : size_t(op.b) % (text.size() + 1);
            if (op.c & 8) { in->clear(); ref->clear(); }
            both("seekg(relative)", [&](S& s) {
                if (op.c & 2) s.seekg(std::streamoff(to) - std::streamoff(p), std::ios_base::cur);
                else s.seekg(std::streamoff(to) - std::streamoff(text.size()), std::ios_base::end);
                return s.fail();
            });
            break;
        }
        case I_SEEK_OUT: {
            std::streamoff size = std::streamoff(text.size()), far = 1 + std::streamoff(op.b % 50), p = std::streamoff(ref_pos());
            if (op.c & 64) far += std::streamoff(1) << 40;
            std::ios_base::seekdir way = std::ios_base::beg;
            std::streamoff off = 0;
            switch (op.c % 6) {
            case 0: off = size + far; break;
            case 1: off = -far; break;
            case 2: way = std::ios_base::cur; off = -p - far; break;
            case 3: way = std::ios_base::cur; off = size - p + far; break;
            case 4: way = std::ios_base::end; off = far; break;
            case 5: way = std::ios_base::end; off = -size - far; break;
            }
            if (op.c & 8) { in->clear(); ref->clear(); }
            if (op.c & 16) {
                typename B::off_type r = 0;
                Outcome o = sut([&] { r = typename B::off_type(way == std::ios_base::beg && (op.c & 32) ? b.pubseekpos(off, std::ios_base::in) : b.pubseekoff(off, way, std::ios_base::in)); });
                SIM_CHECK(o == OK && r == -1, "seek", "a seek outside the memory gave %ld", long(r));
            }
            else both("seek outside", [&](S& s) { if (way == std::ios_base::beg && (op.c & 32)) s.seekg(typename B::pos_type(off)); else s.seekg(off, way); return s.fail(); });
            break;
        }
        case I_IGNORE:
            both("ignore", [&](S& s) {
                if (op.c & 4) s.ignore(std::numeric_limits<std::streamsize>::max(), typename B::int_type(delim));
                else if (op.c & 8) s.ignore(std::streamsize(n));
                else s.ignore(std::streamsize(n), typename B::int_type(delim));
                return s.fail();
            });
            break;
        case I_CLEAR: in->clear(); ref->clear(); break;
        case I_RESET: {
            if (op.c & 1) { // the same memory again
                sut([&] { b.reset(mem, text.size()); });
                rbuf->pubseekpos(0, std::ios_base::in);
            }
            else if ((op.c & 6) == 6) { text.clear(); rbuf.kill(); rbuf.make(text, std::ios_base::in); sut([&] { b.reset(nullptr, 0); }); in->rdbuf(buf.p); ref->rdbuf(rbuf.p); }
            else {
                Ch* old = mem;
                mem = nullptr;
                make_text(op.b, op.c);
                sut([&] { b.reset(mem, text.size()); });
                ::free(old);
                ref->rdbuf(rbuf.p); // also clears
                in->clear();
            }
            break;
        }
        case I_BUF:
            for (int k = 0; k < 1 + int(op.b % 5); ++k) {
                switch ((u64(op.c) >> (2 * k)) & 7) {
                case 0: both("sgetc", [&](S& s) { return s.rdbuf()->sgetc(); }); break;
                case 1: both("sbumpc", [&](S& s) { return s.rdbuf()->sbumpc(); }); break;
                case 2: both("snextc", [&](S& s) { return s.rdbuf()->snextc(); }); break;
                case 3: both("sungetc", [&](S& s) { return s.rdbuf()->sungetc(); }); break;
                case 4: both("in_avail", [&](S& s) { return s.rdbuf()->in_avail() > 0; }); break;
                default: both("sbumpc", [&](S& s) { return s.rdbuf()->sbumpc(); }); break;
                }
                check("streambuf call");
            }
            break;
        case I_SGETN: {
            std::streamsize k = std::streamsize(n);
            bool huge = (op.c & 15) == 0;
            if (huge) k = std::numeric_limits<std::streamsize>::max() - std::streamsize(op.b % 3);
            const size_t room = text.size() < 99 ? 100 : text.size() + 1;
            both("sgetn", [&](S& s) { Host h; Str d(room, Ch(7)); auto q = s.rdbuf()->sgetn(&d[0], k); return std::make_pair(q, d); });
            break;
        }
        case I_BUFSEEK: {
            size_t to = size_t(op.b) % (text.size() + 1);
            std::streamoff p = std::streamoff(ref_pos());
            typename B::off_type r = -2;
            Outcome o = sut([&] {
                switch (op.c & 3) {
                case 0: r = typename B::off_type(b.pubseekpos(std::streamoff(to), std::ios_base::in)); break;
                case 1: r = typename B::off_type(b.pubseekoff(std::streamoff(to), std::ios_base::beg, std::ios_base::in)); break;
                case 2: r = typename B::off_type(b.pubseekoff(std::streamoff(to) - p, std::ios_base::cur, std::ios_base::in)); break;
                case 3: r = typename B::off_type(b.pubseekoff(std::streamoff(to) - std::streamoff(text.size()), std::ios_base::end, std::ios_base::in)); break;
                }
            });
            SIM_CHECK(o == OK && r == typename B::off_type(to), "seek", "a seek to %zu of %zu gave %ld", to, text.size(), long(r));
            rbuf->pubseekpos(std::streamoff(to), std::ios_base::in);
            break;
        }
        case I_STREAM: streams(op.c & 1); break;
        case I_ITER:
            both("istreambuf_iterator", [&](S& s) {
                Str x;
                std::istreambuf_iterator<Ch> it(s), end;
                for (size_t k = 0; k < n && it != end; ++k, ++it) x.push_back(*it);
                return x;
            });
            break;
        case I_MASK: {
            auto m = std::ios_base::iostate(((op.c & 1) ? std::ios_base::eofbit : std::ios_base::goodbit) | ((op.c & 2) ? std::ios_base::failbit : std::ios_base::goodbit));
            in->clear(); ref->clear();
            in->exceptions(m); ref->exceptions(m);
            break;
        }
        }
        (void)allocs;
        if (in->exceptions() != ref->exceptions()) ref->exceptions(in->exceptions());
        check(inames[code]);
        ev(u64(code)); ev(b.goff()); ev(u64(in->rdstate()));
        state(mix64(u64(cs.cfg[0]) * 64 + u64(code)) ^ mix64(u64(in->rdstate()) * 4 + (b.goff() == 0) + 2 * (b.goff() == b.size())));
        nontrivial();
    }
};

// memory of more than 2^31 and 2^32 characters
template <typename Ch>
struct HugeIWorld {
    typedef itlib::mem_istreambuf<Ch> B;
    typedef std::basic_istream<Ch> S;
    typedef typename B::int_type I;
    Case& cs;
    Raw<B> buf;
    Raw<S> in;
    size_t size = 0, pos = 0;
    explicit HugeIWorld(Case& c) : cs(c) {}
    static Huge& src() { static Huge h(size_t(13) << 30); return h; }
    static Huge& dst() { static Huge h(size_t(9) << 30); return h; }
    static Ch at(size_t i) { Ch c; memcpy(&c, src().at(i * sizeof(Ch)), sizeof c); return c; }
    size_t place(i64 b, i64 c) const { // positions around the powers of two, the ends and anywhere
        static const size_t p2[] = {size_t(1) << 31, size_t(1) << 32, size_t(1) << 16, size_t(3) << 30};
        size_t p;
        switch (u64(c) & 7) {
        case 0: p = size_t(b) % 40; break;
        case 1: p = size - size_t(b) % 40; break;
        case 2: case 3: case 4: p = p2[u64(c >> 4) & 3] + size_t(b) % 40 - 20; break;
        default: p = size_t(mix64(u64(b) * 4096 + u64(c)) % (size + 1)); break;
        }
        return p > size ? size : p;
    }
    void make_size(i64 x) {
        static const size_t sizes[] = {(size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 31) + 5, 3000000019u, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 77, 5000000029u};
        size = sizes[u64(x) & 7];
        if (size * sizeof(Ch) > src().size) size = sizes[u64(x) & 3];
    }
    void check(const char* when) {
        SIM_CHECK(buf->goff() == pos && buf->size() == size, "offset", "%s: goff is %zu of %zu, expected %zu of %zu", when, buf->goff(), buf->size(), pos, size);
        I c = buf->sgetc(), w = pos < size ? std::char_traits<Ch>::to_int_type(at(pos)) : std::char_traits<Ch>::eof();
        SIM_CHECK(c == w, "content", "%s: the character at %zu of %zu is wrong", when, pos, size);
    }
    void run() {
        if (!src().base) { SIM_PROBE("no huge memory here"); return; }
        SIM_PROBE("memory beyond 2^31 characters");
        make_size(cs.cfg[2]);
        const Ch* mem = reinterpret_cast<const Ch*>(src().base);
        buf.make(mem, size);
        in.make(buf.p);
        check("construct");
        for (auto& op : cs.ops) {
            OpScope scope(op);
            B& b = *buf;
            S& st = *in;
            st.clear();
            size_t to = place(op.b, op.c), n = size_t(op.b) % 60;
            typename B::off_type r = -2;
            switch (op.code) {
            case I_SEEK: case I_BUFSEEK: case I_STREAM: case I_ITER: case I_MASK: case I_CLEAR: {
                Outcome o = sut([&] {
                    switch (op.c & 3) {
                    case 0: r = typename B::off_type(b.pubseekpos(std::streamoff(to), std::ios_base::in)); break;
                    case 1: r = typename B::off_type(b.pubseekoff(std::streamoff(to), std::ios_base::beg, std::ios_base::in)); break;
                    case 2: st.seekg(std::streamoff(to), std::ios_base::beg); r = st.fail() ? -1 : std::streamoff(to); break;
                    default: st.seekg(typename B::pos_type(std::streamoff(to))); r = st.fail() ? -1 : std::streamoff(to); break;
                    }
                });
                SIM_CHECK(o == OK && r == typename B::off_type(to), "seek", "a seek to %zu of %zu gave %ld", to, size, long(r));
                pos = to;
                break;
            }
            case I_SEEK_REL: {
                Outcome o = sut([&] { r = typename B::off_type((op.c & 8) ? b.pubseekoff(std::streamoff(to) - std::streamoff(pos), std::ios_base::cur, std::ios_base::in) : b.pubseekoff(std::streamoff(to) - std::streamoff(size), std::ios_base::end, std::ios_base::in)); });
                SIM_CHECK(o == OK && r == typename B::off_type(to), "seek", "a relative seek to %zu of %zu gave %ld", to, size, long(r));
                pos = to;
                break;
            }
            case I_SEEK_OUT: {
                std::streamoff far = 1 + std::streamoff(op.b % 3) * 0x7fffffff;
                Outcome o = sut([&] {
                    switch (op.c & 3) {
                    case 0: r = typename B::off_type(b.pubseekpos(std::streamoff(size) + far, std::ios_base::in)); break;
                    case 1: r = typename B::off_type(b.pubseekoff(-std::streamoff(pos) - far, std::ios_base::cur, std::ios_base::in)); break;
                    case 2: r = typename B::off_type(b.pubseekoff(far, std::ios_base::end, std::ios_base::in)); break;
                    default: r = typename B::off_type(b.pubseekoff(std::streamoff(size) - std::streamoff(pos) + far, std::ios_base::cur, std::ios_base::in)); break;
                    }
                });
                SIM_CHECK(o == OK && r == -1, "seek", "a seek outside the memory gave %ld", long(r));
                break;
            }
            case I_TELL: case I_PEEK:
                SIM_CHECK(std::streamoff(st.tellg()) == std::streamoff(pos), "offset", "tellg");
                SIM_CHECK(std::streamoff(b.pubseekoff(0, std::ios_base::cur, std::ios_base::in)) == std::streamoff(pos), "offset", "the position is not told");
                SIM_CHECK(b.in_avail() == (pos < size ? std::streamsize(size - pos) : b.in_avail()), "offset", "in_avail is %ld of %zu", long(b.in_avail()), size - pos);
                break;
            case I_GET: case I_BUF: {
                I c = 0;
                sut([&] { c = b.sbumpc(); });
                SIM_CHECK(c == (pos < size ? std::char_traits<Ch>::to_int_type(at(pos)) : std::char_traits<Ch>::eof()), "content", "sbumpc at %zu of %zu", pos, size);
                if (pos < size) ++pos;
                break;
            }
            case I_UNGET: {
                I c = 0;
                sut([&] { c = b.sungetc(); });
                if (pos) --pos;
                break;
            }
            case I_RESET:
                make_size(op.b);
                pos = 0;
                sut([&] { b.reset(mem, size); });
                break;
            case I_SGETN:
                if ((op.c & 2047) == 3 && dst().base) { // more than an int can count
                    SlowOp slow;
                    n = size - pos;
                    size_t room = dst().size / sizeof(Ch);
                    if (n > room) n = room;
                    std::streamsize got = -1;
                    Ch* d = reinterpret_cast<Ch*>(dst().base);
                    sut([&] { got = b.sgetn(d, std::streamsize(n)); });
                    SIM_CHECK(got == std::streamsize(n), "content", "sgetn of %zu gave %ld", n, long(got));
                    for (size_t i = n > 100 ? n - 100 : 0; i < n; ++i) SIM_CHECK(d[i] == at(pos + i), "content", "sgetn: character %zu of %zu", i, n);
                    pos += n;
                    SIM_PROBE("a read of more than 2^31 characters");
                    break;
                }
                // fallthrough
            default: {
                Ch d[64];
                std::streamsize got = -1;
                size_t want = n < size - pos ? n : size - pos;
                sut([&] { if (op.c & 1) got = b.sgetn(d, std::streamsize(n)); else { st.read(d, std::streamsize(n)); got = st.gcount(); } });
                SIM_CHECK(got == std::streamsize(want), "content", "a read of %zu at %zu of %zu gave %ld", n, pos, size, long(got));
                for (size_t i = 0; i < want; ++i) SIM_CHECK(d[i] == at(pos + i), "content", "character %zu of a read at %zu of %zu is wrong", i, pos, size);
                pos += want;
                break;
            }
            }
            check(inames[op.code]);
            ev(u64(op.code)); ev(pos);
            nontrivial();
        }
        in.kill(); buf.kill();
    }
};

template <typename T> struct W { static void go(Case& c) { IWorld<T> w(c); w.run(); } };
template <typename T> struct HW { static void go(Case& c) { HugeIWorld<T> w(c); w.run(); } };
SIM_CFG(0, W<char>)
SIM_CFG(1, W<wchar_t>)
SIM_CFG(2, W<char16_t>)
SIM_CFG(3, W<char32_t>)
SIM_CFG(4, HW<char>)
SIM_CFG(5, HW<wchar_t>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C19"; }
    const char* op_name(int c) override { return c >= 0 && c < I_NOPS ? inames[c] : "?"; }
    const char* cfg_names() override { return "character type, starts without memory, text"; }
    void generate(Rng& r, Case& c) override {
        c.cfg.push_back(int(r.chance(1, 2) ? 0 : r.below(u64(cfg_count()))));
        c.cfg.push_back(int(r.chance(1, 8)));
        c.cfg.push_back(int(r.below(100000)));
        int w[I_NOPS];
        for (int i = 0; i < I_NOPS; ++i) w[i] = r.chance(1, 4) ? 0 : int(2 + r.below(6));
        w[I_MASK] = w[I_MASK] ? 1 : 0;
        if (w[I_CLEAR]) w[I_CLEAR] += 6;
        int n = int(1 + r.below(r.chance(1, 8) ? 40 : 14));
        for (int i = 0; i < n; ++i) {
            Op o;
            o.code = r.pick(w, I_NOPS);
            o.b = i64(r.below(1 << 12));
            o.c = i64(r.below(1 << 12));
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
