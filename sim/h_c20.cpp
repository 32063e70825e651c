#include "vec.hpp"
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#include <itlib/rstream.hpp>
#include <itlib/mem_streambuf.hpp>
#include <memory>
#include <sstream>

using namespace sim;

[[noreturn]] static inline void boom() { note_fault(F_CALL); throw Injected{F_CALL}; }
enum ROp { R_READ, R_SHIFT, R_PUSH, R_POP, R_SCOPE_THROW, R_PLAIN, R_CLEAR, R_DIRECT, R_MASK, R_TO_END, R_BASE_PTR, R_NOPS };
static const char* rnames[] = {"read", ">>", "redirect begins", "redirect ends", "redirect left by exception", "plain rstream", "clear", "direct read", "exceptions", "read past the end", "redirect by base pointer"};

// a simulated file: chunked reads which may fail, seeks which may fail
template <typename Ch>
struct SimBuf : std::basic_streambuf<Ch> {
    typedef std::basic_streambuf<Ch> Base;
    typedef typename Base::int_type int_type;
    typedef typename Base::pos_type pos_type;
    typedef typename Base::off_type off_type;
    const std::basic_string<Ch>& text;
    size_t base = 0, chunk, origin; // the text begins at origin, which may be far into the file
    Ch win[64];
    std::vector<char>* log;   // outcomes of reads and seeks
    size_t replay;            // npos: recording
    bool calm = false;
    SimBuf(const std::basic_string<Ch>& t, size_t c, size_t org, std::vector<char>* l, bool rec) : text(t), base(org), chunk(c), origin(org), log(l), replay(rec ? size_t(-1) : 0) { this->setg(win, win, win); }
    bool fails(int kind) {
        if (calm) return false;
        Host h;
        if (replay == size_t(-1)) { bool f = fault(kind); log->push_back(f); return f; }
        return replay < log->size() ? (*log)[replay++] : false;
    }
    size_t where() const { return base + size_t(this->gptr() - this->eback()); }
    void go(size_t p) { base = p; this->setg(win, win, win); }
    int_type underflow() override {
        size_t p = where();
        go(p);
        if (p >= origin + text.size()) return std::char_traits<Ch>::eof();
        if (fails(F_READ)) throw Injected{F_READ};
        size_t n = chunk - p % chunk;
        if (n > origin + text.size() - p) n = origin + text.size() - p;
        for (size_t i = 0; i < n; ++i) win[i] = text[p - origin + i];
        this->setg(win, win, win + n);
        return std::char_traits<Ch>::to_int_type(win[0]);
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir way, std::ios_base::openmode which) override {
        if (!(which & std::ios_base::in)) return pos_type(off_type(-1));
        off_type p = way == std::ios_base::beg ? off : way == std::ios_base::cur ? off_type(where()) + off : off_type(origin + text.size()) + off;
        if (way == std::ios_base::cur && off == 0) return pos_type(off_type(where()));
        if (p < off_type(origin) || p > off_type(origin + text.size())) return pos_type(off_type(-1));
        if (fails(F_SEEK)) { if (chunk & 1) throw Injected{F_SEEK}; return pos_type(off_type(-1)); }
        go(size_t(p));
        return pos_type(p);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode which) override {
        return seekoff(off_type(p), std::ios_base::beg, which);
    }
};

enum Kind { SIMBUF, STRING, MEM, STRINGS };

template <typename Ch_, typename Stream_, Kind K>
struct RT { typedef Ch_ Ch; typedef Stream_ Stream; static constexpr Kind kind = K; };

template <typename Tr>
struct RWorld {
    typedef typename Tr::Ch Ch;
    typedef typename Tr::Stream S;
    typedef std::basic_string<Ch> Str;
    typedef itlib::basic_rstream<S> RS;
    typedef itlib::basic_redirect_rstream<S> RR;
    Case& cs;
    Str text;
    std::vector<char> log;
    std::unique_ptr<SimBuf<Ch>> sb, rb;
    std::unique_ptr<itlib::mem_istreambuf<Ch>> mb;
    std::unique_ptr<std::basic_stringbuf<Ch>> rsb;
    std::unique_ptr<S> in;
    std::unique_ptr<std::basic_istream<Ch>> ref;
    struct Level { Raw<RR>* rr; size_t saved; };
    std::vector<Level> stack;
    size_t origin = 0;
    explicit RWorld(Case& c) : cs(c) {}

    size_t pos_of(std::basic_streambuf<Ch>* b) {
        return size_t(std::streamoff(b->pubseekoff(0, std::ios_base::cur, std::ios_base::in)));
    }
    void host_seek(std::basic_streambuf<Ch>* b, size_t p) {
        if (Tr::kind == SIMBUF) static_cast<SimBuf<Ch>*>(b)->calm = true;
        b->pubseekpos(std::streamoff(p), std::ios_base::in);
        if (Tr::kind == SIMBUF) static_cast<SimBuf<Ch>*>(b)->calm = false;
    }
    void resync() { // same position, same buffering on both
        size_t p = pos_of(in->rdbuf());
        host_seek(in->rdbuf(), p);
        host_seek(ref->rdbuf(), p);
        ref->exceptions(std::ios_base::goodbit);
        ref->clear(in->rdstate());
        try { ref->exceptions(in->exceptions()); } catch (...) {}
    }
    void check(const char* when, bool state_too) {
        size_t a = pos_of(in->rdbuf()), b = pos_of(ref->rdbuf());
        SIM_CHECK(a == b, "position", "%s: the stream is at %zu, expected %zu", when, a, b);
        if (state_too) SIM_CHECK(in->rdstate() == ref->rdstate(), "state", "%s: the stream state is %d, expected %d", when, int(in->rdstate()), int(ref->rdstate()));
    }
    void check_rs(RS& r, const char* when) {
        const RS& c = r;
        SIM_CHECK(c.fail() == in->fail() && c.eof() == in->eof() && c.good() == in->good() && bool(c) == !in->fail(), "state", "%s: the rstream reports another state than its stream", when);
    }

    bool big() const { return cs.cfg.size() > 4 && cs.cfg[4]; }
    size_t amount(const Op& op) const {
        if (!big()) return size_t(op.b) % 12;
        static const size_t edge[] = {255, 256, 4095, 4096, 4097, 65535, 65536};
        return op.c & 1 ? edge[op.b % 7] : size_t(op.b) * size_t(op.c % 16);
    }
    // reads through r and directly on the reference
    void read(RS& r, int code, const Op& op, const char* what) {
        size_t n = code == R_TO_END ? text.size() + 3 : amount(op);
        Str a, b;
        if (code != R_SHIFT) { a.assign(n + 8, Ch(7)); b = a; }
        int ia = -3, ib = -3;
        size_t from = log.size();
        Outcome oa, ob;
        std::streamsize ga = 0;
        oa = sut([&] {
            if (code == R_SHIFT) {
                if constexpr (std::is_same<Ch, char>::value || std::is_same<Ch, wchar_t>::value) {
                    if (op.c & 1) { RS& q = (r >> ia); SIM_CHECK(&q == &r, "content", ">> returns another stream"); }
                    else if (op.c & 2) r >> a;
                    else { Ch c = Ch('?'); r >> c; a.push_back(c); }
                }
            }
            else {
                RS* q = &r.read(&a[0], std::streamsize(n));
                SIM_CHECK(q == &r, "content", "read returns another stream");
            }
        });
        ga = in->gcount();
        if (Tr::kind == SIMBUF) static_cast<SimBuf<Ch>*>(ref->rdbuf())->replay = from;
        ob = OK;
        try {
            if (code == R_SHIFT) {
                if constexpr (std::is_same<Ch, char>::value || std::is_same<Ch, wchar_t>::value) {
                    if (op.c & 1) *ref >> ib;
                    else if (op.c & 2) *ref >> b;
                    else { Ch c = Ch('?'); *ref >> c; b.push_back(c); }
                }
            }
            else {
                ref->read(&b[0], std::streamsize(n));
            }
        }
        catch (...) { ob = OTHER; }
        SIM_CHECK((oa == OK) == (ob == OK), "outcome", "%s ended with %s, expected %s", what, outcome_name(oa), outcome_name(ob));
        SIM_CHECK((oa != OK && code == R_SHIFT) || (a == b && ia == ib), "content", "%s gave other characters than the wrapped stream", what);
        if (code != R_SHIFT) SIM_CHECK(ga == ref->gcount(), "content", "%s read %ld characters, expected %ld", what, long(ga), long(ref->gcount()));
        check(what, true);
        check_rs(r, what);
        ev(u64(oa)); ev(u64(in->rdstate()));
    }
    // construction of a redirect: false if it threw
    bool begin(Raw<RR>& rr, size_t to, size_t& saved, bool& reliable) {
        saved = pos_of(in->rdbuf());
        size_t from = log.size();
        int before = faults_fired();
        Outcome o = sut([&] { rr.make(*in, std::streampos(std::streamoff(to))); });
        if (Tr::kind == SIMBUF) static_cast<SimBuf<Ch>*>(ref->rdbuf())->replay = from;
        Outcome ro = OK;
        try { ref->tellg(); ref->seekg(std::streampos(std::streamoff(to))); } catch (...) { ro = OTHER; }
        reliable = faults_fired() == before;
        SIM_CHECK((o == OK) == (ro == OK), "outcome", "creating the redirect ended with %s, expected %s", outcome_name(o), outcome_name(ro));
        if (o != OK) { rr.p = nullptr; }
        check("redirect begins", true);
        if (o == OK) check_rs(*rr, "redirect begins");
        return o == OK;
    }
    void ended(size_t saved, std::ios_base::iostate before, int fired, std::streamoff putpos, const char* what) {
        bool seek_failed = faults_fired() != fired;
        if (!seek_failed) {
            size_t p = pos_of(in->rdbuf());
            SIM_CHECK(p == saved, "position", "%s: the stream is at %zu, it was at %zu before the redirect", what, p, saved);
            if (!(before & (std::ios_base::failbit | std::ios_base::badbit))) SIM_CHECK(in->good(), "state", "%s: a stream which had not failed is not good", what);
            if (before & (std::ios_base::failbit | std::ios_base::badbit)) SIM_CHECK(in->fail() && (in->bad() || !(before & std::ios_base::badbit)), "state", "%s: the failure of the stream is not reported any more", what);
        }
        else { host_seek(in->rdbuf(), saved); }
        if (Tr::kind == STRINGS) SIM_CHECK(std::streamoff(in->rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::out)) == putpos, "position", "%s: the put position was moved", what);
        host_seek(ref->rdbuf(), saved);
        // (no other statement about the state bits of a stream which was not good)
        ref->exceptions(std::ios_base::goodbit);
        ref->clear(in->rdstate());
        try { ref->exceptions(in->exceptions()); } catch (...) {}
    }
    std::streamoff putpos() { return Tr::kind == STRINGS ? std::streamoff(in->rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::out)) : 0; }

    void run() {
        Rng r(mix64(u64(cs.cfg[1])));
        size_t n = size_t(r.below(5) ? r.below(80) : r.below(3)), chunk = size_t(1 + cs.cfg[2] % 16);
        if (big()) n += r.below(80000);
        while (text.size() < n) { if (r.chance(1, 4)) text.push_back(Ch(' ')); else if (r.chance(1, 2)) text.push_back(Ch('0' + r.below(10))); else text.push_back(Ch('a' + r.below(26))); }
        std::basic_streambuf<Ch>* rbuf;
        if constexpr (Tr::kind == SIMBUF) {
            static const size_t origins[] = {0, 3000000019u, (size_t(1) << 32) - 20, (size_t(1) << 31) - 20, size_t(1) << 40};
            origin = origins[size_t(cs.cfg.size() > 3 ? cs.cfg[3] : 0) % 5];
            sb.reset(new SimBuf<Ch>(text, chunk, origin, &log, true)); rb.reset(new SimBuf<Ch>(text, chunk, origin, &log, false));
            rbuf = rb.get();
            in.reset(new S(sb.get()));
        }
        else {
            rsb.reset(new std::basic_stringbuf<Ch>(text, std::ios_base::in));
            rbuf = rsb.get();
            if constexpr (Tr::kind == MEM) { mb.reset(new itlib::mem_istreambuf<Ch>(text.data(), text.size())); in.reset(new S(mb.get())); }
            else in.reset(new S(text));
            if constexpr (Tr::kind == STRINGS) in->rdbuf()->pubseekpos(std::streamoff(text.size() / 2), std::ios_base::out);
        }
        ref.reset(new std::basic_istream<Ch>(rbuf));
        for (auto& o : cs.ops) step(o);
        Op quiet; OpScope none(quiet);
        while (!stack.empty()) pop();
    }
    void pop() {
        Level l = stack.back();
        stack.pop_back();
        auto st = in->rdstate();
        auto pp = putpos();
        int fired = faults_fired();
        Outcome o = sut([&] { l.rr->kill(); });
        SIM_CHECK(o == OK, "outcome", "ending a redirect threw");
        delete l.rr;
        ended(l.saved, st, fired, pp, "redirect ends");
    }
    void step(const Op& op) {
        OpScope scope(op);
        int code = op.code;
        size_t to = origin + (big() ? size_t(op.c >> 4) * 300 : size_t(op.c >> 4)) % (text.size() + ((op.c & 15) == 0 ? 4 : 1));
        resync();
        switch (code) {
        case R_READ: case R_SHIFT: case R_TO_END: {
            if (stack.empty()) { RS r(*in); check("rstream", true); read(r, code, op, rnames[code]); }
            else read(**stack.back().rr, code, op, rnames[code]);
            break;
        }
        case R_PLAIN: { // an rstream over the same stream, deleted through a pointer
            RS* r = nullptr;
            sut([&] { r = new RS(*in); });
            if (r) {
                if (op.d & 1) read(*r, R_READ, op, "read");
                sut([&] { delete r; });
            }
            check("plain rstream", true);
            break;
        }
        case R_PUSH: {
            if (!in->good() || stack.size() >= 4) break;
            Raw<RR>* rr = new Raw<RR>;
            size_t saved; bool rel;
            if (begin(*rr, to, saved, rel)) stack.push_back({rr, saved});
            else delete rr;
            break;
        }
        case R_POP: if (!stack.empty()) pop(); break;
        case R_SCOPE_THROW: case R_BASE_PTR: {
            if (!in->good()) break;
            size_t saved = pos_of(in->rdbuf()), from = log.size();
            size_t n = size_t(op.b) % 12;
            std::ios_base::iostate st = std::ios_base::goodbit;
            int fired = 0;
            auto pp = putpos();
            bool made = false;
            Outcome o = sut([&] {
                Ch d[16];
                if (code == R_BASE_PTR) {
                    struct Own { RS* p; int& f; std::ios_base::iostate& st; S& in; ~Own() { f = faults_fired(); st = in.rdstate(); delete p; } };
                    Own r{new RR(*in, std::streampos(std::streamoff(to))), fired, st, *in};
                    made = true;
                    r.p->read(d, std::streamsize(n));
                }
                else {
                    struct Look { int& f; std::ios_base::iostate& st; S& in; ~Look() { f = faults_fired(); st = in.rdstate(); } };
                    RR r(*in, std::streampos(std::streamoff(to)));
                    made = true;
                    Look l{fired, st, *in};
                    r.read(d, std::streamsize(n));
                    boom();
                }
            });
            ev(u64(o));
            (void)from;
            if (made) ended(saved, st, fired, pp, rnames[code]);
            else { SIM_CHECK(pos_of(in->rdbuf()) == saved, "position", "a redirect which could not begin moved the stream"); resync(); }
            break;
        }
        case R_CLEAR: in->clear(); ref->clear(); break;
        case R_DIRECT: {
            size_t from = log.size();
            int a = -2, b = -2;
            try { a = int(in->get()); } catch (...) {}
            if (Tr::kind == SIMBUF) static_cast<SimBuf<Ch>*>(ref->rdbuf())->replay = from;
            try { b = int(ref->get()); } catch (...) {}
            SIM_CHECK(a == b, "content", "a direct read gave %d, expected %d", a, b);
            check("direct read", true);
            break;
        }
        case R_MASK: {
            auto m = std::ios_base::iostate(((op.c & 1) ? std::ios_base::eofbit : std::ios_base::goodbit) | ((op.c & 2) ? std::ios_base::failbit : std::ios_base::goodbit) | ((op.c & 4) ? std::ios_base::badbit : std::ios_base::goodbit));
            in->clear(); ref->clear();
            in->exceptions(m); ref->exceptions(m);
            break;
        }
        }
        ev(u64(code)); ev(pos_of(in->rdbuf())); ev(stack.size());
        state(mix64(u64(cs.cfg[0]) * 64 + u64(code)) ^ mix64(u64(in->rdstate()) * 8 + stack.size()));
        if (!stack.empty()) nontrivial();
    }
};

template <typename T> struct W { static void go(Case& c) { RWorld<T> w(c); w.run(); } };
SIM_CFG(0, W<RT<char, std::istream, SIMBUF>>)
SIM_CFG(1, W<RT<wchar_t, std::wistream, SIMBUF>>)
SIM_CFG(2, W<RT<char, std::istringstream, STRING>>)
SIM_CFG(3, W<RT<char, std::istream, MEM>>)
SIM_CFG(4, W<RT<char, std::stringstream, STRINGS>>)

#if PART == 0
struct H : Harness {
    const char* property() override { return "C20"; }
    const char* op_name(int c) override { return c >= 0 && c < R_NOPS ? rnames[c] : "?"; }
    const char* cfg_names() override { return "stream type, text, chunk, where the text begins in the file, large"; }
    void generate(Rng& r, Case& c) override {
        c.cfg.push_back(int(r.chance(1, 2) ? 0 : r.below(u64(cfg_count()))));
        c.cfg.push_back(int(r.below(100000)));
        c.cfg.push_back(int(r.below(16)));
        c.cfg.push_back(int(r.chance(1, 4) ? 1 + r.below(4) : 0));
        c.cfg.push_back(r.chance(1, 100) ? 1 : 0);
        int w[R_NOPS];
        for (int i = 0; i < R_NOPS; ++i) w[i] = r.chance(1, 4) ? 0 : int(2 + r.below(6));
        w[R_MASK] = w[R_MASK] ? 2 : 0;
        w[R_PUSH] += 2; w[R_POP] += 1;
        int n = int(1 + r.below(r.chance(1, 8) ? 30 : 12)), frate = int(r.below(3));
        for (int i = 0; i < n; ++i) {
            Op o;
            o.code = r.pick(w, R_NOPS);
            o.b = i64(r.below(1 << 12));
            o.c = i64(r.below(1 << 12));
            o.d = i64(r.below(4));
            if (frate && r.chance(unsigned(frate), 4)) {
                o.fk = r.chance(3, 4) ? F_READ : F_SEEK;
                o.fn = int(1 + r.below(r.chance(2, 3) ? 1 : 3));
                if (r.chance(1, 6)) o.fn = -o.fn;
            }
            c.ops.push_back(o);
        }
    }
    void run(Case& c) override { cfg_fn((c.cfg.empty() ? 0 : c.cfg[0]) % cfg_count())(c); }
};
Harness* sim::make_harness() { static H h; return &h; }
#endif
