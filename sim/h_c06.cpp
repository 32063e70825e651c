// C06: time_t and strftime. C++11 and later.
#include "trt.hpp"
#include <itlib/time_t.hpp>
#include <ctime>
#include <string>

using namespace sim;

namespace {
enum { GMTIME, LOCALTIME, FROM_GM, FROM_LOCAL, ROUND_GM, ROUND_LOCAL, NOW, ARITH, DIFF, COMPARE, CONVERT, FORMAT, FORMAT_LEN, OPS };
const char* names[] = {"gmtime", "localtime", "from_gmtime", "from_localtime", "gmtime and back", "localtime and back", "now", "duration arithmetic", "difference",
    "comparison", "conversions", "strftime", "strftime of a given length"};
typedef itlib::time_t T;
typedef __int128 big;

// ------------------------------------------------------- the model: a calendar
i64 days_from_civil(i64 y, int m, int d) {
    y -= m <= 2;
    const i64 era = (y >= 0 ? y : y - 399) / 400;
    const i64 yoe = y - era * 400;
    const i64 doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const i64 doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
i64 fdiv(i64 a, i64 b) { i64 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) --q; return q; }
i64 fmod_(i64 a, i64 b) { return a - fdiv(a, b) * b; }

struct Broken { i64 year; int mon, mday, hour, min, sec, wday, yday; };
Broken civil(i64 t) {
    Broken r;
    const i64 days = fdiv(t, 86400), s = fmod_(t, 86400);
    r.hour = int(s / 3600);
    r.min = int(s / 60 % 60);
    r.sec = int(s % 60);
    r.wday = int(fmod_(days + 4, 7));
    const i64 z = days + 719468;
    const i64 era = fdiv(z, 146097);
    const i64 doe = z - era * 146097;
    const i64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    const i64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    const i64 mp = (5 * doy + 2) / 153;
    r.mday = int(doy - (153 * mp + 2) / 5 + 1);
    const int m = int(mp < 10 ? mp + 3 : mp - 9);
    r.year = yoe + era * 400 + (m <= 2);
    r.mon = m - 1;
    r.yday = int(days - days_from_civil(r.year, 1, 1));
    return r;
}

struct Rule { int m, w, d, sec; };
struct Zone {
    char tz[48];
    i64 std_off, dst_off;
    const char* std_name;
    const char* dst_name;
    bool dst;
    Rule begin, end; // in local time
};
Zone zones[] = {
    {"TZ=UTC0", 0, 0, "UTC", "", false, {}, {}},
    {"TZ=EST5EDT,M3.2.0,M11.1.0", -18000, -14400, "EST", "EDT", true, {3, 2, 0, 7200}, {11, 1, 0, 7200}},
    {"TZ=CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, "CET", "CEST", true, {3, 5, 0, 7200}, {10, 5, 0, 10800}},
    {"TZ=<+0545>-5:45", 20700, 20700, "+0545", "", false, {}, {}},
    {"TZ=<-1159>11:59:59", -43199, -43199, "-1159", "", false, {}, {}},
    {"TZ=NZST-12NZDT,M9.5.0,M4.1.0/3", 43200, 46800, "NZST", "NZDT", true, {9, 5, 0, 7200}, {4, 1, 0, 10800}},
    {"TZ=LHS-10:30LHD-11,M10.1.0,M4.1.0", 37800, 39600, "LHS", "LHD", true, {10, 1, 0, 7200}, {4, 1, 0, 7200}},
};
const int nzones = 7;
i64 rule_day(i64 y, const Rule& r) {
    const i64 first = days_from_civil(y, r.m, 1);
    i64 d = first + fmod_(r.d - fmod_(first + 4, 7), 7) + 7 * (r.w - 1);
    const i64 next = r.m == 12 ? days_from_civil(y + 1, 1, 1) : days_from_civil(y, r.m + 1, 1);
    while (d >= next) d -= 7;
    return d;
}
bool is_dst(const Zone& z, i64 t) {
    if (!z.dst) return false;
    const i64 y = civil(t + z.std_off).year;
    const i64 b = rule_day(y, z.begin) * 86400 + z.begin.sec - z.std_off;
    const i64 e = rule_day(y, z.end) * 86400 + z.end.sec - z.dst_off;
    return b < e ? t >= b && t < e : !(t >= e && t < b);
}

void check_tm(const std::tm& m, i64 t, i64 off, int dst, const char* what) {
    const Broken b = civil(t + off);
    SIM_CHECK(i64(m.tm_year) + 1900 == b.year && m.tm_mon == b.mon && m.tm_mday == b.mday && m.tm_hour == b.hour && m.tm_min == b.min && m.tm_sec == b.sec
            && m.tm_wday == b.wday && m.tm_yday == b.yday && m.tm_isdst == dst,
        "wrong-time", "%s of %lld is %d-%d-%d %d:%d:%d wday %d yday %d dst %d, expected %lld-%d-%d %d:%d:%d wday %d yday %d dst %d", what, (long long)t,
        m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec, m.tm_wday, m.tm_yday, m.tm_isdst,
        (long long)b.year, b.mon + 1, b.mday, b.hour, b.min, b.sec, b.wday, b.yday, dst);
}
void check_local(const Zone& z, const std::tm& m, i64 t, const char* what) {
    const bool dst = is_dst(z, t);
    check_tm(m, t, dst ? z.dst_off : z.std_off, dst, what);
    SIM_CHECK(m.tm_gmtoff == (dst ? z.dst_off : z.std_off) && m.tm_zone && !strcmp(m.tm_zone, dst ? z.dst_name : z.std_name), "wrong-time", "%s of %lld is in zone %s %ld", what, (long long)t,
        m.tm_zone ? m.tm_zone : "(none)", m.tm_gmtoff);
}

// ------------------------------------------------------------------- formats
const char* pieces[] = {"%Y", "%m", "%d", "%H", "%M", "%S", "%j", "%a", "%A", "%b", "%B", "%p", "%c", "%x", "%X", "%Z", "%z", "%%", "%n", "%t", "%F", "%T", "%D", "%R", "%r",
    "%e", "%g", "%G", "%V", "%U", "%W", "%u", "%w", "%C", "%y", "%I", "%h", "%s", "%Ey", "%Od", "-", ":", " ", "x", "a longer literal piece of the format ", "\x80\xff", "%010Y", "%-d", "%_H", "%^a", "%#Z"};
const int npieces = int(sizeof pieces / sizeof *pieces);

void build_format(const Op& op, std::string& f) {
    Rng r(u64(op.c) * 77 + 5);
    const int n = int(op.b);
    for (int i = 0; i < n; ++i) f += pieces[r.below(npieces)];
}

template <typename D>
void arith(i64 t, i64 count) {
    typedef typename D::rep Rep;
    typedef typename D::period P;
    const D d = D(Rep(count));
    // whole seconds, towards zero, as duration_cast does
    big want = big(i64(d.count())) * P::num;
    want = want / P::den;
    const i64 s = i64(want);
    const T a = T::from_seconds(t);
    SIM_CHECK((a + d).seconds_since_epoch() == t + s, "wrong-arithmetic", "%lld + %lld units is %lld", (long long)t, (long long)count, (long long)(a + d).seconds_since_epoch());
    SIM_CHECK((a - d).seconds_since_epoch() == t - s, "wrong-arithmetic", "%lld - %lld units is %lld", (long long)t, (long long)count, (long long)(a - d).seconds_since_epoch());
    T x = a;
    T& p = (x += d);
    SIM_CHECK(&p == &x && x.seconds_since_epoch() == t + s, "wrong-arithmetic", "%lld += %lld units is %lld", (long long)t, (long long)count, (long long)x.seconds_since_epoch());
    T& q = (x -= d);
    SIM_CHECK(&q == &x && x.seconds_since_epoch() == t && x == a, "wrong-arithmetic", "-= does not undo +=");
    SIM_CHECK((a + d) - a == std::chrono::seconds(s), "wrong-arithmetic", "(t + d) - t is not d in seconds");
}

struct Ctx {
    const Case& c;
    const Zone& z;
    const T* shared;       // constant, used by every thread
    const std::tm* tms;

    const T& pick(const Op& op, T& own) const {
        if (op.d & 1) return shared[op.tid & 3];
        own = T::from_seconds(op.a);
        return own;
    }
    // the result and nothing but bad_alloc
    void format(const std::string& f, const std::tm& m, size_t wide = 0) const {
        const size_t cap = (1 << 15) + f.size() + wide;
        std::string want(cap, '\0');
        const size_t n = f.empty() ? 0 : std::strftime(&want[0], cap, f.c_str(), &m);
        want.resize(n);
        std::string got;
        bool failed = false;
        const std::tm before = m;
        try {
            Sut s;
            got = itlib::strftime(f.c_str(), m);
        }
        catch (std::bad_alloc&) {
            failed = true;
            SIM_CHECK(thread_faults_fired(), "unexpected-exception", "strftime of a %zu byte format (result %zu bytes) throws bad_alloc though no allocation fails", f.size(), n);
        }
        catch (std::exception& e) {
            fail("unexpected-exception", "strftime throws %s", e.what());
        }
        SIM_CHECK(!memcmp(&before, &m, sizeof m), "wrong-value", "strftime changed its argument");
        if (failed) return;
        SIM_CHECK(got == want, "wrong-format", "strftime of a %zu byte format gives %zu bytes \"%.60s\", std::strftime gives %zu \"%.60s\"", f.size(), got.size(), got.c_str(), want.size(), want.c_str());
        SIM_CHECK(strlen(got.c_str()) == got.size() || memchr(want.data(), 0, want.size()), "wrong-format", "the result is not terminated");
    }

    void operator()(int tid) {
        for (auto& op : c.ops) {
            if (op.tid != tid) continue;
            TOp scope(op);
            T own;
            const T& t = pick(op, own);
            const i64 s = (op.d & 1) ? c.ops[0].a + (op.tid & 3) * 1000 : op.a;
            switch (op.code) {
            case GMTIME: {
                const std::tm m = t.gmtime();
                check_tm(m, s, 0, 0, "gmtime");
                break;
            }
            case LOCALTIME: {
                const std::tm m = t.localtime();
                check_local(z, m, s, "localtime");
                break;
            }
            case ROUND_GM: {
                std::tm m = t.gmtime();
                const T b = T::from_gmtime(m);
                SIM_CHECK(b == t && b.seconds_since_epoch() == s, "wrong-time", "from_gmtime of gmtime of %lld is %lld", (long long)s, (long long)b.seconds_since_epoch());
                check_tm(m, s, 0, 0, "the argument of from_gmtime after it");
                break;
            }
            case ROUND_LOCAL: {
                std::tm m = t.localtime();
                const T b = T::from_localtime(m);
                SIM_CHECK(b == t && b.seconds_since_epoch() == s, "wrong-time", "from_localtime of localtime of %lld is %lld", (long long)s, (long long)b.seconds_since_epoch());
                check_local(z, m, s, "the argument of from_localtime after it");
                break;
            }
            case FROM_GM: case FROM_LOCAL: {
                // fields out of their ranges
                const Broken b = civil(s > 60000000000000000ll || s < -60000000000000000ll ? s / 2 : s); // its year plus what is added has to fit
                std::tm m = {};
                Rng r(u64(op.c) * 31 + 1);
                i64 dsec = 0, dmin = 0, dhour = 0, dday = 0, dmon = 0;
                if ((op.b & 1) && !(op.code == FROM_LOCAL && z.dst)) dsec = r.range(-100000, 100000);
                if (op.b & 2) dmin = r.range(-5000, 5000);
                if (op.b & 4) dhour = r.range(-1000, 1000);
                if (op.b & 8) dday = r.range(-800, 800);
                if (op.b & 16) dmon = r.range(-50, 50);
                m.tm_year = int(b.year - 1900);
                m.tm_mon = int(b.mon + dmon);
                m.tm_mday = int(b.mday + dday);
                m.tm_hour = int(b.hour + dhour);
                m.tm_min = int(b.min + dmin);
                m.tm_sec = int(b.sec + dsec);
                m.tm_wday = int(r.range(-3, 10));
                m.tm_yday = int(r.range(-3, 400));
                const i64 mons = b.mon + dmon;
                const i64 wall = (days_from_civil(b.year + fdiv(mons, 12), int(fmod_(mons, 12)) + 1, 1) + m.tm_mday - 1) * 86400 + m.tm_hour * i64(3600) + m.tm_min * i64(60) + m.tm_sec;
                if (op.code == FROM_GM) {
                    m.tm_isdst = int(r.range(-1, 0));
                    const i64 g = T::from_gmtime(m).seconds_since_epoch();
                    SIM_CHECK(g == wall, "wrong-time", "from_gmtime gives %lld instead of %lld", (long long)g, (long long)wall);
                    check_tm(m, wall, 0, 0, "the argument of from_gmtime after it");
                }
                else {
                    if (z.dst && (civil(wall).year < 1972 || civil(wall).year > 2400)) break;
                    // what the fields say about daylight saving time counts, also when it is not in force then
                    const int said = !z.dst ? 0 : (op.b & 32) ? (op.b & 64) ? 1 : 0 : -1;
                    m.tm_isdst = said;
                    const i64 g = T::from_localtime(m).seconds_since_epoch();
                    const bool as_std = g == wall - z.std_off, as_dst = z.dst && g == wall - z.dst_off;
                    SIM_CHECK(as_std || as_dst, "wrong-time", "from_localtime gives %lld instead of %lld", (long long)g, (long long)(wall - z.std_off));
                    // unless that local time does not exist, it is the one that was asked for
                    const bool std_ok = !is_dst(z, wall - z.std_off), dst_ok = z.dst && is_dst(z, wall - z.dst_off);
                    if (said >= 0 && std_ok != dst_ok) SIM_CHECK(said ? as_dst : as_std, "wrong-time", "from_localtime gives %lld, not the instant with that local time in %s time", (long long)g, said ? "daylight saving" : "standard");
                    if (said < 0 && std_ok != dst_ok) SIM_CHECK(std_ok ? as_std : as_dst, "wrong-time", "from_localtime gives %lld, not the instant with that local time", (long long)g);
                    check_local(z, m, g, "the argument of from_localtime after it");
                }
                break;
            }
            case NOW: {
                const int before = clock_reads();
                const T n = T::now();
                SIM_CHECK(clock_reads() > before, "stale-clock", "now() did not look at the clock");
                SIM_CHECK(n.seconds_since_epoch() == clock_last_read(), "stale-clock", "now() is %lld while the clock said %lld", (long long)n.seconds_since_epoch(), (long long)clock_last_read());
                const T n2 = T::now();
                SIM_CHECK(n2.seconds_since_epoch() == clock_last_read(), "stale-clock", "now() is %lld while the clock said %lld", (long long)n2.seconds_since_epoch(), (long long)clock_last_read());
                break;
            }
            case ARITH: {
                using namespace std::chrono;
                switch (op.b % 12) {
                case 0: arith<seconds>(s, op.c); break;
                case 1: arith<milliseconds>(s, op.c * 37); break;
                case 2: arith<nanoseconds>(s, op.c * 1000003); break;
                case 3: arith<minutes>(s, op.c); break;
                case 4: arith<hours>(s, op.c); break;
                case 5: arith<duration<int, std::ratio<86400>>>(s, op.c % 100000); break;
                case 6: arith<duration<signed char>>(s, op.c % 128); break;
                case 7: arith<duration<short, std::ratio<60>>>(s, op.c % 30000); break;
                case 8: arith<duration<double>>(s, op.c % 1000000); break;
                case 9: arith<duration<i64, std::ratio<7, 3>>>(s, op.c); break;
                case 10: arith<duration<i64, std::ratio<31556952>>>(s, op.c % 1000); break;
                default: {
                    // a fraction of a second is dropped
                    const duration<double> d(double(op.c % 1000) + (op.c < 0 ? -0.75 : 0.75));
                    const i64 want = op.c % 1000;
                    SIM_CHECK((T::from_seconds(s) + d).seconds_since_epoch() == s + want, "wrong-arithmetic", "adding a fraction of a second");
                    SIM_CHECK((T::from_seconds(s) - d).seconds_since_epoch() == s - want, "wrong-arithmetic", "subtracting a fraction of a second");
                }
                }
                break;
            }
            case DIFF: {
                const T b = T::from_seconds(op.c);
                const T::duration_type d = t - b;
                SIM_CHECK(d.count() == s - op.c, "wrong-arithmetic", "%lld - %lld is %lld", (long long)s, (long long)op.c, (long long)d.count());
                SIM_CHECK(b + d == t && t - d == b, "wrong-arithmetic", "a difference does not lead from one to the other");
                break;
            }
            case COMPARE: {
                const i64 o = op.b < 3 ? s + op.b - 1 : op.c;
                const T b = T::from_seconds(o);
                SIM_CHECK((t == b) == (s == o) && (t != b) == (s != o) && (t < b) == (s < o) && (t <= b) == (s <= o) && (t > b) == (s > o) && (t >= b) == (s >= o),
                    "wrong-comparison", "%lld and %lld compare wrongly", (long long)s, (long long)o);
                break;
            }
            case CONVERT: {
                const std::time_t k = std::time_t(t);
                SIM_CHECK(i64(k) == s && T(k) == t && t.seconds_since_epoch() == s, "wrong-value", "converting to std::time_t and back");
                T d;
                SIM_CHECK(d.seconds_since_epoch() == 0, "wrong-value", "a default time is not the epoch");
                d = t;
                T e(d);
                SIM_CHECK(e.seconds_since_epoch() == s, "wrong-value", "a copy differs");
                break;
            }
            case FORMAT: {
                std::string f;
                build_format(op, f);
                format(f, (op.d & 2) ? tms[op.c & 1] : (op.d & 4) ? t.localtime() : t.gmtime());
                break;
            }
            case FORMAT_LEN: {
                // a result of exactly op.b bytes
                const std::tm& m = tms[op.c & 1];
                std::string f;
                if (op.c & 2 && op.b >= 2) f = "%d" + std::string(size_t(op.b - 2), 'y');
                else if (op.c & 4 && op.b >= 2) f = std::string(size_t(op.b - 2), 'y') + "%d";
                else if (op.c & 16 && op.b >= 2) f = "%0" + std::to_string(op.b) + "d"; // a short format, a long result
                else f = std::string(size_t(op.b), 'z');
                if (op.c & 8) {
                    std::tm e = m;
                    e.tm_zone = "";
                    f += "%Z";
                    format(f, e, size_t(op.b));
                }
                else format(f, m, size_t(op.b));
                break;
            }
            }
        }
    }
};

struct H : Harness {
    const char* property() override { return "C06"; }
    const char* op_name(int c) override { return c >= 0 && c < OPS ? names[c] : "?"; }
    const char* cfg_names() override { return "zone threads"; }
    static i64 instant(Rng& r, const Zone& z) {
        i64 t;
        if (z.dst) { // inside what is specified for rules
            const i64 y = r.chance(1, 2) ? r.range(1990, 2040) : r.range(1972, 2399);
            switch (r.below(3)) {
            case 0: return days_from_civil(y, 1, 1) * 86400 + i64(r.below(365 * 86400));
            case 1: t = rule_day(y, z.begin) * 86400 + z.begin.sec - z.std_off; break;
            default: t = rule_day(y, z.end) * 86400 + z.end.sec - z.dst_off; break;
            }
            static const i64 near[] = {-3601, -3600, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7200, -86400, 86400};
            return t + near[r.below(14)];
        }
        switch (r.below(8)) {
        case 0: { static const i64 k[] = {0, 1, -1, 86399, 86400, -86400, -86401, 2147483647, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 253402300799ll, 253402300800ll, -62167219200ll, -62167219201ll}; return k[r.below(17)]; }
        case 1: { // around the turn of a day in February
            const i64 y = r.chance(1, 2) ? r.range(1890, 2110) : r.range(-1000, 10000) / 100 * 100;
            return days_from_civil(y, r.chance(1, 2) ? 3 : 1, 1) * 86400 + r.range(-2, 2) * 43200 + r.range(-1, 1);
        }
        case 2: return r.range(-67768040609740800ll + 10000000, 67768036191676799ll - 10000000); // what std::tm can hold
        case 3: return r.chance(1, 2) ? -67768040609740800ll + 20000000 + r.range(0, 100) : 67768036191676799ll - 20000000 - r.range(0, 100);
        default: return r.range(-62135596800ll, 253402300799ll);
        }
    }
    void generate(Rng& r, Case& c) override {
        const int nt = 2 + int(r.below(4) == 3 ? 2 : r.below(2));
        c.cfg = {int(r.below(u64(nzones))), nt};
        const Zone& z = zones[c.cfg[0]];
        const int total = nt == 2 ? int(r.range(2, 8)) : int(r.range(3, 12));
        for (int i = 0; i < total; ++i) {
            Op o;
            o.tid = 1 + int(i < nt ? u64(i) : r.below(u64(nt)));
            int w[] = {5, 5, 3, 3, 3, 3, 3, 4, 2, 2, 1, 4, 5};
            o.code = r.pick(w, OPS);
            o.a = instant(r, z);
            o.d = i64(r.below(8));
            o.b = i64(r.below(32));
            switch (o.code) {
            case FROM_GM: case FROM_LOCAL: o.c = i64(r.below(100000)); if (r.chance(1, 4)) o.b = 0; if (r.chance(1, 2)) o.b |= i64(1 + r.below(2) * 2) << 5; break;
            case NOW: o.d = 0; if (r.chance(2, 3)) { o.fk = F_CLOCK; o.fn = r.chance(1, 2) ? 1 : 2; o.d = r.chance(1, 2) ? r.range(-100000, 100000) * 2 : (r.chance(1, 2) ? 1ll : -1ll) * (1ll << r.below(33)) * 2; } break;
            case ARITH: o.c = r.chance(1, 3) ? r.range(-3, 3) : r.range(-4000000, 4000000); break;
            case DIFF: case COMPARE: o.c = r.chance(1, 3) ? o.a : instant(r, z); break;
            case FORMAT:
                o.c = i64(r.below(1000000));
                o.b = r.chance(1, 8) ? 0 : r.chance(1, 8) ? r.range(20, 120) : r.range(1, 12);
                break;
            case FORMAT_LEN: {
                static const i64 n[] = {0, 1, 2, 14, 15, 16, 17, 63, 64, 125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 510, 511, 512, 513, 1023, 1024, 2047, 2048, 4095};
                o.b = r.chance(3, 4) ? n[r.below(29)] : r.range(0, 3000);
                o.c = i64(r.below(32));
                if (r.chance(1, 24)) o.b = (i64(1) << r.range(12, 17)) + r.range(-3, 3);
                break;
            }
            }
            if ((o.code == FORMAT || o.code == FORMAT_LEN) && r.chance(1, 4)) { o.fk = F_ALLOC; o.fn = r.chance(1, 4) ? -1 : 1 + int(r.below(5)); }
            c.ops.push_back(o);
        }
        // the shared times are made from the first one
        for (auto& o : c.ops) if (o.code == NOW) o.d &= ~i64(1);
        if (!z.dst) { if (c.ops[0].a > 60000000000000000ll) c.ops[0].a -= 100000; }
    }
    void run(Case& c) override {
        const Zone& z = zones[c.cfg[0]];
        {
            Host h;
            ::putenv(const_cast<char*>(z.tz));
            ::tzset();
        }
        clock_set(1700000000 + i64(c.seed % 1000003));
        const i64 base = c.ops.empty() ? 0 : c.ops[0].a;
        T shared[4];
        for (int i = 0; i < 4; ++i) shared[i] = T::from_seconds(base + i * 1000);
        std::tm tms[2] = {shared[0].gmtime(), shared[1].localtime()};
        Ctx x = {c, z, shared, tms};
        run_threads(c.cfg[1], x);
        u64 h = 0;
        for (auto& o : c.ops) h = h * 31 + u64(o.code) * 8 + u64(o.d & 7);
        state(h);
    }
};
}
namespace sim { Harness* make_harness() { static char mem[sizeof(H)]; static H* h = ::new (static_cast<void*>(mem)) H; return h; } }
