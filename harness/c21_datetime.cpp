// DateTime against a calendar counted day by day and against the C library's; the clock and the CPU timer.
#include "plyvf.h"
#include "threadvf.h"
#include <ply-runtime/time/DateTime.h>
#include <ply-runtime/time/CPUTimer.h>
#include <ply-runtime/time/impl/CPUTimer_POSIX.h>
#include <time.h>
using namespace ply;

static const s64 Day = 86400000000ll;

struct Fields {
    s64 year;
    u32 month, day, weekday, hour, minute, second, us;
};

static vf::Str show(const DateTime& d) {
    return vf::fmt("%d-%02u-%02u (%u) %02u:%02u:%02u.%06u zone %d:%u", d.year, d.month, d.day, d.weekday, d.hour, d.minute, d.second,
                   d.microseconds, d.timeZoneHour, d.timeZoneMinute);
}

static bool leap(s64 y) {
    return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
}
static u32 monthDays(s64 y, u32 m) {
    static const u8 n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : n[m - 1];
}

static bool check(s64 us, const Fields& f) {
    DateTime d = DateTime::fromEpochMicroseconds(us);
    VF_CHECKR(d.year == f.year && d.month == f.month && d.day == f.day, false, "date-fields", "%lld us is %s, expected %lld-%02u-%02u",
              (long long) us, show(d).c_str(), (long long) f.year, f.month, f.day);
    VF_CHECKR(d.weekday == f.weekday, false, "date-weekday", "%lld us is %s, expected weekday %u", (long long) us, show(d).c_str(),
              f.weekday);
    VF_CHECKR(d.hour == f.hour && d.minute == f.minute && d.second == f.second && d.microseconds == f.us, false, "date-time",
              "%lld us is %s, expected %02u:%02u:%02u.%06u", (long long) us, show(d).c_str(), f.hour, f.minute, f.second, f.us);
    VF_CHECKR(d.timeZoneHour == 0 && d.timeZoneMinute == 0, false, "date-zone", "%lld us is %s", (long long) us, show(d).c_str());
    s64 back = d.toEpochMicroseconds();
    VF_CHECKR(back == us, false, "date-roundtrip", "%lld us is %s, and that is %lld us", (long long) us, show(d).c_str(),
              (long long) back);
    // Only the fields matter, however they were obtained
    DateTime e;
    e.year = (s32) f.year;
    e.month = (u8) f.month;
    e.day = (u8) f.day;
    e.hour = (u8) f.hour;
    e.minute = (u8) f.minute;
    e.second = (u8) f.second;
    e.microseconds = f.us;
    VF_CHECKR(e.toEpochMicroseconds() == us, false, "date-to", "%s is %lld us, expected %lld", show(e).c_str(),
              (long long) e.toEpochMicroseconds(), (long long) us);
    return true;
}

static Fields libFields(s64 us) {
    s64 secs = us >= 0 ? us / 1000000 : -((-(us + 1)) / 1000000) - 1;
    time_t t = secs;
    struct tm tm;
    gmtime_r(&t, &tm);
    return {(s64) tm.tm_year + 1900, (u32) tm.tm_mon + 1, (u32) tm.tm_mday, (u32) tm.tm_wday, (u32) tm.tm_hour, (u32) tm.tm_min,
            (u32) tm.tm_sec, (u32) (us - secs * 1000000)};
}

// Every day of several 400-year cycles, counted forwards and backwards from the epoch.
VF_WORKLOAD(everyDay, 8, 64) {
    static const u32 PerCase = 200000;
    bool back = idx & 1;
    s64 first = (s64)(idx / 2) * PerCase;
    // Count the days before the first from whole years
    s64 y = 1970;
    s64 n = 0;
    u32 m = 1, d = 1;
    if (!back) {
        while (n + (leap(y) ? 366 : 365) <= first) {
            n += leap(y) ? 366 : 365;
            y++;
        }
        for (u32 i = 0; i < PerCase + 800; i++) {
            if (n >= first) {
                u32 us = r.u32() % 1000000, s = r.below(60), mi = r.below(60), h = r.below(24);
                if (r.chance(1, 4))
                    us = 0, s = 0, mi = 0, h = 0;
                else if (r.chance(1, 4))
                    us = 999999, s = 59, mi = 59, h = 23;
                s64 t = n * Day + ((h * 60 + mi) * 60 + s) * 1000000ll + us;
                if (!check(t, {y, m, d, (u32)((n + 4) % 7), h, mi, s, us}))
                    return;
            }
            n++;
            if (++d > monthDays(y, m)) {
                d = 1;
                if (++m > 12) {
                    m = 1;
                    y++;
                }
            }
        }
    } else {
        while (n + (leap(y - 1) ? 366 : 365) <= first) {
            y--;
            n += leap(y) ? 366 : 365;
        }
        for (u32 i = 0; i < PerCase + 800; i++) {
            // step to the previous day
            n++;
            if (--d == 0) {
                if (--m == 0) {
                    m = 12;
                    y--;
                }
                d = monthDays(y, m);
            }
            if (n >= first) {
                u32 us = r.u32() % 1000000, s = r.below(60), mi = r.below(60), h = r.below(24);
                if (r.chance(1, 4))
                    us = 0, s = 0, mi = 0, h = 0;
                else if (r.chance(1, 4))
                    us = 999999, s = 59, mi = 59, h = 23;
                s64 t = -n * Day + ((h * 60 + mi) * 60 + s) * 1000000ll + us;
                if (!check(t, {y, m, d, (u32)(((-n + 4) % 7 + 7) % 7), h, mi, s, us}))
                    return;
            }
        }
    }
    vf::evals(PerCase);
    vf::count("days", PerCase);
    vf::distinct(vf::mix(idx));
}

// Any time of the supported range, and every edge: days, years, centuries, eras, the epoch.
VF_WORKLOAD(anyTime, 60, 600) {
    for (u32 i = 0; i < 3000; i++) {
        s64 us;
        switch (r.below(8)) {
            case 0: us = (s64) r.u64() / 2; break;
            case 1: us = (s64) r.u64() >> r.below(64); break;
            case 2: us = ((s64)(r.u64() >> 38) - (1ll << 25)) * Day; break;
            case 3: us = ((s64)(r.u64() >> 38) - (1ll << 25)) * Day - 1; break;
            case 4: us = (s64)(r.below(1460970) - 730485ll) * Day + (s64) r.below(3) - 1; break;
            case 5: us = (s64) r.below(4000001) - 2000000; break;
            case 6: us = INT64_MAX - (s64)(r.u64() >> (1 + r.below(60))); break;
            default: us = INT64_MIN + Day + (s64)(r.u64() >> (1 + r.below(60))); break;
        }
        if (us < INT64_MIN + Day)
            us = INT64_MIN + Day;
        vf::ctx(vf::fmt("%lld", (long long) us));
        Fields f = libFields(us);
        if (!check(us, f))
            return;
        vf::distinct(vf::mix((u64) us));
    }
    vf::evals(3000);
}

// Order of times is the order of the fields.
VF_WORKLOAD(order, 20, 200) {
    for (u32 i = 0; i < 2000; i++) {
        s64 a = (s64) r.u64() >> (8 + r.below(30)), b = r.chance(1, 2) ? a + (s64) r.below(1u << r.below(31)) : (s64) r.u64() >> 10;
        DateTime x = DateTime::fromEpochMicroseconds(a), y = DateTime::fromEpochMicroseconds(b);
        auto key = [](const DateTime& d) {
            return std::make_tuple(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microseconds);
        };
        VF_CHECK((a < b) == (key(x) < key(y)) && (a == b) == (key(x) == key(y)), "date-order", "%lld and %lld: %s, %s", (long long) a,
                 (long long) b, show(x).c_str(), show(y).c_str());
        vf::evals(1);
    }
    vf::distinct(vf::mix(r.u64()));
}

// The clock is between two readings of the system's; the timers never go back and measure what the system's does.
VF_WORKLOAD(clock, 20, 100) {
    auto sysUs = [] {
        struct timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        return (s64) t.tv_sec * 1000000 + t.tv_nsec / 1000;
    };
    for (u32 tries = 0, bad = 0;; tries++) {
        s64 a = sysUs(), b = DateTime::getCurrentEpochMicroseconds(), c = sysUs();
        if (a <= b && b <= c)
            break;
        bad++; // The system's clock may be stepped meanwhile
        VF_CHECK(bad < 5, "date-now", "the clock says %lld between %lld and %lld", (long long) b, (long long) a, (long long) c);
    }
    CPUTimer::Converter conv;
    auto prev = CPUTimer::get();
    auto first = prev;
    u64 t0 = vf::nowNs();
    for (u32 i = 0; i < 2000; i++) {
        auto p = CPUTimer::get();
        VF_CHECK(prev <= p && !(p < prev) && (p == prev || p > prev) && p >= prev, "timer-order", "the CPU timer went back by %lld",
                 (long long) (s64) (prev - p));
        prev = p;
        if (i % 200 == 0)
            vf::nap(r.below(300));
    }
    u64 elapsedIn = vf::nowNs() - t0;
    float secs = conv.toSeconds(prev - first);
    VF_CHECK(secs >= 0 && secs <= elapsedIn * 1e-9 * 1.001 + 1e-4, "timer-elapsed", "%g s by the CPU timer, %g s by the system's",
             secs, elapsedIn * 1e-9);
    u64 t1 = vf::nowNs();
    auto a = CPUTimer::get();
    vf::nap(2000 + r.below(2000));
    auto b = CPUTimer::get();
    u64 t2 = vf::nowNs();
    (void) t2;
    (void) t1;
    VF_CHECK(conv.toSeconds(b - a) >= 0.0019f, "timer-elapsed", "%g s by the CPU timer while at least 2 ms passed",
             conv.toSeconds(b - a));
    float s = 0.001f * (1 + r.below(100000));
    float back = conv.toSeconds(conv.toDuration(s));
    VF_CHECK(back >= s * 0.9999f - 1e-6f && back <= s * 1.0001f + 1e-6f, "timer-convert", "%g s becomes %g s", s, back);
    CPUTimer::Point q = first + (prev - first);
    VF_CHECK(q == prev, "timer-arith", "first + (last - first) isn't last");
    // The POSIX timer: wrap-around arithmetic
    for (u32 i = 0; i < 1000; i++) {
        u64 v = r.chance(1, 2) ? r.u64() : (u64) 0 - r.below(1000);
        s64 dlt = (s64) r.u64() >> (1 + r.below(62));
        CPUTimer_POSIX::Point x{v}, y = x + CPUTimer_POSIX::Duration{dlt};
        VF_CHECK((y - x).ticks == dlt && (x < y) == (dlt > 0) && (x <= y) == (dlt >= 0) && (x > y) == (dlt < 0) &&
                     (x >= y) == (dlt <= 0) && (x == y) == (dlt == 0),
                 "timer-arith", "%llu and %llu, %lld apart", (unsigned long long) x.tick, (unsigned long long) y.tick, (long long) dlt);
    }
    auto u = CPUTimer_POSIX::get();
    auto w = CPUTimer_POSIX::get();
    VF_CHECK(u <= w, "timer-order", "the POSIX timer went back");
    vf::evals(3000);
    vf::distinct(vf::mix(r.u64()));
}

VF_MAIN()
