// Calendar dates and date-times against an independent Gregorian calendar.
#include "vh.hpp"
#include "civil.hpp"
#include <dal/platform/platform.hpp>
#include <dal/string/strings.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/currency/currency.hpp>
#include <dal/utilities/exceptions.hpp>

using namespace Dal;
using namespace vh;
using civil::YMD;

static string ymd(const YMD& a) {
    char b[40];
    snprintf(b, sizeof b, "%04d-%02d-%02d", a.y, a.m, a.d);
    return b;
}
static string str(const String_& s) { return string(s.c_str()); }
static Date_ mk(const YMD& a) { return Date_(a.y, a.m, a.d); }
static bool same(const Date_& d, const YMD& a) {
    return d.IsValid() && Date::Year(d) == a.y && Date::Month(d) == a.m && Date::Day(d) == a.d &&
           Date::ToExcel(d) == civil::days(a) + civil::EXCEL0;
}

static void body() {
    const long lo = Date::ToExcel(Date::Minimum()) - civil::EXCEL0, hi = Date::ToExcel(Date::Maximum()) - civil::EXCEL0;
    section("range", 1, [&](Rng&) {
        // the supported range must at least span 1970 to 2149
        check(lo <= civil::toDays(1970, 1, 1) && hi >= civil::toDays(2149, 5, 1), "range:supported", cat(lo, " ", hi));
        check(!Date_().IsValid(), "range:default-invalid");
    });

    // exhaustive: every date of the supported range
    const long span = hi - lo + 1;
    section("every-date", span, [&](Rng& r) {
        const long z = lo + S().caseNo;
        const YMD a = civil::fromDays(z);
        desc(ymd(a));
        const Date_ d = mk(a);
        checkf(same(d, a), "ymd-roundtrip", [&] { return ymd(a); });
        const Date_ e = Date::FromExcel(static_cast<int>(z + civil::EXCEL0));
        checkf(e == d && e.IsValid() && Date::ToExcel(e) == z + civil::EXCEL0, "serial-roundtrip", [&] { return ymd(a); });
        check(str(Date::ToString(d)) == ymd(a), "text", str(Date::ToString(d)));
        if (z % 16 == 0 || a.d > 27 || a.d == 1) {
            check(Date::FromString(Date::ToString(d)) == d, "text-roundtrip", ymd(a));
            check(Date::IsDateString(Date::ToString(d)), "text-recognised", ymd(a));
            check(Date::FromString(String_(cat(a.m, "/", a.d, "/", a.y))) == d, "us-text", ymd(a));
            if (a.y >= 2000 && a.y < 2100) {
                char b[32];
                snprintf(b, sizeof b, "%d/%d/%02d", a.m, a.d, a.y - 2000);
                check(Date::FromString(String_(b)) == d, "us-text-2digit", b);
            }
        }
        check(Date::DayOfWeek(d) == civil::dow(z), "weekday", ymd(a));
        check(Date::IsWeekEnd(d) == (civil::dow(z) == 0 || civil::dow(z) == 6), "weekend", ymd(a));
        if (a.y < 2149 || a.m < 5) {
            check(same(Date::EndOfMonth(d), {a.y, a.m, civil::dim(a.y, a.m)}), "month-end", ymd(a));
            check(Date::DaysInMonth(a.y, a.m) == civil::dim(a.y, a.m), "month-length", ymd(a));
        }
        // stepping
        if (z < hi) {
            Date_ n = d;
            ++n;
            check(same(n, civil::fromDays(z + 1)) && n - d == 1 && d < n && n > d && d <= n && n >= d && d != n && !(d == n),
                  "increment", ymd(a));
            --n;
            check(n == d && d <= n && d >= n && !(d < n) && !(d > n), "decrement", ymd(a));
        }
        const long z2 = lo + static_cast<long>(r.below(span));
        const Date_ d2 = mk(civil::fromDays(z2));
        check(d2 - d == z2 - z, "difference", ymd(a) + " " + ymd(civil::fromDays(z2)));
        check((d < d2) == (z < z2) && (d == d2) == (z == z2) && (d > d2) == (z > z2) && (d <= d2) == (z <= z2) &&
                  (d >= d2) == (z >= z2) && (d != d2) == (z != z2), "ordering", ymd(a));
        check(d.AddDays(static_cast<int>(z2 - z)) == d2, "add-days", ymd(a));
        check(NumericValueOf(d) == static_cast<double>(z + civil::EXCEL0), "numeric", ymd(a));
        // months
        for (int k = 0; k < 6; ++k) {
            const int n = k < 2 ? r.range(-14, 14) : k < 4 ? r.pick({-24, -13, -12, -11, -1, 0, 1, 11, 12, 13, 24, 36}) : r.range(-700, 700);
            for (int eom = 0; eom < 2; ++eom) {
                const YMD b = civil::addMonths(a, n, eom);
                const long zb = civil::days(b);
                if (zb < lo || zb > hi - 31)
                    continue;
                count("month-additions");
                checkf(same(Date::AddMonths(d, n, eom), b), "add-months", [&] {
                    return cat(ymd(a), " + ", n, " eom=", eom, " -> ", str(Date::ToString(Date::AddMonths(d, n, eom))), " expected ", ymd(b));
                });
                if (!eom)
                    check(Date::AddMonths(d, n) == Date::AddMonths(d, n, false), "add-months-default", ymd(a));
            }
        }
        if (z < hi - 400) {
            static const vector<std::pair<const char*, int>> P = {{"ANNUAL", 12}, {"12M", 12}, {"SEMIANNUAL", 6}, {"SEMI", 6}, {"6M", 6},
                                                                  {"QUARTERLY", 3}, {"3M", 3}, {"MONTHLY", 1}, {"1M", 1}};
            const auto& p = r.pick(P);
            const PeriodLength_ pl{String_(p.first)};
            check(pl.Months() == p.second, "period-months", p.first);
            check(same(Date::NominalMaturity(d, pl, Ccy_("USD")), civil::addMonths(a, p.second, false)), "nominal-maturity",
                  ymd(a) + " " + p.first);
        }
        observed(static_cast<u64>(z));
        count("dates");
        if (z % 20011 == 0)
            sample(cat(ymd(a), " weekday ", civil::dow(z), " serial ", z + civil::EXCEL0));
    });

    // values that name no supported date never become some other date
    section("out-of-range", N(4000, 200000), [&](Rng& r) {
        int y, m, d;
        if (r.coin()) {
            y = r.coin() ? r.range(1600, 1969) : r.range(2151, 3500);
            m = r.range(1, 12);
            d = r.range(1, civil::dim(y, m));
            desc(ymd({y, m, d}));
            check(!Date_(y, m, d).IsValid(), "out-of-range:valid", ymd({y, m, d}));
            const long s = civil::toDays(y, m, d) + civil::EXCEL0;
            check(!Date::FromExcel(static_cast<int>(s)).IsValid(), "out-of-range:serial", cat(s));
        } else {
            y = r.range(1971, 2148);
            if (r.coin()) {
                m = r.range(1, 12);
                d = r.pick({0, civil::dim(y, m) + 1, 32, 45, 99});
            } else {
                m = r.pick({0, 13, 14, 25, 99});
                d = r.range(1, 28);
            }
        }
        char b[64];
        if (r.coin())
            snprintf(b, sizeof b, "%04d-%02d-%02d", y, m, d);
        else
            snprintf(b, sizeof b, "%d/%d/%04d", m, d, y);
        desc(b);
        Date_ got;
        const bool threw = throws([&] { got = Date::FromString(String_(b)); });
        check(threw || !got.IsValid(), "out-of-range:text", cat(b, " read as ", threw ? "" : str(Date::ToString(got))));
        count(threw ? "rejected-text" : "invalid-date");
        observed(b);
        sample(b);
    });

    // date-times
    auto hms = [](int s) {
        char b[16];
        snprintf(b, sizeof b, "%02d:%02d:%02d", s / 3600, s / 60 % 60, s % 60);
        return string(b);
    };
    section("every-second", 86400, [&](Rng& r) {
        const int s = static_cast<int>(S().caseNo);
        const long z = lo + static_cast<long>(r.below(span));
        const YMD a = civil::fromDays(z);
        const Date_ d = mk(a);
        desc(ymd(a) + " " + hms(s));
        const DateTime_ t(d, s / 3600, s / 60 % 60, s % 60);
        check(t.Date() == d, "dt:date");
        check(std::fabs(t.Frac() - s / 86400.0) < 1e-12, "dt:fraction");
        check(DateTime::Hour(t) == s / 3600, "dt:hour", cat(DateTime::Hour(t)));
        check(DateTime::Minute(t) == s / 60 % 60, "dt:minute", cat(DateTime::Minute(t)));
        check(str(DateTime::TimeString(t)) == hms(s), "dt:time-text", str(DateTime::TimeString(t)));
        check(str(DateTime::ToString(t)) == ymd(a) + " " + hms(s), "dt:text", str(DateTime::ToString(t)));
        check(DateTime::IsDateTimeString(DateTime::ToString(t)), "dt:text-recognised");
        if (s % 4 == 0)
            check(DateTime::FromString(DateTime::ToString(t)) == t, "dt:text-roundtrip", str(DateTime::ToString(t)));
        const long long ms = DateTime::MSec(t);
        check(ms == 86400000LL * (z - lo) + 1000LL * s, "dt:msec", cat(ms, " expected ", 86400000LL * (z - lo) + 1000LL * s));
        const DateTime_ back(ms);
        check(back.Date() == d && std::fabs(back - t) < 1e-9, "dt:msec-back");
        // ordering and difference
        const int s2 = r.range(0, 86399);
        const long z2 = r.coin() ? z : lo + static_cast<long>(r.below(span));
        const DateTime_ t2(mk(civil::fromDays(z2)), s2 / 3600, s2 / 60 % 60, s2 % 60);
        const long long k1 = z * 86400LL + s, k2 = z2 * 86400LL + s2;
        check((t < t2) == (k1 < k2) && (t > t2) == (k1 > k2) && (t <= t2) == (k1 <= k2) && (t >= t2) == (k1 >= k2) &&
                  (t == t2) == (k1 == k2) && (t != t2) == (k1 != k2), "dt:ordering", hms(s2));
        checkNear(t2 - t, (k2 - k1) / 86400.0, 1e-9, 0, "dt:difference");
        checkNear(NumericValueOf(t), z + civil::EXCEL0 + s / 86400.0, 1e-9, 0, "dt:numeric");
        // adding a positive span
        const double add = r.coin() ? r.uniform(1e-4, 0.999) : r.uniform(1e-4, 40.0);
        if (z + 42 < hi) {
            DateTime_ u = t;
            u += add;
            checkNear(u - t, add, 1e-9, 0, "dt:add");
            check(u.Frac() >= 0 && u.Frac() < 1 && u.IsValid(), "dt:add-normalised", cat(u.Frac()));
            DateTime_ v = DateTime_(t) + add;
            check(v == u, "dt:add-operator");
        }
        observed(static_cast<u64>(s) * 1000003 + z);
        count("seconds");
        if (s % 9973 == 0)
            sample(ymd(a) + " " + hms(s));
    });
    section("milliseconds", N(20000, 2000000), [&](Rng& r) {
        const long long days = r.below(span), m = r.below(86400000);
        const long long ms = days * 86400000LL + m;
        desc(cat(ms));
        const DateTime_ t(ms);
        check(DateTime::MSec(t) == ms, "dt:msec-roundtrip", cat(DateTime::MSec(t), " from ", ms));
        check(t.Date() - Date::Minimum() == days, "dt:msec-date");
        // order of two close moments, down to neighbouring fractions of a day
        const long long step = r.range(1, r.coin() ? 3 : 2000);
        if (ms + step < span * 86400000LL) {
            const DateTime_ u(ms + step);
            check(t < u && !(u < t) && u > t && !(t > u) && t <= u && !(u <= t) && u >= t && !(t >= u) && t != u && !(t == u), "dt:close-order", cat(ms, " +", step));
        }
        const double f = t.Frac(), g = std::nextafter(f, 1.0);
        if (f > 0 && g < 1) {
            const DateTime_ a(t.Date(), f), b(t.Date(), g);
            check(a < b && !(b < a) && a != b && !(a == b) && a <= b && !(a >= b), "dt:close-order", cat(ms, " next fraction"));
            check(a == DateTime_(t.Date(), f) && !(a < DateTime_(t.Date(), f)), "dt:same-moment");
        }
        observed(static_cast<u64>(ms));
    });
    section("bad-times", 2000, [&](Rng& r) {
        const Date_ d = mk(civil::fromDays(lo + static_cast<long>(r.below(span))));
        const int h = r.pick({24, 25, 99, -1}), m = r.range(0, 59), s = r.range(0, 59);
        desc(cat(h, ":", m, ":", s));
        check(throws([&] { DateTime_ t(d, h, m, s); }) || h < 0, "dt:bad-hms-accepted", cat(h));
        check(throws([&] { DateTime_ t(d, r.uniform(1.0, 5.0)); }), "dt:bad-fraction-accepted");
        const string bad = str(Date::ToString(d)) + " " + r.pick({string("24:00:00"), string("12:60"), string("1:2:60"), string("12"), string("1:2:3:4"), string("-1:10")});
        desc(bad);
        check(throws([&] { DateTime::FromString(String_(bad)); }), "dt:bad-text-accepted", bad);
        observed(bad + cat(h, m, s));
    });
    section("future-codes", 26, [&](Rng&) {
        static const string CODES = "FGHJKMNQUVXZ";
        const char c = static_cast<char>('A' + S().caseNo);
        desc(string(1, c));
        const size_t p = CODES.find(c);
        if (p == string::npos)
            check(throws([&] { Date::MonthFromFutureCode(c); }), "future-code:accepted", string(1, c));
        else
            check(Date::MonthFromFutureCode(c) == static_cast<int>(p) + 1, "future-code", string(1, c));
        observed(string(1, c));
    });
}
VH_MAIN(body)
