// Day-count fractions against references written from the market definitions.
#include "holcal.hpp"
#include <dal/time/daybasis.hpp>
#include <dal/protocol/accrualperiod.hpp>
#include <dal/utilities/exceptions.hpp>

using namespace Dal;
using namespace vh;
using holcal::D;

static double refActAct(long a, long b) {
    double s = 0;
    long z = a;
    while (z < b) {
        const civil::YMD y = civil::fromDays(z);
        const long ny = civil::toDays(y.y + 1, 1, 1);
        const long e = std::min(ny, b);
        s += (e - z) / (civil::leap(y.y) ? 366.0 : 365.0);
        z = e;
    }
    return s;
}
static double ref30360(long a, long b) {
    civil::YMD x = civil::fromDays(a), y = civil::fromDays(b);
    const bool ex = x.m == 2 && x.d == civil::dim(x.y, 2), ey = y.m == 2 && y.d == civil::dim(y.y, 2);
    int d1 = x.d, d2 = y.d;
    if (ex && ey)
        d2 = 30;
    if (ex)
        d1 = 30;
    if (d2 == 31 && d1 >= 30)
        d2 = 30;
    if (d1 == 31)
        d1 = 30;
    return (360 * (y.y - x.y) + 30 * (y.m - x.m) + (d2 - d1)) / 360.0;
}
static double ref365L(long a, long b, bool annual, long end) {
    double den = 365;
    if (annual) {
        for (int y = civil::fromDays(a).y; y <= civil::fromDays(end).y; ++y)
            if (civil::leap(y)) {
                const long f = civil::toDays(y, 2, 29);
                if (f > a && f <= end)
                    den = 366;
            }
    } else
        den = civil::leap(civil::fromDays(end).y) ? 366 : 365;
    return (b - a) / den;
}

static void body() {
    const long lo = civil::toDays(1971, 1, 1), hi = civil::toDays(2147, 12, 31);
    static const vector<vector<string>> NAMES = {{"ACT_365F", "ACT/365F", "ACT_365FIXED", "ACT/365FIXED", "act/365f"},
                                                 {"ACT_365L", "ACT/365L", "ISMA_Year"},
                                                 {"ACT_360", "ACT/360", "MONEY", "ACTUAL/360"},
                                                 {"ACT_ACT", "ACT/ACT", "ACTUAL/ACTUAL"},
                                                 {"BOND", "30_360", "30/360", "30_360_US"}};
    auto edge = [&](Rng& r) {
        long z = lo + static_cast<long>(r.below(hi - lo + 1));
        const civil::YMD a = civil::fromDays(z);
        switch (r.range(0, 5)) {
        case 0:
            return civil::toDays(a.y, a.m, civil::dim(a.y, a.m));
        case 1:
            return civil::toDays(a.y, 2, civil::dim(a.y, 2)) + r.range(-1, 1);
        case 2:
            return civil::toDays(a.y, 1, 1) + r.range(-1, 1);
        case 3:
            return civil::toDays(a.y, a.m, 30 <= civil::dim(a.y, a.m) ? 30 : 28);
        default:
            return z;
        }
    };
    auto one = [&](Rng& r, long a, long b) {
        if (a > b)
            std::swap(a, b);
        const int k = r.range(0, 4);
        const string nm = r.pick(NAMES[k]);
        const DayBasis_ basis{String_(nm)};
        const long end = r.coin(0.5) ? b : std::min(hi, b + r.range(0, 370));
        const bool annual = r.coin();
        const DayBasis::Context_ ctx(r.coin(), D(a), D(end), annual ? 12 : r.pick({1, 3, 6}));
        const string dd = cat(nm, " ", a, " ", b, " end ", end, annual ? " annual" : "");
        desc(dd);
        double e = 0;
        switch (k) {
        case 0:
            e = (b - a) / 365.0;
            break;
        case 1:
            e = ref365L(a, b, annual, end);
            break;
        case 2:
            e = (b - a) / 360.0;
            break;
        case 3:
            e = refActAct(a, b);
            break;
        case 4:
            e = ref30360(a, b);
            break;
        }
        const double got = basis(D(a), D(b), &ctx);
        checkNear(got, e, 1e-12, 1e-13, "dcf:" + NAMES[k][0], dd);
        if (k != 1) {
            check(basis(D(a), D(b), nullptr) == got, "dcf:context-changes-" + NAMES[k][0], dd);
            const AccrualPeriod_ p(D(a), D(b), 1e6, basis);
            check(p.dcf_ == got && p.startDate_ == D(a) && p.endDate_ == D(b) && p.notional_ == 1e6, "accrual-period", dd);
        } else
            check(throws([&] { basis(D(a), D(b), nullptr); }), "dcf:365L-without-context", dd);
        if (k == 0 || k == 2 || k == 3) { // additive
            const long m = a + static_cast<long>(r.below(b - a + 1));
            checkNear(basis(D(a), D(m), nullptr) + basis(D(m), D(b), nullptr), got, 1e-11, 1e-13, "dcf:additive-" + NAMES[k][0], dd);
        }
        if (k == 0 || k == 2)
            checkNear(basis(D(b), D(a), nullptr), -got, 0, 0, "dcf:antisymmetric-" + NAMES[k][0], dd);
        count("basis:" + NAMES[k][0]);
        observed(dd, b > a);
        sample(dd);
    };
    section("edges", N(80000, 4000000), [&](Rng& r) { one(r, edge(r), edge(r)); });
    section("near", N(80000, 4000000), [&](Rng& r) {
        const long a = edge(r);
        one(r, a, std::min(hi, a + r.range(0, 800)));
    });
    section("names", 60, [&](Rng& r) {
        const int k = r.range(0, 4);
        const string a = r.pick(NAMES[k]), b = r.pick(NAMES[k]);
        desc(a + " " + b);
        check(DayBasis_(String_(a)) == DayBasis_(String_(b)), "names:synonyms", a + " " + b);
        check(DayBasis_(String_(a)) == DayBasis_(String_(DayBasis_(String_(a)).String())), "names:roundtrip", a);
        const string c = r.pick(NAMES[(k + 1) % 5]);
        check(!(DayBasis_(String_(a)) == DayBasis_(String_(c))), "names:distinct", a + " " + c);
        check(throws([&] { DayBasis_ x(String_("ACT_364")); }), "names:unknown-accepted");
        observed(a + b);
    });
}
VH_MAIN(body)
