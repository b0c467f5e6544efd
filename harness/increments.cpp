// Date increments and schedules against a reference written from the conventions.
#include "holcal.hpp"
#include <dal/time/calendars/init.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/schedules.hpp>
#include <dal/math/cell.hpp>
#include <dal/currency/init.hpp>
#include <dal/currency/currency.hpp>
#include <dal/time/datetime.hpp>
#include <dal/protocol/conventions.hpp>
#include <dal/utilities/exceptions.hpp>

using namespace Dal;
using namespace vh;
using namespace holcal;

static vector<Center> centers;

struct RefInc {
    int kind; // 0 Y 1 M 2 W 3 CD 4 BD 5 IMM 6 IMM1 7 CDS 8 EOM
    int n = 0;
    vector<const Center*> cal; // empty: none
    string text;
};
static long monthStep(long z, int n) { return civil::days(civil::addMonths(civil::fromDays(z), n, false)); }
static long immDay(int y, int m) {
    // third Wednesday
    long z = civil::toDays(y, m, 1);
    while (civil::dow(z) != 3)
        ++z;
    return z + 14;
}
static long special(int kind, long z, bool fwd) {
    civil::YMD a = civil::fromDays(z);
    if (kind == 8)
        return fwd ? civil::toDays(a.y, a.m, civil::dim(a.y, a.m)) : civil::toDays(a.y, a.m, 1) - 1;
    int y = a.y, m = a.m;
    for (;;) {
        if (kind == 6 || m % 3 == 0) {
            const long q = kind == 7 ? civil::toDays(y, m, 20) : immDay(y, m);
            if (fwd ? q > z : q < z)
                return q;
        }
        m += fwd ? 1 : -1;
        if (m == 13)
            m = 1, ++y;
        if (m == 0)
            m = 12, --y;
    }
}
static long apply(const RefInc& inc, long z, bool fwd) {
    const int s = fwd ? 1 : -1;
    if (inc.kind >= 5)
        return special(inc.kind, z, fwd);
    const Cal& c = combine(inc.cal);
    long r = z;
    switch (inc.kind) {
    case 0:
        r = monthStep(z, 12 * inc.n * s);
        break;
    case 1:
        r = monthStep(z, inc.n * s);
        break;
    case 2:
        r = z + 7L * inc.n * s;
        break;
    case 3:
        r = z + static_cast<long>(inc.n) * s;
        break;
    case 4:
        for (int i = 0; i < inc.n; ++i)
            r = fwd ? c.next(r + 1) : c.prev(r - 1);
        break;
    }
    if (!inc.cal.empty())
        r = fwd ? c.next(r) : c.prev(r);
    return r;
}
static RefInc gen(Rng& r, bool positiveOnly = false) {
    static const vector<vector<string>> NAMES = {{"Y", "YEAR", "YEARS", "y"},
                                                 {"M", "MONTH", "MONTHS", "m"},
                                                 {"W", "WEEK", "WEEKS", "w"},
                                                 {"CD", "CAL_DAY", "CALENDAR_DAY", "cd"},
                                                 {"BD", "BUS_DAY", "BUSINESS_DAY", "bd"},
                                                 {"IMM", "IMM3", "IMM_QUARTERLY", "imm"},
                                                 {"IMM1", "IMM_MONTHLY", "imm1"},
                                                 {"CDS", "CDS3", "CDS_QUARTERLY", "cds"},
                                                 {"EOM", "eom"}};
    RefInc i;
    i.kind = r.range(0, 8);
    if (i.kind < 5) {
        static const int MAXN[] = {8, 60, 60, 400, 60};
        i.n = r.coin(0.15) && !positiveOnly ? 0 : r.range(1, r.coin() ? 3 : MAXN[i.kind]);
        i.text = cat(i.n, r.pick(NAMES[i.kind]));
        if (r.coin(0.5)) {
            const int k = r.range(1, 2);
            i.text += ";";
            for (int q = 0; q < k; ++q) {
                const Center* c = &centers[r.below(centers.size())];
                i.cal.push_back(c);
                i.text += (q ? " " : "") + c->name;
            }
        }
    } else
        i.text = r.pick(NAMES[i.kind]);
    return i;
}

static void body() {
    Calendars_::Init();
    CcyFacts_::Init();
    const long lo = civil::toDays(2010, 1, 4), hi = civil::toDays(2060, 12, 1);
    {
        Rng r(S().seed * 104729 + 5);
        for (int i = 0; i < 6; ++i)
            centers.push_back(make(r, cat("VI", i), civil::toDays(2005, 1, 1), civil::toDays(2065, 1, 1), i % 2 ? 0.02 : 0.08, i < 3 ? 0.0 : 0.05));
        for (auto& c : centers)
            add(c);
    }
    section("single", N(40000, 2000000), [&](Rng& r) {
        const RefInc i = gen(r);
        long z = lo + 3000 + static_cast<long>(r.below(hi - lo - 6000));
        if (r.coin(0.3)) { // month ends, special days and their neighbours
            const civil::YMD a = civil::fromDays(z);
            z = r.pick({civil::toDays(a.y, a.m, civil::dim(a.y, a.m)), civil::toDays(a.y, a.m, 1), immDay(a.y, a.m), civil::toDays(a.y, a.m, 20)}) +
                r.range(-1, 1);
        }
        const string dd = cat(i.text, " from ", z);
        desc(dd);
        const auto inc = Date::ParseIncrement(String_(i.text));
        const Date_ d = D(z);
        const long f = apply(i, z, true), b = apply(i, z, false);
        const Date_ gf = d + *inc, gb = d - *inc;
        checkf(Z(gf) == f, "forward:" + cat(i.kind), [&] { return cat(dd, " got ", Z(gf), " expected ", f); });
        checkf(Z(gb) == b, "backward:" + cat(i.kind), [&] { return cat(dd, " got ", Z(gb), " expected ", b); });
        check(inc->FwdFrom(d) == gf && inc->BackFrom(d) == gb, "operator-agrees", dd);
        count("kind:" + cat(i.kind));
        observed(dd, f != z);
        sample(dd);
        if (i.kind == 4 && i.n > 0 && !i.cal.empty()) {
            string nm = i.text.substr(i.text.find(';') + 1);
            check(Date::NBusDays(i.n, Holidays_(String_(nm)))->FwdFrom(d) == gf, "n-business-days", dd);
        }
        if (i.kind == 5 || i.kind == 6)
            check(Date::ToIMM(i.kind == 6)->FwdFrom(d) == gf && Date::ToIMM(i.kind == 6)->BackFrom(d) == gb, "to-imm", dd);
    });
    // long steps anywhere in the range of dates; the last days of February and of other months over-represented
    section("far", N(20000, 600000), [&](Rng& r) {
        static const int MAXN[] = {80, 900, 4000, 28000, 900};
        const long first = civil::toDays(1971, 1, 10), last = civil::toDays(2148, 12, 1);
        RefInc i = gen(r);
        if (i.kind >= 5 && r.coin(0.7))
            i.kind = 0, i.text.clear();
        if (i.kind < 5) {
            const size_t semi = i.text.find(';');
            const string cal = semi == string::npos ? "" : i.text.substr(semi);
            i.n = r.range(1, MAXN[i.kind]);
            i.text = cat(i.n, string(i.kind == 0 ? "Y" : i.kind == 1 ? "M" : i.kind == 2 ? "W" : i.kind == 3 ? "CD" : "BD"), cal);
        }
        long z = first + static_cast<long>(r.below(last - first));
        civil::YMD a = civil::fromDays(z);
        const int how = r.range(0, 4);
        if (how == 0)
            z = civil::toDays(a.y, 2, civil::dim(a.y, 2));
        else if (how == 1)
            z = civil::toDays(a.y / 4 * 4, 2, civil::dim(a.y / 4 * 4, 2));
        else if (how == 2)
            z = civil::toDays(a.y, a.m, civil::dim(a.y, a.m));
        if (z < first || z > last)
            return;
        const string dd = cat(i.text, " from ", z);
        desc(dd);
        const auto inc = Date::ParseIncrement(String_(i.text));
        const Date_ d = D(z);
        bool any = false;
        for (bool fwd : {true, false}) {
            const double days = i.kind == 0 ? 366.0 * i.n : i.kind == 1 ? 31.0 * i.n : i.kind == 2 ? 7.0 * i.n : i.kind == 3 ? i.n : i.kind == 4 ? 3.0 * i.n : 100;
            if (fwd ? z + days + 60 > last : z - days - 60 < first)
                continue;
            any = true;
            const long want = apply(i, z, fwd);
            const Date_ got = fwd ? d + *inc : d - *inc;
            checkf(Z(got) == want, (fwd ? "far-forward:" : "far-backward:") + cat(i.kind), [&] { return cat(dd, " got ", Z(got), " expected ", want); });
            count("far-steps");
        }
        observed(dd, any);
    });
    section("compound", N(8000, 300000), [&](Rng& r) {
        const int k = r.range(2, 4);
        vector<RefInc> is;
        string text;
        for (int q = 0; q < k; ++q) {
            is.push_back(gen(r));
            text += (q ? "&" : "") + is.back().text;
        }
        const long z = lo + 8000 + static_cast<long>(r.below(2500));
        desc(cat(text, " from ", z));
        long f = z, b = z; // the parts act in the order written, in either direction
        for (auto& i : is) {
            f = apply(i, f, true);
            b = apply(i, b, false);
        }
        const auto inc = Date::ParseIncrement(String_(text));
        check(Z(inc->FwdFrom(D(z))) == f, "compound:forward", cat(text, " ", z, " got ", Z(inc->FwdFrom(D(z))), " expected ", f));
        check(Z(inc->BackFrom(D(z))) == b, "compound:backward", cat(text, " ", z, " got ", Z(inc->BackFrom(D(z))), " expected ", b));
        check(Z(D(z) + *inc) == f && Z(D(z) - *inc) == b, "compound:operators", text);
        observed(text + cat(z));
    });
    section("schedules", N(12000, 400000), [&](Rng& r) {
        const RefInc i = gen(r, true);
        const long a = lo + 3000 + static_cast<long>(r.below(8000));
        const long b = a + (r.coin(0.1) ? r.range(0, 3) : r.range(1, r.coin() ? 400 : 4000));
        const bool fwd = r.coin();
        const string dd = cat(i.text, " ", fwd ? "Forward" : "Backward", " ", a, "..", b);
        desc(dd);
        // reference
        vector<long> e;
        bool stuck = false;
        if (fwd) {
            e.push_back(a);
            for (;;) {
                const long n = apply(i, e.back(), true);
                if (n > b)
                    break;
                if (n <= e.back()) {
                    stuck = true;
                    break;
                }
                e.push_back(n);
            }
            if (e.back() != b)
                e.push_back(b);
        } else {
            e.push_back(b);
            for (;;) {
                const long n = apply(i, e.back(), false);
                if (n < a)
                    break;
                if (n >= e.back()) {
                    stuck = true;
                    break;
                }
                e.push_back(n);
            }
            if (e.back() != a)
                e.push_back(a);
            std::reverse(e.begin(), e.end());
        }
        const auto inc = Date::ParseIncrement(String_(i.text));
        const DateGeneration_ rule{String_(fwd ? "Forward" : "Backward")};
        Schedule_ got;
        const bool threw = throws([&] { got = DateGenerate(D(a), D(b), inc, rule); });
        if (stuck) {
            check(threw, "schedule:stuck-tenor-accepted", dd);
            count("stuck-tenors-refused");
            observed(dd, false);
            return;
        }
        check(!threw, "schedule:refused", dd);
        vector<long> g;
        for (const auto& x : got)
            g.push_back(Z(x));
        checkf(g == e, "schedule:dates", [&] {
            string s = dd + " got";
            for (long x : g)
                s += cat(" ", x);
            s += " expected";
            for (long x : e)
                s += cat(" ", x);
            return s;
        });
        check(!g.empty() && g.front() == a && g.back() == b && std::is_sorted(g.begin(), g.end()) &&
                  std::adjacent_find(g.begin(), g.end()) == g.end(), "schedule:shape", dd);
        // adjusted
        vector<const Center*> cs;
        string nm;
        for (int q = r.range(0, 2); q > 0; --q) {
            cs.push_back(&centers[r.below(centers.size())]);
            nm += (nm.empty() ? "" : " ") + cs.back()->name;
        }
        const Cal& cal = combine(cs);
        const bool foll = r.coin(0.7);
        std::set<long> adj;
        for (long x : e)
            adj.insert(foll ? cal.next(x) : x);
        const auto ms = MakeSchedule(D(a), Cell_(D(b)), Holidays_(String_(nm)), inc, rule, BizDayConvention_(String_(foll ? "Following" : "Unadjusted")));
        vector<long> m;
        for (const auto& x : ms)
            m.push_back(Z(x));
        check(m == vector<long>(adj.begin(), adj.end()), "schedule:adjusted", dd + " [" + nm + "]");
        count("schedule-dates", g.size());
        observed(dd, g.size() > 2);
        sample(dd + cat(" -> ", g.size(), " dates"));
    });
    section("rate-fixing", N(6000, 200000), [&](Rng& r) {
        // interbank fixing lag of the shipped conventions
        const long z = civil::toDays(2006, 1, 1) + static_cast<long>(r.below(7000));
        desc(cat("CNY ", z));
        const auto data = Holidays::OfCenter(String_("CN.IB"));
        static Cal ref;
        if (ref.hol.empty()) {
            for (const auto& d : data->holidays_)
                ref.hol.insert(Z(d));
            for (const auto& d : data->workWeekends_)
                ref.work.insert(Z(d));
        }
        const Date_ start = Libor::StartFromFix(Ccy_("CNY"), D(z));
        check(Z(start) == ref.next(z + 1), "fixing:start", cat(z));
        const DateTime_ fix = Libor::FixFromStart(Ccy_("CNY"), D(z));
        check(Z(fix.Date()) == ref.prev(z - 1) && DateTime::Hour(fix) == 10, "fixing:date", cat(z));
        observed(cat(z));
    });
    section("refusals", 600, [&](Rng& r) {
        static const vector<string> BAD = {"", "3Q", "12", "IMM9", "M3", "-3M", "3M;NO_SUCH_CENTER", "1.5Y", " ", "EOMX", "3 4M", ";", "3M&", "&3M", "&", "3M&&1Y", "99999999999M"};
        const string b = r.pick(BAD);
        desc(b);
        // refuse, or mean something that moves dates; never crash
        try {
            const auto inc = Date::ParseIncrement(String_(b));
            if (inc)
                inc->FwdFrom(D(lo + 4000));
            count("malformed-accepted");
        } catch (const std::exception&) {
            count("malformed-refused");
        }
        for (const char* must : {"3Q", "IMM9", "3M;NO_SUCH_CENTER", "EOMX", "12", ""})
            if (b == must)
                check(throws([&] { Date::ParseIncrement(String_(b)); }), "malformed-increment-accepted", b);
        observed(b);
        check(IsSwapTenor("5Y") && !IsLiborTenor("5Y") && IsLiborTenor("3M") && !IsSwapTenor("6M"), "tenor-kind");
    });
}
VH_MAIN(body)
