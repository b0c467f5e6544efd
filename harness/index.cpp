// P26: index names, fixings and paths of fixings against a reference.
#include "civil.hpp"
#include "vh.hpp"
#include <memory>
#include <thread>
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/indice/fixings.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/index/equity.hpp>
#include <dal/indice/index/fx.hpp>
#include <dal/indice/index/ir.hpp>
#include <dal/indice/indexparse.hpp>
#include <dal/indice/indexpath.hpp>
#include <dal/indice/parser/init.hpp>
#include <dal/math/cell.hpp>
#include <dal/protocol/conventions.hpp>
#include <dal/platform/initall.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/utilities/exceptions.hpp>
using namespace vh;
using namespace Dal;
namespace {
    using IndexP = std::unique_ptr<Index_>;
    IndexP parse(const string& s) { return IndexP(Index::Parse(String_(s))); }
    string nameOf(const Index_& i) { return i.Name().c_str(); }
    const vector<string> CCYS = {"USD", "EUR", "GBP", "JPY", "AUD", "CHF", "CAD", "CNY"};
    const vector<string> INCS = {"3M", "1Y", "2W", "10CD", "IMM", "1BD;CN.SSE", "1M;CN.SSE", "CDS", "EOM", "2Y", "1M", "CDS"};
    struct T {
        int day = 0, sec = 0;
        bool operator<(const T& o) const { return std::make_pair(day, sec) < std::make_pair(o.day, o.sec); }
        DateTime_ dt() const { return DateTime_(Date_(2015, 1, 1).AddDays(day), sec / 3600, sec / 60 % 60, sec % 60); }
        string str() const { return cat(day, "+", sec); }
    };
    T randomTime(Rng& r) {
        T t;
        t.day = r.range(0, 12);
        t.sec = r.pick({0, 0, 36000, 43200, 86399, 1, static_cast<int>(r.below(86400)), 61200});
        return t;
    }
    string eqName(Rng& r) {
        static const vector<string> fix = {"IBM", "ibm", "Ibm", "600000.SS", "A B", "x/y", "a-b", "3M", "@", ">", "EQ", "FX", "USD/EUR", "2020-01-01", "#1", "a,b", "The International Widget Company plc", "The International Widget Company plc (B)"};
        if (r.coin(0.7))
            return r.pick(fix);
        string s;
        for (int n = r.range(1, 10); n > 0; --n)
            s += r.pick({'a', 'B', 'z', '9', '.', ' ', '/', '@', '>', '-', '_', '&', '~', '^'});
        return s;
    }
    string isoDate(Rng& r, int* out) {
        const long z = civil::toDays(1990, 1, 1) + static_cast<long>(r.below(20000));
        const auto a = civil::fromDays(z);
        *out = static_cast<int>(z);
        char b[32];
        snprintf(b, sizeof b, "%04d-%02d-%02d", a.y, a.m, a.d);
        return b;
    }
    string lower(string s) {
        for (auto& c : s)
            c = static_cast<char>(tolower(static_cast<unsigned char>(c)));
        return s;
    }

    void names(Rng& r) {
        const int k = r.range(0, 5);
        string text, canon;
        DateTime_ fix = DateTime_(Date_(2018, 1, 1).AddDays(r.range(0, 2000)), 0.5);
        if (k <= 2) {
            const string e = eqName(r);
            text = canon = "EQ[" + e + "]";
            int z = 0;
            const string inc = r.pick(INCS);
            if (k == 1)
                canon = text += "@" + isoDate(r, &z);
            else if (k == 2)
                canon = text += ">" + inc;
            if (r.coin(0.2)) {
                text = "eq" + text.substr(2);
            }
            desc(text);
            const IndexP i = parse(text);
            check(nameOf(*i) == canon, "name", cat(nameOf(*i), " expected ", canon));
            const auto* eq = dynamic_cast<const Index::Equity_*>(i.get());
            if (check(eq, "kind", text)) {
                check(string(eq->eqName_.c_str()) == e, "equity-name", eq->eqName_.c_str());
                const Date_ d = eq->Delivery(fix);
                if (k == 0)
                    check(d == Date::Maximum(), "delivery-none");
                else if (k == 1) {
                    const auto a = civil::fromDays(z);
                    check(d == Date_(a.y, a.m, a.d), "delivery-date", text);
                } else
                    check(d == Date::ParseIncrement(String_(inc))->FwdFrom(fix.Date()), "delivery-increment", text);
                count("deliveries");
            }
        } else if (k == 3) {
            const string a = r.pick(CCYS), b = r.pick(CCYS);
            text = canon = "FX[" + a + "/" + b + "]";
            if (r.coin(0.2))
                text = lower(text);
            desc(text);
            const IndexP i = parse(text);
            check(nameOf(*i) == canon, "name", cat(nameOf(*i), " expected ", canon));
            check(dynamic_cast<const Index::Fx_*>(i.get()), "kind", text);
            const Index::Fx_ same(Ccy_{String_(b)}, Ccy_{String_(a)});
            check(nameOf(same) == canon, "fx-name", nameOf(same));
        } else { // not the name of an index
            text = r.pick({"", "IBM", "EQ", "FX", "EQ[", "EQ]", "EQ]IBM[", "EQ[IBM", "EQIBM]", "EQ[IBM]x", "EQ[IBM] ", "EQ[IBM]@", "EQ[IBM]@foo", "EQ[IBM]@2020-13-01", "EQ[IBM]@2021-02-29",
                           "ZZ[IBM]", "EQX[IBM]", " EQ[IBM]", "FX[USD]", "FX[USD/]", "FX[/USD]", "FX[USD/XXX]", "FX[XXX/USD]", "FX[USD/EUR", "FX[USD/EUR]x", "FX[USD/EUR/GBP]", "FX(USD/EUR)", "[",
                           "]", "[]", ":", "EQ:x[IBM]", "FX:[USD/EUR]", "FX:USD/EUR", "IR:USD,3M", "EQ:IBM", "FXUSD/EUR", "FX[USDEUR]", "FX]USD/EUR[", "EQ[IBM]]", "EQ[IBM]x@2020-01-01", "EQ[IBM]<3M"});
            desc(text);
            string what, was;
            const bool t = throws([&] { was = nameOf(*parse(text)); }, &what);
            check(t && !what.empty(), "not-refused", cat("'", text, "' taken for ", was));
            count("refused");
            observed(text);
            return;
        }
        // the name of an index names that index
        const IndexP again = parse(canon);
        check(nameOf(*again) == canon, "name-again", nameOf(*again));
        const Handle_<Index_> c = Index::Clone(*again);
        check(nameOf(*c) == canon, "clone", nameOf(*c));
        check(IndexKey_(c) == IndexKey_(Handle_<Index_>(Index::Parse(String_(text)))), "key");
        count("names");
        observed(text);
        sample(text);
    }

    void irNames(Rng& r) {
        struct Def {
            int kind = 0;
            string ccy, tenor, start, mat;
        };
        auto cell = [](const string& s) {
            if (s.empty())
                return Cell_();
            if (s[0] == '#')
                return Cell_(Date::FromString(String_(s.substr(1))));
            return Cell_(String_(s));
        };
        std::map<string, string> seen;
        for (int i = 0; i < 12; ++i) {
            Def d;
            d.kind = r.range(0, 2);
            d.ccy = r.pick(CCYS);
            d.start = r.pick({"", "", "3M", "1Y", "#2020-01-15", "#2021-06-16", "IMM"});
            d.mat = r.pick({"3M", "5Y", "#2022-01-15", "#2023-06-16"});
            string key, name;
            if (d.kind == 0) {
                d.tenor = r.pick({"LIBOR_3M_CME", "LIBOR_3M_LCH", "LIBOR_3M_FUT", "LIBOR_6M_CME", "LIBOR_6M_LCH"});
                key = cat("L|", d.ccy, "|", d.tenor, "|", d.start);
                const Index::Libor_ x(Ccy_{String_(d.ccy)}, TradedRate_(String_(d.tenor)), cell(d.start));
                name = nameOf(x);
                check(x.tenor_ == TradedRate_(String_(d.tenor)) && x.ccy_ == Ccy_{String_(d.ccy)}, "libor-parts");
            } else if (d.kind == 1) {
                d.tenor = r.pick({"2Y", "5Y", "10Y", "30Y"});
                key = cat("S|", d.ccy, "|", d.tenor, "|", d.start);
                const Index::Swap_ x(Ccy_{String_(d.ccy)}, String_(d.tenor), cell(d.start));
                name = nameOf(x);
            } else {
                key = cat("D|", d.ccy, "|", d.start, "|", d.mat);
                const Cell_ st = cell(d.start);
                const auto coll = r.pick({"OIS", "GC", "NONE"});
                const Index::DF_ x(Ccy_{String_(d.ccy)}, cell(d.mat), d.start.empty() && r.coin() ? nullptr : &st, CollateralType_(String_(coll)));
                name = nameOf(x);
                check(x.collateral_ == CollateralType_(String_(coll)), "df-collateral", coll);
            }
            desc(key + " " + name);
            for (auto& s : seen)
                if (s.first != key)
                    check(s.second != name, "ir-names-shared", cat(key, " and ", s.first, " are both ", name));
                else
                    check(s.second == name, "ir-name-unstable", key);
            seen[key] = name;
            count("ir-names");
        }
        // dates relative to the fixing
        const Date_ d = Date_(2019, 1, 1).AddDays(r.range(0, 1500));
        const DateTime_ fix(d, r.unit());
        auto offset = [&](int kind, Date_* expect) {
            switch (kind) {
            case 0: *expect = d; return Cell_();
            case 1: {
                const int n = r.range(0, 900);
                *expect = d.AddDays(n);
                return Cell_(static_cast<double>(n));
            }
            case 2: {
                *expect = Date_(2021, 1, 1).AddDays(r.range(0, 900));
                return Cell_(*expect);
            }
            case 3: {
                *expect = Date_(2021, 1, 1).AddDays(r.range(0, 900));
                return Cell_(DateTime_(*expect, r.unit()));
            }
            default: {
                const string inc = r.pick(INCS);
                *expect = Date::ParseIncrement(String_(inc))->FwdFrom(d);
                return Cell_(String_(inc));
            }
            }
        };
        Date_ es, em;
        const Cell_ cs = offset(r.range(0, 4), &es), cm = offset(r.range(1, 4), &em);
        const Index::DF_ df(Ccy_{String_("USD")}, cm, &cs);
        check(df.StartDate(fix) == es, "df-start");
        check(df.Maturity(fix) == em, "df-maturity");
        const int ks = r.pick({0, 1, 2, 4});
        const Cell_ cl = offset(ks, &es);
        const Index::Swap_ sw(Ccy_{String_("CNY")}, "5Y", cl);
        check(sw.StartDate(fix) == (ks == 2 ? es : Libor::StartFromFix(Ccy_{String_("CNY")}, es)), "swap-start", cat(ks));
        count("ir-dates", 3);
        observed(cat(S().caseNo));
    }

    struct Unrelated_ : Environment::Entry_ {};

    void fixings(Rng& r) {
        const string a = r.pick(CCYS);
        string b;
        do
            b = r.pick(CCYS);
        while (b == a);
        const string eq = eqName(r), fx = "FX[" + a + "/" + b + "]", inv = "FX[" + b + "/" + a + "]";
        const vector<string> all = {"EQ[" + eq + "]", "EQ[" + eq + "]>3M", "EQ[" + eq + "]@2020-01-01", fx, inv, "EQ[other]"};
        std::map<string, std::map<T, double>> ref;
        FixingsAccess_ access, hidden;
        for (auto& n : all) {
            if (r.coin(0.25))
                continue;
            Fixings_::vals_t v;
            auto& m = ref[lower(n)];
            for (int k = r.size(0, 12, 300); k > 0; --k) {
                const T t = randomTime(r);
                m[t] = r.pick({r.uniform(0.5, 2.0), r.normal(), 1e-12, 1e9, -3.0, 4.0, 1.0});
            }
            for (auto& x : m)
                v[x.first.dt()] = x.second;
            access.fixings_[String_(n)] = Handle_<Fixings_>(new Fixings_(String_(n), v));
        }
        // an access further out is not asked
        Fixings_::vals_t far;
        far[T().dt()] = 12345.0;
        for (auto& n : all)
            hidden.fixings_[String_(n)] = Handle_<Fixings_>(new Fixings_(String_(n), far));
        const bool withHidden = r.coin(0.3);
        const Environment_* _env = nullptr;
        const Unrelated_ u1, u2;
        std::unique_ptr<Environment::XDecorated_> e0;
        if (withHidden)
            e0.reset(new Environment::XDecorated_(_env, hidden));
        Environment::XDecorated_ e1(_env, u1);
        Environment::XDecorated_ e2(_env, access);
        Environment::XDecorated_ e3(_env, u2);
        for (int q = 0; q < 40; ++q) {
            const string n = r.pick(all);
            T t = randomTime(r);
            auto& m = ref[lower(n)];
            auto& mi = n == fx ? ref[lower(inv)] : ref[lower(fx)];
            if (r.coin(0.6) && !m.empty())
                t = std::next(m.begin(), r.below(m.size()))->first;
            else if (r.coin(0.5) && !mi.empty())
                t = std::next(mi.begin(), r.below(mi.size()))->first;
            if (r.coin(0.1))
                t.sec = t.sec > 0 ? t.sec - 1 : 1;
            desc(cat(n, " at ", t.str()));
            const IndexP i = parse(n);
            const bool isFx = n == fx || n == inv;
            const bool direct = m.count(t), inverse = isFx && mi.count(t);
            double got = 0;
            string what;
            const bool t1 = throws([&] { got = i->Fixing(_env, t.dt()); }, &what);
            if (direct || inverse) {
                const double expect = direct ? m[t] : 1.0 / mi[t];
                checkf(!t1 && got == expect, direct ? "fixing" : "inverse-fixing", [&] { return cat(n, " at ", t.str(), ": ", t1 ? what : cat(got), " expected ", expect); });
                count(direct ? "fixings-found" : "inverse-found");
            } else {
                checkf(t1, "missing-fixing-replaced", [&] { return cat(n, " at ", t.str(), ": ", got); });
                count("fixings-missing");
            }
            // directly by name
            const bool t2 = throws([&] { got = Index::PastFixing(_env, String_(n), t.dt()); });
            check(t2 == !direct && (t2 || got == m[t]), "past-fixing", cat(n, " at ", t.str()));
            got = Index::PastFixing(_env, String_(n), t.dt(), true);
            check(direct ? got == m[t] : got == -INF, "past-fixing-quiet", cat(n, " at ", t.str(), " ", got));
            const Environment_* none = nullptr;
            check(throws([&] { i->Fixing(none, t.dt()); }), "fixing-without-access");
            check(Index::PastFixing(none, String_(n), t.dt(), true) == -INF, "quiet-without-access");
            // a plain history
            FixHistory_::vals_t hv;
            for (auto& x : m)
                hv[x.first.dt()] = x.second;
            const FixHistory_ h(hv);
            const bool t3 = throws([&] { got = h.Find(t.dt()); });
            check(t3 == !direct && (t3 || got == m[t]), "history-find", cat(n, " at ", t.str()));
            got = h.Find(t.dt(), true);
            check(direct ? got == m[t] : got == -INF, "history-find-quiet", cat(got));
            check(throws([&] { FixHistory::Empty().Find(t.dt()); }) && FixHistory::Empty().Find(t.dt(), true) == -INF, "history-empty");
        }
        observed(r.next(), !ref.empty());
        sample(cat(all[0], " ", fx));
    }

    double ramp(double v, double lo, double hi, double w) {
        if (v >= lo && v <= hi)
            return 1.0;
        const double dist = v < lo ? lo - v : v - hi;
        return w > 0 && dist <= w ? 1.0 - dist / w : 0.0;
    }

    void paths(Rng& r) {
        const int step = r.pick({86400, 43200, 21600, 3600, 7200, 60 * 90, 86400 * 2, 86400 * 7, 14400, 600, 17 * 60, 8640}); // seconds
        const bool aligned = r.coin(0.7);
        T from = randomTime(r);
        std::map<long, double> m; // by second
        const long s0 = from.day * 86400L + from.sec;
        const int nPts = r.range(1, 80);
        for (int k = 0; k < nPts; ++k) {
            const double v = r.pick({r.uniform(0.8, 1.2), r.uniform(0.0, 2.0), 1.0, 0.9, 1.1});
            m[aligned || r.coin() ? s0 + static_cast<long>(step) * r.range(0, nPts + 3) : s0 + static_cast<long>(r.below(static_cast<u64>(step) * nPts))] = v;
            if (r.coin(0.1))
                m[s0 - static_cast<long>(r.below(s0 + 1))] = v;
        }
        auto at = [](long s) {
            T t;
            t.day = static_cast<int>(s / 86400);
            t.sec = static_cast<int>(s % 86400);
            return t.dt();
        };
        std::map<DateTime_, double> v;
        for (auto& x : m)
            v[at(x.first)] = x.second;
        const IndexPathHistorical_ path(v);
        const IndexPath_& base = path;
        double lo = r.uniform(0.5, 1.1), hi = lo + r.uniform(0.0, 0.8);
        if (r.coin(0.2))
            lo = 0.9, hi = 1.1;
        const double w = r.pick({0.0, 0.0, 0.1, 0.5, r.uniform(0.0, 0.3)});
        desc(cat("step ", step, " from ", from.str(), " points ", m.size(), " range ", lo, " ", hi, " ramp ", w));
        for (int q = 0; q < 15; ++q) {
            long s = std::next(m.begin(), r.below(m.size()))->first;
            if (r.coin(0.3))
                s += r.pick({1, -1, 3600, step});
            if (s < 0)
                s = 0;
            double e = 0, p = 0;
            const bool te = throws([&] { e = base.Expectation(at(s), {lo, hi}); }), tp = throws([&] { p = base.FixInRangeProb(at(s), {lo, hi}, w); });
            if (m.count(s)) {
                check(!te && e == std::max(lo, std::min(hi, m[s])), "path-expectation", cat(s, " ", e));
                check(!tp && near(p, ramp(m[s], lo, hi, w), 1e-12, 1e-12), "path-range", cat(s, " ", p, " value ", m[s]));
                count("path-values");
            } else {
                check(te && tp, "path-missing-replaced", cat(s));
                count("path-missing");
            }
        }
        // monitored at from, from + step, ... before the end
        const long end = s0 + r.pick({static_cast<long>(step) * r.range(0, nPts + 5), static_cast<long>(r.below(static_cast<u64>(step) * (nPts + 3))), -static_cast<long>(r.below(s0 + 1)), 0L});
        double expect = 1.0;
        int met = 0;
        for (long s = s0; s < end; s += step)
            if (m.count(s))
                expect *= ramp(m[s], lo, hi, w), ++met;
        const double got = base.AllInRangeProb(at(s0), at(end), {lo, hi}, step / 86400.0, w);
        check(near(got, expect, 1e-12, 1e-10), "path-all-in-range", cat(got, " expected ", expect, " over ", met, " fixings to ", end - s0));
        check(throws([&] { (void)base.AllInRangeProb(at(s0), at(s0 + 86400), {lo, hi}, r.pick({0.0, -1.0}), w); }), "path-interval-accepted");
        count("monitored", met);
        count("monitorings");
        observed(r.next(), met > 1);
        sample(S().caseDesc);
    }

    Index_* testParser(const String_& name) { return new Index::Equity_(name); }
    void concurrent(Rng& r) {
        const int n = 5;
        std::atomic<int> go{0};
        const u64 seed = r.next();
        vector<std::thread> th;
        const string tag = cat("T", S().seed, "x", S().shard, "x", S().caseNo, "x");
        for (int t = 0; t < n; ++t)
            th.emplace_back([&, t] {
                Rng q(seed + t);
                ++go;
                while (go < n)
                    std::this_thread::yield();
                for (int k = 0; k < 12; ++k) {
                    try {
                        if (t < 2) {
                            const string nm = cat(tag, t, "x", k);
                            Index::RegisterParser(String_(nm), testParser);
                            check(nameOf(*parse(nm + "[x]")) == "EQ[" + nm + "[x]]", "concurrent:registered", nm);
                        } else {
                            const string nm = q.coin() ? "EQ[A" + std::to_string(k) + "]" : "FX[USD/EUR]";
                            check(nameOf(*parse(nm)) == nm, "concurrent:name", nm);
                            check(throws([&] { parse("QQ[x]"); }), "concurrent:unknown");
                        }
                    } catch (const std::exception& e) {
                        violation("concurrent:exception", e.what());
                    }
                }
            });
        for (auto& x : th)
            x.join();
        count("concurrent-parses", n * 12);
        observed(seed);
    }
} // namespace
static void body() {
    RegisterAll_::Init(0);
    section("names", N(8000,100000), names);
    section("ir-names", N(400, 8000), irNames);
    section("fixings", N(1500,30000), fixings);
    section("paths", N(5000,100000), paths);
    section("concurrent", N(100,1000), concurrent);
}
VH_MAIN(body)
