// P30: trade records, market conventions and composites against plain reference data.
#include "civil.hpp"
#include "vh.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/currency/currencydata.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/index/equity.hpp>
#include <dal/indice/index/fx.hpp>
#include <dal/indice/indexpath.hpp>
#include <dal/platform/initall.hpp>
#include <dal/protocol/accrualperiod.hpp>
#include <dal/protocol/assetvalue.hpp>
#include <dal/protocol/clearer.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/protocol/payment.hpp>
#include <dal/protocol/underlying.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/utilities/composite.hpp>
#include <dal/utilities/exceptions.hpp>
#include <dal/utilities/maps.hpp>
using namespace vh;
using namespace Dal;
namespace {
    const vector<string> CCYS = {"USD", "EUR", "GBP", "JPY", "AUD", "CHF", "CAD", "CNY"};
    const vector<string> NAMES = {"IBM", "ACME", "XYZ", "600000.SS", "A", "B", "Long name with blanks", "The International Widget Company plc A", "The International Widget Company plc B"};
    const vector<string> BASES = {"ACT_365F", "ACT_365L", "ACT_360", "ACT_ACT", "BOND"};

    string anyCase(Rng& r, string s) {
        for (auto& c : s)
            c = static_cast<char>(r.coin() ? toupper(c) : tolower(c));
        return s;
    }
    string upper(string s) {
        for (auto& c : s)
            c = static_cast<char>(toupper(c));
        return s;
    }
    Date_ dateAt(int d) { return Date_(2000, 1, 1).AddDays(d); }
    struct T {
        int day = 0, sec = 0;
        bool operator<(const T& o) const { return std::make_pair(day, sec) < std::make_pair(o.day, o.sec); }
        DateTime_ dt() const { return DateTime_(dateAt(day), sec / 3600, sec / 60 % 60, sec % 60); }
    };

    // what a trade depends on: the latest date at which each thing matters
    struct Ref {
        std::map<string, int> ccys, credits;
        std::map<string, T> indices;
    };
    template <class M, class K, class V> void keepLatest(M& m, const K& k, const V& v) {
        auto it = m.find(k);
        if (it == m.end())
            m[k] = v;
        else if (it->second < v)
            it->second = v;
    }
    void merge(Ref& a, const Ref& b) {
        for (const auto& kv : b.ccys)
            keepLatest(a.ccys, kv.first, kv.second);
        for (const auto& kv : b.credits)
            keepLatest(a.credits, kv.first, kv.second);
        for (const auto& kv : b.indices)
            keepLatest(a.indices, kv.first, kv.second);
    }
    void compareUnderlying(const Underlying_& u, const Ref& ref, const string& where) {
        count("dependencies-compared", 1);
        checkf(u.payCcys_.size() == ref.ccys.size(), "underlying-ccys", [&] { return cat(where, ": ", u.payCcys_.size(), " currencies, expected ", ref.ccys.size()); });
        for (const auto& kv : u.payCcys_) {
            auto it = ref.ccys.find(kv.first.String());
            checkf(it != ref.ccys.end() && dateAt(it->second) == kv.second, "underlying-ccy-date",
                   [&] { return cat(where, ": ", kv.first.String(), " has the wrong last date"); });
        }
        checkf(u.credits_.size() == ref.credits.size(), "underlying-credits", [&] { return where; });
        for (const auto& kv : u.credits_) {
            auto it = ref.credits.find(upper(kv.first.c_str()));
            checkf(it != ref.credits.end() && dateAt(it->second) == kv.second, "underlying-credit-date",
                   [&] { return cat(where, ": ", kv.first.c_str(), " has the wrong last date"); });
        }
        checkf(u.indices_.size() == ref.indices.size(), "underlying-indices", [&] { return where; });
        for (const auto& kv : u.indices_) {
            auto it = ref.indices.find(upper(kv.first.name_.c_str()));
            checkf(it != ref.indices.end() && it->second.dt() == kv.second, "underlying-index-time",
                   [&] { return cat(where, ": ", kv.first.name_.c_str(), " has the wrong last time"); });
            checkf(!kv.first.val_.IsEmpty() && upper(kv.first.val_->Name().c_str()) == it->first, "underlying-index-object", [&] { return where; });
        }
    }
    void underlying(Rng& r) {
        const int nPool = r.range(2, 5);
        vector<Underlying_> us(nPool);
        vector<Ref> refs(nPool);
        string hist;
        const int span = r.pick({3, 30, 20000});
        for (int steps = r.size(5, 60, 400, 0.02); steps > 0; --steps) {
            const int i = static_cast<int>(r.below(nPool));
            const int d = r.range(0, span);
            Underlying_* back = nullptr;
            switch (r.below(5)) {
            case 0: {
                const string c = r.pick(CCYS);
                back = &us[i].Include(Ccy_(String_(c)), dateAt(d));
                keepLatest(refs[i].ccys, c, d);
                hist += cat(" c", i, c, d);
                break;
            }
            case 1: {
                const string n = anyCase(r, r.pick(NAMES));
                back = &us[i].Include(String_(n), dateAt(d));
                keepLatest(refs[i].credits, upper(n), d);
                hist += cat(" n", i, n, d);
                break;
            }
            case 2: {
                Handle_<Index_> ix;
                if (r.coin()) {
                    ix.reset(new Index::Equity_(String_(anyCase(r, r.pick(NAMES)))));
                } else {
                    const string a = r.pick(CCYS), b = r.pick(CCYS);
                    ix.reset(new Index::Fx_(Ccy_(String_(a)), Ccy_(String_(b))));
                }
                T t;
                t.day = d;
                t.sec = r.pick({0, 1, 36000, 86399, static_cast<int>(r.below(86400))});
                back = &us[i].Include(IndexKey_(ix), t.dt());
                keepLatest(refs[i].indices, upper(ix->Name().c_str()), t);
                hist += cat(" i", i, ix->Name().c_str(), d, "+", t.sec);
                break;
            }
            case 3: {
                const int j = static_cast<int>(r.below(nPool)); // itself now and then
                back = &(us[i] += us[j]);
                merge(refs[i], refs[j]);
                hist += cat(" m", i, j);
                count("merges");
                break;
            }
            default: {
                const int j = static_cast<int>(r.below(nPool));
                Underlying_ copy(us[j]);
                us[i] = copy;
                refs[i] = refs[j];
                hist += cat(" =", i, j);
            }
            }
            checkf(!back || back == &us[i], "underlying-chain", [&] { return "the result is not the object itself"; });
            compareUnderlying(us[i], refs[i], hist);
        }
        desc(hist);
        for (int i = 0; i < nPool; ++i)
            compareUnderlying(us[i], refs[i], "at the end");
        // the order of merging does not matter
        Underlying_ forward, backward;
        Ref all;
        for (int i = 0; i < nPool; ++i) {
            forward += us[i];
            backward += us[nPool - 1 - i];
            merge(all, refs[i]);
        }
        compareUnderlying(forward, all, "all, first to last");
        compareUnderlying(backward, all, "all, last to first");
        observed(hist, !all.ccys.empty() && !all.indices.empty());
    }

    void periods(Rng& r) {
        const DayBasis_ basis{String_(r.pick(BASES))};
        const Date_ start = dateAt(r.range(0, 15000)), end = start.AddDays(r.pick({0, 1, 30, 90, 91, 181, 365, 366, r.range(0, 3000)}));
        const double notional = r.uniform(-1e8, 1e8);
        const Handle_<DayBasis::Context_> ctx(r.coin(0.7) ? new DayBasis::Context_(r.coin(), start, end.AddDays(r.range(0, 100)), r.pick({1, 3, 6, 12})) : nullptr);
        const bool stub = r.coin();
        if (throws([&] { basis(start, end, nullptr); })) { // a basis which needs its context
            check(throws([&] { AccrualPeriod_(start, end, notional, basis); }), "period-without-context", basis.String());
            if (ctx.IsEmpty()) {
                check(throws([&] { AccrualPeriod_(start, end, notional, basis, ctx, stub); }), "period-without-context", basis.String());
                return;
            }
        }
        const AccrualPeriod_ full(start, end, notional, basis, ctx, stub);
        desc(cat(Date::ToString(start).c_str(), " to ", Date::ToString(end).c_str(), " ", basis.String()));
        auto same = [&](const AccrualPeriod_& p, const DayBasis::Context_* c, bool isStub, const char* which) {
            checkf(p.startDate_ == start && p.endDate_ == end && p.notional_ == notional && p.couponBasis_ == basis && p.isStub_ == isStub, "period-fields", [&] { return which; });
            const double expected = basis(start, end, c);
            checkf(p.dcf_ == expected || (std::isnan(p.dcf_) && std::isnan(expected)), "period-dcf", [&] { return cat(which, ": ", p.dcf_, " expected ", expected); });
            checkf(p.context_.get() == c, "period-context", [&] { return which; });
            count("periods");
        };
        if (!throws([&] { basis(start, end, nullptr); }))
            same(AccrualPeriod_(start, end, notional, basis), nullptr, false, "plain");
        same(full, ctx.get(), stub, "with context");
        AccrualPeriod_ copy;
        copy = full;
        same(copy, ctx.get(), stub, "copied");
        // payments made of them
        T known, event;
        known.day = r.range(0, 15000);
        known.sec = static_cast<int>(r.below(86400));
        event.day = r.range(0, 15000);
        event.sec = static_cast<int>(r.below(86400));
        const Ccy_ ccy{String_(r.pick(CCYS))};
        const String_ text(r.pick(NAMES)), stream(anyCase(r, r.pick(NAMES)));
        Payment::Conditions_ cond;
        check(cond.exerciseCondition_ == Payment::Conditions_::Exercise_::UNCONDITIONAL, "payment-default-condition", "payments must be unconditional unless said otherwise");
        using E = Payment::Conditions_::Exercise_;
        cond.exerciseCondition_ = r.pick({E::UNCONDITIONAL, E::ON_EXERCISE, E::ON_BARRIER_HIT, E::ON_CONTINUATION});
        const bool withPeriod = r.coin();
        std::unique_ptr<Payment::Info_> info;
        {
            // the period is kept by value
            const AccrualPeriod_ local(full);
            info.reset(new Payment::Info_(text, known.dt(), cond, withPeriod ? &local : nullptr));
        }
        const Date_ commit = dateAt(r.range(0, 15000));
        const bool withCommit = r.coin();
        const Payment_ pay = withCommit ? Payment_(event.dt(), ccy, end, stream, *info, commit) : Payment_(event.dt(), ccy, end, stream, *info);
        const Payment_ pay2(pay);
        for (const Payment_* p : {&pay, &pay2}) {
            check(p->eventTime_ == event.dt() && p->ccy_ == ccy && p->date_ == end && string(p->stream_.c_str()) == stream.c_str(), "payment-fields", "");
            check(p->commitDate_ == (withCommit ? commit : Date::Minimum()), "payment-commit", "");
            check(string(p->tag_.description_.c_str()) == text.c_str() && p->tag_.knownTime_ == known.dt() && p->tag_.conditions_.exerciseCondition_ == cond.exerciseCondition_, "payment-info", "");
            check(p->tag_.period_.has_value() == withPeriod, "payment-period", "");
            if (withPeriod)
                same(*p->tag_.period_, ctx.get(), stub, "in a payment");
            count("payments");
        }
        const Payment::Info_ blank;
        check(string(blank.description_.c_str()).empty() && blank.knownTime_ == DateTime::Minimum() && !blank.period_ && blank.conditions_.exerciseCondition_ == E::UNCONDITIONAL, "payment-info-default", "");
        check(Payment::Null().get() == nullptr, "payment-null-tag", "");
        observed(cat(basis.String(), Date::ToExcel(start), "/", Date::ToExcel(end), notional), start < end);
    }

    // conventions by currency: the currency's own, else the default, else an error
    template <class V, class F, class G> void factHistory(Rng& r, const F& fact, G make, const char* name, const std::map<string, int>& own0 = {}, int fallback0 = -1) {
        static std::map<string, int> own = own0;
        static int fallback = fallback0;
        string hist = name;
        for (int n = r.range(1, 8); n > 0; --n) {
            const string c = r.pick(CCYS);
            const int v = r.range(0, 4);
            if (fallback >= 0 ? r.coin(0.15) : r.coin(0.02)) {
                fact.XWrite().SetDefault(make(v));
                fallback = v;
                hist += cat(" default ", v);
            } else if (r.coin(0.4)) {
                fact.XWrite()(Ccy_(String_(c)), make(v));
                own[c] = v;
                hist += cat(" ", c, "=", v);
            }
            for (const auto& k : CCYS) {
                count("conventions");
                const Ccy_ ccy{String_(k)};
                const int expected = own.count(k) ? own[k] : fallback;
                if (expected < 0) {
                    check(throws([&] { (void)fact(ccy); }), "fact-missing", cat(name, ": ", k, " has no value and no default"));
                    count("conventions-missing");
                } else
                    checkf(fact(ccy) == make(expected), "fact-value", [&] { return cat(name, ": wrong value for ", k, " after ", hist); });
            }
        }
        desc(hist);
        observed(hist, !own.empty());
    }
    void facts(Rng& r) {
        switch (r.below(3)) {
        case 0:
            factHistory<DayBasis_>(r, Ccy::Conventions::LiborDayBasis(), [](int v) { return DayBasis_(String_(BASES[v])); }, "libor basis");
            break;
        case 1:
            factHistory<int>(r, Ccy::Conventions::LiborFixDays(), [](int v) { return v; }, "fixing days", {{"CNY", 1}}, 2);
            break;
        default: {
            // a day basis for swaps is another fact: writing one must not show in the other
            static std::map<string, int> own;
            const auto& fact = Ccy::Conventions::SwapFixedDayBasis();
            const string c = r.pick(CCYS);
            const int v = r.range(0, 4);
            fact.XWrite()(Ccy_(String_(c)), DayBasis_(String_(BASES[v])));
            own[c] = v;
            for (const auto& k : CCYS) {
                count("conventions");
                const Ccy_ ccy{String_(k)};
                if (own.count(k))
                    check(fact(ccy) == DayBasis_(String_(BASES[own[k]])), "fact-value", cat("swap basis of ", k));
                else
                    check(throws([&] { (void)fact(ccy); }), "fact-missing", cat("swap basis of ", k));
            }
            observed(cat("swap", c, v), true);
        }
        }
    }

    void rates(Rng& r) {
        // every traded rate: period and clearing house; and back
        for (const auto& rate : TradedRateListAll()) {
            const string s = upper(rate.String());
            const bool six = s.find("6M") != string::npos, lch = s.find("LCH") != string::npos, fut = s.find("FUT") != string::npos;
            check(rate.Period().Months() == (six ? 6 : 3), "rate-period", s);
            check(string(rate.Clearer().String()) == (lch ? "LCH" : "CME"), "rate-clearer", s);
            if (!fut)
                check(FindRate(rate.Period(), rate.Clearer()) == rate, "rate-found", s);
            count("rates");
        }
        for (const auto& p : PeriodLengthListAll())
            for (const auto& c : ClearerListAll()) {
                const int m = p.Months();
                if (m == 3 || m == 6) {
                    const TradedRate_ f = FindRate(p, c);
                    check(f.Period().Months() == m && f.Clearer() == c && upper(f.String()).find("FUT") == string::npos, "rate-of-period", cat(p.String(), " ", c.String(), " gives ", f.String()));
                } else
                    check(throws([&] { FindRate(p, c); }), "rate-none", cat(p.String(), " ", c.String()));
                count("rates");
            }
        T t;
        t.day = r.range(0, 15000);
        t.sec = static_cast<int>(r.below(86400));
        const Ccy_ ccy{String_(r.pick(CCYS))};
        const auto all = TradedRateListAll();
        const TradedRate_ rate = all[r.below(all.size())];
        const LiborRate_ libor(t.dt(), ccy, rate);
        check(libor.fixDate_ == t.dt() && libor.ccy_ == ccy && libor.rate_ == rate, "libor-fields", "");
        const double x = r.uniform(-1, 1);
        check(FixedRate_(x).rate_ == x, "fixed-rate", "");
        observed(cat(t.day, "+", t.sec, ccy.String(), rate.String()), true);
    }

    void tokens(Rng& r) {
        const int n = r.range(1, 30), m = r.range(1, 5);
        Vector_<> pool(n);
        for (auto& x : pool)
            x = r.uniform(-10, 10);
        Vector_<Handle_<IndexPath_>> paths;
        T t;
        t.day = r.range(0, 10000);
        t.sec = static_cast<int>(r.below(86400));
        for (int i = 0; i < m; ++i)
            paths.push_back(Handle_<IndexPath_>(new IndexPathHistorical_({{t.dt(), 1.5 * i}})));
        const UpdateToken_ token(pool.begin(), paths.begin(), t.dt());
        check(token.eventTime_ == t.dt(), "token-time", "");
        for (int i = 0; i < n; ++i)
            check(&token[i] == &pool[i], "token-value", cat(i));
        for (int i = 0; i < m; ++i) {
            check(&token.Index(Valuation::IndexAddress_(i)) == paths[i].get(), "token-index", cat(i));
            check(token.Index(Valuation::IndexAddress_(i)).Expectation(t.dt(), std::make_pair(-INF, INF)) == 1.5 * i, "token-fixing", cat(i));
        }
        pool[0] = 99.0; // a token sees the values as they are now
        check(token[0] == 99.0, "token-live", "");
        count("tokens");
        // maps of two collections
        const int k = r.range(0, 20);
        Vector_<int> keys(k);
        Vector_<double> vals(k);
        std::map<int, double> first;
        std::multimap<int, double> every;
        for (int i = 0; i < k; ++i) {
            keys[i] = r.range(0, 12);
            vals[i] = r.unit();
            first.insert({keys[i], vals[i]});
            every.insert({keys[i], vals[i]});
        }
        check(ZipToMap(keys, vals) == first, "zip-map", "");
        check(ZipToMultimap(keys, vals) == every, "zip-multimap", "");
        vals.push_back(1.0);
        check(throws([&] { ZipToMap(keys, vals); }), "zip-map-sizes", "collections of different sizes must be refused");
        check(throws([&] { ZipToMultimap(keys, vals); }), "zip-multimap-sizes", "");
        count("maps");
        observed(cat(n, m, k, pool.back()), k > 1);
    }

    // composites: whole trees are copied by value
    struct Leaf {
        static int alive;
        int v;
        explicit Leaf(int x = 0) : v(x) { ++alive; }
        Leaf(const Leaf& o) : v(o.v) { ++alive; }
        virtual ~Leaf() { --alive; }
        virtual Leaf* Clone() const { return new Leaf(*this); }
    };
    int Leaf::alive = 0;
    void composites(Rng& r) {
        const int before = Leaf::alive;
        {
            using C = Composite_<Leaf>;
            vector<std::unique_ptr<C>> pool;
            vector<vector<int>> ref; // -1: an empty place
            string hist;
            auto compare = [&](size_t i) {
                count("composites");
                C& c = *pool[i];
                const C& cc = c;
                checkf(c.Size() == (int)ref[i].size() && (c.Empty() != 0) == ref[i].empty(), "composite-size", [&] { return cat(c.Size(), " elements, expected ", ref[i].size(), " after", hist); });
                for (int k = 0; k < c.Size() && k < (int)ref[i].size(); ++k) {
                    const Leaf* p = cc[k];
                    checkf(c[k] == p, "composite-access", [&] { return hist; });
                    checkf(ref[i][k] < 0 ? !p : p && p->v == ref[i][k], "composite-element", [&] { return cat("element ", k, " of ", i, " after", hist); });
                }
            };
            pool.emplace_back(new C);
            ref.emplace_back();
            for (int steps = r.range(3, 40); steps > 0; --steps) {
                const size_t i = r.below(pool.size());
                switch (r.below(5)) {
                case 0: {
                    const int v = r.range(0, 1000);
                    pool[i]->Append(new Leaf(v));
                    ref[i].push_back(v);
                    hist += cat(" +", i);
                    break;
                }
                case 1: {
                    pool[i]->Append(std::shared_ptr<Leaf>());
                    ref[i].push_back(-1);
                    hist += cat(" 0", i);
                    break;
                }
                case 2:
                    pool.emplace_back(static_cast<const C&>(*pool[i]).Clone());
                    ref.push_back(vector<int>(ref[i]));
                    hist += cat(" clone", i);
                    break;
                case 3:
                    pool.emplace_back(r.coin() ? new C(*pool[i]) : new C(static_cast<const C&>(*pool[i])));
                    ref.push_back(vector<int>(ref[i]));
                    hist += cat(" copy", i);
                    break;
                default:
                    if (!ref[i].empty()) {
                        const int k = static_cast<int>(r.below(ref[i].size()));
                        if (ref[i][k] >= 0) {
                            (*pool[i])[k]->v = ref[i][k] = r.range(0, 1000); // copies made before must not see it
                            hist += cat(" set", i);
                        }
                    }
                }
                for (size_t k = 0; k < pool.size(); ++k)
                    compare(k);
            }
            desc(hist);
            observed(hist, pool.size() > 1);
        }
        check(Leaf::alive == before, "composite-leak", "elements outlive their composite or are released twice");
    }
} // namespace

static void body() {
    RegisterAll_::Init();
    section("underlying", N(1500, 15000), [&](Rng& r) { underlying(r); });
    section("periods", N(3000, 30000), [&](Rng& r) { periods(r); });
    section("facts", N(1500, 15000), [&](Rng& r) { facts(r); });
    section("rates", N(200, 1000), [&](Rng& r) { rates(r); });
    section("tokens", N(1500, 15000), [&](Rng& r) { tokens(r); });
    section("composites", N(1000, 10000), [&](Rng& r) { composites(r); });
}
VH_MAIN(body)
