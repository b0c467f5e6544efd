// P13: global dates, temporary overrides and fixings against a reference model, alone and from several threads.
#include "vh.hpp"
#include <memory>
#include <optional>
#include <thread>
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/globals.hpp>
#include <dal/storage/box.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/utilities/exceptions.hpp>
#include <public/src/global.hpp>
using namespace vh;
using namespace Dal;
namespace {
    using Override = XGLOBAL::ScopedOverride_<Date_>;
    Date_ D(int k) { return Date_(2000, 1, 1).AddDays(k); }
    int K(const Date_& d) { return d - Date_(2000, 1, 1); }

    struct Dates {
        int acc = 0, eval = 0;
    } ref;
    int& slot(bool e) { return e ? ref.eval : ref.acc; }
    string opLog;
    void note(const string& s) {
        if (opLog.size() < 20000)
            desc(opLog += s + "; ");
    }
    void compare(const string& when) {
        check(K(Global::Dates_::AccountingDate()) == ref.acc, "accounting-date", cat(when, ": ", K(Global::Dates_::AccountingDate()), " expected ", ref.acc));
        check(K(Global::Dates_::EvaluationDate()) == ref.eval, "evaluation-date", cat(when, ": ", K(Global::Dates_::EvaluationDate()), " expected ", ref.eval));
        check(K(GetEvaluationDate()) == ref.eval, "evaluation-date-public", when);
        count("dates-compared", 3);
    }
    void set(bool e, int k, int how) {
        note(cat(e ? "eval=" : "acc=", k));
        if (e)
            how == 0 ? Global::Dates_::SetEvaluationDate(D(k)) : how == 1 ? XGLOBAL::SetEvaluationDate(D(k)) : SetEvaluationDate(D(k));
        else
            how == 0 ? Global::Dates_::SetAccountingDate(D(k)) : XGLOBAL::SetAccountingDate(D(k));
        slot(e) = k;
    }
    Override over(bool e, int k) { return e ? XGLOBAL::SetEvaluationDateInScope(D(k)) : XGLOBAL::SetAccountingDateInScope(D(k)); }

    struct Boom : std::runtime_error {
        Boom() : std::runtime_error("boom") {}
    };
    Override passThrough(Override o) { return o; }

    // the reference model of an override
    struct Mirror {
        bool e, on = true;
        int was;
        Mirror(bool which, int to) : e(which), was(slot(which)) { slot(e) = to; }
        void end() {
            if (on)
                slot(e) = was;
            on = false;
        }
        ~Mirror() { end(); }
    };

    // a random block of code; returns normally or throws
    void block(Rng& r, int depth) {
        for (int n = r.range(1, 5); n > 0; --n) {
            const int k = r.range(0, 99);
            if (k < 30 || depth > 6)
                set(r.coin(), r.range(0, 20000), r.range(0, 2));
            else if (k < 36 && depth > 0) {
                note("throw");
                count("overrides-ended-by-exception");
                throw Boom();
            } else if (k < 80) { // an override around a block
                const bool e = r.coin();
                const int to = r.range(0, 20000), form = r.range(0, 5);
                note(cat("override ", e ? "eval " : "acc ", to, " form ", form, " {"));
                count("overrides");
                try {
                    Mirror mirror(e, to); // ends together with what follows
                    if (form == 0) {
                        auto o = over(e, to);
                        compare("in override");
                        block(r, depth + 1);
                    } else if (form == 1) { // moved about
                        auto o = over(e, to);
                        auto p = std::move(o);
                        compare("override moved");
                        auto q = passThrough(std::move(p));
                        compare("override passed on");
                        block(r, depth + 1);
                    } else if (form == 2) { // on the heap, ended early
                        auto o = std::make_unique<Override>(over(e, to));
                        block(r, depth + 1);
                        o.reset();
                        mirror.end();
                        compare("override ended early");
                        note("ended early");
                        block(r, depth + 2);
                    } else if (form == 3) { // replaced by a further override: the same one goes on, with another value
                        auto o = over(e, to);
                        compare("in override");
                        for (int m = r.range(1, 3); m > 0; --m) {
                            const int to2 = r.range(0, 20000);
                            if (r.coin(0.3))
                                set(e, r.range(0, 20000), 0);
                            note(cat("replaced ", to2));
                            o = over(e, to2);
                            slot(e) = to2;
                            compare("override replaced");
                            count("overrides-replaced");
                        }
                        block(r, depth + 1);
                    } else if (form == 4) { // both dates
                        auto o = over(e, to);
                        const int to2 = r.range(0, 20000);
                        try {
                            Mirror inner(!e, to2);
                            auto o2 = over(!e, to2);
                            compare("both overridden");
                            block(r, depth + 1);
                        } catch (const Boom&) {
                            compare("inner override ended by exception");
                            throw;
                        }
                        compare("inner override ended");
                    } else { // reassigned to an override of the other date: ends this one
                        auto o = over(e, to);
                        const int to2 = r.range(0, 20000);
                        Mirror inner(!e, to2);
                        o = over(!e, to2);
                        mirror.end();
                        compare("override reassigned to the other date");
                        block(r, depth + 1);
                    }
                } catch (const Boom&) {
                    note("}");
                    compare("override ended by exception");
                    if (r.coin(0.6))
                        throw;
                    continue;
                }
                note("}");
                compare("override ended");
            } else { // unrelated traffic in the repository and in the fixings
                const int w = r.range(0, 3);
                const ObjectAccess_ repo;
                if (w == 0)
                    (void)repo.Add(Handle_<Storable_>(new Box_(String_(cat("EvaluationDate", r.range(0, 2))), Matrix_<Cell_>(1, 1))), RepositoryErase_("NAME"));
                else if (w == 1)
                    (void)repo.Add(Handle_<Storable_>(new Box_(String_(r.pick({"##GLOBAL##", "##GLOBAL##EvaluationDate~", "##GLOBAL##AccountingDat", "EvaluationDate", "##GLOBAL##EvaluationDate~x"})),
                                                               Matrix_<Cell_>(2, 1))),
                                   RepositoryErase_(String_(r.pick({"NONE", "NAME", "NAME_NONEMPTY"}))));
                else if (w == 2) {
                    Global::FixHistory_ h;
                    h.vals_.push_back(std::make_pair(DateTime_(D(5), 0.5), 1.0));
                    XGLOBAL::StoreFixings(String_(r.pick({"EvaluationDate", "AccountingDate", "x"})), h, r.coin());
                } else
                    (void)repo.Erase(String_("##GLOBAL##EvaluationDate.+0x.*~"));
                note("traffic");
            }
            compare("after step");
        }
    }

    string fold(string s) {
        for (auto& c : s)
            c = static_cast<char>(tolower(static_cast<unsigned char>(c)));
        return s;
    }
    bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

    void fixings(Rng& r) {
        (void)ObjectAccess_().Erase(String_(".*"));
        std::map<string, std::map<std::pair<int, double>, double>> m;
        static const vector<string> names = {"EQ[IBM]", "eq[ibm]", "EQ[IBM]~", "EQ[IBM]~x", "EQ[IB]", "", "FX[USD/EUR]", "FX[EUR/USD]", "~", "IR:USD,3M", "EQ[IBM]@2020-01-01", "FixingsFor:", "IR[SWAP RATE],USD,10Y,SEMIANNUAL,ACT_360,LONDON", "IR[SWAP RATE],USD,10Y,SEMIANNUAL,ACT_360,NEWYORK", string(200, 'q'), string(200, 'q') + "r"};
        Global::Fixings_ access;
        u64 h = 0;
        string log;
        for (int op = r.range(4, 25); op > 0; --op) {
            const string nm = r.pick(names);
            auto& mine = m[fold(nm)];
            const int k = r.range(0, 9);
            if (k < 8) {
                Global::FixHistory_ f;
                const bool append = r.coin(0.7);
                std::map<std::pair<int, double>, double> fresh;
                for (int n = r.pick({0, 1, 1, 2, 5, 12, 40}); n > 0; --n) {
                    const int d = r.range(0, 40);
                    const double frac = r.pick({0.0, 0.0, 0.5, 0.25, 1.0 / 3.0, r.unit(), 86399.0 / 86400.0});
                    const double v = r.pick({r.normal(), r.normal() * 1e6, 0.0, -0.0, 1e-300, 1e300, -1e29, std::nan(""), HUGE_VAL, static_cast<double>(r.range(-5, 5))});
                    f.vals_.push_back(std::make_pair(DateTime_(D(d), frac), v));
                    fresh[{d, frac}] = v; // the last one given wins
                }
                if (!append)
                    mine.clear();
                for (auto& x : fresh)
                    mine[x.first] = x.second;
                desc(log += cat(append ? "append " : "replace ", nm, " ", f.vals_.size(), "; "));
                const int n = append && r.coin() ? XGLOBAL::StoreFixings(String_(nm), f) : XGLOBAL::StoreFixings(String_(nm), f, append);
                check(n == static_cast<int>(mine.size()), "fixings-count", cat(n, " expected ", mine.size()));
                count("fixings-stored", f.vals_.size());
                if (f.vals_.empty())
                    count("empty-stores");
            } else if (k == 8) {
                desc(log += "dates; ");
                set(r.coin(), r.range(0, 20000), 0);
            } else {
                (void)ObjectAccess_().Add(Handle_<Storable_>(new Box_(String_("##GLOBAL##FixingsFor:" + nm + "~more"), Matrix_<Cell_>(1, 1))), RepositoryErase_("NAME"));
                desc(log += "traffic " + nm + "; ");
            }
            for (auto& q : names) {
                const auto got = access.History(String_(q));
                const auto& e = m[fold(q)];
                bool ok = got.vals_.size() == e.size();
                auto pe = e.begin();
                for (size_t i = 0; ok && i < got.vals_.size(); ++i, ++pe) // in chronological order
                    ok = K(got.vals_[i].first.Date()) == pe->first.first && got.vals_[i].first.Frac() == pe->first.second && same(got.vals_[i].second, pe->second);
                checkf(ok, "fixings-history", [&] { return cat(q, ": ", got.vals_.size(), " expected ", e.size()); });
                count("histories-compared");
            }
            h = mix(h ^ hashStr(log));
        }
        observed(h, !m.empty());
        sample(log);
    }

    void concurrent(Rng& r) {
        (void)ObjectAccess_().Erase(String_(".*"));
        const int T = r.range(3, 6), N = r.range(20, 50);
        const u64 seed = r.next();
        const bool withOverrides = r.coin(0.3);
        desc(cat("threads ", T, " rounds ", N, withOverrides ? " overrides" : ""));
        XGLOBAL::SetAccountingDate(D(1));
        XGLOBAL::SetEvaluationDate(D(1));
        struct Ev {
            long start, end;
            int val;
        };
        std::atomic<long> clock{0};
        std::atomic<int> go{0};
        vector<vector<Ev>> writes(T), reads(T);
        writes[0].push_back({-2, -1, 1});
        vector<std::thread> th;
        const int perThread = N;
        std::atomic<long> nFix{0};
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                Rng q(seed + 31 * t);
                Global::Fixings_ access;
                ++go;
                while (go < T)
                    std::this_thread::yield();
                for (int i = 0; i < perThread; ++i) {
                    try {
                        const int v = (t + 1) * 1000 + i; // unique
                        if (q.coin(0.4)) {
                            const long s = clock++;
                            if (withOverrides && q.coin(0.5)) {
                                auto o = XGLOBAL::SetEvaluationDateInScope(D(v));
                                const int got = K(Global::Dates_::EvaluationDate());
                                check(got >= 1 && got < 10000, "concurrent:date-from-nowhere", cat(got));
                            } else
                                q.coin() ? XGLOBAL::SetEvaluationDate(D(v)) : SetEvaluationDate(D(v));
                            writes[t].push_back({s, clock++, v});
                        } else {
                            const long s = clock++;
                            const int got = K(q.coin() ? Global::Dates_::EvaluationDate() : GetEvaluationDate());
                            reads[t].push_back({s, clock++, got});
                            if (q.coin(0.3)) {
                                const int a = K(Global::Dates_::AccountingDate());
                                check(a == 1, "concurrent:other-date-changed", cat(a));
                            }
                        }
                        if (q.coin(0.5)) {
                            Global::FixHistory_ f;
                            f.vals_.push_back(std::make_pair(DateTime_(D(i), (t + 1) / 16.0), v * 1.0));
                            const int n = XGLOBAL::StoreFixings("EQ[SHARED]", f);
                            check(n >= ++nFix - T + 0 || n > 0, "concurrent:fixing-count");
                            const auto h = access.History(q.coin() ? "EQ[SHARED]" : "eq[shared]");
                            bool found = false;
                            for (size_t k = 0; k < h.vals_.size(); ++k) {
                                found = found || (K(h.vals_[k].first.Date()) == i && h.vals_[k].first.Frac() == (t + 1) / 16.0 && h.vals_[k].second == v);
                                check(k == 0 || h.vals_[k - 1].first < h.vals_[k].first, "concurrent:fixings-order");
                            }
                            check(found, "concurrent:fixing-lost", cat("thread ", t, " round ", i));
                        }
                        if (q.coin(0.2)) {
                            const String_ own(cat("EQ[OWN", t, "]"));
                            Global::FixHistory_ f;
                            f.vals_.push_back(std::make_pair(DateTime_(D(i), 0.5), v * 1.0));
                            check(XGLOBAL::StoreFixings(own, f, false) == 1, "concurrent:own-fixings-count");
                            const auto h = access.History(own);
                            check(h.vals_.size() == 1 && h.vals_[0].second == v, "concurrent:own-fixings");
                        }
                    } catch (const std::exception& e) {
                        violation("concurrent:exception", e.what());
                    }
                }
            });
        for (auto& x : th)
            x.join();
        const auto h = Global::Fixings_().History("EQ[SHARED]");
        check(static_cast<long>(h.vals_.size()) == nFix, "concurrent:fixings-lost", cat(h.vals_.size(), " of ", nFix.load()));
        long overlaps = 0;
        std::map<int, Ev> by;
        vector<Ev> ws;
        for (auto& v : writes)
            for (auto& w : v)
                by[w.val] = w, ws.push_back(w);
        for (auto& v : reads)
            for (auto& q : v) {
                auto i = by.find(q.val);
                if (!check(i != by.end() && i->second.start < q.end, "concurrent:date-from-nowhere", cat("read ", q.val)))
                    continue;
                for (auto& w : ws) {
                    overlaps += w.start < q.end && q.start < w.end;
                    if (!withOverrides)
                        check(!(i->second.end < w.start && w.end < q.start), "concurrent:stale-date", cat("read ", q.val, " after ", w.val));
                }
            }
        count("concurrent-writes", ws.size());
        count("concurrent-fixings", nFix);
        count("overlapping-operations", overlaps);
        observed(seed, overlaps > 0);
        sample(cat(T, " threads ", ws.size(), " writes ", overlaps, " overlaps"));
    }
} // namespace
static void body() {
    // before anything is set: the system date, and from then on that very date
    section("initial", N(30, 200), [](Rng& r) {
        (void)ObjectAccess_().Erase(String_(".*"));
        const Date_ a = Date::Today();
        const Date_ g = Global::Dates_::EvaluationDate(), c = Global::Dates_::AccountingDate();
        const Date_ b = Date::Today();
        check((g == a || g == b) && (c == a || c == b), "initial-date");
        check(Global::Dates_::EvaluationDate() == g && Global::Dates_::AccountingDate() == c, "initial-date-kept");
        check(Global::Fixings_().History("EQ[NONE]").vals_.empty(), "initial-fixings");
        ref.eval = K(g);
        ref.acc = K(c);
        {
            auto o = over(true, 77);
            ref.eval = 77;
            compare("first override");
        }
        ref.eval = K(g);
        compare("first override ended");
        observed(cat(S().caseNo));
    });
    section("overrides", N(2000, 40000), [](Rng& r) {
        (void)ObjectAccess_().Erase(String_(".*"));
        opLog.clear();
        set(false, r.range(0, 20000), 0);
        set(true, r.range(0, 20000), 0);
        try {
            block(r, 0);
        } catch (const Boom&) {
        }
        compare("at the end");
        observed(opLog, opLog.size() > 60);
        sample(opLog);
    });
    section("fixings", N(800, 10000), fixings);
    section("concurrent", N(200, 2000), concurrent);
}
VH_MAIN(body)
