// Business-day calendars against plain-set reference calendars; concurrent registration and lookup.
#include "holcal.hpp"
#include <dal/time/calendars/init.hpp>
#include <dal/utilities/exceptions.hpp>
#include <thread>

using namespace Dal;
using namespace vh;
using namespace holcal;

static void body() {
    Calendars_::Init();
    const long lo = civil::toDays(1971, 1, 4), hi = civil::toDays(2148, 12, 1);
    vector<Center> centers;
    {
        Rng r(S().seed * 7919 + 3);
        for (int i = 0; i < 10; ++i) {
            // dense and sparse calendars, some without working week-ends
            const long a = lo + r.below(hi - lo - 4000), b = a + 1200 + r.below(2500);
            centers.push_back(make(r, i % 3 == 1 ? cat("VIRTUALCENTERWITHALONGNAME", i) : cat("VC", i), a, b, i % 3 == 0 ? 0.25 : 0.03, i % 4 == 0 ? 0.0 : 0.15));
        }
        // overlapping pair in the same window
        for (int i = 10; i < 16; ++i)
            centers.push_back(make(r, i % 2 ? cat("VIRTUALCENTERWITHALONGNAME", i) : cat("VC", i), civil::toDays(2020, 1, 1), civil::toDays(2026, 1, 1), 0.05, 0.1));
        for (auto& c : centers)
            add(c);
    }
    auto window = [&](const vector<const Center*>& cs, Rng& r) {
        // a date in or near the populated part of one of the centers
        long a = lo, b = hi;
        if (!cs.empty()) {
            const Center& c = *r.pick(cs);
            if (!c.hol.empty()) {
                a = std::max(lo, *c.hol.begin() - 20);
                b = std::min(hi, *c.hol.rbegin() + 20);
            }
        }
        return a + static_cast<long>(r.below(b - a + 1));
    };
    section("calendars", N(16000, 600000), [&](Rng& r) {
        vector<const Center*> cs;
        const int k = r.coin(0.1) ? r.range(4, 8) : r.range(0, 3);
        for (int i = 0; i < k; ++i)
            cs.push_back(&centers[r.coin(0.6) ? 10 + r.below(6) : r.below(10)]);
        string name;
        for (auto c : cs)
            name += (name.empty() ? "" : " ") + c->name;
        if (r.coin(0.2) && !name.empty())
            for (auto& ch : name)
                ch = static_cast<char>(tolower(ch));
        const Cal& ref = combine(cs);
        const Holidays_ hols = Holidays_(String_(name));
        const long z = window(cs, r);
        const string dd = cat("[", name, "] ", z);
        desc(dd);
        const Date_ d = D(z);
        check(hols.IsHoliday(d) == (ref.hol.count(z) > 0), "is-holiday", dd);
        check(hols.IsWorkWeekends(d) == (ref.work.count(z) > 0), "is-working-weekend", dd);
        const Date_ n = Holidays::NextBus(hols, d), p = Holidays::PrevBus(hols, d);
        checkf(Z(n) == ref.next(z), "next-business-day", [&] { return cat(dd, " got ", Z(n), " expected ", ref.next(z)); });
        checkf(Z(p) == ref.prev(z), "previous-business-day", [&] { return cat(dd, " got ", Z(p), " expected ", ref.prev(z)); });
        const CountBusDays_ cnt(hols);
        const long z2 = r.coin(0.2) ? window(cs, r) : z + r.range(-5, 400);
        if (z2 <= hi && z2 >= lo && std::labs(z2 - z) < 20000) {
            long e = 0;
            for (long q = z; q < z2; ++q)
                e += ref.bus(q);
            const int got = cnt(d, D(z2));
            checkf(got == e, "count-business-days", [&] { return cat(dd, " to ", z2, " got ", got, " expected ", e); });
            count("intervals-counted");
            if (e > 0)
                count("business-days-in-intervals", e);
        }
        // a second view of the same combination (now cached by the counter) must agree
        const Holidays_ again = Holidays_(String_(name));
        check(again == hols && !(again != hols), "same-name-equal", dd);
        check(Holidays::NextBus(again, d) == n && Holidays::PrevBus(again, d) == p && again.IsHoliday(d) == hols.IsHoliday(d) &&
                  again.IsWorkWeekends(d) == hols.IsWorkWeekends(d), "cached-combination-agrees", dd);
        if (cs.size() > 1) {
            // order and repetition of the names do not matter
            string rev;
            for (auto it = cs.rbegin(); it != cs.rend(); ++it)
                rev += (rev.empty() ? "" : " ") + (*it)->name;
            rev += " " + cs[0]->name;
            const Holidays_ other = Holidays_(String_(rev));
            check(Holidays::NextBus(other, d) == n && other.IsHoliday(d) == hols.IsHoliday(d), "name-order", rev);
            check(other == hols && !(other != hols) && other.String() == hols.String(), "same-centers-equal", rev);
            count("combinations");
        }
        { // calendars of different centers differ
            vector<const Center*> xs;
            for (int i = r.range(0, 3); i > 0; --i)
                xs.push_back(&centers[r.coin(0.6) ? 10 + r.below(6) : r.below(10)]);
            string xn;
            for (auto c : xs)
                xn += (xn.empty() ? "" : " ") + c->name;
            const bool eq = std::set<const Center*>(xs.begin(), xs.end()) == std::set<const Center*>(cs.begin(), cs.end());
            const Holidays_ x = Holidays_(String_(xn));
            check((x == hols) == eq && (x != hols) == !eq, "center-equality", cat("[", xn, "] against [", name, "]"));
        }
        observed(name + cat(z, ":", z2), !cs.empty());
        sample(dd);
    });
    section("shipped-calendars", 2, [&](Rng&) {
        const string name = S().caseNo ? "CN.IB" : "CN.SSE";
        const Holidays_ h = Holidays_(String_(name));
        const auto data = Holidays::OfCenter(String_(name));
        Cal ref;
        for (const auto& d : data->holidays_)
            ref.hol.insert(Z(d));
        for (const auto& d : data->workWeekends_)
            ref.work.insert(Z(d));
        check(ref.hol.size() > 200, "shipped:empty", name);
        check((name == "CN.IB") == !ref.work.empty(), "shipped:working-weekends", name);
        const CountBusDays_ cnt(h);
        const long a = civil::toDays(2004, 12, 1), b = civil::toDays(2026, 1, 1);
        long run = 0;
        for (long z = a; z < b; ++z) {
            check(h.IsHoliday(D(z)) == (ref.hol.count(z) > 0), "shipped:is-holiday", cat(name, z));
            check(Z(Holidays::NextBus(h, D(z))) == ref.next(z) && Z(Holidays::PrevBus(h, D(z))) == ref.prev(z), "shipped:adjust", cat(name, z));
            check(cnt(D(a), D(z)) == run, "shipped:count", cat(name, z));
            run += ref.bus(z);
            observed(name + cat(z));
        }
    });
    section("refusals", 400, [&](Rng& r) {
        const string nm = cat("BAD", S().shard, "_", S().caseNo);
        desc(nm);
        long z = lo + r.below(hi - lo);
        while (civil::dow(z) != 3)
            ++z;
        const int k = r.range(0, 4);
        auto V = [](std::initializer_list<long> zs) {
            Vector_<Date_> v;
            for (long x : zs)
                v.push_back(D(x));
            return v;
        };
        bool t = false;
        if (k == 0)
            t = throws([&] { Holidays::AddCenter(String_(nm), V({z + 3})); }); // a Saturday as a holiday
        else if (k == 1)
            t = throws([&] { Holidays::AddCenter(String_(nm), V({z}), V({z + 1})); }); // a week day as a working week-end
        else if (k == 2)
            t = throws([&] { Holidays::AddCenter(String_(nm), V({z + 7, z})); }); // unordered
        else if (k == 3)
            t = throws([&] { Holidays::AddCenter(String_(nm), V({z}), V({z + 4, z + 3})); });
        else
            t = throws([&] { Holidays::AddCenter(String_(centers[0].name), V({z})); }); // duplicate
        check(t, "bad-center-accepted", cat(k));
        if (k < 4)
            check(throws([&] { Holidays_ h((String_(nm))); }), "refused-center-visible", nm);
        check(throws([&] { Holidays_ h(String_("NO_SUCH_CENTER " + nm)); }), "unknown-center-accepted");
        // the refusal left the good calendars alone
        const Center& c = centers[r.below(centers.size())];
        const Holidays_ h = Holidays_(String_(c.name));
        for (int i = 0; i < 20; ++i) {
            const long q = window({&c}, r);
            check(h.IsHoliday(D(q)) == (c.hol.count(q) > 0), "refusal-damaged-calendar", cat(c.name, q));
        }
        observed(nm + cat(k, z));
    });
    // concurrent registration and lookup: every successful registration stays visible with its own data
    section("concurrent", N(24, 200), [&](Rng& r) {
        const int T = 6, K = 6;
        const string tag = cat("CC", S().seed, "_", S().shard, "_", S().caseNo, "_");
        vector<vector<Center>> mine(T);
        for (int t = 0; t < T; ++t)
            for (int k = 0; k < K; ++k)
                mine[t].push_back(make(r, cat(tag, t, "_", k), civil::toDays(2020, 1, 1), civil::toDays(2020, 6, 1), 0.1, 0.1));
        std::atomic<int> go{0}, bad{0}, ok{0}, dup{0};
        vector<std::thread> th;
        const string shared = tag + "dup";
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                ++go;
                while (go < T)
                    std::this_thread::yield();
                for (auto& c : mine[t]) {
                    try {
                        add(c);
                        ++ok;
                    } catch (const std::exception&) {
                        ++bad;
                    }
                    try {
                        Holidays::AddCenter(String_(shared), Vector_<Date_>());
                        ++dup;
                    } catch (const std::exception&) {
                    }
                    try {
                        const Holidays_ h(String_(c.name + " " + centers[t].name));
                        const CountBusDays_ cb(h);
                        const Cal ref = combineNew({&c, &centers[t]});
                        for (long z = civil::toDays(2020, 1, 1); z < civil::toDays(2020, 4, 1); z += 3) {
                            if (Z(Holidays::NextBus(h, D(z))) != ref.next(z))
                                ++bad;
                        }
                        long e = 0;
                        for (long z = civil::toDays(2020, 1, 1); z < civil::toDays(2020, 5, 1); ++z)
                            e += ref.bus(z);
                        if (cb(Date_(2020, 1, 1), Date_(2020, 5, 1)) != e)
                            ++bad;
                    } catch (const std::exception&) {
                        ++bad;
                    }
                }
            });
        for (auto& x : th)
            x.join();
        check(bad == 0 && ok == T * K, "concurrent:registration-lost", cat("bad=", bad.load(), " ok=", ok.load()));
        check(dup == 1, "concurrent:duplicate-registered", cat(dup.load()));
        for (auto& v : mine)
            for (auto& c : v) {
                const Holidays_ h = Holidays_(String_(c.name));
                for (long z = civil::toDays(2020, 1, 1); z < civil::toDays(2020, 6, 1); ++z)
                    check(h.IsHoliday(D(z)) == (c.hol.count(z) > 0), "concurrent:data-mixed", c.name);
            }
        count("concurrent-registrations", T * K);
        observed(tag);
    });
}
VH_MAIN(body)
