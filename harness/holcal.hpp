// Reference holiday calendars: random centers registered in the library and mirrored in plain sets.
#pragma once
#include "civil.hpp"
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <dal/string/strings.hpp>
#include <dal/time/date.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/time/holidays.hpp>

namespace holcal {
    using Dal::Date_;
    inline Date_ D(long z) { return Dal::Date::FromExcel(static_cast<int>(z + civil::EXCEL0)); }
    inline long Z(const Date_& d) { return Dal::Date::ToExcel(d) - civil::EXCEL0; }
    struct Center {
        std::string name;
        std::set<long> hol, work;
    };
    inline Center make(vh::Rng& r, const std::string& name, long lo, long hi, double pHol, double pWork) {
        Center c;
        c.name = name;
        for (long z = lo; z <= hi; ++z) {
            const bool we = civil::dow(z) == 0 || civil::dow(z) == 6;
            if (we ? r.coin(pWork) : r.coin(pHol)) {
                (we ? c.work : c.hol).insert(z);
                if (!we && r.coin(0.3)) // holiday clusters
                    for (long k = z + 1; k <= std::min(hi, z + 9); ++k)
                        if (civil::dow(k) != 0 && civil::dow(k) != 6)
                            c.hol.insert(k);
            }
        }
        return c;
    }
    inline void add(const Center& c) {
        Dal::Vector_<Date_> h, w;
        for (long z : c.hol)
            h.push_back(D(z));
        for (long z : c.work)
            w.push_back(D(z));
        Dal::Holidays::AddCenter(Dal::String_(c.name), h, w);
    }
    struct Cal {
        std::set<long> hol, work;
        bool bus(long z) const {
            const bool we = civil::dow(z) == 0 || civil::dow(z) == 6;
            return work.count(z) || (!we && !hol.count(z));
        }
        long next(long z) const {
            while (!bus(z))
                ++z;
            return z;
        }
        long prev(long z) const {
            while (!bus(z))
                --z;
            return z;
        }
    };
    inline const Cal& combine(const std::vector<const Center*>& cs);
    inline Cal combineNew(const std::vector<const Center*>& cs) {
        Cal r;
        for (auto c : cs) {
            r.hol.insert(c->hol.begin(), c->hol.end());
            r.work.insert(c->work.begin(), c->work.end());
        }
        return r;
    }
    // memoised (the centers of a run never change); not for concurrent use
    inline const Cal& combine(const std::vector<const Center*>& cs) {
        static std::map<std::vector<const Center*>, Cal> M;
        auto it = M.find(cs);
        if (it == M.end())
            it = M.emplace(cs, combineNew(cs)).first;
        return it->second;
    }
} // namespace holcal
