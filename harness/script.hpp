// Hands generated tables to the library and runs its evaluators.
#pragma once
#include "scriptgen.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/initall.hpp>
#include <dal/script/event.hpp>
#include <dal/script/visitor/all.hpp>
#include <dal/storage/globals.hpp>
#include <dal/math/cell.hpp>
#include <dal/time/date.hpp>
#include <dal/utilities/exceptions.hpp>

namespace sl {
    using namespace sg;
    using Dal::Cell_;
    using Dal::Date_;
    using Dal::String_;
    using Dal::Vector_;
    using Dal::Script::ScriptProduct_;
    using Scn = Dal::AAD::Scenario_<double>;

    inline Date_ D(long day) {
        auto a = civil::fromDays(day);
        return Date_(a.y, a.m, a.d);
    }
    inline void setToday(long day) { Dal::XGLOBAL::SetEvaluationDate(D(day)); }

    inline ScriptProduct_ build(const Table& t, const string& payoff = "") {
        Vector_<Cell_> d;
        Vector_<String_> e;
        for (auto& x : t.rows) {
            d.push_back(x.isDate ? Cell_(D(x.day)) : Cell_(String_(x.cell)));
            e.push_back(String_(x.text));
        }
        return ScriptProduct_(d, e, String_(payoff));
    }
    inline Scn scenario(const vector<double>& spot, const vector<double>& num) {
        Scn s(spot.size());
        for (size_t i = 0; i < spot.size(); ++i) {
            s[i].spot_ = spot[i];
            s[i].numeraire_ = num[i];
        }
        return s;
    }
    inline string lower(string s) {
        for (char& c : s)
            c = tolower(c);
        return s;
    }
    template <class V> std::map<string, double> byName(const ScriptProduct_& p, const V& vals) {
        std::map<string, double> o;
        for (size_t i = 0; i < p.VarNames().size(); ++i)
            o[lower(string(p.VarNames()[i].c_str()))] = vals[i];
        return o;
    }
    // a configuration of preprocessing and evaluation
    struct Config {
        bool fuzzy, skip, compiled;
        string name() const { return cat("fuzzy=", fuzzy, " skipDomain=", skip, " compiled=", compiled); }
    };
    inline void init() {
        static bool done = false;
        if (!done) {
            // the library greets on stdout
            fflush(stdout);
            Dal::RegisterAll_::Init();
            done = true;
        }
    }
    struct Paths {
        vector<double> spot, num;
    };
    inline Paths paths(Rng& r, const Script& s) {
        Paths p;
        size_t n = 0;
        for (auto& e : s.events)
            n += !e.past;
        const bool integers = r.coin(0.3);
        const double base = r.pick({100.0, 100.0, 1.0, 10.0, 3.0});
        double nu = r.coin(0.3) ? 1.0 : r.uniform(0.9, 1.1);
        for (size_t i = 0; i < n; ++i) {
            double x = base * std::exp(0.4 * r.normal());
            if (integers)
                x = std::round(x);
            p.spot.push_back(x);
            p.num.push_back(nu);
            nu *= r.coin(0.3) ? 1.0 : r.uniform(1.0, 1.1);
        }
        return p;
    }
    inline string show(const Paths& p) {
        string o = " spots:";
        for (double x : p.spot)
            o += cat(" ", x);
        o += " numeraires:";
        for (double x : p.num)
            o += cat(" ", x);
        return o;
    }
    // preprocessing may refuse a script in which some constant operation has no value; never another one
    template <class F> bool preprocess(const Script& s, const string& what, F f) {
        try {
            f();
            count("preprocessed");
            return true;
        } catch (const std::exception& e) {
            count("refused-undefined");
            if (!partial(s))
                violation("preprocess-refused", cat(what, ": ", e.what()));
            return false;
        }
    }
    inline Gen randomScript(Rng& r, long today, bool wildOk = true) {
        Gen g(r);
        g.maxDepth = r.range(1, 5);
        g.wild = wildOk && r.coin(0.3) ? 0.3 : 0.05;
        g.maxIfDepth = r.range(0, 4);
        const int nv = r.range(1, 6);
        g.script(today, r.coin(0.4) ? r.range(1, 3) : 0, r.range(1, 4), nv, r.range(0, std::max(0, nv - 1)), r.range(0, 3), r.range(1, 5));
        return g;
    }
} // namespace sl
