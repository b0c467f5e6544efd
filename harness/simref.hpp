// Reference model paths and payoffs with exact forward-mode derivatives. Shares no code with the library.
#pragma once
#include <set>
#include "scriptgen.hpp"

namespace sr {
    using namespace sg;
    constexpr int MAXD = 28;
    // m and ad bound the size of everything that was added up on the way: the scale of rounding errors
    struct Dual {
        double v = 0, m = 0;
        std::array<double, MAXD> d{}, ad{};
        Dual(double x = 0) : v(x), m(std::fabs(x)) {}
        static Dual param(double x, int k) {
            Dual o(x);
            o.d[k] = o.ad[k] = 1;
            return o;
        }
        // value f of magnitude fm; derivative multipliers and their magnitudes
        static Dual chain(double f, double fm, double a, double am, const Dual& x) {
            Dual o(f);
            o.m = fm;
            for (int i = 0; i < MAXD; ++i) {
                o.d[i] = x.d[i] == 0 ? 0 : a * x.d[i];
                o.ad[i] = x.ad[i] == 0 ? 0 : am * x.ad[i];
            }
            return o;
        }
        static Dual chain2(double f, double fm, double a, double am, const Dual& x, double b, double bm, const Dual& y) {
            Dual o(f);
            o.m = fm;
            for (int i = 0; i < MAXD; ++i) {
                o.d[i] = (x.d[i] == 0 ? 0 : a * x.d[i]) + (y.d[i] == 0 ? 0 : b * y.d[i]);
                o.ad[i] = (x.ad[i] == 0 ? 0 : am * x.ad[i]) + (y.ad[i] == 0 ? 0 : bm * y.ad[i]);
            }
            return o;
        }
    };
    inline Dual operator+(const Dual& x, const Dual& y) { return Dual::chain2(x.v + y.v, x.m + y.m, 1, 1, x, 1, 1, y); }
    inline Dual operator-(const Dual& x, const Dual& y) { return Dual::chain2(x.v - y.v, x.m + y.m, 1, 1, x, -1, 1, y); }
    inline Dual operator*(const Dual& x, const Dual& y) { return Dual::chain2(x.v * y.v, x.m * y.m, y.v, y.m, x, x.v, x.m, y); }
    inline Dual operator/(const Dual& x, const Dual& y) {
        const double r = std::fabs(1 / y.v), w = y.m * r; // w >= 1: how much the divisor lost
        return Dual::chain2(x.v / y.v, x.m * r * w, 1 / y.v, r * w, x, -x.v / y.v / y.v, x.m * r * r * w * w, y);
    }
    inline Dual fun(double f, double f1, double f2, const Dual& x) {
        return Dual::chain(f, std::fabs(f) + std::fabs(f1) * x.m, f1, std::fabs(f1) + std::fabs(f2) * x.m, x);
    }
    inline Dual exp(const Dual& x) { return fun(std::exp(x.v), std::exp(x.v), std::exp(x.v), x); }
    inline Dual log(const Dual& x) { return fun(std::log(x.v), 1 / x.v, -1 / x.v / x.v, x); }
    inline Dual sqrt(const Dual& x) { return fun(std::sqrt(x.v), 0.5 / std::sqrt(x.v), 0.25 / std::sqrt(x.v) / x.v, x); }
    inline Dual pow(const Dual& x, const Dual& y) {
        const double f = std::pow(x.v, y.v), fx = y.v * std::pow(x.v, y.v - 1), fy = f == 0 ? 0 : f * std::log(x.v);
        const double fm = std::fabs(f) + std::fabs(fx) * x.m + std::fabs(fy) * y.m;
        const double k = 1 + y.m + std::fabs(y.v) * x.m / x.v + std::fabs(std::log(x.v)) * (1 + y.m);
        return Dual::chain2(f, fm, fx, std::fabs(f) / x.v * k * k, x, fy, std::fabs(f) * k * k, y);
    }

    // ------------------------------------------------------------------ models
    struct Model {
        bool dupire = false;
        double spot = 100, vol = 0.2, rate = 0, div = 0; // div: dividend yield or repo
        vector<double> spots, times;
        vector<vector<double>> vols; // [spot][time]
        double maxDt = 1.0;
        int params() const { return dupire ? 3 + spots.size() * times.size() : 4; }
        vector<string> labels() const {
            if (!dupire)
                return {"spot", "vol", "rate", "div"};
            vector<string> o; // two decimals, or as many as it takes to tell the parameters apart
            for (int digits = 2; digits <= 17; ++digits) {
                o = {"spot", "rate", "repo"};
                for (double s : spots)
                    for (double t : times) {
                        char b[512];
                        snprintf(b, sizeof b, "lvol %.*f %.*f", digits, s, digits, t);
                        o.push_back(b);
                    }
                if (std::set<string>(o.begin(), o.end()).size() == o.size())
                    break;
            }
            return o;
        }
        double& param(int k) {
            if (!dupire)
                return k == 0 ? spot : k == 1 ? vol : k == 2 ? rate : div;
            if (k < 3)
                return k == 0 ? spot : k == 1 ? rate : div;
            return vols[(k - 3) / times.size()][(k - 3) % times.size()];
        }
        string show() const {
            string o = cat(dupire ? "Dupire" : "BS", " spot=", spot, " rate=", rate, " div=", div);
            if (!dupire)
                return cat(o, " vol=", vol);
            o += " spots:";
            for (double x : spots)
                o += cat(" ", x);
            o += " times:";
            for (double x : times)
                o += cat(" ", x);
            o += " vols:";
            for (auto& v : vols)
                for (double x : v)
                    o += cat(" ", x);
            return o;
        }
    };
    inline Model randomModel(Rng& r, bool dupire, bool small = false) {
        Model m;
        m.dupire = dupire;
        m.spot = r.coin(0.3) ? 100.0 : r.uniform(20, 180);
        m.rate = r.coin(0.15) ? 0.0 : r.uniform(-0.05, 0.15);
        m.div = r.coin(0.15) ? 0.0 : r.uniform(-0.05, 0.15);
        m.vol = r.uniform(0.02, 0.6);
        if (dupire) {
            int ns = r.range(1, small ? 3 : 5), nt = r.range(1, small ? 3 : 4);
            if (r.coin(0.06)) { // long and thin (at most 20 local volatilities)
                ns = r.pick({1, 2, 9, 10, 19, 20, 1, 2});
                nt = 20 / ns;
            }
            std::set<double> s, t;
            // nodes not too close: a steep volatility makes the path chaotic
            for (double x = r.uniform(30, 110); (int)s.size() < ns; x *= r.uniform(1.15, 1.7))
                s.insert(x);
            while ((int)t.size() < nt)
                t.insert(r.coin(0.2) ? 0.25 * r.range(1, 12) : r.uniform(0.02, 5));
            m.spots.assign(s.begin(), s.end());
            m.times.assign(t.begin(), t.end());
            for (int i = 0; i < ns; ++i) {
                vector<double> v;
                for (int j = 0; j < nt; ++j)
                    v.push_back(r.uniform(0.05, 0.5));
                m.vols.push_back(v);
            }
        }
        return m;
    }
    // times at which the model steps, and for each whether a product event falls on it
    struct Steps {
        vector<double> t;
        vector<bool> event;
    };
    inline Steps steps(const Model& m, const vector<double>& times) {
        Steps o;
        o.t.push_back(0);
        o.event.push_back(!times.empty() && times[0] == 0);
        for (double x : times) {
            if (x <= 0)
                continue;
            if (m.dupire) {
                const double from = o.t.back(), gap = x - from;
                if (gap > m.maxDt) {
                    const int n = (int)std::ceil(gap / m.maxDt - 1e-12);
                    for (int i = 1; i < n; ++i) {
                        o.t.push_back(from + gap * i / n);
                        o.event.push_back(false);
                    }
                }
            }
            o.t.push_back(x);
            o.event.push_back(true);
        }
        return o;
    }
    struct Path {
        vector<Dual> spot, num;
        double minNode = 1e300; // distance of a log-spot from a node of the volatility surface (relative)
    };
    template <class T> T interp(const vector<double>& x, const vector<T>& y, const T& at, double v, double* minNode) {
        if (minNode)
            for (double n : x)
                *minNode = std::min(*minNode, std::fabs(n - v));
        if (v <= x.front())
            return y.front();
        if (v >= x.back())
            return y.back();
        size_t k = 1;
        while (x[k] < v)
            ++k;
        const T w = (at - T(x[k - 1])) / T(x[k] - x[k - 1]);
        return y[k - 1] + w * (y[k] - y[k - 1]);
    }
    inline vector<Dual> duals(const Model& m) {
        vector<Dual> p;
        Model& c = const_cast<Model&>(m);
        for (int i = 0; i < m.params(); ++i)
            p.push_back(Dual::param(c.param(i), i));
        return p;
    }
    inline Path path(const Model& m, const vector<double>& times, const vector<double>& g) {
        Path o;
        const auto p = duals(m);
        const Dual spot = p[0], rate = m.dupire ? p[1] : p[2], div = m.dupire ? p[2] : p[3];
        const Steps st = steps(m, times);
        Dual x = log(spot);
        for (size_t i = 0; i < st.t.size(); ++i) {
            if (i > 0) {
                const double t0 = st.t[i - 1], dt = st.t[i] - t0;
                Dual vol;
                if (!m.dupire)
                    vol = p[1];
                else {
                    vector<double> ls;
                    for (double s : m.spots)
                        ls.push_back(std::log(s));
                    vector<Dual> atTime;
                    for (size_t k = 0; k < m.spots.size(); ++k) {
                        vector<Dual> row(p.begin() + 3 + k * m.times.size(), p.begin() + 3 + (k + 1) * m.times.size());
                        atTime.push_back(interp(m.times, row, Dual(t0), t0, nullptr));
                    }
                    vol = interp(ls, atTime, x, x.v, &o.minNode);
                }
                x = x + (rate - div) * Dual(dt) - Dual(0.5 * dt) * vol * vol + vol * Dual(std::sqrt(dt) * g[i - 1]);
            }
            if (st.event[i]) {
                o.spot.push_back(exp(x));
                o.num.push_back(exp(rate * Dual(st.t[i])));
            }
        }
        return o;
    }

    // ------------------------------------------------------------------ payoffs
    struct DRun {
        vector<Dual> v;
        bool defined = true;      // every value and derivative finite and moderate, no kink hit
        double minDist = 1e300, minSlack = 1e300;
        double maxV = 0;
        std::array<double, MAXD> maxD{};
        u64 branches = 0;
        bool conditions = false;
    };
    struct DInterp {
        const Script& s;
        const vector<Dual>& consts;
        double defEps;
        DRun& o;
        Dual spot, numeraire;
        bool past = false;
        bool both = false; // run both branches, to bound the size of what a smoothed evaluation adds up

        const Dual& num(const Dual& x) {
            if (!std::isfinite(x.m) || x.m > 1e9)
                o.defined = false;
            o.maxV = std::max(o.maxV, x.m);
            for (int i = 0; i < MAXD; ++i) {
                if (!std::isfinite(x.ad[i]) || x.ad[i] > 1e10)
                    o.defined = false;
                o.maxD[i] = std::max(o.maxD[i], x.ad[i]);
            }
            return x;
        }
        Dual ex(const Ex& e) {
            switch (e.op) {
            case NUM:
            case DCF:
                return Dual(e.num);
            case VAR:
                return o.v[e.var];
            case CVAR:
                return past ? Dual(consts[e.var].v) : consts[e.var]; // past events are history
            case SPOT:
                return num(spot);
            case ADD:
                return num(ex(*e.a[0]) + ex(*e.a[1]));
            case SUB:
                return num(ex(*e.a[0]) - ex(*e.a[1]));
            case MUL:
                return num(ex(*e.a[0]) * ex(*e.a[1]));
            case DIV: {
                const Dual x = ex(*e.a[0]), y = ex(*e.a[1]);
                if (std::fabs(y.v) < 1e-6)
                    o.defined = false;
                return num(x / y);
            }
            case POW: {
                const Dual x = ex(*e.a[0]), y = ex(*e.a[1]);
                if (x.v < 1e-6)
                    o.defined = false;
                return num(pow(x, y));
            }
            case NEG:
                return Dual(0) - ex(*e.a[0]);
            case POS:
                return ex(*e.a[0]);
            case LOG: {
                const Dual x = ex(*e.a[0]);
                if (x.v < 1e-6)
                    o.defined = false;
                return num(log(x));
            }
            case SQRT: {
                const Dual x = ex(*e.a[0]);
                if (x.v < 1e-6)
                    o.defined = false;
                return num(sqrt(x));
            }
            case EXP:
                return num(exp(ex(*e.a[0])));
            case MIN:
            case MAX: {
                Dual x = ex(*e.a[0]);
                for (size_t i = 1; i < e.a.size(); ++i) {
                    const Dual y = ex(*e.a[i]);
                    if (std::fabs(x.v - y.v) <= 1e-10 * std::max({1.0, std::fabs(x.v), std::fabs(y.v)})) {
                        bool same = true;
                        for (int k = 0; k < MAXD; ++k)
                            same = same && std::fabs(x.d[k] - y.d[k]) <= 1e-9 * std::max(1.0, std::fabs(x.d[k]));
                        if (!same)
                            o.defined = false;
                    }
                    if (e.op == MIN ? y.v < x.v : y.v > x.v)
                        x = y;
                }
                return x;
            }
            }
            return Dual(0);
        }
        bool discrete(const Ex& e) const {
            if (e.op == NUM || e.op == CVAR || e.op == DCF)
                return true;
            if (e.op == VAR)
                return s.flags.count(e.var) > 0;
            if (e.op == POS || e.op == NEG)
                return discrete(*e.a[0]);
            return false;
        }
        bool cond(const Cond& c) {
            o.conditions = true;
            if (c.op == CMP) {
                const double l = ex(*c.l).v, r = ex(*c.r).v, d = l - r;
                if (d != 0)
                    o.minDist = std::min(o.minDist, std::fabs(d) / std::max({1.0, std::fabs(l), std::fabs(r)}));
                if (!(discrete(*c.l) && discrete(*c.r)))
                    o.minSlack = std::min(o.minSlack, std::fabs(d) - 0.5 * (c.eps < 0 ? defEps : c.eps));
                return c.cmp == "=" ? d == 0 : c.cmp == "!=" ? d != 0 : c.cmp == "<" ? d < 0 : c.cmp == ">" ? d > 0 : c.cmp == "<=" ? d <= 0 : d >= 0;
            }
            const bool a = cond(*c.a), b = cond(*c.b);
            return c.op == AND ? a && b : a || b;
        }
        void stmt(const Stmt& x) {
            if (x.op == ASSIGN)
                o.v[x.var] = ex(*x.e);
            else if (x.op == PAYS) {
                const Dual p = ex(*x.e);
                if (!past)
                    o.v[x.var] = num(o.v[x.var] + num(p / numeraire));
            } else {
                const bool b = cond(*x.c);
                o.branches = mix(o.branches * 3 + b + 1);
                if (both) {
                    const auto save = o.v;
                    for (auto& y : x.yes)
                        stmt(*y);
                    const auto v1 = o.v;
                    o.v = save;
                    for (auto& y : x.no)
                        stmt(*y);
                    for (size_t i = 0; i < v1.size(); ++i) {
                        if (b)
                            o.v[i].v = v1[i].v;
                        o.v[i].m = std::max(o.v[i].m, v1[i].m);
                        for (int k = 0; k < MAXD; ++k)
                            o.v[i].ad[k] = std::max(o.v[i].ad[k], v1[i].ad[k]);
                    }
                    return;
                }
                for (auto& y : b ? x.yes : x.no)
                    stmt(*y);
            }
        }
    };
    // constants of the script take the derivative slots after the model's parameters
    inline DRun run(const Script& s, const Model& m, const Path& p, double defEps, bool both = false) {
        DRun o;
        o.v.assign(s.vars.size(), Dual(0));
        vector<Dual> c;
        for (size_t i = 0; i < s.consts.size(); ++i)
            c.push_back(Dual::param(s.constVals[i], m.params() + i));
        DInterp in{s, c, defEps, o};
        in.both = both;
        size_t k = 0;
        for (auto& e : s.events) {
            in.past = e.past;
            in.spot = e.past ? Dual(0) : p.spot[k];
            in.numeraire = e.past ? Dual(1) : p.num[k];
            for (auto& x : e.stmts)
                in.stmt(*x);
            if (!e.past)
                ++k;
        }
        return o;
    }
} // namespace sr
