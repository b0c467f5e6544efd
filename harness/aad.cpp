// P09: adjoint differentiation against forward-mode duals, over tape positions and histories.
#include "simref.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/operators.hpp>
#include <thread>
using namespace vh;
using Dal::AAD::Number_;
using Dal::AAD::Tape_;
using sr::Dual;

namespace sr {
    static thread_local bool kink = false; // the last calculation touched a point without derivative or close to one
    inline bool positive(double x) {
        if (!(x > 1e-2))
            kink = true;
        return true;
    }
    inline Dual operator-(const Dual& x) { return Dual(0) - x; }
    inline Dual operator+(const Dual& x) { return x; }
    inline Dual fabs(const Dual& x) {
        if (std::fabs(x.v) < 1e-6)
            kink = true;
        return Dual::chain(std::fabs(x.v), x.m, x.v > 0 ? 1 : -1, 1, x);
    }
    inline void tie(const Dual& x, const Dual& y) {
        if (std::fabs(x.v - y.v) < 1e-6)
            kink = true;
    }
    inline Dual max(const Dual& x, const Dual& y) {
        tie(x, y);
        return x.v > y.v ? x : y;
    }
    inline Dual min(const Dual& x, const Dual& y) {
        tie(x, y);
        return x.v < y.v ? x : y;
    }
    inline Dual NPDF(const Dual& x) {
        const double f = std::exp(-0.5 * x.v * x.v) / std::sqrt(2 * M_PI);
        return fun(f, -x.v * f, (x.v * x.v - 1) * f, x);
    }
    inline Dual NCDF(const Dual& x) {
        const double f = std::exp(-0.5 * x.v * x.v) / std::sqrt(2 * M_PI);
        return fun(0.5 * std::erfc(-x.v / std::sqrt(2.0)), f, -x.v * f, x);
    }
    inline Dual erfc(const Dual& x) {
        const double f = -2 / std::sqrt(M_PI) * std::exp(-x.v * x.v);
        return fun(std::erfc(x.v), f, -2 * x.v * f, x);
    }
    inline Dual pow(const Dual& x, double e) {
        return fun(std::pow(x.v, e), e == 0 ? 0 : e * std::pow(x.v, e - 1), e == 0 || e == 1 ? 0 : e * (e - 1) * std::pow(x.v, e - 2), x);
    }
    inline Dual pow(double b, const Dual& x) {
        const double f = std::pow(b, x.v), l = std::log(b);
        return fun(f, l * f, l * l * f, x);
    }
    inline Dual& operator+=(Dual& x, const Dual& y) { return x = x + y; }
    inline Dual& operator-=(Dual& x, const Dual& y) { return x = x - y; }
    inline Dual& operator*=(Dual& x, const Dual& y) { return x = x * y; }
    inline Dual& operator/=(Dual& x, const Dual& y) { return x = x / y; }
    inline bool operator<(const Dual& x, const Dual& y) { tie(x, y); return x.v < y.v; }
    inline bool operator>(const Dual& x, const Dual& y) { tie(x, y); return x.v > y.v; }
    // guards: mark a calculation whose argument is not safely inside the domain
    inline const Dual& pos(const Dual& x) {
        positive(x.v);
        return x;
    }
    inline const Dual& nz(const Dual& x) {
        positive(std::fabs(x.v));
        return x;
    }
} // namespace sr
namespace Dal::AAD {
    template <class E> inline const E& pos(const Expression_<E>& x) { return static_cast<const E&>(x); }
    template <class E> inline const E& nz(const Expression_<E>& x) { return static_cast<const E&>(x); }
}

struct Pat {
    string name;
    std::function<void(Dual&, const Dual&, const Dual&, const Dual&, double, double)> d;
    std::function<void(Number_&, const Number_&, const Number_&, const Number_&, double, double)> n;
    bool commonOnly = false;
};
static vector<Pat> PATS;
template <class F> void add(const char* name, F f) {
    Pat p;
    p.name = name;
    p.d = [f](Dual& o, const Dual& a, const Dual& b, const Dual& c, double x, double y) { f(o, a, b, c, x, y); };
    p.n = [f](Number_& o, const Number_& a, const Number_& b, const Number_& c, double x, double y) { f(o, a, b, c, x, y); };
    PATS.push_back(p);
}
#define PAT(e) add(#e, [](auto& o, const auto& a, const auto& b, const auto& c, double x, double y) { e; })
static void patterns() {
    PAT(o = a + b);
    PAT(o = a - b);
    PAT(o = a * b);
    PAT(o = a / nz(b));
    PAT(o = a + x);
    PAT(o = x + a);
    PAT(o = a - x);
    PAT(o = x - a);
    PAT(o = a * x);
    PAT(o = x * a);
    PAT(o = a / x);
    PAT(o = x / nz(a));
    PAT(o = -a);
    PAT(o = +a);
    PAT(o = exp(a));
    PAT(o = log(pos(a)));
    PAT(o = sqrt(pos(a)));
    PAT(o = fabs(a));
    PAT(o = NPDF(a));
    PAT(o = NCDF(a));
    PAT(o = erfc(a));
    PAT(o = pow(pos(a), b));
    PAT(o = pow(pos(a), x));
    PAT(o = pow(x, a));
    PAT(o = pow(nz(a), 2.0));
    PAT(o = pow(nz(a), 3.0));
    PAT(o = pow(a, 1.0));
    PAT(o = pow(a, 0.0));
    PAT(o = max(a, b));
    PAT(o = min(a, b));
    PAT(o = max(a, x));
    PAT(o = max(x, a));
    PAT(o = min(a, x));
    PAT(o = min(x, a));
    // several inputs, shared inputs, nested
    PAT(o = a * b + c);
    PAT(o = (a + b) * (a - b) + c * c);
    PAT(o = a * a * a);
    PAT(o = a - a);
    PAT(o = a / nz(a) + b);
    PAT(o = x * a + y * b - c / y);
    PAT(o = exp(-0.5 * a * a) * NCDF(b) + log(pos(c) + x));
    PAT(o = max(a * x, b + y) - min(c, a));
    PAT(o = sqrt(a * a + b * b + x) / (1.5 + fabs(c)));
    PAT(o = pow(fabs(a) + x, 0.5 * NCDF(b)) * erfc(c * 0.3));
    PAT(o = a * b * c * a * b * c);
    PAT(o = ((a - b) * (b - c) + (c - a) * x) / (y + NPDF(a) + a * a));
    PAT(o = (x - a) * (y / (x + b * b)) - pow(2.0, NCDF(c)));
    PAT(o = a + b + c + a + b + c + a + b);
    PAT(o = -(-(a * b)) + (+c));
    // in place
    PAT(o += a);
    PAT(o -= a);
    PAT(o *= a);
    PAT(o /= nz(a));
    PAT(o += x);
    PAT(o -= x);
    PAT(o *= x);
    PAT(o /= x);
    PAT(o += a * b);
    PAT(o -= a * b - c);
    PAT(o *= a + x);
    PAT(o /= (x + a * a));
    PAT(o = o * a + o);
    PAT(o += o);
    PAT(o *= o);
    PAT(o -= 0.5 * o);
    PAT(o = a);
    PAT(o = x);
    // branches
    PAT(if (a < b) o = a * x; else o = b - y);
    PAT(if (a > b) o = exp(-fabs(c)); else o += c);
    PAT(for (int i = 0; i < 3; ++i) o = 0.5 * o + a * b);
}

struct Prog {
    struct Ins {
        int pat, o, a, b, c;
        double x, y;
    };
    vector<Ins> ins;
    int regs;
};
static bool fine(const Dual& x, int inputs) {
    if (!std::isfinite(x.m) || x.m > 1e5)
        return false;
    for (int i = 0; i < inputs; ++i)
        if (!std::isfinite(x.ad[i]) || x.ad[i] > 1e7)
            return false;
    return true;
}
// extend a program by n instructions that are well defined at the current point; applies them to the duals
static void extend(Rng& r, Prog& p, vector<Dual>& v, int n, int inputs, int firstDst) {
    for (int k = 0; k < n;) {
        Prog::Ins i;
        i.pat = r.below(PATS.size());
        i.o = firstDst + r.below(p.regs - firstDst);
        i.a = r.below(p.regs);
        i.b = r.below(p.regs);
        i.c = r.below(p.regs);
        i.x = r.pick({0.5, 1.0, 2.0, 1.5, 0.1}) * r.uniform(0.5, 1.5);
        i.y = r.uniform(0.3, 3.0);
        Dual o = v[i.o];
        sr::kink = false;
        const Dual a = v[i.a], b = v[i.b], c = v[i.c];
        // operands that are the destination see its changes in place: only patterns reading it through o then
        if (i.a == i.o || i.b == i.o || i.c == i.o) {
            auto w = v;
            PATS[i.pat].d(w[i.o], w[i.a], w[i.b], w[i.c], i.x, i.y);
            o = w[i.o];
        } else
            PATS[i.pat].d(o, a, b, c, i.x, i.y);
        if (sr::kink || !fine(o, inputs)) {
            // keep registers alive: pull it back
            if (!r.coin(0.1))
                continue;
            o = Dual(i.x);
            for (size_t q = 0; q < PATS.size(); ++q)
                if (PATS[q].name == "o = x")
                    i.pat = q;
        }
        v[i.o] = o;
        p.ins.push_back(i);
        ++k;
    }
}
static void exec(const Prog& p, vector<Number_>& v, size_t from = 0) {
    for (size_t k = from; k < p.ins.size(); ++k) {
        auto& i = p.ins[k];
        PATS[i.pat].n(v[i.o], v[i.a], v[i.b], v[i.c], i.x, i.y);
    }
}
static string show(const Prog& p) {
    string o = cat(p.ins.size(), " instructions on ", p.regs, " registers:");
    for (size_t k = 0; k < std::min<size_t>(p.ins.size(), 12); ++k)
        o += cat(" r", p.ins[k].o, "<-", PATS[p.ins[k].pat].name, "[", p.ins[k].a, ",", p.ins[k].b, ",", p.ins[k].c, "]");
    return o;
}
static void checkAll(const vector<Number_>& in, const Dual& d, const string& what) {
    for (size_t k = 0; k < in.size(); ++k)
        checkf(near(in[k].Adjoint(), d.d[k], 1e-11 * (1 + d.ad[k]), 1e-10), "derivative-wrong",
               [&] { return cat(what, " input ", k, " got ", in[k].Adjoint(), " expected ", d.d[k]); });
    count("derivatives", in.size());
}
static void values(const vector<Number_>& v, const vector<Dual>& d, const string& what) {
    for (size_t k = 0; k < v.size(); ++k)
        checkf(near(v[k].value(), d[k].v, 1e-12 * (1 + d[k].m), 1e-12), "value-wrong", [&] { return cat(what, " register ", k, " got ", v[k].value(), " expected ", d[k].v); });
}
static vector<double> point(Rng& r, int n) {
    vector<double> x;
    for (int i = 0; i < n; ++i)
        x.push_back(r.coin(0.1) ? 1.0 : r.coin(0.04) ? 0.0 : r.coin(0.1) ? r.uniform(-14, 14) : r.coin(0.05) ? r.logUniform(1e-4, 1e4)
                                                       : r.coin(0.3)    ? -r.uniform(0.1, 2) : r.uniform(0.1, 3));
    return x;
}
// dead weight on the tape, so that what follows lies across the ends of its blocks
static void weight(Rng& r, long nodes, long args) {
    Number_ a(1.0), b(2.0), x(0.0);
    for (long k = 0; k < args / 6; ++k)
        x = a * b + a * b + a * b;
    for (long k = 0; k < nodes - args / 6; ++k)
        x = 1.0;
    count("weight-nodes", std::max(nodes, args / 6));
}
static void place(Rng& r) {
    switch (r.range(0, 5)) {
    case 0:
        weight(r, 16384 * r.range(1, 2) - r.range(0, 40), 0);
        count("placed-at-node-block-end");
        break;
    case 1:
        weight(r, 0, 65536 - r.range(0, 60));
        count("placed-at-argument-block-end");
        break;
    case 2:
        weight(r, r.range(0, 300), r.range(0, 300));
        break;
    default:
        break;
    }
}
struct Inputs {
    vector<Number_> in, v;
    vector<Dual> d;
};
static Inputs inputs(Rng& r, const vector<double>& x, int regs) {
    Inputs o;
    o.in.resize(x.size());
    for (size_t i = 0; i < x.size(); ++i) {
        o.in[i] = x[i];
        if (r.coin())
            o.in[i].PutOnTape();
        o.d.push_back(Dual::param(x[i], i));
    }
    o.v = o.in;
    for (int k = x.size(); k < regs; ++k) {
        o.v.push_back(Number_(0.5 + 0.1 * k));
        o.d.push_back(Dual(0.5 + 0.1 * k));
    }
    return o;
}

// one calculation from scratch: several results propagated one after the other
static void episodePlain(Rng& r, int size) {
    const int ni = r.range(1, 6), regs = ni + r.range(1, 5);
    auto s = inputs(r, point(r, ni), regs);
    Prog p;
    p.regs = regs;
    extend(r, p, s.d, size, ni, r.coin(0.5) ? 0 : ni);
    desc(S().caseDesc + " plain " + show(p));
    exec(p, s.v);
    values(s.v, s.d, "plain");
    for (int k = r.range(1, 3); k > 0; --k) {
        const int q = r.below(regs);
        Number_::Tape()->ResetAdjoints();
        s.v[q].PropagateToStart();
        checkAll(s.in, s.d[q], cat("result r", q));
        count("propagations");
    }
    observed(show(p));
}
// the pattern of a simulation: a common part, a mark, many calculations each rewound, one final propagation
static void episodeMark(Rng& r, int size, int paths) {
    const int ni = r.range(1, 6), regs = ni + r.range(1, 5);
    auto s = inputs(r, point(r, ni), regs);
    Prog common;
    common.regs = regs;
    extend(r, common, s.d, r.coin(0.3) ? 0 : r.range(1, 30), ni, 0);
    exec(common, s.v);
    if (r.coin(0.2))
        place(r);
    Number_::Tape()->Mark();
    Dual total(0);
    vector<Number_> base = s.v;
    const auto dBase = s.d;
    int done = 0;
    string d = S().caseDesc;
    for (int k = 0; k < paths; ++k) {
        Number_::Tape()->RewindToMark();
        Prog p;
        p.regs = regs;
        auto dv = dBase;
        extend(r, p, dv, size, ni, 0);
        if (k == 0)
            desc(d + " marked " + show(p));
        auto v = base;
        if (r.coin(0.05))
            place(r);
        exec(p, v);
        const int q = r.below(regs);
        Number_ res = v[q] * 1.0;
        checkf(near(res.value(), dv[q].v, 1e-12 * (1 + dv[q].m), 1e-12), "value-wrong", [&] { return cat("after a mark got ", res.value(), " expected ", dv[q].v); });
        res.PropagateToMark();
        for (int i = 0; i < ni; ++i) {
            total.d[i] += dv[q].d[i];
            total.ad[i] += dv[q].ad[i];
        }
        ++done;
    }
    Number_::PropagateMarkToStart();
    checkAll(s.in, total, cat("sum of ", done, " rewound calculations"));
    count("marked-calculations", done);
    count("propagations");
    observed(cat(size, paths, total.d[0]));
}
// several results at once
static void episodeMulti(Rng& r, int size) {
    const int nr = r.range(1, 5);
    auto reset = Dal::AAD::SetNumResultsForAAD(true, nr);
    Number_::Tape()->Rewind();
    place(r);
    const int ni = r.range(1, 6), regs = ni + r.range(1, 5);
    const auto x = point(r, ni);
    // inputs and results are found by their place on the tape
    vector<Number_> in, v;
    vector<Tape_::Iterator_> at, res;
    vector<Dual> d;
    for (int i = 0; i < ni; ++i) {
        in.push_back(Number_(x[i]));
        at.push_back(std::prev(Number_::Tape()->End()));
        d.push_back(Dual::param(x[i], i));
    }
    v = in;
    for (int k = ni; k < regs; ++k) {
        v.push_back(Number_(0.5 + 0.1 * k));
        d.push_back(Dual(0.5 + 0.1 * k));
    }
    Prog p;
    p.regs = regs;
    extend(r, p, d, size, ni, ni);
    desc(S().caseDesc + cat(" ", nr, " results ") + show(p));
    exec(p, v);
    values(v, d, "multi");
    vector<int> which;
    for (int k = 0; k < nr; ++k) {
        which.push_back(r.below(regs));
        Number_ z = v[which[k]] * 1.0;
        res.push_back(std::prev(Number_::Tape()->End()));
    }
    // a common part, a mark, and calculations that are rewound one after the other
    if (r.coin(0.4)) {
        Number_::Tape()->Mark();
        if (r.coin(0.2))
            place(r);
        const auto base = v;
        const auto dBase = d;
        for (int path = r.range(1, 4); path > 0; --path) {
            Number_::Tape()->RewindToMark();
            auto w = base;
            auto dw = dBase;
            Prog q;
            q.regs = regs;
            extend(r, q, dw, r.range(1, size + 1), ni, 0);
            exec(q, w);
            values(w, dw, "multi-marked");
            vector<int> sel;
            vector<Tape_::Iterator_> at2;
            for (int k = 0; k < nr; ++k) {
                sel.push_back(r.below(regs));
                Number_ z = w[sel[k]] * 1.0;
                at2.push_back(std::prev(Number_::Tape()->End()));
            }
            Number_::Tape()->ResetAdjoints();
            for (int k = 0; k < nr; ++k)
                at2[k]->Adjoint(k) = 1.0;
            Number_::PropagateAdjointsMulti(std::prev(Number_::Tape()->End()), Number_::Tape()->Begin());
            for (int k = 0; k < nr; ++k)
                for (int i = 0; i < ni; ++i)
                    checkf(near(at[i]->Adjoint(k), dw[sel[k]].d[i], 1e-11 * (1 + dw[sel[k]].ad[i]), 1e-10), "multi-derivative-wrong",
                           [&] { return cat("after a mark, result ", k, " of ", nr, " input ", i, " got ", at[i]->Adjoint(k), " expected ", dw[sel[k]].d[i]); });
            count("multi-marked-derivatives", nr * ni);
        }
        Number_::Tape()->RewindToMark();
        Number_::Tape()->ResetAdjoints();
    }
    const int rounds = r.range(1, 2);
    for (int t = 0; t < rounds; ++t) {
        if (t || r.coin()) // freshly recorded operations start from zero adjoints
            Number_::Tape()->ResetAdjoints();
        for (int k = 0; k < nr; ++k)
            res[k]->Adjoint(k) = 1.0;
        Number_::PropagateAdjointsMulti(std::prev(Number_::Tape()->End()), Number_::Tape()->Begin());
        for (int k = 0; k < nr; ++k)
            for (int i = 0; i < ni; ++i)
                checkf(near(at[i]->Adjoint(k), d[which[k]].d[i], 1e-11 * (1 + d[which[k]].ad[i]), 1e-10), "multi-derivative-wrong",
                       [&] { return cat("result ", k, " of ", nr, " input ", i, " got ", at[i]->Adjoint(k), " expected ", d[which[k]].d[i]); });
        count("multi-derivatives", nr * ni);
    }
    observed(cat(nr, show(p)));
    Number_::Tape()->Rewind();
}
static void clean(Rng& r) {
    switch (r.range(0, 3)) {
    case 0:
        Number_::Tape()->Clear();
        count("clears");
        break;
    default:
        Number_::Tape()->Rewind();
        count("rewinds");
    }
}

VH_MAIN([] {
    patterns();
    static Tape_ tape;
    Number_::SetTape(tape);

    // every operation alone, at many points, every operand pattern
    section("operations", N(200, 2000), [&](Rng& r) {
        for (size_t q = 0; q < PATS.size(); ++q) {
            const auto x = point(r, 4);
            Number_::Tape()->Rewind();
            auto s = inputs(r, x, 4);
            Prog::Ins i{(int)q, (int)r.below(4), (int)r.below(4), (int)r.below(4), (int)r.below(4), r.uniform(0.2, 3), r.uniform(0.2, 3)};
            auto d = s.d;
            sr::kink = false;
            PATS[q].d(d[i.o], d[i.a], d[i.b], d[i.c], i.x, i.y);
            if (sr::kink || !fine(d[i.o], 4))
                continue;
            desc(cat(PATS[q].name, " o=", i.o, " a=", i.a, " b=", i.b, " c=", i.c, " at ", x[0], " ", x[1], " ", x[2], " ", x[3], " x=", i.x, " y=", i.y));
            auto v = s.v;
            PATS[q].n(v[i.o], v[i.a], v[i.b], v[i.c], i.x, i.y);
            values(v, d, PATS[q].name);
            v[i.o].PropagateToStart();
            checkAll(s.in, d[i.o], PATS[q].name);
            count("operations");
            observed(S().caseDesc);
        }
        // comparisons look at values
        const double a = r.range(-2, 2), b = r.range(-2, 2);
        Number_ A(a), B(b);
        check((A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A >= B) == (a >= b) && (A == B) == (a == b) && (A != B) == (a != b) &&
                  (A < b) == (a < b) && (A > b) == (a > b) && (A <= b) == (a <= b) && (A >= b) == (a >= b) && (A == b) == (a == b) && (A != b) == (a != b) &&
                  (a < B) == (a < b) && (a > B) == (a > b) && (a <= B) == (a <= b) && (a >= B) == (a >= b) && (a == B) == (a == b) && (a != B) == (a != b) &&
                  (A + 1.0 < B + 1.0) == (a < b) && static_cast<double>(A) == a,
              "comparison", cat(a, " ", b));
    });

    // at a point where a derivative is zero or tiny nothing is lost
    section("small", N(300, 3000), [&](Rng& r) {
        Number_::Tape()->Rewind();
        const double e = std::pow(10.0, -r.range(0, 40)), x = r.uniform(0.5, 2), big = std::pow(10.0, r.range(0, 40));
        desc(cat("scale ", e, " and back ", big, " at ", x));
        Number_ a(x);
        a.PutOnTape();
        Number_ b = a * e, c = b * b, d = b * big + c;
        d.PropagateToStart();
        const double expect = e * big + 2 * x * e * e;
        checkf(near(a.Adjoint(), expect, 0, 1e-12), "derivative-wrong", [&] { return cat("got ", a.Adjoint(), " expected ", expect); });
        Number_ z(0.0);
        z.PutOnTape();
        Number_ p = pow(z, 2.0) + 3.0 * z + pow(z, 1.0);
        p.PropagateToStart();
        check(z.Adjoint() == 4.0, "derivative-wrong", cat("z^2+3z+z at 0: ", z.Adjoint()));
        observed(S().caseDesc);
    });

    section("histories", N(1500, 15000), [&](Rng& r) {
        tape.Clear();
        const int episodes = r.range(1, 5);
        for (int e = 0; e < episodes; ++e) {
            if (e)
                clean(r);
            desc(cat("episode ", e));
            const int k = r.range(0, 9);
            if (k < 8 && r.coin(0.3))
                place(r);
            if (k < 4)
                episodePlain(r, r.range(1, 60));
            else if (k < 8)
                episodeMark(r, r.range(1, 30), r.range(1, 8));
            else
                episodeMulti(r, r.range(1, 40));
            count("episodes");
        }
        sample(S().caseDesc);
    });

    // calculations longer than the blocks of the tape
    section("long", N(16, 160), [&](Rng& r) {
        tape.Clear();
        const int n = r.pick({17000, 30000, 40000});
        if (r.coin())
            episodePlain(r, n);
        else
            episodeMark(r, n / 2, 3);
        tape.Rewind();
        episodeMark(r, 20, 5);
        count("long-calculations");
    });

    // every thread has its own tape
    section("threads", N(40, 400), [&](Rng& r) {
        const int n = r.range(2, 6);
        struct Job {
            Prog p;
            vector<double> x;
            vector<Dual> d;
            int q, regs;
            bool ok = true;
            string err;
        };
        vector<Job> jobs(n);
        for (auto& j : jobs) {
            const int ni = r.range(1, 5);
            j.regs = ni + 3;
            j.x = point(r, ni);
            for (int i = 0; i < j.regs; ++i)
                j.d.push_back(i < ni ? Dual::param(j.x[i], i) : Dual(0.5));
            j.p.regs = j.regs;
            extend(r, j.p, j.d, r.range(20, 400), ni, ni);
            j.q = r.below(j.regs);
        }
        desc(cat(n, " threads ", show(jobs[0].p)));
        std::atomic<int> ready{0};
        vector<std::thread> th;
        for (auto& j : jobs)
            th.emplace_back([&] {
                Tape_ mine;
                Number_::SetTape(mine);
                ++ready;
                while (ready < n)
                    std::this_thread::yield();
                for (int rep = 0; rep < 20; ++rep) {
                    if (rep % 7 == 3)
                        mine.Clear();
                    else
                        mine.Rewind();
                    vector<Number_> in, v;
                    for (double x : j.x)
                        in.push_back(Number_(x));
                    v = in;
                    while ((int)v.size() < j.regs)
                        v.push_back(Number_(0.5));
                    exec(j.p, v);
                    v[j.q].PropagateToStart();
                    for (size_t k = 0; k < in.size(); ++k)
                        if (!near(in[k].Adjoint(), j.d[j.q].d[k], 1e-11 * (1 + j.d[j.q].ad[k]), 1e-10)) {
                            j.ok = false;
                            j.err = cat("input ", k, " got ", in[k].Adjoint(), " expected ", j.d[j.q].d[k]);
                        }
                }
            });
        for (auto& t : th)
            t.join();
        for (auto& j : jobs)
            check(j.ok, "derivative-wrong-on-thread", j.err);
        count("thread-runs", n * 20);
        observed(S().caseDesc);
    });
})
