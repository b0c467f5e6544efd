// P21: interpolators, piecewise functions, discount curves and smoothing against their definitions.
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <dal/currency/currency.hpp>
#include <dal/curve/discount.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/ycimp.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <dal/math/smooth.hpp>
#include <public/src/interp.hpp>
#include <dal/storage/archive.hpp>
#include <dal/time/date.hpp>
#include <map>
#include <memory>
using namespace vh;
using namespace Dal;
typedef long double L;

static Vector_<> vec(const vector<double>& v) { return Vector_<>(v.begin(), v.end()); }
static vector<double> grid(Rng& r, int n, bool ties) {
    // spacings from tiny to large
    vector<double> x(n);
    double at = r.uniform(-10, 10);
    const int kind = r.range(0, 2);
    for (auto& v : x) {
        v = at;
        at += ties && r.coin(0.2) ? 0 : kind == 0 ? r.range(1, 4) : kind == 1 ? r.uniform(0.01, 2) : r.logUniform(1e-4, 100);
    }
    return x;
}
static double query(Rng& r, const vector<double>& x) {
    const int n = x.size(), k = r.range(0, 9);
    if (k <= 2)
        return x[r.below(n)];
    if (k == 3)
        return x[0] - r.logUniform(1e-6, 1e4);
    if (k == 4)
        return x[n - 1] + r.logUniform(1e-6, 1e4);
    if (k == 5)
        return std::nextafter(x[r.below(n)], r.coin() ? 1e300 : -1e300);
    const int i = r.below(std::max(1, n - 1));
    return n == 1 ? x[0] : x[i] + (x[i + 1] - x[i]) * r.unit();
}
// value(s) allowed at q: at a tie any value between the node values of that abscissa
static std::pair<L, L> linear(const vector<double>& x, const vector<double>& y, double q) {
    const int n = x.size();
    if (q < x[0])
        return {y[0], y[0]};
    if (q > x[n - 1])
        return {y[n - 1], y[n - 1]};
    L lo = INFINITY, hi = -INFINITY;
    for (int i = 0; i < n; ++i)
        if (x[i] == q)
            lo = std::min<L>(lo, y[i]), hi = std::max<L>(hi, y[i]);
    if (lo <= hi)
        return {lo, hi};
    for (int i = 0; i + 1 < n; ++i)
        if (x[i] < q && q < x[i + 1]) {
            const L v = y[i] + (L(y[i + 1]) - y[i]) * ((L(q) - x[i]) / (L(x[i + 1]) - x[i]));
            // a point next to a node may be taken for the node
            L a = v, b = v;
            for (int k : {i, i + 1})
                if (std::fabs(q - x[k]) < 1e-12) {
                    for (int l = 0; l < n; ++l)
                        if (x[l] == x[k])
                            a = std::min<L>(a, y[l]), b = std::max<L>(b, y[l]);
                }
            return {a, b};
        }
    return {NAN, NAN};
}
static bool within(double got, std::pair<L, L> e, L scale) {
    const L tol = 1e-12 * (scale + std::fabs(e.first) + std::fabs(e.second)) + 1e-13;
    return got >= e.first - tol && got <= e.second + tol;
}
static L biggest(const vector<double>& v) {
    L m = 0;
    for (double e : v)
        m = std::max<L>(m, std::fabs(e));
    return m;
}

static void interp1(Rng& r) {
    const int n = r.coin(0.2) ? r.range(1, 2) : r.size(3, 12, 400);
    const bool ties = r.coin(0.3);
    vector<double> x = grid(r, n, ties), y(n);
    for (auto& e : y)
        e = r.coin(0.3) ? r.range(-3, 3) : r.normal() * r.logUniform(1e-2, 1e3);
    desc(cat("linear, ", n, " points", ties ? ", ties" : ""));
    std::unique_ptr<Interp1_> f;
    std::map<double, double> m;
    for (int i = 0; i < n; ++i)
        m[x[i]] = y[i];
    const bool byMap = (int)m.size() == n && r.coin(0.3);
    if (byMap)
        f.reset(new Interp1Linear_("f", m));
    else
        f.reset(r.coin() ? Interp::NewLinear("f", vec(x), vec(y)) : new Interp1Linear_("f", vec(x), vec(y)));
    if (!byMap && r.coin(0.3)) {
        const Handle_<Interp1_> h = Interp1NewLinear("g", vec(x), vec(y)); // the public function builds the same
        for (int k = 0; k < 5; ++k) {
            const double q = query(r, x);
            check((*h)(q) == (*f)(q), "public-linear", cat("at ", q));
        }
        check(string(h->name_.c_str()) == "g", "public-linear-name", "");
        count("public-linear");
    }
    check(f->IsInBounds(0) && f->IsInBounds(1e9), "linear-bounds", "");
    for (int i = 0; i < n; ++i) {
        bool unique = true;
        for (int j = 0; j < n; ++j)
            unique &= i == j || x[i] != x[j];
        if (unique)
            checkf((*f)(x[i]) == y[i], "linear-node", [&] { return cat("at node ", x[i], " got ", (*f)(x[i]), " expected ", y[i]); });
    }
    const L big = biggest(y);
    for (int k = 0; k < 25; ++k) {
        const double q = query(r, x), got = (*f)(q);
        const auto e = linear(x, y, q);
        checkf(within(got, e, 1e-3 * big), "linear-value", [&] { return cat("at ", q, " got ", got, " expected ", (double)e.first); });
        count("linear-queries");
    }
    // unusable
    if (n > 1) {
        vector<double> bad = x;
        const int i = r.below(n - 1);
        std::swap(bad[i], bad[i + 1]);
        if (bad != x)
            check(throws([&] { Interp1Linear_ g("", vec(bad), vec(y)); }), "linear-accepted", "unordered points");
        bad = x;
        bad[r.below(n)] = NAN;
        check(throws([&] { Interp1Linear_ g("", vec(bad), vec(y)); }), "linear-accepted", "a point that is not a number");
    }
    vector<double> other = y;
    r.coin() ? other.push_back(0) : other.pop_back();
    check(throws([&] { Interp1Linear_ g("", vec(x), vec(other)); }), "linear-accepted", "values of another number");
    check(throws([&] { Interp1Linear_ g("", Vector_<>(), Vector_<>()); }), "linear-accepted", "no point");
    observed(cat("l", n, " ", x[0], " ", y[0]), n > 1);
}
static void interp2(Rng& r) {
    const int n = r.size(1, 6, 50), m = r.size(1, 6, 50);
    vector<double> x = grid(r, n, false), y = grid(r, m, false), all;
    Matrix_<> f(n, m);
    vector<vector<double>> v(n, vector<double>(m));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < m; ++j)
            all.push_back(f(i, j) = v[i][j] = r.normal() * 10);
    desc(cat("two-dimensional, ", n, "x", m));
    std::unique_ptr<Interp2_> g(r.coin() ? Interp::NewLinear2("g", vec(x), vec(y), f) : new Interp2Linear_("g", vec(x), vec(y), f));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < m; ++j)
            checkf(near((*g)(x[i], y[j]), v[i][j], 1e-13, 1e-13), "surface-node", [&] { return cat("at node ", i, ",", j); });
    for (int k = 0; k < 25; ++k) {
        const double p = query(r, x), q = query(r, y), got = (*g)(p, q);
        vector<double> col(n);
        bool exact = true;
        L lo = 0;
        for (int i = 0; i < n; ++i) {
            const auto e = linear(y, v[i], q);
            col[i] = (double)e.first;
            exact &= e.first == e.second;
        }
        const auto e = linear(x, col, p);
        (void)lo;
        if (exact)
            checkf(within(got, e, 1e-3 * biggest(all)), "surface-value", [&] { return cat("at ", p, ",", q, " got ", got, " expected ", (double)e.first); });
        count("surface-queries");
    }
    if (n != m)
        check(throws([&] { Interp2Linear_ h("", vec(y), vec(x), f); }), "surface-accepted", "sizes the other way round");
    if (n > 1) {
        vector<double> bad = x;
        std::swap(bad[0], bad[n - 1]);
        check(throws([&] { Interp2Linear_ h("", vec(bad), vec(y), f); }), "surface-accepted", "unordered points");
    }
    if (m > 1) {
        vector<double> bad = y;
        std::swap(bad[0], bad[m - 1]);
        check(throws([&] { Interp2Linear_ h("", vec(x), vec(bad), f); }), "surface-accepted", "unordered points");
    }
    check(throws([&] { Interp2Linear_ h("", Vector_<>(), Vector_<>(), Matrix_<>()); }), "surface-accepted", "no point");
    check(throws([&] { Interp2Linear_ h("", vec(x), Vector_<>(), Matrix_<>(n, 0)); }), "surface-accepted", "no point in one direction");
    observed(cat("s", n, m, x[0], y[0]), n * m > 1);
}

// natural/clamped/third-derivative spline: second derivatives by dense elimination
static vector<L> solve(vector<vector<L>> a, vector<L> b) {
    const int n = b.size();
    for (int c = 0; c < n; ++c) {
        int p = c;
        for (int i = c; i < n; ++i)
            if (std::fabs(a[i][c]) > std::fabs(a[p][c]))
                p = i;
        std::swap(a[p], a[c]), std::swap(b[p], b[c]);
        for (int i = c + 1; i < n; ++i) {
            const L f = a[i][c] / a[c][c];
            if (f == 0)
                continue;
            for (int j = c; j < n; ++j)
                a[i][j] -= f * a[c][j];
            b[i] -= f * b[c];
        }
    }
    for (int i = n - 1; i >= 0; --i) {
        for (int j = i + 1; j < n; ++j)
            b[i] -= a[i][j] * b[j];
        b[i] /= a[i][i];
    }
    return b;
}
static void cubic(Rng& r) {
    const int n = r.coin(0.3) ? 3 : r.size(4, 14, 90, 0.02);
    vector<double> x(n), f(n);
    double at = r.uniform(-5, 5);
    for (auto& e : x)
        e = at, at += r.uniform(0.2, 2);
    const int kind = r.range(0, 3);
    double c[4] = {r.normal(), r.normal(), r.normal(), r.normal()};
    for (int i = 0; i < n; ++i)
        f[i] = kind == 0 ? c[0] + x[i] * (c[1] + x[i] * (c[2] + x[i] * c[3])) : kind == 1 ? std::sin(x[i]) : r.normal();
    const int lo = r.range(1, 3), ro = r.range(1, 3);
    double lv = r.coin(0.3) ? 0 : r.normal(), rv = r.coin(0.3) ? 0 : r.normal();
    auto der = [&](int o, double t) { return o == 1 ? c[1] + t * (2 * c[2] + t * 3 * c[3]) : o == 2 ? 2 * c[2] + 6 * c[3] * t : 6 * c[3]; };
    if (kind == 0)
        lv = der(lo, x[0]), rv = der(ro, x[n - 1]);
    desc(cat("spline, ", n, " points, end conditions ", lo, "=", lv, " ", ro, "=", rv));
    std::unique_ptr<Interp1_> s(Interp::NewCubic("s", vec(x), vec(f), Interp::Boundary_(lo, lv), Interp::Boundary_(ro, rv)));
    // reference second derivatives
    vector<vector<L>> A(n, vector<L>(n, 0));
    vector<L> b(n);
    for (int i = 1; i + 1 < n; ++i) {
        const L h0 = L(x[i]) - x[i - 1], h1 = L(x[i + 1]) - x[i];
        A[i][i - 1] = h0 / 6, A[i][i] = (h0 + h1) / 3, A[i][i + 1] = h1 / 6;
        b[i] = (L(f[i + 1]) - f[i]) / h1 - (L(f[i]) - f[i - 1]) / h0;
    }
    const L h = L(x[1]) - x[0], k = L(x[n - 1]) - x[n - 2];
    if (lo == 1)
        A[0][0] = h / 3, A[0][1] = h / 6, b[0] = (L(f[1]) - f[0]) / h - lv;
    else if (lo == 2)
        A[0][0] = 1, b[0] = lv;
    else
        A[0][0] = -1, A[0][1] = 1, b[0] = h * lv;
    if (ro == 1)
        A[n - 1][n - 1] = k / 3, A[n - 1][n - 2] = k / 6, b[n - 1] = rv - (L(f[n - 1]) - f[n - 2]) / k;
    else if (ro == 2)
        A[n - 1][n - 1] = 1, b[n - 1] = rv;
    else
        A[n - 1][n - 1] = 1, A[n - 1][n - 2] = -1, b[n - 1] = k * rv;
    const auto m = solve(A, b);
    L scale = biggest(f) + 1;
    for (L e : m)
        scale = std::max(scale, std::fabs(e));
    check(s->IsInBounds(x[0]) && s->IsInBounds(x[n - 1]) && s->IsInBounds(0.5 * (x[0] + x[n - 1])), "spline-bounds", "a point inside is out of bounds");
    check(!s->IsInBounds(x[0] - 1e-3) && !s->IsInBounds(x[n - 1] + 1e-3), "spline-bounds", "a point outside is in bounds");
    for (int i = 0; i < n; ++i)
        check((*s)(x[i]) == f[i], "spline-node", "a node is not reproduced");
    for (int q = 0; q < 30; ++q) {
        const int i = r.below(n - 1);
        const double t = x[i] + (x[i + 1] - x[i]) * r.unit();
        const L d = L(x[i + 1]) - x[i], u = (L(t) - x[i]) / d, w = 1 - u;
        const L e = w * f[i] + u * f[i + 1] + ((w * w * w - w) * m[i] + (u * u * u - u) * m[i + 1]) * d * d / 6;
        const double got = (*s)(t);
        checkf(std::fabs(got - e) <= 1e-9 * scale, "spline-value", [&] { return cat("at ", t, " got ", got, " expected ", (double)e); });
        if (kind == 0) {
            const double p = c[0] + t * (c[1] + t * (c[2] + t * c[3]));
            checkf(near(got, p, 1e-8 * (double)scale, 1e-9), "spline-cubic", [&] { return cat("a cubic is not reproduced at ", t); });
        }
        count("spline-queries");
    }
    (void)(*s)(x[0] - r.uniform(0, 10));
    (void)(*s)(x[n - 1] + r.uniform(0, 10));
    const Interp::Boundary_ B(2, 0);
    auto refuse = [&](const vector<double>& X, const vector<double>& F, const Interp::Boundary_& l, const Interp::Boundary_& rr, const char* what) {
        check(throws([&] { std::unique_ptr<Interp1_> g(Interp::NewCubic("", vec(X), vec(F), l, rr)); }), "spline-accepted", what);
    };
    vector<double> X = x, F = f;
    std::swap(X[0], X[n - 1]);
    refuse(X, f, B, B, "unordered points");
    X = x;
    X[1] = X[0];
    refuse(X, f, B, B, "two points in one place");
    F.pop_back();
    refuse(x, F, B, B, "fewer values than points");
    refuse({1, 2}, {1, 2}, B, B, "two points");
    refuse({}, {}, B, B, "no points");
    refuse(x, f, Interp::Boundary_(r.pick({0, 4, -1}), 0), B, "an unknown end condition");
    refuse(x, f, B, Interp::Boundary_(r.pick({0, 4, -1}), 0), "an unknown end condition");
    observed(cat("c", n, lo, ro, x[0], f[0]));
}

struct Knots {
    vector<int> d;
    Vector_<Date_> dates;
};
static Knots knots(Rng& r, bool ties) {
    Knots k;
    int at = r.range(30000, 45000);
    int n = r.coin(0.2) ? 1 : r.size(2, 9, 250);
    for (const int gap = n > 9 ? 60 : 900; n > 0; --n) {
        k.d.push_back(at);
        at += ties && r.coin(0.2) ? 0 : r.coin(0.3) ? r.range(1, 3) : r.range(5, gap);
    }
    for (int e : k.d)
        k.dates.push_back(Date::FromExcel(e));
    return k;
}
static int day(Rng& r, const Knots& k) {
    const int c = r.range(0, 4);
    if (c == 0)
        return k.d[r.below(k.d.size())];
    if (c == 1)
        return k.d[r.below(k.d.size())] + r.range(-1, 1);
    return r.range(k.d.front() - 400, k.d.back() + 400);
}
static void constant(Rng& r) {
    const Knots k = knots(r, r.coin(0.2));
    const int n = k.d.size();
    vector<double> f(n);
    for (auto& e : f)
        e = r.normal();
    desc(cat("piecewise constant, ", n, " knots"));
    PiecewiseConstant_ p(k.dates, vec(f), "p");
    auto value = [&](int t) { // on day t
        double v = 0;
        for (int i = 0; i < n && k.d[i] <= t; ++i)
            v = f[i];
        return v;
    };
    auto integral = [&](int t) { // from the first knot: one day at a time
        L s = 0;
        for (int u = k.d[0]; u < t; ++u)
            s += value(u);
        return s;
    };
    auto tie = [&](int t) { return std::count(k.d.begin(), k.d.end(), t) > 1; };
    double last = NAN;
    int lastDay = 0;
    for (int q = 0; q < 8; ++q) {
        const int t = day(r, k);
        const Date_ at = Date::FromExcel(t);
        bool isKnot = r.coin();
        if (!tie(t)) {
            const double got = PWC::F(p, at, &isKnot);
            checkf(got == value(t) && got == PWC::F(p, at), "pwc-value", [&] { return cat("on day ", t - k.d[0], " got ", got, " expected ", value(t)); });
            check(isKnot == (std::count(k.d.begin(), k.d.end(), t) > 0), "pwc-knot", "");
        }
        const double i = p.IntegralTo(at);
        checkf(near(i, (double)integral(t), 1e-8, 1e-11), "pwc-integral", [&] { return cat("to day ", t - k.d[0], " got ", i, " expected ", (double)integral(t)); });
        if (q) {
            const Date_ from = Date::FromExcel(lastDay);
            check(near(PWC::Integral(p, from, at), i - last, 1e-12, 1e-12), "pwc-between", "");
        }
        last = i, lastDay = t;
        count("piecewise-queries");
    }
    // changed in place, then updated
    p.fRight_[r.below(n)] += 1;
    for (int i = 0; i < n; ++i)
        f[i] = p.fRight_[i];
    p.Update();
    const int t = day(r, k);
    check(near(p.IntegralTo(Date::FromExcel(t)), (double)integral(t), 1e-8, 1e-11), "pwc-update", "integral after an update");
    std::unique_ptr<PiecewiseConstant_> c(PWC::NewConstant(2.5, k.dates[0]));
    check(PWC::F(*c, k.dates[0]) == 2.5 && near(c->IntegralTo(k.dates[0].AddDays(100)), 250, 1e-12, 0), "pwc-constant", "");
    auto refuse = [&](Vector_<Date_> d, Vector_<> v, const char* what) { check(throws([&] { PiecewiseConstant_ x(d, v); }), "pwc-accepted", what); };
    refuse({}, {}, "no knots");
    Vector_<> v = vec(f);
    v.push_back(0);
    refuse(k.dates, v, "more values than knots");
    v.pop_back(), v.pop_back();
    refuse(k.dates, v, "fewer values than knots");
    if (k.d.front() != k.d.back()) {
        auto d = k.dates;
        std::reverse(d.begin(), d.end());
        refuse(d, vec(f), "unordered knots");
    }
    observed(cat("pc", n, k.d[0], f[0]), n > 1);
}
struct PwlRef {
    Knots k;
    vector<double> l, rr;
    L integral(int t) const { // closed form by interval
        const auto& d = k.d;
        const int n = d.size();
        if (t <= d[0])
            return -L(l[0]) * (d[0] - t);
        L s = 0;
        for (int i = 0; i + 1 < n; ++i) {
            if (t <= d[i])
                return s;
            const int w = d[i + 1] - d[i], e = std::min(t, d[i + 1]) - d[i];
            if (w == 0)
                continue;
            s += e * L(rr[i]) + (L(l[i + 1]) - rr[i]) * e * e / (2.0L * w);
        }
        if (t > d[n - 1])
            s += L(rr[n - 1]) * (t - d[n - 1]);
        return s;
    }
};
static PwlRef pwl(Rng& r) {
    PwlRef p;
    p.k = knots(r, r.coin(0.15));
    for (size_t i = 0; i < p.k.d.size(); ++i) {
        p.l.push_back(r.normal() * 0.05);
        p.rr.push_back(r.coin(0.4) ? p.l.back() : r.normal() * 0.05);
    }
    return p;
}
static void linearFunction(Rng& r) {
    PwlRef p = pwl(r);
    const auto& d = p.k.d;
    const int n = d.size();
    desc(cat("piecewise linear, ", n, " knots"));
    PiecewiseLinear_ f(p.k.dates, vec(p.l), vec(p.rr));
    for (int q = 0; q < 10; ++q) {
        const int t = day(r, p.k);
        const Date_ at = Date::FromExcel(t);
        const double i = f.IntegralTo(at);
        checkf(near(i, (double)p.integral(t), 1e-10, 1e-11), "pwl-integral", [&] { return cat("to day ", t - d[0], " got ", i, " expected ", (double)p.integral(t)); });
        if (std::count(d.begin(), d.end(), t) <= 1) {
            // values: at a knot the left or right one, flat outside, the chord inside
            double left, right;
            int k = -1;
            for (int j = 0; j < n; ++j)
                if (d[j] == t)
                    k = j;
            if (k >= 0)
                left = p.l[k], right = p.rr[k];
            else if (t < d[0])
                left = right = p.l[0];
            else if (t > d[n - 1])
                left = right = p.rr[n - 1];
            else {
                int j = 0;
                while (d[j + 1] < t)
                    ++j;
                left = right = p.rr[j] + (p.l[j + 1] - p.rr[j]) * (t - d[j]) / double(d[j + 1] - d[j]);
            }
            const double gl = f.ValueAt(at, false), gr = f.ValueAt(at), g2 = f.ValueAt(at, true);
            checkf(near(gl, left, 1e-14, 1e-12) && near(gr, right, 1e-14, 1e-12) && gr == g2, "pwl-value",
                   [&] { return cat("on day ", t - d[0], " got ", gl, " ", gr, " expected ", left, " ", right); });
        }
        count("piecewise-queries");
    }
    p.l[r.below(n)] += 0.01;
    f.fLeft_ = vec(p.l);
    f.Update();
    const int t = day(r, p.k);
    check(near(f.IntegralTo(Date::FromExcel(t)), (double)p.integral(t), 1e-10, 1e-11), "pwl-update", "integral after an update");
    auto refuse = [&](Vector_<Date_> k, Vector_<> a, Vector_<> b, const char* what) { check(throws([&] { PiecewiseLinear_ x(k, a, b); }), "pwl-accepted", what); };
    refuse({}, {}, {}, "no knots");
    Vector_<> v = vec(p.l);
    v.push_back(0);
    refuse(p.k.dates, v, vec(p.rr), "more left values than knots");
    v.pop_back(), v.pop_back();
    refuse(p.k.dates, vec(p.l), v, "fewer right values than knots");
    if (d.front() != d.back()) {
        auto k = p.k.dates;
        std::reverse(k.begin(), k.end());
        refuse(k, vec(p.l), vec(p.rr), "unordered knots");
    }
    observed(cat("pl", n, d[0], p.l[0]), n > 1);
}
static void discount(Rng& r) {
    // a stack of curves, each on top of the previous one
    const int n = r.size(1, 4, 12);
    vector<PwlRef> p;
    vector<Handle_<DiscountCurve_>> c;
    for (int i = 0; i < n; ++i) {
        p.push_back(pwl(r));
        const PiecewiseLinear_ f(p[i].k.dates, vec(p[i].l), vec(p[i].rr));
        c.emplace_back(i ? NewDiscountPWLF(String_(cat("curve", i).c_str()), f, c.back()) : NewDiscountPWLF("curve0", f));
    }
    desc(cat(n, " stacked curves"));
    auto ref = [&](int upto, int from, int to) {
        L s = 0;
        for (int i = 0; i <= upto; ++i)
            s += p[i].integral(to) - p[i].integral(from);
        return std::exp(-s / 365.0L);
    };
    for (int q = 0; q < 12; ++q) {
        const int i = r.below(n), a = day(r, p[i].k), b = day(r, p[i].k), m = day(r, p[i].k);
        const Date_ A = Date::FromExcel(a), B = Date::FromExcel(b), M = Date::FromExcel(m);
        const auto& f = *c[i];
        const double v = f(A, B);
        checkf(near(v, (double)ref(i, a, b), 1e-300, 1e-10), "discount-value", [&] { return cat("curve ", i, " got ", v, " expected ", (double)ref(i, a, b)); });
        check(f(A, A) == 1.0, "discount-same-day", "from a date to itself");
        check(near(v * f(B, A), 1.0, 1e-11, 0) && near(f(A, M) * f(M, B), v, 1e-300, 1e-11), "discount-chain", "chaining does not multiply");
        count("discounts");
    }
    // components and copies with another base
    const auto& top = *c.back();
    Vector_<const YCComponent_*> all;
    top.Poll(&all);
    bool ok = (int)all.size() == n;
    for (int i = 0; ok && i < n; ++i)
        ok &= all[i] == c[n - 1 - i].get();
    check(ok, "curve-components", "not every component is listed");
    std::map<const YCComponent_*, Handle_<YCComponent_>> held;
    top.Poll(&held);
    ok = (int)held.size() == n - 1;
    for (int i = 0; ok && i + 1 < n; ++i)
        ok &= held.count(c[i].get()) && held[c[i].get()].get() == c[i].get();
    check(ok, "curve-components", "held components");
    PwlRef o = pwl(r);
    const Handle_<DiscountCurve_> other(NewDiscountPWLF("other", PiecewiseLinear_(o.k.dates, vec(o.l), vec(o.rr))));
    YCComponent_::substitutions_t subst;
    const int which = r.below(n); // the direct base is replaced, deeper ones are not
    subst[c[which].get()] = handle_cast<YCComponent_>(other);
    std::unique_ptr<YCComponent_> copy(top.Clone("copy", subst));
    auto* dc = dynamic_cast<DiscountCurve_*>(copy.get());
    check(dc && copy->name_ == "copy", "curve-clone", "name or kind");
    if (dc)
        for (int q = 0; q < 5; ++q) {
            const int a = day(r, p[n - 1].k), b = day(r, p[n - 1].k);
            L s = p[n - 1].integral(b) - p[n - 1].integral(a);
            if (which == n - 2)
                s += o.integral(b) - o.integral(a);
            else
                for (int i = 0; i + 1 < n; ++i)
                    s += p[i].integral(b) - p[i].integral(a);
            check(near((*dc)(Date::FromExcel(a), Date::FromExcel(b)), (double)std::exp(-s / 365.0L), 1e-300, 1e-10), "curve-clone", "value of a copy on another base");
            check(near(top(Date::FromExcel(a), Date::FromExcel(b)), (double)ref(n - 1, a, b), 1e-300, 1e-10), "curve-clone", "the original changed");
            count("clones");
        }
    observed(cat("d", n, p[0].k.d[0], p[0].l[0]));
}
static void smooth(Rng& r) {
    const int n = r.coin(0.2) ? 2 : r.size(3, 15, 500);
    vector<double> x(n), y(n), w;
    double at = r.uniform(-5, 5);
    for (auto& e : x)
        e = at, at += r.uniform(0.05, 2);
    for (auto& e : y)
        e = r.normal();
    if (r.coin(0.6))
        for (int i = 0; i < n; ++i)
            w.push_back(r.coin(0.15) && i ? 0.0 : r.uniform(0.1, 5));
    const double lambda = r.coin(0.15) ? 0 : r.logUniform(1e-3, 1e3);
    if (lambda == 0)
        for (auto& e : w)
            e = std::max(e, 0.1);
    desc(cat("smoothing ", n, " points, lambda ", lambda, w.empty() ? "" : ", weighted"));
    const auto z = SmoothedVals(vec(x), vec(y), vec(w), lambda);
    check((int)z.size() == n, "smooth-size", "");
    // stationary point of sum w (z-y)^2 + lambda sum (dz)^2/dx
    L worst = 0;
    for (int i = 0; i < n; ++i) {
        L g = (w.empty() ? 1.0L : w[i]) * (L(z[i]) - y[i]), size = (w.empty() ? 1.0L : w[i]) * (std::fabs(z[i]) + std::fabs(y[i]));
        for (int j : {i - 1, i + 1})
            if (j >= 0 && j < n) {
                const L k = lambda / std::fabs(L(x[j]) - x[i]);
                g += k * (L(z[i]) - z[j]);
                size += k * (std::fabs(z[i]) + std::fabs(z[j]));
            }
        worst = std::max(worst, std::fabs(g) / (size + 1e-6L));
    }
    checkf(worst < 1e-9, "smooth-optimum", [&] { return cat("not the minimum of the penalized distance: relative gradient ", (double)worst); });
    if (lambda == 0)
        for (int i = 0; i < n; ++i)
            check(near(z[i], y[i], 1e-13, 1e-13), "smooth-none", "without penalty the values change");
    count("smoothings");
    auto refuse = [&](vector<double> X, vector<double> Y, vector<double> W, const char* what) { check(throws([&] { SmoothedVals(vec(X), vec(Y), vec(W), lambda); }), "smooth-accepted", what); };
    auto X = x, Y = y;
    std::swap(X[0], X[n - 1]);
    refuse(X, y, w, "unordered points");
    Y.pop_back();
    refuse(x, Y, w, "fewer values than points");
    refuse(x, y, vector<double>(n + 1, 1.0), "more weights than points");
    refuse(x, y, vector<double>(n - 1, 1.0), "fewer weights than points");
    refuse({}, {}, {}, "no points");
    observed(cat("m", n, lambda, x[0]), lambda > 0);
}

VH_MAIN([] {
    section("linear", N(2500, 50000), [&](Rng& r) { interp1(r); });
    section("surface", N(1200, 25000), [&](Rng& r) { interp2(r); });
    section("spline", N(1500, 30000), [&](Rng& r) { cubic(r); });
    section("constant", N(500, 6000), [&](Rng& r) { constant(r); });
    section("piecewise", N(1500, 30000), [&](Rng& r) { linearFunction(r); });
    section("discount", N(800, 16000), [&](Rng& r) { discount(r); });
    section("smooth", N(1500, 30000), [&](Rng& r) { smooth(r); });
})
