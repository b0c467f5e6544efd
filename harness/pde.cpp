// P24: meshers, difference operators, roll-back and coordinate maps against long-double references.
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/pde/fd1d.hpp>
#include <dal/math/pde/finitedifference.hpp>
#include <dal/math/pde/meshers/concentrating1dmesher.hpp>
#include <dal/math/pde/meshers/uniform1dmesher.hpp>
#include <dal/math/pde/pde.hpp>
#include <memory>
using namespace vh;
using namespace Dal;
typedef long double L;

struct Grid {
    std::unique_ptr<FDM1DMesher_> m;
    vector<L> x;
};
// any increasing points
struct Points : FDM1DMesher_ {
    explicit Points(const vector<double>& x) : FDM1DMesher_(x.size()) {
        const int n = x.size();
        for (int i = 0; i < n; ++i)
            locations_[i] = x[i];
        for (int i = 0; i + 1 < n; ++i)
            dplus_[i] = dminus_[i + 1] = x[i + 1] - x[i];
    }
};

static Grid grid(Rng& r, int n, string* what) {
    Grid g;
    const double a = r.uniform(-5, 5), b = a + r.logUniform(1e-2, 50);
    const int k = r.below(3);
    if (k == 0) {
        *what = cat("uniform ", a, " ", b, " ", n);
        g.m.reset(new Uniform1DMesher_(a, b, n));
    } else if (k == 1) {
        const int where = r.below(6);
        const double c = where == 0 ? a : where == 1 ? b : where == 2 ? a + (b - a) * 1e-9 : r.uniform(a, b), d = r.logUniform(1e-3, 10);
        const bool need = n > 2 && r.coin();
        *what = cat("concentrating ", a, " ", b, " ", n, " at ", c, " density ", d, need ? " required" : "");
        g.m.reset(new Concentrating1dMesher_(a, b, n, {c, d}, need));
        if (need) {
            double best = INF;
            for (int i = 0; i < n; ++i)
                best = std::min(best, std::fabs(g.m->Location(i) - c));
            checkf(best <= 1e-12 * (std::fabs(a) + std::fabs(b) + 1), "required-point-missed", [&] { return cat("nearest point is ", best, " away"); });
            count("required-points");
        }
        if (n > 4 && where > 2) { // points lie closer at the concentration point
            int near = 1;
            for (int i = 1; i + 1 < n; ++i)
                if (std::fabs(g.m->Location(i) - c) < std::fabs(g.m->Location(near) - c))
                    near = i;
            double w = 0;
            for (int i = 1; i < n; ++i)
                w = std::max(w, g.m->Location(i) - g.m->Location(i - 1));
            const double here = g.m->Location(near + 1) - g.m->Location(near - 1);
            checkf(need || here <= 2 * w * (1 + 1e-9), "not-concentrated", [&] { return cat("gap ", here / 2, " largest ", w); });
        }
    } else {
        vector<double> x(1, a);
        while ((int)x.size() < n)
            x.push_back(x.back() + (b - a) / n * r.logUniform(0.1, 10));
        *what = cat("free from ", a, " to ", x.back(), " ", n);
        g.m.reset(new Points(x));
    }
    for (double v : g.m->Locations())
        g.x.push_back(v);
    check(g.m->Size() == n && (int)g.x.size() == n, "grid-size", "");
    for (int i = 0; i < n; ++i) {
        checkf(i == 0 || g.x[i] > g.x[i - 1], "grid-not-increasing", [&] { return cat("at ", i, " of ", *what); });
        check(g.m->Location(i) == g.m->Locations()[i], "grid-location", "");
        if (i + 1 < n)
            checkf(std::fabs(g.m->DPlus(i) - (double)(g.x[i + 1] - g.x[i])) <= 1e-14 * (std::fabs(a) + std::fabs(b) + 1) && g.m->DPlus(i) == g.m->DMinus(i + 1),
                   "grid-spacing", [&] { return cat("at ", i, " ", g.m->DPlus(i)); });
    }
    if (k < 2) {
        check(g.m->Location(0) == a && g.m->Location(n - 1) == b, "grid-ends", "");
        if (k == 0)
            for (int i = 0; i < n; ++i)
                checkNear(g.m->Location(i), (double)(a + ((L)b - a) * i / (n - 1)), 1e-13 * (std::fabs(a) + std::fabs(b)), 0, "uniform-grid");
    }
    return g;
}
static void meshers(Rng& r) {
    const int n = r.coin(0.2) ? 2 : r.coin(0.3) ? r.range(3, 6) : r.range(7, 300);
    string what;
    desc(cat("grid of ", n));
    grid(r, n, &what);
    desc(what);
    count("grids");
    observed(what, n > 2);
}
static void refusals(Rng& r) {
    const double a = r.uniform(-5, 5), b = a + r.logUniform(1e-2, 50);
    const int n = r.range(3, 20);
    desc(cat(a, " ", b, " ", n));
    check(throws([&] { Uniform1DMesher_(b, a, n); }), "reversed-grid-accepted", "uniform");
    check(throws([&] { Uniform1DMesher_(a, a, n); }), "reversed-grid-accepted", "uniform, one point");
    check(throws([&] { Concentrating1dMesher_(b, a, n, {0.5 * (a + b), 0.1}); }), "reversed-grid-accepted", "concentrating");
    check(throws([&] { Concentrating1dMesher_(a, b, n, {b + 0.1, 0.1}); }), "outside-point-accepted", "");
    check(throws([&] { Concentrating1dMesher_(a, b, n, {a - 0.1, 0.1}); }), "outside-point-accepted", "");
    check(throws([&] { Concentrating1dMesher_(a, b, n, {0.5 * (a + b), r.coin() ? 0.0 : -0.1}); }), "density-accepted", "");
    for (int small : {0, 1}) {
        check(throws([&] { Uniform1DMesher_(a, b, small); }), "small-grid-accepted", cat("uniform ", small));
        check(throws([&] { Concentrating1dMesher_(a, b, small, {0.5 * (a + b), 0.1}, r.coin()); }), "small-grid-accepted", cat("concentrating ", small));
    }
    Uniform1DMesher_ two(a, b, 2);
    check(throws([&] { std::unique_ptr<Sparse::TriDiagonal_> d(PDE::Dx(two)); }), "two-point-operator-accepted", "");
    check(throws([&] { std::unique_ptr<Sparse::TriDiagonal_> d(PDE::Dxx(two)); }), "two-point-operator-accepted", "");
    count("refusals", 12);
    observed(S().caseDesc);
    // values or coefficients of another size
    Uniform1DMesher_ m(a, b, n);
    PDE::FD1D_ fd(m);
    if (r.coin(0.3)) {
        Vector_<> v(n, 1.0);
        check(throws([&] { fd.RollBwd(0.1, r.unit(), v); }), "uninitialised-rollback-accepted", "");
        return;
    }
    fd.Init();
    int sizes[4] = {n, n, n, n};
    sizes[r.below(4)] = r.coin(0.3) ? 0 : r.coin() ? n + r.range(1, 3) : n - r.range(1, n);
    fd.R() = Vector_<>(sizes[0], 0.01);
    fd.Mu() = Vector_<>(sizes[1], 0.01);
    fd.Var() = Vector_<>(sizes[2], 0.01);
    Vector_<> v(sizes[3], 1.0);
    desc(cat("sizes ", n, ": ", sizes[0], " ", sizes[1], " ", sizes[2], " ", sizes[3]));
    check(throws([&] { fd.RollBwd(0.1, r.pick({0.0, 0.5, 1.0}), v); }), "other-size-accepted", S().caseDesc);
}

static void operators(Rng& r) {
    const int n = r.coin(0.4) ? r.range(3, 6) : r.range(7, 120);
    string what;
    desc("");
    const Grid g = grid(r, n, &what);
    desc(what);
    std::unique_ptr<Sparse::TriDiagonal_> d1(PDE::Dx(*g.m)), d2(PDE::Dxx(*g.m));
    check(d1->Size() == n && d2->Size() == n, "operator-size", "");
    const double c0 = r.normal(), c1 = r.normal(), c2 = r.normal();
    for (int i = 0; i < n; ++i) {
        // weights themselves
        L s1[3] = {0, 0, 0}, s2[3] = {0, 0, 0}, big1 = 0, big2 = 0;
        for (int j = std::max(0, i - 1); j <= std::min(n - 1, i + 1); ++j) {
            const L h = g.x[j] - g.x[i];
            L p = 1;
            for (int k = 0; k < 3; ++k, p *= h) {
                s1[k] += (L)(*d1)(i, j) * p;
                s2[k] += (L)(*d2)(i, j) * p;
            }
            big1 = std::max(big1, fabsl((*d1)(i, j)));
            big2 = std::max(big2, fabsl((*d2)(i, j)));
        }
        if (i == 0 || i == n - 1) {
            checkf(big1 == 0 && big2 == 0, "boundary-row", [&] { return cat("row ", i); });
            continue;
        }
        const L hp = g.x[i + 1] - g.x[i], hm = g.x[i] - g.x[i - 1], h = std::max(hp, hm);
        // spacings are differences of rounded coordinates
        const L rel = 1e-13L + 4e-16L * (fabsl(g.x[0]) + fabsl(g.x[n - 1]) + 1) / std::min(hp, hm);
        const L e1 = rel * big1 * 8, e2 = rel * big2 * 8;
        checkf(fabsl(s1[0]) <= e1 && fabsl(s1[1] - 1) <= e1 * h + rel && fabsl(s1[2]) <= e1 * h * h, "first-derivative",
               [&] { return cat("row ", i, ": ", (double)s1[0], " ", (double)s1[1], " ", (double)s1[2]); });
        checkf(fabsl(s2[0]) <= e2 && fabsl(s2[1]) <= e2 * h && fabsl(s2[2] - 2) <= e2 * h * h + rel, "second-derivative",
               [&] { return cat("row ", i, ": ", (double)s2[0], " ", (double)s2[1], " ", (double)s2[2]); });
        count("operator-rows");
    }
    // and applied
    Vector_<> v(n), b;
    for (int i = 0; i < n; ++i) {
        const double u = (double)(g.x[i] - g.x[0]);
        v[i] = c0 + c1 * u + c2 * u * u;
    }
    d1->MultiplyLeft(v, &b);
    for (int i = 1; i + 1 < n; ++i) {
        const double u = (double)(g.x[i] - g.x[0]), h = (double)std::min(g.x[i + 1] - g.x[i], g.x[i] - g.x[i - 1]);
        const double noise = 1e-13 * (std::fabs(c0) + std::fabs(c1 * u) + std::fabs(c2 * u * u) + 1) * (1 + std::fabs((double)g.x[0]) + u) / h * 10;
        checkNear(b[i], c1 + 2 * c2 * u, noise + noise / std::max(h, 1e-6) * 1e-3, 1e-9, "derivative-of-parabola");
    }
    observed(what, n > 3);
}

static void rollback(Rng& r) {
    const int n = r.coin(0.4) ? r.range(3, 6) : r.range(7, 150);
    string what;
    desc("");
    const Grid g = grid(r, n, &what);
    PDE::FD1D_ fd(*g.m);
    fd.Init();
    check(&fd.X() == &g.m->Locations(), "grid-of-scheme", "");
    Vector_<> v(n);
    auto coefficients = [&] {
        fd.R() = Vector_<>(n, 0.0);
        fd.Mu() = Vector_<>(n, 0.0);
        fd.Var() = Vector_<>(n, 0.0);
        for (int i = 0; i < n; ++i) {
            const double h = i && i + 1 < n ? std::max(g.m->DPlus(i), g.m->DMinus(i)) : 1.0;
            fd.R()[i] = r.uniform(-0.05, 0.1);
            fd.Var()[i] = r.coin(0.05) ? 0.0 : r.logUniform(1e-4, 1);
            fd.Mu()[i] = r.uniform(-1, 1) * fd.Var()[i] / h; // no dominance of drift, so the matrices stay well conditioned
        }
    };
    coefficients();
    for (auto& x : v)
        x = r.normal();
    const int steps = r.range(1, 4);
    desc(cat(what, " steps ", steps));
    for (int s = 0; s < steps; ++s) {
        if (s && r.coin())
            coefficients();
        const double theta = r.pick({0.0, 0.5, 1.0, r.unit()}), dt = r.logUniform(1e-4, 0.5);
        const Vector_<> old = v, r0 = fd.R(), mu0 = fd.Mu(), var0 = fd.Var();
        fd.RollBwd(dt, theta, v);
        check(r0 == fd.R() && mu0 == fd.Mu() && var0 == fd.Var() && v.size() == old.size(), "coefficients-changed", "");
        check(v[0] == old[0] && v[n - 1] == old[n - 1], "boundary-value-changed", "");
        auto gen = [&](const Vector_<>& w, int i, L* size) {
            const L hp = g.x[i + 1] - g.x[i], hm = g.x[i] - g.x[i - 1];
            const L sp = (w[i + 1] - (L)w[i]) / hp, sm = (w[i] - (L)w[i - 1]) / hm;
            const L dx = (sp * hm + sm * hp) / (hp + hm), dxx = 2 * (sp - sm) / (hp + hm);
            const L W = std::max(fabsl(w[i]), std::max(fabsl(w[i - 1]), fabsl(w[i + 1])));
            *size = W * (fabsl(mu0[i]) * (1 / hp + 1 / hm) * 2 + var0[i] * 2 / (hp + hm) * (1 / hp + 1 / hm) + fabsl(r0[i]));
            return mu0[i] * dx + 0.5L * var0[i] * dxx - r0[i] * (L)w[i];
        };
        for (int i = 1; i + 1 < n; ++i) {
            L s1, s2;
            const L left = v[i] - dt * theta * gen(v, i, &s1), right = old[i] + dt * (1 - theta) * gen(old, i, &s2);
            const L scale = fabsl(v[i]) + fabsl(old[i]) + dt * (s1 * theta + s2 * (1 - theta)) + 1e-6L;
            const L rel = 1e-11L + 1e-15L * (fabsl(g.x[0]) + fabsl(g.x[n - 1]) + 1) / std::min(g.x[i + 1] - g.x[i], g.x[i] - g.x[i - 1]);
            checkf(fabsl(left - right) <= rel * 10 * scale, "discretised-equation",
                   [&] { return cat("point ", i, " theta ", theta, " dt ", dt, ": ", (double)left, " against ", (double)right); });
            count("rollback-points");
        }
        count(theta == 0 ? "explicit-steps" : theta == 1 ? "implicit-steps" : "mixed-steps");
    }
    observed(cat(what, S().caseNo), n > 3);
}

// the whole: an option on a log-normal asset
static void option(Rng& r) {
    const double vol = r.uniform(0.15, 0.5), rate = r.uniform(-0.02, 0.08), T = r.uniform(0.25, 2), S0 = r.uniform(50, 150), K = S0 * r.uniform(0.8, 1.2);
    const bool call = r.coin();
    const int n = 201, steps = 100;
    const double w = 5 * vol * std::sqrt(T), x0 = std::log(S0);
    desc(cat("vol ", vol, " r ", rate, " T ", T, " S ", S0, " K ", K));
    std::unique_ptr<FDM1DMesher_> m;
    if (r.coin())
        m.reset(new Uniform1DMesher_(x0 - w, x0 + w, n));
    else
        m.reset(new Concentrating1dMesher_(x0 - w, x0 + w, n, {x0, 0.2}, true));
    PDE::FD1D_ fd(*m);
    fd.Init();
    fd.R() = Vector_<>(n, rate);
    fd.Mu() = Vector_<>(n, rate - 0.5 * vol * vol);
    fd.Var() = Vector_<>(n, vol * vol);
    Vector_<> v(n);
    int mid = 0;
    for (int i = 0; i < n; ++i) {
        const double s = std::exp(fd.X()[i]);
        v[i] = std::max(0.0, call ? s - K : K - s);
        if (std::fabs(fd.X()[i] - x0) < std::fabs(fd.X()[mid] - x0))
            mid = i;
    }
    const double theta = r.coin() ? 0.5 : 1.0;
    for (int i = 0; i < steps; ++i)
        fd.RollBwd(T / steps, theta, v);
    const double s = std::exp(fd.X()[mid]), sd = vol * std::sqrt(T), d1 = (std::log(s / K) + rate * T) / sd + sd / 2;
    auto N0 = [](double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); };
    const double c = s * N0(d1) - K * std::exp(-rate * T) * N0(d1 - sd), p = c - s + K * std::exp(-rate * T);
    checkf(std::fabs(v[mid] - (call ? c : p)) < 3e-3 * S0 * (theta == 1.0 ? 1.5 : 1), "option-value", [&] { return cat(v[mid], " against ", call ? c : p); });
    count("options");
    observed(S().caseDesc);
}

static void maps(Rng& r) {
    const double width = r.logUniform(1e-2, 100), range = r.coin(0.1) ? 1.0 : r.coin(0.2) ? 1 + r.logUniform(1e-12, 1e-2) : r.logUniform(1.01, 1e3);
    desc(cat("sinh map ", width, " ", range));
    if (r.coin(0.05)) {
        check(throws([&] { std::unique_ptr<PDE::CoordinateMap_> m(PDE::NewSinhMap(-width, range)); }), "map-accepted", "negative width");
        check(throws([&] { std::unique_ptr<PDE::CoordinateMap_> m(PDE::NewSinhMap(width, 0.99)); }), "map-accepted", "range below one");
        return;
    }
    std::unique_ptr<PDE::CoordinateMap_> m(r.coin(0.05) ? PDE::NewIdentityMap() : PDE::NewSinhMap(width, range));
    for (int i = 0; i < 20; ++i) {
        const double x = r.uniform(-2, 2) * width, y = m->Y(x);
        double d, dd, dp, dm;
        const double back = (*m)(y, &d, &dd);
        checkNear(back, x, 1e-13 * width, 1e-12, "map-inverse");
        checkNear((*m)(y), back, 0, 0, "map-value");
        const double h = 1e-5 * width / range * 2;
        const double up = (*m)(y + h, &dp), down = (*m)(y - h, &dm);
        checkNear(d, (up - down) / (2 * h), 1e-4 * d, 0, "map-slope");
        checkNear(dd, (dp - dm) / (2 * h), 1e-4 * (std::fabs(dd) + d * range / width), 0, "map-curvature");
        checkNear(m->Y(-x), -y, 0, 1e-12, "map-odd");
        count("map-points");
    }
    double d0, d1;
    const double at0 = (*m)(0.0, &d0);
    (*m)(m->Y(width), &d1);
    check(at0 == 0 && d0 == 1, "map-centre", "");
    check(near(d1, range, 1e-6, 1e-9) || near(d1, 1.0, 0, 0), "map-range", cat(d1, " of ", range));
    observed(S().caseDesc, range > 1);
}
static void body() {
    section("meshers", N(3000, 60000), meshers);
    section("refusals", N(600, 6000), refusals);
    section("operators", N(1500, 30000), operators);
    section("rollback", N(2500, 60000), rollback);
    section("option", N(25, 400), option);
    section("maps", N(1500, 30000), maps);
}
VH_MAIN(body)
