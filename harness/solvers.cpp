// P23: root searches and the underdetermined solver on generated functions; residuals, brackets and evaluation counts are watched.
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/sparse.hpp>
#include <dal/math/optimization/underdetermined.hpp>
#include <dal/math/rootfind.hpp>
#include <dal/math/vectors.hpp>
#include <dal/utilities/dictionary.hpp>
#include <memory>
using namespace vh;
using namespace Dal;

// a strictly monotone continuous function with a known root
struct Mono {
    int kind;
    double root, slope, scale;
    bool down;
    double operator()(double x) const {
        const double u = (x - root) * slope;
        double y;
        switch (kind) {
        case 0:
            y = u;
            break;
        case 1:
            y = u + u * u * u;
            break;
        case 2:
            y = std::tanh(u) + 1e-3 * u;
            break;
        case 3:
            y = std::expm1(std::min(u, 600.0)) + 1e-3 * u;
            break;
        case 4: // flat at the root
            y = u * u * u;
            break;
        case 5: // vertical at the root
            y = std::cbrt(u);
            break;
        case 6: // kink
            y = u < 0 ? u : 1000.0 * u;
            break;
        case 7:
            y = u / (1 + std::fabs(u)) + 1e-6 * u;
            break;
        default: // a step, almost
            y = u + 2.0 * std::tanh(1e6 * u);
        }
        return (down ? -y : y) * scale;
    }
};
static Mono mono(Rng& r) {
    Mono m;
    m.kind = r.below(9);
    m.root = r.coin(0.1) ? 0.0 : r.coin() ? r.uniform(-3, 3) : (r.coin() ? -1 : 1) * r.logUniform(1e-3, 1e6);
    m.slope = r.logUniform(1e-2, 1e2);
    m.scale = r.coin(0.3) ? r.logUniform(1e-300, 1e-80) : r.coin(0.3) ? r.logUniform(1e80, 1e140) : r.logUniform(1e-8, 1e8);
    if (m.kind == 4 && m.scale < 1e-80)
        m.scale = std::max(m.scale, 1e-230); // its values are denormal well away from the root otherwise
    m.down = r.coin();
    return m;
}
static string show(const Mono& m) { return cat("kind ", m.kind, " root ", m.root, " slope ", m.slope, " scale ", m.scale, m.down ? " down" : " up"); }

struct Search {
    bool converged = false;
    int n = 0;
    double x = 0, y = 0;
};
template <class Fn> static Search run(RootFinder_& t, const Fn& f, const Converged_& done, int limit, double lo, double hi) {
    Search s;
    for (; s.n < limit && !s.converged; ++s.n) {
        s.x = t.NextX();
        if (!(s.x >= lo && s.x <= hi)) {
            violation("search-leaves-bracket", cat("asked for ", s.x, " outside ", lo, " ", hi));
            return s;
        }
        s.y = f(s.x);
        s.converged = done(t, s.y);
    }
    return s;
}
static int limitFor(double width, double tol) {
    const double h = std::log2(std::max(2.0, width / tol)) + 3;
    return static_cast<int>(h * h) + 20; // each halving takes at most that many interpolation steps
}

static void bracketed(Rng& r) {
    const Mono m = mono(r);
    const double w1 = r.logUniform(1e-3, 1e4), w2 = r.logUniform(1e-3, 1e4);
    double lo = m.root - w1, hi = m.root + w2;
    const int where = r.below(12);
    if (where == 0)
        lo = m.root;
    if (where == 1)
        hi = m.root;
    if (where == 2) // both on one side
        lo = m.root + 0.5 * w2;
    const double ulp = (std::fabs(m.root) + std::max(w1, w2)) * 1e-15;
    const double xTol = std::max(ulp * 4, r.logUniform(1e-14, 1e-3)), fTol = r.coin(0.3) ? 0.0 : m.scale * r.logUniform(1e-14, 1e-2);
    const double eTol = r.coin() ? 1e-10 : xTol;
    desc(cat(show(m), " in ", lo, " ", hi, " xtol ", xTol, " ftol ", fTol, " tol ", eTol));
    const auto a = std::make_pair(lo, m(lo)), b = std::make_pair(hi, m(hi));
    const bool flip = r.coin();
    if (!std::isfinite(a.second) || !std::isfinite(b.second))
        return;
    if ((a.second > 0) == (b.second > 0) && a.second != 0 && b.second != 0) {
        count("unbracketed");
        check(throws([&] { BracketedBrent_ t(flip ? b : a, flip ? a : b, eTol); }), "unbracketed-accepted", "both ends have the same sign");
        observed(S().caseDesc, false);
        return;
    }
    BracketedBrent_ t(flip ? b : a, flip ? a : b, eTol);
    const Search s = run(t, m, Converged_(xTol, fTol), limitFor(hi - lo, std::min(xTol, eTol)), lo, hi);
    if (!checkf(s.converged, "search-does-not-end", [&] { return cat(s.n, " evaluations, width ", t.BracketWidth()); }))
        return;
    checkf(std::fabs(s.y) < fTol || s.y == 0 || std::fabs(s.x - m.root) <= xTol * (1 + 1e-12) + ulp, "not-a-root",
           [&] { return cat("x ", s.x, " f ", s.y); });
    count("bracketed-evaluations", s.n);
    count("bracketed-searches");
    observed(S().caseDesc, s.n > 1);
}

// several roots: the bracket always keeps one
static void oscillating(Rng& r) {
    const double w = r.uniform(0.5, 12), p = r.uniform(0, 6.3), tilt = r.uniform(-0.3, 0.3), sc = r.coin(0.2) ? 1e-200 : r.coin(0.2) ? 1e120 : 1.0;
    auto f = [&](double x) { return sc * (std::sin(w * x + p) + tilt * x); };
    double lo = r.uniform(-5, 0), hi = r.uniform(0, 5);
    const double xTol = r.logUniform(1e-13, 1e-4), fTol = sc * r.logUniform(1e-13, 1e-4);
    desc(cat("sin ", w, " ", p, " ", tilt, " ", sc, " in ", lo, " ", hi, " ", xTol, " ", fTol));
    const double fl = f(lo), fh = f(hi);
    if ((fl > 0) == (fh > 0)) {
        check(throws([&] { BracketedBrent_ t({lo, fl}, {hi, fh}, xTol); }), "unbracketed-accepted", "both ends have the same sign");
        return;
    }
    BracketedBrent_ t({lo, fl}, {hi, fh}, xTol);
    const Search s = run(t, f, Converged_(xTol, fTol), limitFor(hi - lo, xTol), lo, hi);
    if (!check(s.converged, "search-does-not-end", "oscillating"))
        return;
    const double l = std::max(lo, s.x - xTol - 4e-15), h = std::min(hi, s.x + xTol + 4e-15);
    checkf(std::fabs(s.y) < fTol || (f(l) > 0) != (f(s.x) > 0) || (f(h) > 0) != (f(s.x) > 0) || f(s.x) == 0, "not-a-root",
           [&] { return cat("x ", s.x, " f ", s.y); });
    count("bracketed-searches");
    observed(S().caseDesc, s.n > 1);
}

static void hunting(Rng& r) {
    Mono m = mono(r);
    const double guess = r.coin(0.1) ? m.root : r.coin(0.1) ? 0.0 : m.root + (r.coin() ? 1 : -1) * r.logUniform(1e-4, 1e4);
    const double step = r.coin() ? 0.0 : r.logUniform(1e-4, 1e2);
    const double ulp = (std::fabs(m.root) + std::fabs(guess) + 1) * 1e-14;
    const double xTol = std::max(ulp, r.logUniform(1e-12, 1e-3)), fTol = m.scale * r.logUniform(1e-13, 1e-3);
    if (m.kind == 3)
        m.slope = std::min(m.slope, 20 / (1 + std::fabs(guess - m.root)));
    desc(cat(show(m), " from ", guess, " step ", step, " xtol ", xTol, " ftol ", fTol));
    Brent_ t(guess, r.coin() ? EPSILON : xTol, step);
    bool over = false;
    auto f = [&](double x) {
        const double y = m(x);
        over = over || !std::isfinite(y);
        return y;
    };
    const Search s = run(t, f, Converged_(xTol, fTol), 5000, -1e30, 1e30);
    if (over) {
        count("overflowed");
        return;
    }
    if (!checkf(s.converged, "search-does-not-end", [&] { return cat(s.n, " evaluations, width ", t.BracketWidth()); }))
        return;
    checkf(std::fabs(s.y) < fTol || std::fabs(s.x - m.root) <= xTol * (1 + 1e-12) + ulp, "not-a-root", [&] { return cat("x ", s.x, " f ", s.y); });
    count("hunts");
    count("hunt-evaluations", s.n);
    observed(S().caseDesc, s.n > 2);
}

// no root at all: never reported as found
static void rootless(Rng& r) {
    const double c = r.uniform(-4, 4), fl = r.logUniform(1e-6, 10), sc = (r.coin() ? 1 : -1) * (r.coin(0.3) ? 1e-200 : 1.0);
    const int k = r.below(3);
    auto f = [&](double x) {
        const double u = std::fabs(x - c);
        return sc * (fl + (k == 0 ? std::min(u * u, 1e30) : k == 1 ? std::min(u, 1e30) : 1 - std::exp(-u)));
    };
    desc(cat("floor ", fl, " at ", c, " kind ", k, " sign ", sc));
    Brent_ t(r.uniform(-5, 5));
    const Search s = run(t, f, Converged_(1e-10, std::fabs(sc) * fl * 0.5), 60, -1e60, 1e60);
    check(!s.converged, "root-of-a-function-without-roots", cat("at ", s.x));
    count("rootless");
    observed(S().caseDesc);
}

// ---- underdetermined
struct Weight {
    std::unique_ptr<Sparse::Square_> w;
    std::unique_ptr<Sparse::SymmetricDecomposition_> d;
    Vector_<Vector_<>> dense;
    Vector_<> mul(const Vector_<>& x) const {
        const int n = x.size();
        Vector_<> y(n, 0.0);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                y[i] += dense[i][j] * x[j];
        return y;
    }
};
static Weight weight(Rng& r, int n, double scale = 1) {
    Weight w;
    const int band = n < 2 ? 0 : std::min(n - 1, 1 + (int)r.below(2));
    if (band == 1 || n == 1)
        w.w.reset(new Sparse::TriDiagonal_(n));
    else
        w.w.reset(Sparse::NewBandDiagonal(n, band, band));
    w.dense = Vector_<Vector_<>>(n, Vector_<>(n, 0.0));
    auto add = [&](int i, int j, double v) {
        w.w->Add(i, j, v);
        w.dense[i][j] += v;
    };
    const double ridge = scale * r.logUniform(1e-2, 1), smooth = scale * r.logUniform(0.1, 10);
    for (int i = 0; i < n; ++i)
        add(i, i, ridge * (r.coin() ? 1 : r.uniform(0.5, 2)));
    for (int b = 1; b <= band; ++b)
        for (int i = 0; i + b < n; ++i) {
            const double s = smooth * (b == 1 ? 1 : 0.2) * r.uniform(0.5, 1.5);
            add(i, i, s);
            add(i + b, i + b, s);
            add(i, i + b, -s);
            add(i + b, i, -s);
        }
    w.d.reset(w.w->DecomposeSymmetric());
    return w;
}

// f(x) = A x - b + eps * g(x), g smooth; calls counted
struct System : Underdetermined::Function_ {
    int nx, nf, mode = 0; // 0 bumped, 1 dense gradient, 2 own jacobian
    Vector_<Vector_<>> A;
    Vector_<> b, quad, shift;
    double eps = 0, hole = INF; // not a number where x[0] > hole,
    int holeIn = -1;            // in this equation (all if < 0)
    double bump = 1e-4;
    mutable int calls = 0, fast = 0, grads = 0, badSize = 0;
    Vector_<> value(const Vector_<>& x) const {
        if (static_cast<int>(x.size()) != nx) {
            ++badSize;
            return Vector_<>(nf, 0.0);
        }
        Vector_<> f(nf, 0.0);
        for (int i = 0; i < nf; ++i) {
            f[i] = -b[i];
            for (int j = 0; j < nx; ++j)
                f[i] += A[i][j] * x[j] + eps * quad[i] * std::sin(x[j] + shift[i]) * A[i][j];
            if (x[0] > hole && (holeIn < 0 || holeIn == i))
                f[i] = std::numeric_limits<double>::quiet_NaN();
        }
        return f;
    }
    double slope(int i, int j, const Vector_<>& x) const { return A[i][j] + eps * quad[i] * std::cos(x[j] + shift[i]) * A[i][j]; }
    Vector_<> F(const Vector_<>& x) const override {
        ++calls;
        return value(x);
    }
    double BumpSize() const override { return bump; }
    void FFast(const Vector_<>& x, Vector_<>* f) const override {
        ++fast;
        *f = value(x);
    }
    struct Own : Underdetermined::Jacobian_ {
        Vector_<Vector_<>> j;
        int nx = 0;
        int Rows() const override { return j.size(); }
        int Columns() const override { return nx; }
        void DivideRows(const Vector_<>& tol) override {
            for (int i = 0; i < Rows(); ++i)
                for (int k = 0; k < nx; ++k)
                    j[i][k] /= tol[i];
        }
        Vector_<> MultiplyLeft(const Vector_<>& dx) const override {
            Vector_<> y(j.size(), 0.0);
            for (int i = 0; i < Rows(); ++i)
                for (int k = 0; k < nx; ++k)
                    y[i] += j[i][k] * dx[k];
            return y;
        }
        Vector_<> MultiplyRight(const Vector_<>& t) const override {
            Vector_<> y(nx, 0.0);
            for (int i = 0; i < Rows(); ++i)
                for (int k = 0; k < nx; ++k)
                    y[k] += j[i][k] * t[i];
            return y;
        }
        void QForm(const Sparse::SymmetricDecomposition_& w, SquareMatrix_<>* form) const override {
            form->Resize(Rows());
            for (int k = 0; k < Rows(); ++k) {
                Vector_<> z;
                w.Solve(j[k], &z);
                for (int i = 0; i < Rows(); ++i) {
                    double s = 0;
                    for (int q = 0; q < nx; ++q)
                        s += j[i][q] * z[q];
                    (*form)(i, k) = s;
                }
            }
        }
        void SecantUpdate(const Vector_<>& dx, const Vector_<>& df) override {
            const Vector_<> now = MultiplyLeft(dx);
            double n2 = 0;
            for (double x : dx)
                n2 += x * x;
            for (int i = 0; i < Rows(); ++i)
                for (int k = 0; k < nx; ++k)
                    j[i][k] += (df[i] - now[i]) / n2 * dx[k];
        }
    };
    Underdetermined::Jacobian_* Gradient(const Vector_<>& x, const Vector_<>&) const override {
        if (mode == 2) {
            ++grads;
            auto* o = new Own;
            o->nx = nx;
            o->j = Vector_<Vector_<>>(nf, Vector_<>(nx, 0.0));
            for (int i = 0; i < nf; ++i)
                for (int k = 0; k < nx; ++k)
                    o->j[i][k] = slope(i, k, x);
            return o;
        }
        return nullptr;
    }
    void Gradient(const Vector_<>& x, const Vector_<>& f, Matrix_<>* j) const override {
        ++grads;
        if (mode == 0) {
            Underdetermined::Function_::Gradient(x, f, j);
            return;
        }
        j->Resize(nf, nx);
        for (int i = 0; i < nf; ++i)
            for (int k = 0; k < nx; ++k)
                (*j)(i, k) = slope(i, k, x);
    }
};
// nothing but the equations
struct Bare : Underdetermined::Function_ {
    const System& s;
    explicit Bare(const System& x) : s(x) {}
    Vector_<> F(const Vector_<>& x) const override { return s.F(x); }
};
static System systemFor(Rng& r, int nx, int nf, double eps) {
    System s;
    s.nx = nx, s.nf = nf, s.eps = eps;
    s.mode = r.below(3);
    s.bump = r.coin() ? 1e-4 : r.logUniform(1e-6, 1e-3);
    for (int i = 0; i < nf; ++i) {
        Vector_<> row(nx, 0.0);
        for (auto& v : row)
            v = r.coin(0.3) ? 0.0 : r.normal();
        row[(i * nx) / nf] += 3 + r.unit(); // keeps the rows independent
        s.A.push_back(row);
        s.b.push_back(r.uniform(-3, 3));
        s.quad.push_back(r.uniform(-1, 1));
        s.shift.push_back(r.uniform(0, 6));
    }
    return s;
}
static Underdetermined::Controls_ controls(Rng& r, int evals, int restarts) {
    Dictionary_ d;
    d.Insert("MAXEVALUATIONS", Cell_(static_cast<double>(evals)));
    d.Insert("MAXRESTARTS", Cell_(static_cast<double>(restarts)));
    if (r.coin(0.3))
        d.Insert("MAXBACKTRACKTRIES", Cell_(static_cast<double>(r.range(1, 12))));
    if (r.coin(0.3))
        d.Insert("RESTARTTOLERANCE", Cell_(r.uniform(0, 1)));
    if (r.coin(0.3)) {
        const double t = r.uniform(0.01, 0.4);
        d.Insert("BACKTRACKTOLERANCE", Cell_(t));
        d.Insert("MAXBACKTRACK", Cell_(r.uniform(t + 0.05, 0.95)));
    }
    return Underdetermined::Controls_(d);
}
static double dot(const Vector_<>& a, const Vector_<>& b) {
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i)
        s += a[i] * b[i];
    return s;
}
// dense solve with pivoting
static bool solve(vector<vector<long double>> m, vector<long double> b, vector<long double>* x) {
    const int n = b.size();
    for (int i = 0; i < n; ++i) {
        int p = i;
        for (int k = i + 1; k < n; ++k)
            if (fabsl(m[k][i]) > fabsl(m[p][i]))
                p = k;
        if (fabsl(m[p][i]) < 1e-300L)
            return false;
        std::swap(m[i], m[p]);
        std::swap(b[i], b[p]);
        for (int k = i + 1; k < n; ++k) {
            const long double q = m[k][i] / m[i][i];
            for (int c = i; c < n; ++c)
                m[k][c] -= q * m[i][c];
            b[k] -= q * b[i];
        }
    }
    x->assign(n, 0);
    for (int i = n - 1; i >= 0; --i) {
        long double s = b[i];
        for (int c = i + 1; c < n; ++c)
            s -= m[i][c] * (*x)[c];
        (*x)[i] = s / m[i][i];
    }
    return true;
}

static void find(Rng& r, bool linear) {
    const int nx = r.range(1, 14), nf = r.range(1, std::min(nx, 6));
    System f = systemFor(r, nx, nf, linear ? 0.0 : r.logUniform(1e-2, 3.0));
    const Weight w = weight(r, nx);
    Vector_<> guess(nx), tol(nf);
    const double spread = r.coin(0.1) ? 0 : r.logUniform(0.1, 5);
    for (auto& g : guess)
        g = spread * r.normal();
    for (auto& t : tol)
        t = r.logUniform(1e-9, 1e-2);
    const bool holed = r.coin(linear ? 0.1 : 0.2);
    if (holed) { // a region where one equation, or all, have no value
        f.hole = guess[0] + r.uniform(-0.5, 1.5);
        f.holeIn = r.coin(0.3) ? -1 : r.range(0, nf - 1);
        count("equations-without-value");
    }
    const int evals = r.coin(0.2) ? r.range(1, 6) : r.range(30, 200), restarts = r.coin(0.2) ? r.range(1, 2) : r.range(5, 60);
    desc(cat(linear ? "linear " : "curved ", nf, "x", nx, " eps ", f.eps, " mode ", f.mode, " hole ", f.hole, " in ", f.holeIn, " budget ", evals, " ", restarts));
    const auto c = controls(r, evals, restarts);
    const Vector_<> guess0 = guess, tol0 = tol;
    Vector_<> x;
    string what;
    const bool isBare = r.coin(0.1);
    const Bare bare(f);
    const Underdetermined::Function_& asked = isBare ? static_cast<const Underdetermined::Function_&>(bare) : f;
    if (isBare)
        count("bare-functions");
    const bool failed = throws([&] { x = Underdetermined::Find(asked, guess, tol, *w.d, c); }, &what);
    check(guess == guess0 && tol == tol0, "input-changed", "");
    check(f.badSize == 0, "wrong-dimension-evaluated", "");
    checkf(f.calls <= evals + (isBare ? restarts * (nx + 1) : 0) && f.grads <= restarts && f.fast <= restarts * (nx + 1), "budget-exceeded",
           [&] { return cat(f.calls, " evaluations of ", evals, ", ", f.grads, " gradients of ", restarts); });
    count("find-evaluations", f.calls);
    if (failed) {
        count("find-failures");
        if (linear && !holed && evals >= 30 && restarts >= 5)
            checkf(false, "linear-system-not-solved", [&] { return what; });
        observed(S().caseDesc);
        return;
    }
    count("find-successes");
    const Vector_<> v = f.value(x);
    for (int i = 0; i < nf; ++i)
        checkf(std::fabs(v[i]) < tol[i], "equation-not-satisfied", [&] { return cat("equation ", i, " value ", v[i], " tolerance ", tol[i]); });
    if (linear && !holed) { // the step is the smoothest: W step is a combination of the gradients
        Vector_<> step(nx);
        for (int i = 0; i < nx; ++i)
            step[i] = x[i] - guess[i];
        vector<vector<long double>> q(nf, vector<long double>(nf, 0)), W(nx, vector<long double>(nx));
        for (int i = 0; i < nx; ++i)
            for (int j = 0; j < nx; ++j)
                W[i][j] = w.dense[i][j];
        vector<vector<long double>> z(nf);
        for (int i = 0; i < nf; ++i)
            solve(W, vector<long double>(f.A[i].begin(), f.A[i].end()), &z[i]);
        vector<long double> rhs(nf), lam;
        for (int i = 0; i < nf; ++i) {
            rhs[i] = dot(f.A[i], step);
            for (int j = 0; j < nf; ++j)
                for (int k = 0; k < nx; ++k)
                    q[i][j] += f.A[i][k] * z[j][k];
        }
        if (solve(q, rhs, &lam)) {
            double worst = 0, size = 1e-12;
            for (int k = 0; k < nx; ++k) {
                long double s = 0;
                for (int j = 0; j < nf; ++j)
                    s += z[j][k] * lam[j];
                worst = std::max(worst, (double)fabsl(s - step[k]));
                size = std::max(size, std::fabs(step[k]));
            }
            checkf(worst < 1e-5 * size + 1e-7, "step-not-smoothest", [&] { return cat("off by ", worst, " of ", size); });
            count("smoothest-checked");
        }
    }
    observed(S().caseDesc);
}

static void approximate(Rng& r, bool linear) {
    const int nx = r.range(1, 12), nf = r.range(1, std::min(nx, 6));
    System f = systemFor(r, nx, nf, linear ? 0.0 : r.logUniform(1e-3, 0.2));
    const double scale = r.coin() ? 1.0 : r.logUniform(1e2, 1e4);
    const Weight w = weight(r, nx, scale);
    Vector_<> guess(nx), tol(nf);
    for (auto& g : guess)
        g = r.normal();
    for (auto& t : tol)
        t = r.coin() ? 1e-4 : r.logUniform(1e-6, 1e-3);
    const double fit = r.logUniform(1e-3, 1) / std::sqrt(scale);
    const int evals = r.coin(0.2) ? r.range(1, 6) : r.range(8, 60), restarts = r.range(1, 10);
    desc(cat("approximate ", linear ? "linear " : "curved ", nf, "x", nx, " eps ", f.eps, " mode ", f.mode, " fit ", fit, " budget ", evals, " ", restarts));
    const auto c = controls(r, evals, restarts);
    Vector_<> x;
    string what;
    const bool failed = throws([&] { x = Underdetermined::Approximate(f, guess, tol, fit, *w.w, c); }, &what);
    check(f.badSize == 0, "wrong-dimension-evaluated", "");
    checkf(f.calls <= evals && f.grads <= restarts, "budget-exceeded", [&] { return cat(f.calls, " of ", evals, ", ", f.grads, " of ", restarts); });
    if (!checkf(!failed, "approximation-failed", [&] { return what; }))
        return;
    for (double v : x)
        if (!check(std::isfinite(v), "approximation-not-a-number", cat(v)))
            return;
    count("approximations");
    if (evals >= 8 && linear) {
        const double jw = dot(tol, tol) / (fit * fit);
        // what is left of the gradient of the penalised problem
        auto gradient = [&](const Vector_<>& p) {
            Vector_<> d(nx);
            for (int i = 0; i < nx; ++i)
                d[i] = p[i] - guess[i];
            const Vector_<> v = f.value(p);
            Vector_<> g = w.mul(d);
            for (int i = 0; i < nx; ++i)
                for (int k = 0; k < nf; ++k)
                    g[i] += jw * f.A[k][i] / tol[k] * v[k] / tol[k];
            return std::sqrt(dot(g, g));
        };
        const double left = gradient(x), start = gradient(guess);
        checkf(left <= 3 * (std::sqrt(nx) + 1e-5 * start), "approximation-not-optimal", [&] { return cat("gradient ", left, " of ", start); });
        if (start > 100 * std::sqrt(nx))
            count("optimal-checked");
    }
    observed(S().caseDesc);
}

static void body() {
    section("bracketed", N(20000, 400000), bracketed);
    section("oscillating", N(6000, 100000), oscillating);
    section("hunting", N(12000, 200000), hunting);
    section("rootless", N(2000, 20000), rootless);
    section("find-linear", N(1500, 30000), [](Rng& r) { find(r, true); });
    section("find-curved", N(3000, 60000), [](Rng& r) { find(r, false); });
    section("approximate-linear", N(700, 20000), [](Rng& r) { approximate(r, true); });
    section("approximate-curved", N(500, 10000), [](Rng& r) { approximate(r, false); });
}
VH_MAIN(body)
