// P20: matrices, factorizations, solvers against their defining equations.
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/matrix/matrixarithmetic.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/bcg.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include <dal/math/matrix/decompositions.hpp>
#include <dal/math/matrix/decompositionsmisc.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/math/matrix/sparseutils.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/utilities/numerics.hpp>
using namespace vh;
using namespace Dal;
typedef vector<vector<double>> M;
typedef vector<double> V;
using std::unique_ptr;

static double entry(Rng& r) {
    switch (r.range(0, 9)) {
    case 0: return 0;
    case 1: return r.range(-3, 3);
    default: return r.uniform(-2, 2);
    }
}
static M rnd(Rng& r, int n, int m) {
    M o(n, V(m));
    for (auto& row : o)
        for (auto& x : row)
            x = entry(r);
    return o;
}
static V rndV(Rng& r, int n) {
    V o(n);
    for (auto& x : o)
        x = entry(r);
    return o;
}
static Matrix_<> toDal(const M& a, int cols) {
    Matrix_<> o(a.size(), cols);
    for (size_t i = 0; i < a.size(); ++i)
        for (int j = 0; j < cols; ++j)
            o(i, j) = a[i][j];
    return o;
}
static Vector_<> toDal(const V& a) { return Vector_<>(a.begin(), a.end()); }
static V mul(const M& a, const V& x) {
    V o;
    for (auto& row : a) {
        long double s = 0;
        for (size_t j = 0; j < x.size(); ++j)
            s += (long double)row[j] * x[j];
        o.push_back(s);
    }
    return o;
}
static V mulT(const M& a, const V& x, int cols) {
    vector<long double> s(cols, 0);
    for (size_t i = 0; i < a.size(); ++i)
        for (int j = 0; j < cols; ++j)
            s[j] += (long double)a[i][j] * x[i];
    return V(s.begin(), s.end());
}
static double norm(const V& x) {
    double m = 0;
    for (double v : x)
        m = std::max(m, std::fabs(v));
    return m;
}
static double norm(const M& a) {
    double m = 0;
    for (auto& row : a) {
        double s = 0;
        for (double v : row)
            s += std::fabs(v);
        m = std::max(m, s);
    }
    return m;
}
static V out(const Vector_<>& v) { return V(v.begin(), v.end()); }
static void same(const V& got, const V& want, double tol, const char* key, const string& what) {
    checkf(got.size() == want.size(), key, [&] { return cat(what, " size ", got.size(), " expected ", want.size()); });
    for (size_t i = 0; i < std::min(got.size(), want.size()); ++i)
        checkf(near(got[i], want[i], tol, 1e-13), key, [&] { return cat(what, " [", i, "] ", got[i], " expected ", want[i]); });
}
// the four uses of an operator on a vector: into a fresh, a wrongly sized, a dirty vector, or onto itself
template <class F> V apply(Rng& r, const V& x, F f, bool alias = true, bool resizes = true) {
    Vector_<> a = toDal(x);
    switch (r.range(0, alias ? 3 : 2)) {
    case 0: {
        Vector_<> o(resizes ? 0 : x.size());
        f(a, &o);
        return out(o);
    }
    case 1: {
        Vector_<> o(resizes ? r.range(0, 2 * x.size() + 2) : x.size(), 3.5);
        f(a, &o);
        return out(o);
    }
    case 2: {
        Vector_<> o(x.size(), -7.25);
        f(a, &o);
        check(out(a) == x, "input-changed", "the argument was modified");
        return out(o);
    }
    default:
        count("aliased");
        f(a, &a);
        return out(a);
    }
}
static M spd(Rng& r, int n, int band = -1) {
    // symmetric, diagonally dominant or a product
    M a(n, V(n, 0.0));
    if (band < 0 && r.coin(0.6)) {
        const M b = rnd(r, n, n + 2);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                for (int k = 0; k < n + 2; ++k)
                    a[i][j] += b[i][k] * b[j][k];
        for (int i = 0; i < n; ++i)
            a[i][i] += r.uniform(0.5, 2);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < i; ++j)
                a[i][j] = a[j][i];
    } else {
        if (band < 0)
            band = n;
        for (int i = 0; i < n; ++i)
            for (int j = std::max(0, i - band); j < i; ++j)
                a[i][j] = a[j][i] = entry(r);
        for (int i = 0; i < n; ++i) {
            double s = 0;
            for (int j = 0; j < n; ++j)
                s += std::fabs(a[i][j]);
            a[i][i] = s + r.uniform(0.3, 2);
        }
    }
    const double scale = r.pick({1.0, 1.0, 1.0, 100.0, 0.01});
    for (auto& row : a)
        for (auto& x : row)
            x *= scale;
    return a;
}
static M dominant(Rng& r, int n, int above, int below) {
    M a(n, V(n, 0.0));
    for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = std::max(0, i - below); j <= std::min(n - 1, i + above); ++j)
            if (j != i)
                s += std::fabs(a[i][j] = entry(r));
        a[i][i] = (s + r.uniform(0.3, 2)) * (r.coin() ? 1 : -1);
    }
    return a;
}
static SquareMatrix_<> square(const M& a) {
    SquareMatrix_<> o(a.size());
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < a.size(); ++j)
            o(i, j) = a[i][j];
    return o;
}
static int sizeOf(Rng& r) { return r.coin(0.2) ? r.range(1, 3) : r.coin(0.1) ? r.size(20, 50, 110) : r.range(2, 12); }

// products and solves of a factorization of A, in both directions
static void decomposition(Rng& r, const SquareMatrixDecomposition_& d, const M& A, double cond = 1e6) {
    const int n = A.size();
    check(d.Size() == n, "size", cat(d.Size()));
    for (int t = 0; t < 3; ++t) {
        const V x = rndV(r, n);
        const double nA = norm(A), tol = 1e-12 * n * (1 + nA) * (1 + norm(x));
        same(apply(r, x, [&](const Vector_<>& a, Vector_<>* b) { d.MultiplyLeft(a, b); }), mul(A, x), tol, "product-wrong", "A x");
        same(apply(r, x, [&](const Vector_<>& a, Vector_<>* b) { d.MultiplyRight(a, b); }), mulT(A, x, n), tol, "product-wrong", "x A");
        const V y = apply(r, x, [&](const Vector_<>& a, Vector_<>* b) { d.SolveLeft(a, b); });
        check((int)y.size() == n, "solve-wrong", cat("solution has size ", y.size()));
        same(mul(A, y), x, 1e-11 * n * (1 + nA) * (1 + norm(y)), "solve-wrong", "A times its solution");
        const V z = apply(r, x, [&](const Vector_<>& a, Vector_<>* b) { d.SolveRight(a, b); });
        check((int)z.size() == n, "solve-wrong", cat("solution has size ", z.size()));
        same(mulT(A, z, n), x, 1e-11 * n * (1 + nA) * (1 + norm(z)), "solve-wrong", "solution times A");
        count("solves", 2);
        count("products", 2);
    }
    // sizes that do not fit are refused
    for (int bad : {n - 1, n + 2, 0}) {
        if (bad < 0 || bad == n)
            continue;
        Vector_<> b(bad, 1.0), o(n);
        check(throws([&] { d.SolveLeft(b, &o); }) && throws([&] { d.SolveRight(b, &o); }), "bad-size-accepted", cat("solve with ", bad, " for ", n));
        check(throws([&] { d.MultiplyLeft(b, &o); }) && throws([&] { d.MultiplyRight(b, &o); }), "bad-size-accepted", cat("product with ", bad, " for ", n));
    }
}
static void symmetric(Rng& r, const Sparse::SymmetricDecomposition_& d, const M& A, bool correlates) {
    const int n = A.size();
    decomposition(r, d, A);
    // J A^-1 J'
    const int k = r.range(1, n + 2);
    const M J = rnd(r, k, n);
    SquareMatrix_<> q(r.coin() ? 0 : r.range(0, k + 2));
    d.QForm(toDal(J, n), &q);
    check(q.Rows() == k && q.Cols() == k, "qform-wrong", cat("size ", q.Rows()));
    for (int i = 0; i < k; ++i) {
        Vector_<> w;
        d.Solve(toDal(J[i]), &w);
        double nw = 0;
        for (double v : w)
            nw = std::max(nw, std::fabs(v));
        for (int j = 0; j < k; ++j) {
            long double s = 0;
            for (int l = 0; l < n; ++l)
                s += (long double)w[l] * J[j][l];
            checkf(near(q(i, j), s, 1e-10 * n * (1 + nw), 1e-11) && q(i, j) == q(j, i), "qform-wrong", [&] { return cat("(", i, ",", j, ") ", q(i, j), " expected ", (double)s); });
        }
    }
    count("qforms");
    if (correlates) {
        // the images of unit vectors are a root of A
        M L(n, V(n));
        for (int i = 0; i < n; ++i) {
            Vector_<> e(n, 0.0), o(r.range(0, n + 1), 2.0);
            e[i] = 1;
            d.MakeCorrelated(e.begin(), &o);
            check((int)o.size() == n, "correlated-wrong", cat("size ", o.size()));
            for (int j = 0; j < n; ++j)
                L[j][i] = o[j];
        }
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                long double s = 0;
                for (int l = 0; l < n; ++l)
                    s += (long double)L[i][l] * L[j][l];
                checkf(near(A[i][j], s, 1e-11 * (1 + norm(A)), 1e-11), "correlated-wrong", [&] { return cat("covariance (", i, ",", j, ") ", (double)s, " expected ", A[i][j]); });
            }
        count("roots");
    }
}
static Sparse::Square_* sparse(Rng& r, const M& A, int above, int below) {
    const int n = A.size();
    Sparse::Square_* s = Sparse::NewBandDiagonal(n, above, below);
    for (int i = 0; i < n; ++i)
        for (int j = std::max(0, i - below); j <= std::min(n - 1, i + above); ++j) {
            if (r.coin()) {
                s->Set(i, j, A[i][j] - 1.5);
                s->Add(i, j, 1.5);
                s->Set(i, j, A[i][j]);
            } else if (A[i][j] != 0)
                s->Add(i, j, A[i][j]);
        }
    return s;
}
// a full matrix with a Jacobi preconditioner, as a user of the iterative solvers would supply
struct Full_ : Sparse::Square_, HasPreConditioner_ {
    M a;
    mutable long mults = 0;
    explicit Full_(const M& m) : a(m) {}
    int Size() const override { return a.size(); }
    void MultiplyLeft(const Vector_<>& x, Vector_<>* b) const override {
        ++mults;
        *b = toDal(mul(a, out(x)));
    }
    void MultiplyRight(const Vector_<>& x, Vector_<>* b) const override {
        ++mults;
        *b = toDal(mulT(a, out(x), a.size()));
    }
    bool IsSymmetric() const override { return false; }
    SquareMatrixDecomposition_* Decompose() const override { return nullptr; }
    const double& operator()(int i, int j) const override { return a[i][j]; }
    void Set(int i, int j, double v) override { a[i][j] = v; }
    void PreConditionerSolveLeft(const Vector_<>& b, Vector_<>* x) const override {
        for (size_t i = 0; i < a.size(); ++i)
            (*x)[i] = b[i] / a[i][i];
    }
    void PreConditionerSolveRight(const Vector_<>& b, Vector_<>* x) const override { PreConditionerSolveLeft(b, x); }
};

VH_MAIN([] {
    section("products", N(3000, 30000), [&](Rng& r) {
        const int n = r.size(0, 8, 70), m = r.size(0, 8, 70), k = r.size(0, 8, 70);
        desc(cat(n, "x", m, " times ", m, "x", k));
        const M A = rnd(r, n, m), B = rnd(r, m, k);
        M C(n, V(k));
        for (int j = 0; j < k; ++j) {
            V col;
            for (int i = 0; i < m; ++i)
                col.push_back(B[i][j]);
            const V c = mul(A, col);
            for (int i = 0; i < n; ++i)
                C[i][j] = c[i];
        }
        {
            const Matrix_<> a = toDal(A, m), b = toDal(B, k);
            Matrix_<> c(r.range(0, 9), r.range(0, 9), 4.5), d;
            Matrix_<>* res = &c;
            switch (r.range(0, 3)) {
            case 0:
                c = a;
                Matrix::Multiply(c, b, &c);
                count("aliased");
                break;
            case 1:
                c = b;
                Matrix::Multiply(a, c, &c);
                count("aliased");
                break;
            case 2:
                Matrix::Multiply(a, b, &c);
                break;
            default:
                Matrix::Multiply(a, b, &d);
                res = &d;
            }
            check(res->Rows() == n && res->Cols() == k, "product-wrong", cat("size ", res->Rows(), "x", res->Cols()));
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < k; ++j)
                    checkf(near((*res)(i, j), C[i][j], 1e-13, 1e-13), "product-wrong", [&] { return cat("(", i, ",", j, ") ", (*res)(i, j), " expected ", C[i][j]); });
            Matrix_<> e;
            check(throws([&] { Matrix::Multiply(a, Matrix_<>(m + 1, 2, 1.0), &e); }), "bad-size-accepted", "matrix product");
            if (n == m && n > 0) { // squaring onto itself
                Matrix_<> s = a;
                Matrix::Multiply(s, s, &s);
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j < n; ++j) {
                        long double w = 0;
                        for (int l = 0; l < n; ++l)
                            w += (long double)A[i][l] * A[l][j];
                        checkf(near(s(i, j), w, 1e-12, 1e-12), "product-wrong", [&] { return "square onto itself"; });
                    }
            }
            const V x = rndV(r, m), y = rndV(r, n);
            same(apply(r, x, [&](const Vector_<>& v, Vector_<>* o) { Matrix::Multiply(a, v, o); }), mul(A, x), 1e-13, "product-wrong", "matrix vector");
            same(apply(r, y, [&](const Vector_<>& v, Vector_<>* o) { Matrix::Multiply(v, a, o); }), mulT(A, y, m), 1e-13, "product-wrong", "vector matrix");
            Vector_<> o;
            check(throws([&] { Matrix::Multiply(a, Vector_<>(m + 1, 1.0), &o); }) && throws([&] { Matrix::Multiply(Vector_<>(n + 1, 1.0), a, &o); }), "bad-size-accepted",
                  "matrix and vector");
            long double w = 0;
            const V ax = mul(A, x);
            for (int i = 0; i < n; ++i)
                w += (long double)y[i] * ax[i];
            check(near(Matrix::WeightedInnerProduct(toDal(y), a, toDal(x)), w, 1e-12, 1e-12), "product-wrong", "weighted inner product");
            check(throws([&] { Matrix::WeightedInnerProduct(Vector_<>(n + 1, 1.0), a, toDal(x)); }), "bad-size-accepted", "weighted inner product");
            count("products", 6);
        }
        {
            // h + J J' in the upper half only
            const int p = r.range(1, 40), f = r.coin(0.1) ? 0 : r.range(1, 50);
            const M J = rnd(r, p, f), H = rnd(r, p, p);
            Matrix_<> h = toDal(H, p);
            Matrix::AddJSquaredToUpper(toDal(J, f), &h);
            for (int i = 0; i < p; ++i)
                for (int j = 0; j < p; ++j) {
                    long double w = H[i][j];
                    if (j >= i)
                        for (int l = 0; l < f; ++l)
                            w += (long double)J[i][l] * J[j][l];
                    checkf(near(h(i, j), w, 1e-12, 1e-12), "jsquared-wrong", [&] { return cat(p, "x", f, " (", i, ",", j, ") ", h(i, j), " expected ", (double)w); });
                }
            Matrix_<> bad(p + 1, p + 1);
            check(throws([&] { Matrix::AddJSquaredToUpper(toDal(J, f), &bad); }), "bad-size-accepted", "h of another size");
            count("jsquared");
        }
        {
            const int p = r.range(1, 10);
            M cov = spd(r, p);
            if (r.coin()) { // variables of very different sizes
                V scale(p);
                for (auto& x : scale)
                    x = std::pow(10.0, r.range(-9, 9));
                for (int i = 0; i < p; ++i)
                    for (int j = 0; j < p; ++j)
                        cov[i][j] *= scale[i] * scale[j];
            }
            Matrix_<> corr(r.range(0, 3), 1);
            const Vector_<> vol = Matrix::Vols(toDal(cov, p), &corr);
            for (int i = 0; i < p; ++i) {
                checkf(near(vol[i], std::sqrt(cov[i][i]), 0, 1e-14), "vols-wrong", [&] { return cat(vol[i]); });
                for (int j = 0; j < p; ++j)
                    checkf(near(corr(i, j), cov[i][j] / std::sqrt(cov[i][i] * cov[j][j]), 1e-14, 1e-13), "vols-wrong", [&] { return cat("correlation (", i, ",", j, ") ", corr(i, j)); });
            }
            check(throws([&] { Matrix::Vols(Matrix_<>(2, 3, 1.0)); }), "bad-size-accepted", "vols of a 2x3 matrix");
        }
        observed(cat(n, " ", m, " ", k, " ", S().caseNo), n * m * k > 0);
    });
    section("vectors", N(1500, 15000), [&](Rng& r) {
        const int n = r.size(1, 20, 2000);
        const V x = rndV(r, n), y = rndV(r, n);
        const double s = entry(r);
        desc(cat("vectors of ", n));
        const Vector_<> a = toDal(x), b = toDal(y);
        auto each = [&](const Vector_<>& got, auto f, const char* what) {
            check((int)got.size() == n, "vector-wrong", what);
            for (int i = 0; i < n; ++i)
                checkf(near(got[i], f(i), 1e-15, 1e-15), "vector-wrong", [&] { return cat(what, " [", i, "] ", got[i], " expected ", f(i)); });
        };
        each(a * s, [&](int i) { return x[i] * s; }, "v*s");
        each(s * a, [&](int i) { return x[i] * s; }, "s*v");
        each(a * b, [&](int i) { return x[i] * y[i]; }, "v*w");
        Vector_<> c = a;
        c += b;
        each(c, [&](int i) { return x[i] + y[i]; }, "v+=w");
        c = a, c -= b;
        each(c, [&](int i) { return x[i] - y[i]; }, "v-=w");
        c = a, c += s;
        each(c, [&](int i) { return x[i] + s; }, "v+=s");
        c = a, c -= s;
        each(c, [&](int i) { return x[i] - s; }, "v-=s");
        c = a, c *= s;
        each(c, [&](int i) { return x[i] * s; }, "v*=s");
        c = a, c += c;
        each(c, [&](int i) { return 2 * x[i]; }, "v+=v");
        long double ip = 0, l1 = 0, l2 = 0, mx = 0, my = 0;
        for (int i = 0; i < n; ++i) {
            ip += (long double)x[i] * y[i];
            l1 += std::fabs(x[i]);
            l2 += (long double)x[i] * x[i];
            mx += x[i];
            my += y[i];
        }
        mx /= n, my /= n;
        check(near(InnerProduct(a, b), ip, 1e-13, 1e-13), "vector-wrong", "inner product");
        check(near(Accumulate(a), mx * n, 1e-13, 1e-13), "vector-wrong", "sum");
        const auto n1 = Dal::Vector::L1Normalized(a), n2 = Dal::Vector::L2Normalized(a), ce = Dal::Vector::Centralized(a);
        long double cov = 0, vx = 0, vy = 0;
        for (int i = 0; i < n; ++i) {
            cov += (x[i] - mx) * (y[i] - my);
            vx += (x[i] - mx) * (x[i] - mx);
            vy += (y[i] - my) * (y[i] - my);
            if (l1 > 1e-3)
                check(near(n1[i], x[i] / l1, 1e-10, 1e-10) && near(n2[i], x[i] / sqrtl(l2), 1e-10, 1e-10), "vector-wrong", "normalized");
            check(near(ce[i], x[i] - mx, 1e-13, 1e-13), "vector-wrong", "centralized");
        }
        check(near(Dal::Vector::Covariance(a, b), cov / n, 1e-12, 1e-12), "vector-wrong", "covariance");
        if (vx > 1e-3 && vy > 1e-3)
            check(near(Dal::Vector::Correlation(a, b), cov / sqrtl(vx * vy), 1e-9, 1e-9), "vector-wrong", "correlation");
        check(throws([&] { Dal::Vector::Covariance(a, Vector_<>(n + 1, 1.0)); }), "bad-size-accepted", "covariance");
        observed(cat(n, " ", S().caseNo));
        count("vector-operations", 16);
    });
    section("cholesky", N(1200, 12000), [&](Rng& r) {
        const int n = sizeOf(r);
        const M A = spd(r, n);
        desc(cat("dense ", n, " first row ", A[0][0], " ..."));
        SquareMatrix_<> a = square(A);
        unique_ptr<Sparse::SymmetricDecomposition_> d(CholeskyDecomposition(a));
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                check(a(i, j) == A[i][j], "input-changed", "decomposition changed its argument");
        symmetric(r, *d, A, true);
        // the solver that overwrites its matrix
        const int k = r.range(0, 4);
        vector<V> rhs;
        Vector_<Vector_<>> b;
        for (int i = 0; i < k; ++i) {
            rhs.push_back(rndV(r, n));
            b.push_back(toDal(rhs.back()));
        }
        CholeskySolve(&a, &b);
        for (int i = 0; i < k; ++i)
            same(mul(A, out(b[i])), rhs[i], 1e-11 * n * (1 + norm(A)) * (1 + norm(out(b[i]))), "solve-wrong", "CholeskySolve");
        observed(S().caseDesc, n > 1);
        count("dense-factorizations");
    });
    section("triangular", N(1200, 12000), [&](Rng& r) {
        const int n = sizeOf(r);
        M L = rnd(r, n, n);
        M A(n, V(n, 0.0));
        for (int i = 0; i < n; ++i) {
            double s = 0;
            for (int j = 0; j < i; ++j)
                s += std::fabs(L[i][j]);
            L[i][i] = (r.uniform(0.5, 2) + s) * (r.coin() ? 1 : -1);
            for (int j = 0; j <= i; ++j)
                A[i][j] = L[i][j];
        }
        desc(cat("triangular ", n));
        // what lies above the diagonal does not matter
        unique_ptr<SquareMatrixDecomposition_> d(LowerTriangularAsDecomposition(square(r.coin() ? L : A)));
        decomposition(r, *d, A);
        M Z = A;
        const int z = r.below(n);
        Z[z][z] = 0;
        unique_ptr<SquareMatrixDecomposition_> s(LowerTriangularAsDecomposition(square(Z)));
        Vector_<> b(n, 1.0), o;
        check(throws([&] { s->SolveLeft(b, &o); }) && throws([&] { s->SolveRight(b, &o); }), "singular-accepted", cat("zero diagonal at ", z));
        M D(n, V(n, 0.0));
        for (int i = 0; i < n; ++i)
            D[i][i] = r.coin(0.2) ? -r.uniform(0.2, 3) : r.uniform(0.2, 3);
        Vector_<> diag;
        for (int i = 0; i < n; ++i)
            diag.push_back(D[i][i]);
        unique_ptr<SymmetricMatrixDecomposition_> g(DiagonalAsDecomposition(diag));
        decomposition(r, *g, D);
        Vector_<> pos = Apply([](double x) { return std::fabs(x); }, diag), c;
        unique_ptr<SymmetricMatrixDecomposition_> gp(DiagonalAsDecomposition(pos));
        const V w = rndV(r, n);
        const Vector_<> dw = toDal(w);
        gp->MakeCorrelated(dw.begin(), &c);
        for (int i = 0; i < n; ++i)
            check(near(c[i], std::sqrt(pos[i]) * w[i], 1e-14, 1e-14), "correlated-wrong", "diagonal");
        { // deviates of a negative variance
            Vector_<> neg = pos;
            neg[z] = -r.pick({1e-6, 0.01, 0.5, 3.0, 1e4});
            unique_ptr<SymmetricMatrixDecomposition_> gn(DiagonalAsDecomposition(neg));
            Vector_<> o3(n);
            check(throws([&] { gn->MakeCorrelated(dw.begin(), &o3); }), "indefinite-accepted", cat("variance ", neg[z], " on a diagonal"));
        }
        diag[z] = 0;
        unique_ptr<SymmetricMatrixDecomposition_> gz(DiagonalAsDecomposition(diag));
        Vector_<> o2(n);
        check(throws([&] { gz->Solve(b, &o2); }), "singular-accepted", "zero on a diagonal");
        observed(cat(n, " ", A[n - 1][0]), n > 1);
        count("triangular-factorizations");
    });
    section("banded", N(4000, 40000), [&](Rng& r) {
        const int n = sizeOf(r);
        const bool symm = r.coin();
        const int below = r.coin(0.4) ? 1 : r.range(0, 6), above = symm ? below : r.coin(0.4) ? 1 : r.range(0, 6);
        const bool tri = above <= 1 && below <= 1;
        const M A = symm ? spd(r, n, below) : dominant(r, n, above, below);
        desc(cat("banded ", n, " above ", above, " below ", below, symm ? " symmetric" : ""));
        bool sym = true;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                sym &= A[i][j] == A[j][i];
        unique_ptr<Sparse::Square_> s(sparse(r, A, above, below));
        check(s->Size() == n, "size", cat(s->Size()));
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                checkf((*s)(i, j) == A[i][j], "element-wrong", [&] { return cat("(", i, ",", j, ") ", (*s)(i, j), " expected ", A[i][j]); });
                const int over = tri ? 1 : above, under = tri ? 1 : below;
                if (j - i > over || i - j > under) {
                    check(throws([&] { s->Set(i, j, 1.0); }) && throws([&] { s->Add(i, j, 1.0); }), "out-of-band-accepted", cat("(", i, ",", j, ")"));
                    count("out-of-band");
                }
            }
        check(s->IsSymmetric() == sym, "symmetry-wrong", cat("said ", s->IsSymmetric()));
        const V x = rndV(r, n);
        const double tol = 1e-13 * n * (1 + norm(A));
        // multiplying onto the argument is right or refused
        auto mult = [&](bool left) {
            return [&, left](const Vector_<>& a, Vector_<>* b) { left ? s->MultiplyLeft(a, b) : s->MultiplyRight(a, b); };
        };
        same(apply(r, x, mult(true), false), mul(A, x), tol, "product-wrong", "A x");
        same(apply(r, x, mult(false), false), mulT(A, x, n), tol, "product-wrong", "x A");
        for (bool left : {true, false}) {
            Vector_<> a = toDal(x);
            if (!throws([&] { mult(left)(a, &a); }))
                same(out(a), left ? mul(A, x) : mulT(A, x, n), tol, "product-wrong", "onto its argument");
            Vector_<> o;
            check(throws([&] { mult(left)(Vector_<>(n + 1, 1.0), &o); }), "bad-size-accepted", "sparse product");
        }
        count("products", 4);
        if (tri || sym) {
            unique_ptr<SquareMatrixDecomposition_> d;
            const bool refused = throws([&] { d.reset(s->Decompose()); });
            if (tri || (symm && above == below)) {
                check(!refused, "good-matrix-refused", "decomposition");
                if (d) {
                    decomposition(r, *d, A);
                    unique_ptr<Sparse::SymmetricDecomposition_> sd(s->DecomposeSymmetric());
                    check((sd != nullptr) == sym, "symmetric-decomposition", cat("given: ", sd != nullptr));
                    if (sd)
                        symmetric(r, *sd, A, !tri);
                    count(tri ? sym ? "tri-symmetric" : "tri-general" : "banded-cholesky");
                }
            }
        } else
            check(throws([&] { delete s->Decompose(); }), "asymmetric-accepted", "band Cholesky of an asymmetric matrix");
        // no answer: a zero row or column; a zero pivot of a regular matrix is refused or got right
        if (tri) {
            M Zm = A;
            const int k = r.coin(0.5) ? 0 : r.below(n);
            const bool row = r.coin();
            for (int j = 0; j < n; ++j)
                (row ? Zm[k][j] : Zm[j][k]) = 0;
            unique_ptr<Sparse::Square_> z(sparse(r, Zm, 1, 1));
            check(throws([&] { delete z->Decompose(); }), "singular-accepted", cat("zero ", row ? "row " : "column ", k, " of ", n));
            count("singular");
            if (n > 1) {
                Zm = A;
                Zm[0][0] = 0;
                Zm[0][1] = 1.5, Zm[1][0] = symm ? 1.5 : -2;
                unique_ptr<Sparse::Square_> w(sparse(r, Zm, 1, 1));
                unique_ptr<SquareMatrixDecomposition_> d;
                if (!throws([&] { d.reset(w->Decompose()); }))
                    decomposition(r, *d, Zm);
                count("zero-pivots");
            }
        }
        // no answer: singular or indefinite
        if (tri && n > 1) {
            M Zm = A;
            const int k = r.below(n - 1);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    if ((i <= k + 1) && (j <= k + 1) && std::abs(i - j) <= 1)
                        Zm[i][j] = (i == j ? 2.0 - (i == 0) - (i == k + 1) : -1.0); // free chain: constants are in its kernel
            if (k + 2 < n)
                Zm[k + 1][k + 2] = Zm[k + 2][k + 1] = 0;
            if (n > 1 && above == 1 && below == 1) {
                unique_ptr<Sparse::Square_> z(sparse(r, Zm, 1, 1));
                check(throws([&] { delete z->Decompose(); }), "singular-accepted", cat("chain of ", k + 2, " of ", n));
                count("singular");
            }
        } else if (!tri && symm && n > 1) {
            M Zm = A;
            const int k = r.below(n);
            Zm[k][k] = -r.uniform(0.01, 1) * (1 + std::fabs(A[k][k]));
            unique_ptr<Sparse::Square_> z(sparse(r, Zm, above, below));
            check(throws([&] { delete z->Decompose(); }), "indefinite-accepted", cat("negative diagonal at ", k));
            count("indefinite");
        }
        observed(cat(S().caseDesc, A[0][0]), n > 1);
        sample(S().caseDesc);
    });
    section("iterative", N(2500, 25000), [&](Rng& r) {
        const int n = sizeOf(r);
        const int kind = r.range(0, 3); // 0 CG band, 1 CG full preconditioned, 2 BCG band, 3 BCG full preconditioned
        const int below = r.range(0, 4), above = kind == 0 ? below : r.range(0, 4);
        const M A = kind == 0 ? spd(r, n, below) : kind == 1 ? spd(r, n) : dominant(r, n, kind == 2 ? above : n, kind == 2 ? below : n);
        unique_ptr<Sparse::Square_> s;
        if (kind == 0 || kind == 2)
            s.reset(sparse(r, A, above, below));
        else
            s.reset(new Full_(A));
        const V exact = rndV(r, n);
        V b = r.coin(0.1) ? V(n, 0.0) : mul(A, exact);
        Vector_<> x(n, 0.0);
        const int start = r.range(0, 3);
        if (start == 1)
            x = toDal(rndV(r, n));
        else if (start == 2)
            x = toDal(exact); // already there
        const double rel = r.coin(0.3) ? 0 : r.pick({1e-4, 1e-8, 1e-10}), abs = rel == 0 ? r.pick({1e-3, 1e-9}) : r.coin() ? 0 : 1e-9;
        desc(cat(kind < 2 ? "CG" : "BCG", kind % 2 ? " preconditioned" : " band", " size ", n, " start ", start, " relative ", rel, " absolute ", abs));
        double nb = 0;
        for (double v : b)
            nb += v * v;
        const double target = rel * std::sqrt(nb) + abs;
        auto run = [&](Vector_<>* y, int iters) { kind < 2 ? Sparse::CGSolve(*s, toDal(b), rel, abs, iters, y) : Sparse::BCGSolve(*s, toDal(b), rel, abs, iters, y); };
        auto residual = [&](const Vector_<>& y) {
            const V ay = mul(A, out(y));
            double q = 0;
            for (int i = 0; i < n; ++i)
                q += (ay[i] - b[i]) * (ay[i] - b[i]);
            return std::sqrt(q);
        };
        const double drift = 1e-9 * (1 + norm(A)) * n * (1 + norm(exact));
        Vector_<> y = x;
        bool failed = throws([&] { run(&y, 40 * n + 400); });
        if (target > drift || (!failed)) {
            check(!failed, "no-convergence", cat("residual wanted ", target));
            if (!failed)
                check(residual(y) <= 1.001 * target + drift, "iterative-wrong", cat("residual ", residual(y), " wanted ", target));
        }
        // few iterations: either good enough or an error
        y = x;
        if (!throws([&] { run(&y, r.range(1, 4)); }))
            check(residual(y) <= 1.001 * target + drift, "iterative-wrong", cat("few iterations: residual ", residual(y), " wanted ", target));
        else
            count("exhausted");
        Vector_<> bad(n + 1, 1.0);
        check(throws([&] { run(&bad, 10); }), "bad-size-accepted", "iterative solver");
        check(throws([&] { Sparse::CGSolve(*s, toDal(b), 0, 0, 10, &y); }) && throws([&] { run(&y, 0); }), "bad-size-accepted", "no tolerance or no iterations");
        observed(cat(S().caseDesc, A[0][0]), start != 2);
        count("iterative-solves");
        if (start == 2 || (nb == 0 && start == 0))
            count("started-at-solution");
    });
})
