// P27: containers and generic algorithms against plain models.
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/ndarray.hpp>
#include <dal/math/stacks.hpp>
#include <dal/risk/report.hpp>
#include <dal/utilities/algorithms.hpp>
#include <dal/utilities/maps.hpp>
#include <dal/utilities/numerics.hpp>
#include <map>
#include <memory>
using namespace vh;
using namespace Dal;

// elements
template <class T> T elem(Rng& r);
template <> double elem<double>(Rng& r) { return r.range(-50, 50) * 0.5; }
template <> String_ elem<String_>(Rng& r) { return String_(string(r.range(0, 30), 'a' + r.range(0, 25)).c_str()); }

template <class T> struct Model {
    int rows = 0, cols = 0;
    vector<vector<T>> v;
    void size(int n, int m, const T& fill = T()) {
        vector<vector<T>> w(n, vector<T>(m, fill));
        for (int i = 0; i < std::min(n, rows); ++i)
            for (int j = 0; j < std::min(m, cols); ++j)
                w[i][j] = v[i][j];
        v.swap(w), rows = n, cols = m;
    }
};
template <class T> bool sameMatrix(const Matrix_<T>& m, const Model<T>& a, const char* what) {
    bool ok = m.Rows() == a.rows && m.Cols() == a.cols;
    checkf(ok, "matrix-size", [&] { return cat(what, " ", m.Rows(), "x", m.Cols(), " expected ", a.rows, "x", a.cols); });
    if (!ok)
        return false;
    ok = m.Empty() == (a.rows == 0 || a.cols == 0);
    check(ok, "matrix-empty", what);
    auto p = m.begin();
    for (int i = 0; i < a.rows; ++i) {
        const auto row = m.Row(i);
        ok &= (int)row.size() == a.cols;
        for (int j = 0; j < a.cols; ++j, ++p)
            ok &= m(i, j) == a.v[i][j] && row[j] == a.v[i][j] && m[i][j] == a.v[i][j] && *p == a.v[i][j];
    }
    ok &= p == m.end();
    for (int j = 0; j < a.cols; ++j) {
        const auto col = m.Col(j);
        ok &= (int)col.size() == a.rows;
        int i = 0;
        for (auto q = col.begin(); q != col.end() && i < a.rows; ++q, ++i)
            ok &= *q == a.v[i][j] && col[i] == a.v[i][j];
        ok &= i == a.rows;
    }
    check(ok, "matrix-elements", what);
    return ok;
}
template <class T> void matrices(Rng& r) {
    const int N_ = r.range(1, 3);
    vector<Matrix_<T>> m(N_);
    vector<Model<T>> a(N_);
    string log;
    const int steps = r.range(3, 25);
    bool nontrivial = false;
    for (int t = 0; t < steps; ++t) {
        const int i = r.below(N_), j = r.below(N_);
        const int n = r.coin(0.15) ? 0 : r.size(1, 6, 60, 0.02), c = r.coin(0.15) ? 0 : r.size(1, 6, 60, 0.02);
        const int op = r.range(0, 15);
        log += cat(" ", op, ":", i, ",", j, "(", n, "x", c, ")");
        desc("matrix history" + log);
        switch (op) {
        case 0: {
            const T f = elem<T>(r);
            m[i] = Matrix_<T>(n, c, f);
            a[i] = Model<T>();
            a[i].size(n, c, f);
            break;
        }
        case 1:
        case 2:
        case 3: {
            // to another size, or only the rows change
            const int rows = op == 2 ? std::max(0, a[i].rows + r.range(-1, 2)) : n, cols = op == 2 ? a[i].cols : c;
            m[i].Resize(rows, cols);
            a[i].size(rows, cols);
            break;
        }
        case 4:
            m[i] = m[j];
            a[i] = a[j];
            break;
        case 5:
            if (i != j) {
                m[i] = std::move(m[j]);
                a[i] = a[j];
                m[j].Clear();
                a[j] = Model<T>();
            }
            break;
        case 6: {
            Matrix_<T> x(m[i]);
            sameMatrix(x, a[i], "copy");
            Matrix_<T> y(std::move(x));
            sameMatrix(y, a[i], "moved copy");
            check(x.Empty() && x.Rows() == 0 && x.Cols() == 0, "moved-from", cat("moved-from matrix is ", x.Rows(), "x", x.Cols()));
            x = y;
            sameMatrix(x, a[i], "reassigned moved-from matrix");
            x.Resize(2, 3);
            sameMatrix(y, a[i], "copy after the other was resized");
            break;
        }
        case 7:
            m[i].Swap(&m[j]);
            std::swap(a[i], a[j]);
            break;
        case 8:
            m[i].Clear();
            a[i] = Model<T>();
            break;
        case 9: {
            const T f = elem<T>(r);
            m[i].Fill(f);
            for (auto& row : a[i].v)
                for (auto& x : row)
                    x = f;
            break;
        }
        case 10:
            m[i].swap(m[j]);
            std::swap(a[i], a[j]);
            break;
        case 11: {
            Matrix::Append(&m[i], m[j]);
            const Model<T> below = a[j];
            const int off = a[i].rows;
            a[i].size(off + below.rows, std::max(a[i].cols, below.cols));
            for (int k = 0; k < below.rows; ++k)
                for (int l = 0; l < below.cols; ++l)
                    a[i].v[off + k][l] = below.v[k][l];
            if (a[i].rows > 40)
                m[i].Resize(3, a[i].cols), a[i].size(3, a[i].cols);
            break;
        }
        case 12: {
            Model<T> b;
            b.size(a[i].cols, a[i].rows);
            for (int k = 0; k < a[i].rows; ++k)
                for (int l = 0; l < a[i].cols; ++l)
                    b.v[l][k] = a[i].v[k][l];
            m[j] = Matrix::MakeTranspose(m[i]);
            a[j] = b;
            break;
        }
        case 13: {
            // through vectors
            const bool byCols = r.coin();
            auto vv = Matrix::ToVectors(m[i], byCols);
            check((int)vv.size() == (byCols ? a[i].cols : a[i].rows), "to-vectors", cat(vv.size()));
            for (size_t k = 0; k < vv.size(); ++k)
                for (size_t l = 0; l < vv[k].size(); ++l)
                    check(vv[k][l] == (byCols ? a[i].v[l][k] : a[i].v[k][l]), "to-vectors", cat(k, " ", l));
            if (vv.size() && vv[0].size())
                sameMatrix(Matrix::FromVectors(vv, byCols, r.coin(), r.coin()), a[i], "from vectors");
            // ragged
            Vector_<Vector_<T>> rag(r.range(1, 4));
            size_t w = 0;
            for (auto& x : rag) {
                for (int k = r.range(0, 4); k > 0; --k)
                    x.push_back(elem<T>(r));
                w = std::max(w, x.size());
            }
            Model<T> b;
            b.size(byCols ? w : rag.size(), byCols ? rag.size() : w);
            for (size_t k = 0; k < rag.size(); ++k)
                for (size_t l = 0; l < rag[k].size(); ++l)
                    (byCols ? b.v[l][k] : b.v[k][l]) = rag[k][l];
            sameMatrix(Matrix::FromVectors(rag, byCols, r.coin(), true), b, "from ragged vectors");
            bool shorter = false, longer = false;
            for (auto& x : rag) {
                shorter |= x.size() < rag[0].size();
                longer |= x.size() > rag[0].size();
            }
            if (longer)
                check(throws([&] { Matrix::FromVectors(rag, byCols, r.coin(), false); }), "ragged-accepted", "a vector longer than the first");
            if (shorter)
                check(throws([&] { Matrix::FromVectors(rag, byCols, false, false); }), "ragged-accepted", "vectors of several lengths");
            count("ragged");
            break;
        }
        case 14: {
            auto f = [](const T& x) { return x + x; };
            auto g = [](const T& x, const T& y) { return x + y; };
            Matrix_<T> o(a[i].rows, a[i].cols), o2(a[i].rows, a[i].cols);
            Model<T> twice = a[i];
            for (auto& row : twice.v)
                for (auto& x : row)
                    x = x + x;
            Matrix::Transform(m[i], f, &o);
            sameMatrix(o, twice, "transform");
            if constexpr (!std::is_same_v<T, String_>)
                sameMatrix(Matrix::Apply(f, m[i]), twice, "apply");
            Matrix::Transform(m[i], m[i], g, &o2);
            sameMatrix(o2, twice, "transform of two");
            Matrix_<T> o3(a[i].rows, a[i].cols);
            Matrix::Copy(m[i], &o3);
            sameMatrix(o3, a[i], "copy elements");
            Matrix::Transform(&o3, m[i], g);
            sameMatrix(o3, twice, "transform with another");
            Matrix::Transform(&m[i], f);
            a[i] = twice;
            if constexpr (std::is_same_v<T, String_>)
                for (auto& row : a[i].v)
                    for (size_t l = 0; l < row.size(); ++l)
                        if (row[l].size() > 2000) {
                            row[l] = T();
                            m[i](&row - &a[i].v[0], l) = T();
                        }
            break;
        }
        default:
            // elements one by one, through rows and columns
            for (int k = r.range(1, 4); k > 0 && a[i].rows * a[i].cols > 0; --k) {
                const int p = r.below(a[i].rows), q = r.below(a[i].cols);
                const T e = elem<T>(r);
                switch (r.range(0, 4)) {
                case 0: m[i](p, q) = e; break;
                case 1: m[i].Row(p)[q] = e; break;
                case 2: m[i].Col(q)[p] = e; break;
                case 3: *(m[i].Row(p).begin() + q) = e; break;
                default: {
                    auto c = m[i].Col(q);
                    auto it = c.begin();
                    for (int s = 0; s < p; ++s)
                        ++it;
                    *it = e;
                }
                }
                a[i].v[p][q] = e;
            }
        }
        for (int k = 0; k < N_; ++k)
            if (!sameMatrix(m[k], a[k], "after the history"))
                return;
        nontrivial |= a[i].rows * a[i].cols > 1;
        count("matrix-steps");
    }
    observed(log, nontrivial);
}

template <class T, size_t D> void stacks(Rng& r) {
    const int n = r.range(1, 3);
    typedef Stack_<T, D> St;
    vector<std::unique_ptr<St>> s;
    vector<vector<T>> a(n);
    for (int i = 0; i < n; ++i)
        s.emplace_back(r.coin() ? new St() : new St(r.range(0, 5)));
    string log;
    size_t deepest = 0;
    for (int t = r.range(5, 60); t > 0; --t) {
        const int i = r.below(n), j = r.below(n), op = r.range(0, 11);
        log += cat(" ", op, ":", i, j);
        desc("stack history" + log);
        switch (op) {
        case 0:
        case 1:
        case 2:
            for (int k = r.coin(0.1) ? 200 : r.range(1, 6); k > 0; --k) {
                const T e = elem<T>(r);
                if (r.coin(0.2) && a[i].size()) {
                    s[i]->Push(s[i]->Top()); // its own element
                    a[i].push_back(a[i].back());
                } else {
                    s[i]->Push(e);
                    a[i].push_back(e);
                }
            }
            break;
        case 3:
        case 4:
            if (a[i].size()) {
                const T top = s[i]->TopAndPop();
                checkf(top == a[i].back(), "stack-top-and-pop", [&] { return "popped another element"; });
                a[i].pop_back();
            }
            break;
        case 5:
            if (a[i].size()) {
                s[i]->Pop();
                a[i].pop_back();
            }
            break;
        case 6: {
            const size_t k = r.below(a[i].size() + 1);
            s[i]->Pop(k);
            a[i].resize(a[i].size() - k);
            break;
        }
        case 7:
            r.coin() ? s[i]->Reset() : s[i]->Clear();
            a[i].clear();
            break;
        case 8:
            *s[i] = *s[j];
            a[i] = a[j];
            break;
        case 9:
            if (i != j) {
                *s[i] = std::move(*s[j]);
                a[i] = a[j];
                a[j].clear();
            }
            break;
        case 10:
            s[i].reset(new St(*s[j]));
            a[i] = a[j];
            break;
        default:
            if (a[i].size()) {
                const size_t k = r.below(a[i].size());
                const T e = elem<T>(r);
                (*s[i])[k] = e;
                a[i][a[i].size() - 1 - k] = e;
            }
        }
        for (int k = 0; k < n; ++k) {
            bool ok = s[k]->Size() == (int)a[k].size() && s[k]->IsEmpty() == a[k].empty() && s[k]->Capacity() >= s[k]->Size();
            if (ok && a[k].size()) {
                ok &= s[k]->Top() == a[k].back();
                auto it = const_cast<const St&>(*s[k]).begin();
                for (size_t l = 0; l < a[k].size(); ++l, ++it)
                    ok &= (*s[k])[l] == a[k][a[k].size() - 1 - l] && *it == a[k][a[k].size() - 1 - l];
                ok &= it == const_cast<const St&>(*s[k]).end();
            }
            check(ok, "stack-contents", "differs from what was pushed");
            if (!ok)
                return;
            deepest = std::max(deepest, a[k].size());
        }
        count("stack-steps");
    }
    observed(log, deepest > 1);
}
template <size_t D> void staticStack(Rng& r) {
    StaticStack_<double, D> s;
    vector<double> a;
    string log;
    for (int t = r.range(5, 60); t > 0; --t) {
        const int op = r.range(0, 7);
        log += cat(" ", op);
        desc("static stack history" + log);
        if (op < 4) {
            for (int k = r.range(1, (int)D); k > 0 && a.size() < D; --k) {
                const double e = elem<double>(r);
                s.Push(e);
                a.push_back(e);
            }
        } else if (a.size()) {
            if (op == 4) {
                s.Pop();
                a.pop_back();
            } else if (op == 5) {
                const int k = r.below(a.size() + 1);
                s.Pop(k);
                a.resize(a.size() - k);
            } else if (op == 6) {
                check(s.TopAndPop() == a.back(), "stack-top-and-pop", "static stack");
                a.pop_back();
            } else if (r.coin(0.2)) {
                s.Reset();
                a.clear();
            }
        }
        bool ok = s.Size() == a.size() && s.IsEmpty() == a.empty();
        for (size_t l = 0; ok && l < a.size(); ++l)
            ok &= s[l] == a[a.size() - 1 - l];
        check(ok && (a.empty() || s.Top() == a.back()), "stack-contents", "static stack");
        if (!ok)
            return;
        count("stack-steps");
    }
}

static void arrays(Rng& r) {
    const int d = r.range(1, 4);
    auto sizes = [&] {
        Vector_<int> s;
        for (int i = 0; i < d; ++i)
            s.push_back(r.coin(0.07) ? 0 : r.size(1, 4, 14, 0.03));
        return s;
    };
    auto total = [](const Vector_<int>& s) {
        int t = 1;
        for (int x : s)
            t *= x;
        return t;
    };
    auto each = [&](const Vector_<int>& s, auto f) {
        if (total(s) == 0)
            return;
        Vector_<int> at(s.size(), 0);
        for (;;) {
            f(at);
            int k = (int)s.size() - 1;
            while (k >= 0 && ++at[k] == s[k])
                at[k--] = 0;
            if (k < 0)
                return;
        }
    };
    typedef std::map<vector<int>, double> A;
    auto key = [](const Vector_<int>& v) { return vector<int>(v.begin(), v.end()); };
    Vector_<int> s = sizes();
    const double fill = elem<double>(r);
    ArrayN_<> x(s, fill);
    A a;
    each(s, [&](const Vector_<int>& at) { a[key(at)] = fill; });
    string log;
    for (int i = 0; i < d; ++i)
        log += cat(i ? "x" : " ", s[i]);
    for (int t = r.range(2, 12); t > 0; --t) {
        desc("array history" + log);
        bool ok = x.Sizes() == s && x.IsEmpty() == a.empty();
        check(ok, "array-size", "sizes or emptiness");
        each(s, [&](const Vector_<int>& at) {
            const ArrayN_<>& cx = x;
            if (!(cx[at] == a[key(at)]))
                ok = false;
        });
        check(ok, "array-elements", "differs from what was stored");
        if (!ok)
            return;
        switch (r.range(0, 5)) {
        case 0: {
            const Vector_<int> n = sizes();
            log += " resize ";
            for (int i = 0; i < d; ++i)
                log += cat(i ? "x" : "", n[i]);
            desc("array history" + log);
            x.Resize(n);
            A b;
            each(n, [&](const Vector_<int>& at) {
                auto p = a.find(key(at));
                b[key(at)] = p == a.end() ? 0.0 : p->second;
            });
            a = b, s = n;
            count("array-resizes");
            break;
        }
        case 1: {
            const double f = elem<double>(r);
            x.Fill(f);
            for (auto& kv : a)
                kv.second = f;
            break;
        }
        case 2:
            x *= 0.5;
            for (auto& kv : a)
                kv.second *= 0.5;
            break;
        case 3: {
            ArrayN_<> y(Vector_<int>({2, 2}), 1.0), z(x);
            z.Swap(&y);
            check(y.Sizes() == s && z.Sizes().size() == 2 && z[Vector_<int>({1, 1})] == 1.0, "array-swap", "");
            x = y;
            check(throws([&] { x.Resize(Vector_<int>(d + 1, 1)); }), "array-dimension", "resize to another dimension accepted");
            break;
        }
        case 4: {
            // with a vector: only when effectively one-dimensional
            int big = 0, ones = 0;
            for (int v : s)
                big = std::max(big, v), ones += v == 1;
            Vector_<> v(r.range(1, 5));
            for (auto& e : v)
                e = elem<double>(r);
            const Vector_<> keep = v;
            if (a.empty())
                break;
            if (big == total(s)) {
                x.Swap(&v);
                check(v.size() == a.size(), "array-swap", "with a vector");
                int at = 0;
                for (int i = d - 1; i >= 0; --i)
                    if (s[i] == big)
                        at = i;
                s[at] = keep.size();
                a.clear();
                int k = 0;
                each(s, [&](const Vector_<int>& w) { a[key(w)] = keep[k++]; });
                log += " swap-vector";
            } else
                check(throws([&] { x.Swap(&v); }) && v == keep, "array-swap", "a vector accepted by a multi-dimensional array");
            break;
        }
        default:
            if (total(s))
                for (int k = 0; k < 5; ++k) {
                    Vector_<int> at;
                    for (int i = 0; i < d; ++i)
                        at.push_back(r.below(s[i]));
                    x[at] = a[key(at)] = elem<double>(r);
                }
        }
        count("array-steps");
    }
    observed(log, a.size() > 1);
}
static void cubes(Rng& r) {
    int n[3] = {r.range(1, 4), r.range(1, 4), r.range(1, 4)};
    Cube_<double> c(n[0], n[1], n[2]);
    std::map<vector<int>, double> a;
    {
        Cube_<double> none; // nothing in it until it is given a size
        check(none.SizeI() == 0 && none.SizeJ() == 0 && none.SizeK() == 0, "cube-default", "a new cube is not empty");
        if (r.coin()) {
            none.Resize(n[0], n[1], n[2]);
            none.Swap(&c);
        }
    }
    {
        const double x = elem<double>(r);
        const SquareMatrix_<double> one = SquareMatrix::M1x1(x);
        check(one.Rows() == 1 && one.Cols() == 1 && one(0, 0) == x, "matrix-1x1", "");
    }
    string log = cat(n[0], "x", n[1], "x", n[2]);
    for (int t = r.range(1, 6); t > 0; --t) {
        desc("cube history " + log);
        for (int k = 0; k < 6; ++k) {
            const int i = r.below(n[0]), j = r.below(n[1]), l = r.below(n[2]);
            c(i, j, l) = a[{i, j, l}] = elem<double>(r);
        }
        bool ok = c.SizeI() == n[0] && c.SizeJ() == n[1] && c.SizeK() == n[2];
        const Cube_<double>& cc = c;
        for (int i = 0; i < n[0]; ++i)
            for (int j = 0; j < n[1]; ++j) {
                ok &= cc.SliceEnd(i, j) - cc.SliceBegin(i, j) == n[2];
                for (int l = 0; l < n[2]; ++l) {
                    auto p = a.find({i, j, l});
                    const double e = p == a.end() ? 0 : p->second;
                    ok &= cc(i, j, l) == e && cc.SliceBegin(i, j)[l] == e;
                }
            }
        check(ok, "cube-elements", "differs from what was stored");
        if (!ok)
            return;
        int m[3] = {r.range(1, 4), r.range(1, 4), r.range(1, 4)};
        c.Resize(m[0], m[1], m[2]);
        std::map<vector<int>, double> b;
        for (auto& kv : a)
            if (kv.first[0] < m[0] && kv.first[1] < m[1] && kv.first[2] < m[2])
                b.insert(kv);
        a = b;
        std::copy(m, m + 3, n);
        log += cat(" resize ", n[0], "x", n[1], "x", n[2]);
        count("array-resizes");
    }
    observed(log);
}

static void reports(Rng& r) {
    const int d = r.range(1, 4);
    Vector_<Report::Axis_> axes(d);
    vector<int> size(d);
    vector<string> names;
    string log;
    for (int i = 0; i < d; ++i) {
        names.push_back(string(1, 'a' + i * 6 + r.range(0, 5)) + "xis");
        axes[i].name_ = String_(names[i].c_str());
        axes[i].size_ = size[i] = i == 0 && r.coin(0.2) ? 0 : r.size(1, 4, 25, 0.03);
        for (int k = r.range(0, 3); k > 0; --k)
            axes[i].labels_.push_back(String_(cat("label", k).c_str()));
        log += cat(i ? "x" : " ", size[i]);
    }
    desc("report" + log);
    Report_ x("", axes);
    std::map<vector<int>, double> a;
    vector<std::map<int, double>> head(d);
    vector<int> headRows(size);
    auto address = [&](const vector<int>& at) {
        auto o = x.MakeAddress();
        for (int i = 0; i < d; ++i)
            o[String_(names[i].c_str())] = at[i];
        return o;
    };
    check(throws([&] { x.Size("nothing"); }) && throws([&] { x.MakeAddress()["nothing"]; }), "report-axis", "an axis that does not exist");
    for (int t = r.range(4, 25); t > 0; --t) {
        vector<int> at(d);
        for (int i = 0; i < d; ++i)
            at[i] = i == 0 ? r.range(0, 6) : r.below(size[i]);
        if (r.coin(0.2)) { // outside
            const int i = r.below(d);
            if (d > 1 && i > 0 && r.coin(0.7))
                at[i] = size[i] + r.range(0, 3);
            else
                at[i] = -r.range(1, 2);
            const auto where = address(at);
            check(throws([&] { x[where] = 1; }), "report-outside", "an index outside its axis is accepted");
            check(throws([&] { (void)const_cast<const Report_&>(x)[where]; }), "report-outside", "an index outside its axis is accepted for reading");
        } else if (r.coin(0.6)) {
            x[address(at)] = a[at] = elem<double>(r);
            size[0] = std::max(size[0], at[0] + 1);
            log += cat(" set", at[0]);
        } else if (at[0] >= size[0]) {
            const auto where = address(at);
            check(throws([&] { (void)const_cast<const Report_&>(x)[where]; }), "report-outside", "beyond the first axis is accepted for reading");
        }
        if (r.coin(0.3)) {
            const int i = r.below(d), row = r.range(0, 5);
            Vector_<Cell_> cells;
            const double e = elem<double>(r);
            for (size_t k = 0; k < axes[i].labels_.size(); ++k)
                cells.push_back(Cell_(e + k));
            x.AddHeaderRow(axes[i].name_, row, cells);
            head[i][row] = e;
            headRows[i] = std::max(headRows[i], row + 1);
            cells.push_back(Cell_(1.0));
            check(throws([&] { x.AddHeaderRow(axes[i].name_, row, cells); }), "report-header", "a header row of another width is accepted");
        }
        desc("report" + log);
        bool ok = true;
        for (int i = 0; i < d; ++i) {
            ok &= x.Size(axes[i].name_) == size[i];
            const auto& h = x.Header(axes[i].name_);
            ok &= h.labels_ == axes[i].labels_;
            if (axes[i].labels_.size()) {
                ok &= h.values_.Rows() == headRows[i];
                for (int k = 0; ok && k < headRows[i]; ++k)
                    for (int l = 0; l < h.values_.Cols(); ++l)
                        ok &= head[i].count(k) ? Cell::IsDouble(h.values_(k, l)) && Cell::ToDouble(h.values_(k, l)) == head[i][k] + l : Cell::IsEmpty(h.values_(k, l));
            }
        }
        check(ok, "report-shape", "sizes or headers");
        vector<int> p(d, 0);
        for (ok = true; size[0] > 0;) {
            auto f = a.find(p);
            ok &= const_cast<const Report_&>(x)[address(p)] == (f == a.end() ? 0.0 : f->second);
            int k = d - 1;
            while (k >= 0 && ++p[k] == size[k])
                p[k--] = 0;
            if (k < 0)
                break;
        }
        check(ok, "report-elements", "differs from what was stored");
        if (!ok)
            return;
        count("report-steps");
    }
    observed(log, a.size() > 1);
}

// table layouts
struct Tab {
    int rows = 0, cols = 0;
    vector<vector<int>> v; // -1: untouched or empty
    Tab(int n = 0, int m = 0) : rows(n), cols(m), v(n, vector<int>(m, -1)) {}
};
struct Fmt {
    string text;
    Tab t;
    int level; // 0 atom; lists by how loosely their separator binds
};
static Fmt format(Rng& r, const vector<Tab>& args, int depth) {
    auto join = [&](bool vertical, bool justify, const vector<Tab>& e) {
        int n = 0, m = 0;
        for (auto& x : e) {
            n = vertical ? n + x.rows : std::max(n, x.rows);
            m = vertical ? std::max(m, x.cols) : m + x.cols;
        }
        Tab o(n, m);
        int at = 0;
        for (auto& x : e) {
            for (int i = 0; i < x.rows; ++i)
                for (int j = 0; j < x.cols; ++j)
                    if (vertical)
                        o.v[at + i][j + (justify ? m - x.cols : 0)] = x.v[i][j];
                    else
                        o.v[i + (justify ? n - x.rows : 0)][at + j] = x.v[i][j];
            at += vertical ? x.rows : x.cols;
        }
        return o;
    };
    const int k = depth <= 0 ? 0 : r.range(0, 6);
    if (k == 0) {
        const int d = r.range(0, 9);
        Tab t = d == 0 ? Tab(1, 1) : d <= (int)args.size() ? args[d - 1] : Tab();
        return {string(1, '0' + d), t, 0};
    }
    if (k <= 3) {
        Fmt b = format(r, args, depth - 1);
        string s = b.level > 0 || r.coin(0.2) ? "(" + b.text + ")" : b.text;
        if (k == 1) {
            Tab o(b.t.cols, b.t.rows);
            for (int i = 0; i < b.t.rows; ++i)
                for (int j = 0; j < b.t.cols; ++j)
                    o.v[j][i] = b.t.v[i][j];
            return {s + (r.coin() ? "T" : "t"), o, 0};
        }
        if (k == 2) {
            Tab o(b.t.rows, b.t.cols);
            for (int i = 0; i < b.t.rows; ++i)
                for (int j = 0; j < b.t.cols; ++j)
                    o.v[b.t.rows - 1 - i][b.t.cols - 1 - j] = b.t.v[i][j];
            return {s + (r.coin() ? "I" : "i"), o, 0};
        }
        Tab o(1, b.t.rows * b.t.cols);
        for (int i = 0; i < b.t.rows; ++i)
            for (int j = 0; j < b.t.cols; ++j)
                o.v[0][i * b.t.cols + j] = b.t.v[i][j];
        return {s + "*", o, 0};
    }
    const char sep = r.pick({',', ';', '.', ':'});
    const int level = sep == ',' ? 1 : sep == '.' ? 2 : sep == ';' ? 3 : 4;
    vector<Tab> e;
    string s;
    for (int i = r.range(2, 4); i > 0; --i) {
        Fmt b = format(r, args, depth - 1);
        if (s.size())
            s += sep;
        // a list of a tighter separator needs no brackets
        s += b.level >= level || (b.level > 0 && r.coin()) ? "(" + b.text + ")" : b.text;
        e.push_back(b.t);
    }
    return {s, join(sep == ';' || sep == ':', sep == '.' || sep == ':', e), level};
}

VH_MAIN([] {
    section("matrix", N(2500, 25000), [&](Rng& r) { r.coin() ? matrices<double>(r) : matrices<String_>(r); });
    section("stack", N(3000, 30000), [&](Rng& r) {
        switch (r.range(0, 5)) {
        case 0: return stacks<double, 4>(r);
        case 1: return stacks<double, 1>(r);
        case 2: return stacks<String_, 2>(r);
        case 3: return stacks<String_, 8>(r);
        case 4: return staticStack<8>(r);
        default: return staticStack<128>(r);
        }
    });
    section("array", N(2500, 25000), [&](Rng& r) { r.coin(0.7) ? arrays(r) : cubes(r); });
    section("report", N(800, 8000), [&](Rng& r) { reports(r); });
    section("format", N(4000, 40000), [&](Rng& r) {
        vector<Tab> args;
        vector<Matrix_<Cell_>> tabs;
        int next = 0;
        for (int k = r.range(1, 4); k > 0; --k) {
            Tab t(r.range(1, 4), r.range(1, 4));
            Matrix_<Cell_> m(t.rows, t.cols);
            for (int i = 0; i < t.rows; ++i)
                for (int j = 0; j < t.cols; ++j)
                    m(i, j) = Cell_((double)(t.v[i][j] = next++));
            args.push_back(t);
            tabs.push_back(m);
        }
        Vector_<const Matrix_<Cell_>*> p;
        for (auto& t : tabs)
            p.push_back(&t);
        const Fmt f = format(r, args, r.range(0, 4));
        desc("format " + f.text);
        Matrix_<Cell_> got;
        string err;
        const bool none = f.t.rows * f.t.cols == 0;
        const bool threw = throws([&] { got = Matrix::Format(p, String_(f.text.c_str())); }, &err);
        check(threw == none, "format-refused", threw ? err.substr(0, 200) : "nothing to output, yet accepted");
        if (!threw && !none) {
            bool ok = got.Rows() == f.t.rows && got.Cols() == f.t.cols;
            for (int i = 0; ok && i < f.t.rows; ++i)
                for (int j = 0; ok && j < f.t.cols; ++j)
                    ok &= f.t.v[i][j] < 0 ? Cell::IsEmpty(got(i, j)) : Cell::IsDouble(got(i, j)) && Cell::ToDouble(got(i, j)) == f.t.v[i][j];
            check(ok, "format-layout", "cells differ from the layout the format describes");
            count("formats");
        }
        observed(f.text, !none);
    });
    section("algorithms", N(3000, 30000), [&](Rng& r) {
        const int n = r.coin(0.15) ? r.range(0, 1) : r.size(2, 12, 300), m = r.coin(0.5) ? n : r.range(0, 12);
        vector<double> x(n), y(m);
        for (auto& e : x)
            e = r.range(-4, 4);
        for (auto& e : y)
            e = r.range(-4, 4);
        desc(cat("vectors of ", n, " and ", m));
        const Vector_<> a(x.begin(), x.end()), b(y.begin(), y.end());
        auto eq = [&](const Vector_<>& g, const vector<double>& w, const char* what) { check(vector<double>(g.begin(), g.end()) == w, "algorithm-wrong", what); };
        auto plus = [](double p, double q) { return p + 2 * q; };
        auto neg = [](double p) { return 1 - p; };
        vector<double> w;
        for (double e : x)
            w.push_back(1 - e);
        eq(Apply(neg, a), w, "apply");
        Vector_<> o(n), t = a;
        Transform(a, neg, &o);
        eq(o, w, "transform");
        Transform(&t, neg);
        eq(t, w, "transform in place");
        Vector_<> bad(n + 1);
        check(throws([&] { Transform(a, neg, &bad); }) && throws([&] { Copy(a, &bad); }) && throws([&] { Transform(&bad, a, plus); }) &&
                  throws([&] { Transform(a, a, plus, &bad); }) && throws([&] { Apply(plus, a, bad); }),
              "algorithm-size-accepted", "a destination of another size");
        if (n == m) {
            vector<double> z;
            for (int i = 0; i < n; ++i)
                z.push_back(x[i] + 2 * y[i]);
            eq(Apply(plus, a, b), z, "apply to two");
            Vector_<> q(n), s = a;
            Transform(a, b, plus, &q);
            eq(q, z, "transform two");
            Transform(&s, b, plus);
            eq(s, z, "transform with another");
            auto zip = Zip(a, b);
            bool ok = zip.size() == (size_t)n;
            for (int i = 0; ok && i < n; ++i)
                ok &= zip[i].first == x[i] && zip[i].second == y[i];
            check(ok, "algorithm-wrong", "zip");
            auto mm = ZipToMap(a, b);
            std::map<double, double> ref;
            for (int i = 0; i < n; ++i)
                ref.insert({x[i], y[i]});
            check(mm == ref, "algorithm-wrong", "zip to map");
            auto mu = ZipToMultimap(a, b);
            check(mu.size() == (size_t)n, "algorithm-wrong", "zip to multimap");
            vector<double> ks, vs;
            for (auto& kv : ref) {
                ks.push_back(kv.first);
                vs.push_back(kv.second);
            }
            eq(Keys(mm), ks, "keys");
            eq(MapValues(mm), vs, "values");
        } else
            check(throws([&] { ZipToMap(a, b); }) && throws([&] { ZipToMultimap(a, b); }) && throws([&] { Zip(a, b); }), "algorithm-size-accepted", "zip");
        auto xy = x;
        xy.insert(xy.end(), y.begin(), y.end());
        eq(Concatenate(a, b), xy, "concatenate");
        eq(Dal::Vector::Join(a, b), xy, "join");
        Vector_<> app = a;
        app.Append(b);
        eq(app, xy, "append");
        app = a;
        app.Append(b.begin(), b.end());
        eq(app, xy, "append range");
        auto rev = x;
        std::reverse(rev.begin(), rev.end());
        eq(Reverse(a), rev, "reverse");
        eq(Copy(a), x, "copy");
        vector<double> fl;
        for (double e : x)
            if (e > 0)
                fl.push_back(e);
        eq(Filter(a, [](double e) { return e > 0; }), fl, "filter");
        auto un = x;
        std::sort(un.begin(), un.end());
        un.erase(std::unique(un.begin(), un.end()), un.end());
        eq(Unique(a), un, "unique");
        auto desc_ = un;
        std::reverse(desc_.begin(), desc_.end());
        eq(Unique(a, std::greater<double>()), desc_, "unique, descending");
        const Vector_<> su(un.begin(), un.end());
        for (double q = -5; q <= 5; q += 0.5) {
            check(LowerBound(su, q) - su.begin() == std::lower_bound(un.begin(), un.end(), q) - un.begin() &&
                      UpperBound(su, q) - su.begin() == std::upper_bound(un.begin(), un.end(), q) - un.begin() &&
                      BinarySearch(su, q) == (std::find(un.begin(), un.end(), q) != un.end()),
                  "algorithm-wrong", "bounds");
        }
        if (n) {
            check(*MaxElement(a) == un.back() && *MinElement(a) == un.front(), "algorithm-wrong", "extreme elements");
            check(Next(a.begin()) == a.begin() + 1 && Previous(a.end()) == a.begin() + (n - 1), "algorithm-wrong", "next");
        }
        bool inc = true, ninc = true, pos = true;
        for (int i = 0; i < n; ++i) {
            if (i) {
                inc &= x[i - 1] < x[i];
                ninc &= x[i - 1] <= x[i];
            }
            pos &= x[i] > 0;
        }
        check(IsMonotonic(a) == inc && IsMonotonic(a, std::less_equal<double>()) == ninc && IsMonotonic(su), "algorithm-wrong", "monotonic");
        check(AllOf(a, [](double e) { return e > 0; }) == pos, "algorithm-wrong", "all of");
        { // ascending but for one place
            const int len = r.size(2, 30, 400);
            vector<double> up(len);
            for (int i = 0; i < len; ++i)
                up[i] = i + 0.5 * r.unit();
            check(IsMonotonic(Vector_<>(up.begin(), up.end())), "algorithm-wrong", cat("monotonic, ", len));
            const int at = r.pick({1, len - 1, r.range(1, len - 1)});
            up[at] = up[at - 1] - (r.coin() ? 0.0 : 0.25);
            check(!IsMonotonic(Vector_<>(up.begin(), up.end())), "algorithm-wrong", cat("monotonic, ", len, " but for ", at));
            check(IsMonotonic(Vector_<>(up.begin(), up.end()), std::less_equal<double>()) == (up[at] == up[at - 1]), "algorithm-wrong", cat("not descending, ", len, " but for ", at));
        }
        check((a == b) == (x == y) && (a != b) == (x != y) && a == Vector_<>(a), "algorithm-wrong", "equality");
        Vector_<> f = a;
        Fill(&f, 2.5);
        eq(f, vector<double>(n, 2.5), "fill");
        Vector_<> sw = a, sw2 = b;
        sw.Swap(&sw2);
        eq(sw, y, "swap");
        eq(sw2, x, "swap");
        sw.Assign(a.begin(), a.end());
        eq(sw, x, "assign");
        sw.Resize(n + 3);
        auto grown = x;
        grown.resize(n + 3);
        eq(sw, grown, "resize");
        if (n && n == m) {
            long double mx = 0, my = 0, xy_ = 0, xx = 0, yy = 0, in = 0, l1 = 0, l2 = 0;
            for (int i = 0; i < n; ++i)
                mx += x[i], my += y[i], in += (long double)x[i] * y[i], l1 += std::fabs(x[i]), l2 += (long double)x[i] * x[i];
            mx /= n, my /= n;
            for (int i = 0; i < n; ++i)
                xy_ += (x[i] - mx) * (y[i] - my), xx += (x[i] - mx) * (x[i] - mx), yy += (y[i] - my) * (y[i] - my);
            check(InnerProduct(a, b) == (double)in && near(Accumulate(a), mx * n, 1e-12, 1e-12), "algorithm-wrong", "inner product, sum");
            check(near(Dal::Vector::Covariance(a, b), xy_ / n, 1e-12, 1e-12), "algorithm-wrong", "covariance");
            if (xx > 0 && yy > 0)
                check(near(Dal::Vector::Correlation(a, b), xy_ / std::sqrt(xx * yy), 1e-11, 1e-11), "algorithm-wrong", "correlation");
            const auto n1 = Dal::Vector::L1Normalized(a), n2 = Dal::Vector::L2Normalized(a), ce = Dal::Vector::Centralized(a);
            bool good = true;
            for (int i = 0; i < n; ++i)
                good &= near(ce[i], x[i] - mx, 1e-12, 1e-12) && (l1 == 0 || (near(n1[i], x[i] / l1, 1e-12, 1e-12) && near(n2[i], x[i] / std::sqrt(l2), 1e-12, 1e-12)));
            check(good, "algorithm-wrong", "normalized or centred vector");
            Vector_<> p = a, q = a, u = a, v = a;
            p += b, q -= b, u *= 2.0, v += 0.5;
            const auto pr = a * b, sc = 3.0 * a;
            for (int i = 0; i < n; ++i)
                good &= p[i] == x[i] + y[i] && q[i] == x[i] - y[i] && u[i] == 2 * x[i] && v[i] == x[i] + 0.5 && pr[i] == x[i] * y[i] && sc[i] == 3 * x[i];
            v -= 0.5;
            check(good && v == a, "algorithm-wrong", "vector arithmetic");
        }
        const auto up = Dal::Vector::UpTo(n);
        bool ok = (int)up.size() == n;
        for (int i = 0; ok && i < n; ++i)
            ok &= up[i] == i;
        check(ok, "algorithm-wrong", "up to");
        const size_t pts = r.range(0, 9);
        const double lo = r.range(-5, 5), hi = lo + r.range(0, 5);
        const auto xr = Dal::Vector::XRange(lo, hi, pts);
        ok = xr.size() == pts;
        for (size_t i = 0; ok && i < pts; ++i)
            ok &= pts == 1 ? xr[0] == lo || xr[0] == hi : near(xr[i], lo + (hi - lo) * i / (pts - 1), 1e-14, 1e-14);
        check(ok && (pts < 2 || (xr.front() == lo && xr.back() == hi)), "algorithm-wrong", "range");
        const auto xi = Dal::Vector::XRange<int>(0, 10 * ((int)pts - 1), pts);
        check(xi.size() == pts && (pts < 2 || xi[1] == 10), "algorithm-wrong", "integer range");
        observed(cat(n, " ", m, " ", S().caseNo), n > 1);
        count("algorithms", 40);
    });
})
