// P19: random generators and the Brownian bridge.
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <public/src/random.hpp>
#include <dal/math/random/brownianbridge.hpp>
#include <dal/math/random/pseudorandom.hpp>
using namespace vh;
using namespace Dal;
typedef unsigned __int128 u128;
using std::unique_ptr;

static double ncdf(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
static double npdf(double z) { return std::exp(-0.5 * z * z) / std::sqrt(2 * M_PI); }

// L'Ecuyer's combined generator in integers, with a jump computed by matrix powers
struct Mrg {
    static constexpr u64 M1 = 4294967087ull, M2 = 4294944443ull;
    u64 x[3], y[3];
    explicit Mrg(unsigned a, unsigned b) {
        for (int i = 0; i < 3; ++i) {
            x[i] = a % M1;
            y[i] = b % M2;
        }
    }
    double next() {
        const u64 p = (u64)(((u128)1403580 * x[1] + (u128)(M1 - 810728) * x[2]) % M1);
        const u64 q = (u64)(((u128)527612 * y[0] + (u128)(M2 - 1370589) * y[2]) % M2);
        x[2] = x[1], x[1] = x[0], x[0] = p;
        y[2] = y[1], y[1] = y[0], y[0] = q;
        return (p > q ? double(p - q) : double(M1 + p - q)) / 4294967088.0;
    }
    typedef std::array<std::array<u64, 3>, 3> Mat;
    static Mat mul(const Mat& a, const Mat& b, u64 m) {
        Mat c;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) {
                u128 s = 0;
                for (int k = 0; k < 3; ++k)
                    s += (u128)a[i][k] * b[k][j] % m;
                c[i][j] = (u64)(s % m);
            }
        return c;
    }
    static void jump(Mat a, u64 n, u64 m, u64* s) {
        while (n) {
            if (n & 1) {
                u64 t[3];
                for (int i = 0; i < 3; ++i)
                    t[i] = (u64)(((u128)a[i][0] * s[0] % m + (u128)a[i][1] * s[1] % m + (u128)a[i][2] * s[2] % m) % m);
                std::copy(t, t + 3, s);
            }
            a = mul(a, a, m);
            n >>= 1;
        }
    }
    void skip(u64 n) {
        Mat A = {{{0, 1403580, M1 - 810728}, {1, 0, 0}, {0, 1, 0}}}, B = {{{527612, 0, M2 - 1370589}, {1, 0, 0}, {0, 1, 0}}};
        jump(A, n, M1, x);
        jump(B, n, M2, y);
    }
};

// Knuth's additive generator with lags 55 and 31 and 30 bits, shuffled through a table of 128
struct Irn {
    vector<unsigned> state, table; // state: the last 55 numbers, oldest first
    explicit Irn(int seed) {
        vector<unsigned> init(1, (unsigned)seed);
        while (init.size() < 55)
            init.push_back(((17u * init.back()) & 0x3fffffffu) ^ 0x1F2E3D4Cu);
        state.assign(init.rbegin(), init.rend());
        for (int i = 0; i < 128; ++i)
            table.push_back(raw());
    }
    unsigned raw() {
        const size_t n = state.size();
        const unsigned v = (state[n - 55] + state[n - 31]) & 0x3fffffffu;
        state.push_back(v);
        return v;
    }
    double next() {
        const unsigned v = raw();
        const unsigned o = table[v % 128];
        table[v % 128] = v;
        return (o + 0.5) / 1073741824.0;
    }
};

static unique_ptr<PseudoRandom_> make(Rng& r, const string& type, int seed, int dim, bool precise) {
    return unique_ptr<PseudoRandom_>(New(RNGType_(String_(type.c_str())), seed, dim, precise));
}
static string typeOf(Rng& r) { return r.coin() ? "MRG32" : "IRN"; }
static int seedOf(Rng& r) {
    switch (r.range(0, 5)) {
    case 0: return r.range(0, 3);
    case 1: return r.range(-5, -1);
    case 2: return 2147483647 - r.range(0, 2);
    default: return r.range(1, 1000000);
    }
}
static vector<double> fill(Random_& g, bool normal, int dim) {
    Vector_<> v(dim);
    normal ? g.FillNormal(&v) : g.FillUniform(&v);
    return vector<double>(v.begin(), v.end());
}
// records what the bridge asks for and gives chosen numbers
struct Unit_ : Random_ {
    vector<double> next;
    size_t* skipped;
    long* calls;
    Unit_(const vector<double>& n, size_t* s, long* c) : next(n), skipped(s), calls(c) {}
    void FillUniform(Vector_<>* d) override {
        for (size_t i = 0; i < next.size(); ++i)
            (*d)[i] = ncdf(next[i]);
    }
    void FillNormal(Vector_<>* d) override {
        ++*calls;
        d->Resize(next.size());
        for (size_t i = 0; i < next.size(); ++i)
            (*d)[i] = next[i];
    }
    void SkipTo(size_t n) override { *skipped = n; }
    Random_* Clone() const override { return new Unit_(next, skipped, calls); }
    size_t NDim() const override { return next.size(); }
};

// seeds for which the two components of the combined generator meet, or nearly, early on: the ends of the unit interval
static const int meet[][2] = {{-1407388609, 0}, {-1569353974, 0}, {-1731319339, 0}, {-1108798505, 1}, {429058324, 1}, {538586046, 1},
        {-231193318, 2}, {-1730206736, 3}, {522438766, 3}, {-1937982359, 4}, {1411184669, 4}, {288472198, 4}, {-2099627519, 6}, {-1924569969, 6},
        {1607822362, 6}, {-1598704576, 7}, {1450230687, 7}, {-310157922, 9}, {786966458, 9}, {41785452, 9}, {1038588849, 10}, {1481937948, 11}, {1480774356, 11}};

VH_MAIN([] {
    // the numbers of path k are the same whether the paths before were generated, skipped or served to a copy
    section("skip", N(3000, 30000), [&](Rng& r) {
        const string type = typeOf(r);
        const int dim = r.coin(0.1) ? r.pick({0, 1, 55, 128, 129}) : r.range(1, 12), seed = seedOf(r), n = r.range(1, 40);
        const bool normal = r.coin(), precise = r.coin(), bridge = r.coin(0.3);
        auto raw = make(r, type, seed, dim, precise);
        unique_ptr<Random_> g;
        if (bridge)
            g.reset(new BrownianBridge_(unique_ptr<Random_>(raw.release())));
        else
            g.reset(raw.release());
        desc(cat(type, " seed ", seed, " dimension ", dim, normal ? " normal" : " uniform", precise ? " precise" : "", bridge ? " bridge" : "", " paths ", n));
        check((int)g->NDim() == dim, "dimension", cat("NDim ", g->NDim()));
        unique_ptr<Random_> fresh(g->Clone());
        vector<vector<double>> path;
        for (int k = 0; k < n; ++k) {
            // a copy taken here must continue as the original does
            unique_ptr<Random_> c;
            if (r.coin(0.2))
                c.reset(g->Clone());
            path.push_back(fill(*g, normal, dim));
            if (c) {
                unique_ptr<Random_> cc(c->Clone());
                check(fill(*c, normal, dim) == path.back() && fill(*cc, normal, dim) == path.back(), "copy-differs", cat("copy before path ", k));
                const auto next = fill(*c, normal, dim);
                unique_ptr<Random_> o(g->Clone());
                check(fill(*o, normal, dim) == next, "copy-differs", cat("second path of a copy before path ", k));
                check(fill(*cc, normal, dim) == next, "copy-affected-by-other", cat("second copy before path ", k));
                count("copies", 2);
            }
            for (double u : path.back())
                check(normal ? std::isfinite(u) && std::fabs(u) < 9 : u > 0 && u < 1, "out-of-range", cat(u));
        }
        for (int t = 0; t < 6; ++t) {
            const int k = t == 0 ? 0 : r.below(n);
            unique_ptr<Random_> c;
            Random_* s = fresh.get();
            if (r.coin()) {
                c.reset(r.coin() ? g->Clone() : fresh->Clone());
                s = c.get();
            }
            s->SkipTo(k);
            unique_ptr<Random_> copy;
            if (r.coin(0.3)) {
                copy.reset(s->Clone());
                s = copy.get();
                count("copies-after-skip");
            }
            for (int j = k; j < n; ++j)
                if (fill(*s, normal, dim) != path[j]) {
                    check(false, "skip-differs", cat("skipped to ", k, ", path ", j, " differs"));
                    break;
                }
            count("skips");
        }
        observed(S().caseDesc, dim > 0);
        sample(S().caseDesc);
    });

    // the public functions hand out successive paths, one per row
    section("public", N(800, 8000), [&](Rng& r) {
        const string type = typeOf(r);
        const int dim = r.range(1, 10), seed = seedOf(r);
        desc(cat(type, " seed ", seed, " dimension ", dim));
        const auto rsg = NewPseudoRSG(String_(type), seed, dim);
        unique_ptr<PseudoRandom_> g(New(RNGType_(String_(type)), seed, dim, false));
        check((int)rsg->NDim() == dim, "dimension", cat("public NDim ", rsg->NDim()));
        for (int t = r.range(1, 4); t > 0; --t) {
            const int n = r.range(0, 12);
            const bool normal = r.coin();
            Matrix_<> m(r.range(0, 3), r.range(0, 3));
            normal ? GetPseudoRSGNormal(rsg, n, &m) : GetPseudoRSGUniform(rsg, n, &m);
            check(m.Rows() == n && m.Cols() == dim, "public-shape", cat(m.Rows(), "x", m.Cols(), " expected ", n, "x", dim));
            if (m.Rows() != n || m.Cols() != dim)
                return;
            for (int i = 0; i < n; ++i) {
                const auto e = fill(*g, normal, dim);
                check(std::equal(e.begin(), e.end(), m.Row(i).begin()), "public-path", cat("row ", i, normal ? " of normals" : " of uniforms"));
                count("public-paths");
            }
        }
        observed(S().caseDesc);
    });

    // uniforms come in antithetic pairs, normals are the images of uniforms
    section("relation", N(1500, 15000), [&](Rng& r) {
        const string type = typeOf(r);
        const int dim = r.range(1, 20), seed = seedOf(r);
        const bool precise = r.coin();
        desc(cat(type, " seed ", seed, " dimension ", dim, precise ? " precise" : ""));
        auto a = make(r, type, seed, dim, precise), b = make(r, type, seed, dim, precise), m = make(r, type, seed, dim, precise);
        std::optional<Mrg> ref;
        std::optional<Irn> irn;
        if (type == "IRN")
            irn.emplace(seed);
        if (type == "MRG32")
            ref.emplace((unsigned)seed, (unsigned)seed + 1u);
        for (int k = 0; k < 30; ++k) {
            const auto z = fill(*a, true, dim);
            for (int i = 0; i < dim; ++i) {
                const double u = b->NextUniform();
                check(u > 0 && u < 1, "out-of-range", cat(u));
                const double tol = npdf(z[i]) * (precise && std::fabs(z[i]) < 3.9 ? 1e-12 * (1 + std::fabs(z[i])) : 3e-9 * (1e-3 + std::fabs(z[i]))) + 1e-15;
                checkf(std::fabs(ncdf(z[i]) - u) <= tol, "normal-not-image", [&] { return cat("normal ", z[i], " of uniform ", u); });
                if (ref) {
                    const double w = ref->next();
                    checkf(std::fabs(w - u) <= 1e-15, "not-mrg32k3a", [&] { return cat("number ", k * dim + i, " is ", u, " expected ", w); });
                    count("mrg-numbers");
                }
                if (irn) {
                    const double w = irn->next();
                    checkf(w == u, "not-irn55", [&] { return cat("number ", k * dim + i, " is ", u, " expected ", w); });
                    count("irn-numbers");
                }
            }
            count("normals", dim);
        }
        auto c = make(r, type, seed, dim, precise);
        for (int k = 0; k < 10; ++k) {
            const auto u = fill(*c, false, dim), v = fill(*c, false, dim);
            for (int i = 0; i < dim; ++i) {
                checkf(near(u[i], m->NextUniform(), 0, 0), "uniform-not-next", [&] { return cat("path ", 2 * k); });
                checkf(near(v[i], 1 - u[i], 1e-16, 1e-15), "not-antithetic", [&] { return cat(u[i], " and ", v[i]); });
            }
            count("antithetic", dim);
        }
        // other seeds give other numbers
        auto d = make(r, type, seed == 5 ? 6 : 5, dim, precise), e = make(r, type, seed, dim, precise);
        int same = 0;
        for (int i = 0; i < 20; ++i)
            same += d->NextUniform() == e->NextUniform();
        check(same < 3, "seeds-alike", cat(same, " of 20 numbers equal for seeds ", seed, " and ", seed == 5 ? 6 : 5));
        // the storable generator gives the same numbers
        PseudoRSG_ s(String_(type.c_str()), seed, dim, precise);
        auto f = make(r, type, seed, dim, precise);
        const bool nrm = r.coin();
        for (int k = 0; k < 5; ++k) {
            Vector_<> v(dim);
            nrm ? s.FillNormal(&v) : s.FillUniform(&v);
            check(vector<double>(v.begin(), v.end()) == fill(*f, nrm, dim), "storable-differs", cat("path ", k));
        }
        observed(S().caseDesc);
    });

    // far skips of the combined generator
    section("far", N(1500, 15000), [&](Rng& r) {
        const int dim = r.range(1, 40), seed = seedOf(r);
        const u64 k = r.coin() ? (u64)r.range(0, 100000) : (u64)(r.next() % (1ull << r.range(20, 55)));
        const bool normal = r.coin();
        desc(cat("MRG32 seed ", seed, " dimension ", dim, " skip to ", k, normal ? " normal" : " uniform"));
        auto g = make(r, "MRG32", seed, dim, true);
        g->SkipTo(k);
        Mrg ref((unsigned)seed, (unsigned)seed + 1u);
        if (normal) {
            ref.skip(k * dim);
            for (int p = 0; p < 3; ++p)
                for (double z : fill(*g, true, dim)) {
                    const double u = ref.next();
                    checkf(std::fabs(ncdf(z) - u) < 1e-8, "skip-differs", [&] { return cat("normal ", z, " expected the image of ", u); });
                }
        } else {
            ref.skip(k / 2 * dim);
            vector<double> prev;
            for (u64 p = k / 2 * 2; p < k + 4; ++p) {
                if (p % 2 == 0) {
                    prev.clear();
                    for (int i = 0; i < dim; ++i)
                        prev.push_back(ref.next());
                } else
                    for (auto& u : prev)
                        u = 1 - u;
                if (p < k)
                    continue;
                const auto u = fill(*g, false, dim);
                for (int i = 0; i < dim; ++i)
                    checkf(near(u[i], prev[i], 1e-15, 0), "skip-differs", [&] { return cat("uniform ", u[i], " expected ", prev[i]); });
            }
        }
        count("far-skips");
        observed(S().caseDesc, k > 0);
    });

    section("ends", N(23 * 8, 23 * 40), [&](Rng& r) {
        const auto& m = meet[S().caseNo % 23];
        const int dim = r.range(1, 14);
        const bool precise = r.coin();
        desc(cat("MRG32 seed ", m[0], " number ", m[1], " dimension ", dim, precise ? " precise" : ""));
        auto g = make(r, "MRG32", m[0], dim, precise), u = make(r, "MRG32", m[0], dim, precise), s = make(r, "MRG32", m[0], dim, precise);
        Mrg ref((unsigned)m[0], (unsigned)m[0] + 1u);
        s->SkipTo(m[1] / dim);
        for (int k = 0; k < m[1] / dim * dim; ++k)
            u->NextUniform(), ref.next();
        vector<double> z;
        for (int k = 0; k <= m[1] / dim; ++k)
            z = fill(*g, true, dim);
        check(fill(*s, true, dim) == z, "skip-differs", "path with an extreme number");
        bool extreme = false;
        for (int i = 0; i < dim; ++i) {
            const double v = u->NextUniform(), w = ref.next();
            check(v > 0 && v < 1, "out-of-range", cat(v));
            check(std::fabs(v - w) <= 1e-15, "not-mrg32k3a", cat(v, " expected ", w));
            check(std::isfinite(z[i]), "normal-not-finite", cat(z[i], " of ", v));
            check(near(ncdf(z[i]), v, 3e-9 * npdf(z[i]) * 10 + 1e-15, 1e-6), "normal-not-image", cat("normal ", z[i], " of uniform ", v));
            extreme |= v < 1e-9 || v > 1 - 1e-9;
        }
        check(extreme, "not-mrg32k3a", "the extreme number did not come");
        count("extreme-numbers");
        observed(S().caseDesc);
    });

    // distribution of long streams, in every dimension and across dimensions and paths
    section("distribution", N(60, 600), [&](Rng& r) {
        const string type = typeOf(r);
        const int dim = r.range(1, 6), seed = r.range(1, 1000000), n = 20000;
        const bool normal = r.coin(), bridge = normal && dim > 1 && r.coin();
        desc(cat(type, " seed ", seed, " dimension ", dim, normal ? " normal" : " uniform", bridge ? " bridge" : "", " paths ", n));
        auto raw = make(r, type, seed, dim, r.coin());
        unique_ptr<Random_> g;
        if (bridge)
            g.reset(new BrownianBridge_(unique_ptr<Random_>(raw.release())));
        else
            g.reset(raw.release());
        vector<vector<double>> x(dim);
        for (int k = 0; k < n; ++k) {
            const auto v = fill(*g, normal, dim);
            for (int i = 0; i < dim; ++i)
                x[i].push_back(normal ? ncdf(v[i]) : v[i]);
        }
        auto centred = [](double u) { return (u - 0.5) * std::sqrt(12.0); };
        for (int i = 0; i < dim; ++i) {
            for (int j = 0; j <= i; ++j)
                for (int lag = 0; lag < 4; ++lag) {
                    if ((i == j && lag == 0) || (!normal && lag <= 1 && (lag == 1 || true) && i == j && lag < 2))
                        continue;
                    double s = 0;
                    const int step = normal ? 1 : 2; // of an antithetic pair only the first member is new
                    int m = 0;
                    for (int k = 0; k + lag * step < n; k += step, ++m)
                        s += centred(x[i][k]) * centred(x[j][k + lag * step]);
                    checkf(std::fabs(s) / std::sqrt((double)m) < 6.5, "correlated", [&] { return cat("dimensions ", i, " and ", j, " lag ", lag, " ", s / m); });
                    count("correlations");
                }
            auto y = x[i];
            if (!normal) { // independent half
                y.clear();
                for (int k = 0; k < n; k += 2)
                    y.push_back(x[i][k]);
            }
            std::sort(y.begin(), y.end());
            double D = 0;
            const int m = y.size();
            for (int k = 0; k < m; ++k)
                D = std::max({D, std::fabs(y[k] - k / (double)m), std::fabs(y[k] - (k + 1) / (double)m)});
            checkf(D * std::sqrt((double)m) < 3.3, "not-uniform", [&] { return cat("dimension ", i, " Kolmogorov-Smirnov ", D * std::sqrt((double)m)); });
            count("ks-tests");
        }
        observed(S().caseDesc);
    });

    // the bridge is a rotation whose first number alone fixes the end point
    section("bridge", N(130, 130), [&](Rng& r) {
        const int n = (int)S().caseNo + 1;
        desc(cat("bridge of dimension ", n));
        size_t skipped = 0;
        long calls = 0;
        vector<vector<double>> col;
        for (int i = 0; i < n; ++i) {
            vector<double> e(n, 0.0);
            e[i] = 1;
            BrownianBridge_ b(unique_ptr<Random_>(new Unit_(e, &skipped, &calls)));
            Vector_<> v(r.coin() ? n : r.range(0, n + 3), 7.0);
            b.FillNormal(&v);
            check((int)v.size() == n, "bridge-size", cat(v.size()));
            col.push_back(vector<double>(v.begin(), v.end()));
            if (n < 20) {
                unique_ptr<Random_> c(b.Clone());
                check(fill(*c, true, n) == col.back(), "bridge-copy", cat("column ", i));
                const auto u = fill(*c, false, n);
                for (int k = 0; k < n; ++k)
                    check(near(u[k], ncdf(col.back()[k]), 1e-12, 0), "bridge-uniform", cat(u[k], " for ", col.back()[k]));
                c->SkipTo(10 * i + 3);
                check(skipped == size_t(10 * i + 3), "bridge-skip", cat(skipped));
            }
        }
        for (int i = 0; i < n; ++i)
            for (int j = 0; j <= i; ++j) {
                double s = 0, t = 0;
                for (int k = 0; k < n; ++k) {
                    s += col[i][k] * col[j][k];
                    t += col[k][i] * col[k][j];
                }
                const double e = i == j;
                checkf(near(s, e, 1e-11, 0) && near(t, e, 1e-11, 0), "bridge-not-orthogonal", [&] { return cat("(", i, ",", j, ") ", s, " ", t); });
            }
        for (int i = 0; i < n; ++i) {
            double end = 0;
            for (double c : col[i])
                end += c;
            checkf(near(end, i == 0 ? std::sqrt((double)n) : 0, 1e-10, 0), "bridge-end-point", [&] { return cat("number ", i, " moves the end by ", end); });
        }
        count("bridges");
        observed(S().caseDesc);
    });
})
