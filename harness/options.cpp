// P22: option formulas, implied volatility and the normal distribution against long-double references.
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/analytics/vanilla.hpp>
#include <dal/math/distribution/black.hpp>
#include <dal/math/distribution/utils.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/model/ivs.hpp>
#include <dal/protocol/optiontype.hpp>
#include <map>
#include <memory>
using namespace vh;
using namespace Dal;
typedef long double L;

static L cdf(L z) { return 0.5L * erfcl(-z / sqrtl(2.0L)); }
static L pdf(L z) { return expl(-0.5L * z * z) / sqrtl(2 * acosl(-1.0L)); }
static L inv(L x) { // lower half by Newton on the logarithm
    if (x > 0.5L)
        return -inv(1 - x);
    L z = -sqrtl(-2 * logl(x));
    if (x > 1e-2L)
        z = (x - 0.5L) * 2.5L;
    for (int i = 0; i < 200; ++i) {
        const L c = cdf(z), s = (logl(c) - logl(x)) * c / pdf(z);
        z -= s;
        if (fabsl(s) < 1e-17L * (1 + fabsl(z)))
            break;
    }
    return z;
}
enum { CALL, PUT, STRADDLE };
static const char* const SPELL[3][4] = {{"CALL", "Call", "C", "c"}, {"PUT", "put", "P", "p"}, {"STRADDLE", "Straddle", "V", "C+P"}};
static OptionType_ type(Rng& r, int k) { return OptionType_(String_(SPELL[k][r.below(4)])); }
static L payout(int k, L f, L s) { return k == CALL ? std::max<L>(0, f - s) : k == PUT ? std::max<L>(0, s - f) : fabsl(f - s); }

struct Opt {
    L value, delta, vega;
};
static Opt black(L f, L v, L k, int t) {
    const L d1 = logl(f / k) / v + v / 2, d2 = d1 - v;
    const L c = f * cdf(d1) - k * cdf(d2), p = k * cdf(-d2) - f * cdf(-d1), g = f * pdf(d1);
    return t == CALL ? Opt{c, cdf(d1), g} : t == PUT ? Opt{p, -cdf(-d1), g} : Opt{c + p, cdf(d1) - cdf(-d1), 2 * g};
}
static Opt normal(L f, L v, L k, int t) {
    const L d = (f - k) / v, c = (f - k) * cdf(d) + v * pdf(d), p = (k - f) * cdf(-d) + v * pdf(d);
    return t == CALL ? Opt{c, cdf(d), pdf(d)} : t == PUT ? Opt{p, -cdf(-d), pdf(d)} : Opt{c + p, cdf(d) - cdf(-d), 2 * pdf(d)};
}
// the expectation itself, split at the kink
template <class Terminal> static L expectation(Terminal S, L strike, L kink, int t) {
    L s = 0;
    const L lo = -12, hi = 12;
    kink = std::min(hi, std::max(lo, kink));
    for (auto ab : {std::make_pair(lo, kink), std::make_pair(kink, hi)}) {
        const int n = 400;
        const L h = (ab.second - ab.first) / n;
        for (int i = 0; i < n; ++i) { // three-point Gauss-Legendre
            const L m = ab.first + h * (i + 0.5L), o = h / 2 * sqrtl(0.6L);
            for (int q = -1; q <= 1; ++q) {
                const L z = m + q * o;
                s += (q ? 5.0L / 9 : 8.0L / 9) * h / 2 * pdf(z) * payout(t, S(z), strike);
            }
        }
    }
    return s;
}

static void distributionTests() {
    section("cdf", N(6000, 120000), [&](Rng& r) {
        const double z = r.coin(0.3) ? r.uniform(-40, 40) : r.coin() ? r.uniform(-8, 8) : r.range(-400, 400) * 0.1;
        desc(cat("normal distribution at ", z));
        const double c = NCDF(z);
        checkf(near(c, (double)cdf(z), 1e-300, 1e-14 * (4 + z * z)), "cdf", [&] { return cat("got ", c, " expected ", (double)cdf(z)); });
        check(c == NCDF(z, true), "cdf", "precise is not the default");
        check(std::fabs(c + NCDF(-z) - 1) < 1e-15, "cdf-symmetry", "");
        check(NCDF(z + 0.01) >= c, "cdf-monotone", "");
        check(near(NPDF(z), (double)pdf(z), 1e-20, 1e-12), "pdf", cat("density at ", z, ": ", NPDF(z)));
        const double s = NCDF(z, false);
        checkf(std::fabs(s - (double)cdf(z)) < 3e-4 && s >= 0 && s <= 1, "cdf-fast", [&] { return cat("fast distribution at ", z, ": ", s, " expected ", (double)cdf(z)); });
        check(std::fabs(s + NCDF(-z, false) - 1) < 1e-15, "cdf-fast-symmetry", "");
        observed(cat("z", z), std::fabs(z) < 38);
        count("cdf-points");
    });
    section("inverse", N(6000, 120000), [&](Rng& r) {
        double x = r.coin() ? r.unit() : r.coin() ? r.logUniform(1e-300, 0.5) : 1 - r.logUniform(1e-15, 0.5);
        if (r.coin(0.1))
            x = r.pick({0.02425, 1 - 0.02425}) * (1 + r.range(-3, 3) * 1e-16);
        if (!(x > 0 && x < 1))
            return;
        desc(cat("inverse normal distribution of ", x));
        const double z = InverseNCDF(x), raw = InverseNCDF(x, true, false), fast = InverseNCDF(x, false, true), fr = InverseNCDF(x, false, false);
        const double e = (double)inv(x);
        checkf(std::fabs(z - e) <= 2e-9 * std::fabs(e) + 1e-12, "inverse", [&] { return cat("got ", z, " expected ", e); });
        if (std::fabs(e) < 3.9)
            checkf(std::fabs(z - e) <= 1e-11, "inverse-polished", [&] { return cat("got ", z, " expected ", e); });
        checkf(std::fabs(raw - e) <= 2e-9 * std::fabs(e) + 1e-9 && raw == fr, "inverse-raw", [&] { return cat("got ", raw, " expected ", e); });
        // refined against the fast distribution: as good as that one is
        const double slack = 4e-4 * 2.51 * std::exp(std::min(8.0, 0.5 * e * e)) + 1e-8 * std::fabs(e);
        check(std::fabs(fast - e) <= slack, "inverse-fast", cat("got ", fast, " expected ", e));
        const double y = x * 0.999;
        check(InverseNCDF(y) < z || x < 1e-290, "inverse-monotone", "");
        observed(cat("x", x));
        count("inverse-points");
        const double bad = r.pick({0.0, 1.0, -1e-9, 1 + 1e-9, -5.0, 7.0, (double)NAN});
        check(throws([&] { InverseNCDF(bad, r.coin(), r.coin()); }), "inverse-accepted", cat("a probability of ", bad));
    });
}

static void formulaTests() {
    section("black", N(3000, 60000), [&](Rng& r) {
        const double f = r.coin(0.2) ? r.logUniform(1e-12, 1e-3) : r.logUniform(1e-3, 1e6), v = r.coin(0.1) ? r.logUniform(1e-4, 1e-2) : r.logUniform(1e-2, 4);
        const double k = r.coin(0.1) ? f : f * std::exp(v * r.uniform(-5, 5));
        const int t = r.range(0, 2);
        desc(cat("Black: forward ", f, " strike ", k, " vol ", v, " ", SPELL[t][0]));
        const OptionType_ T = type(r, t);
        const double scale = std::max(f, k);
        const double p = Distribution::BlackOpt(f, v, k, T);
        const Opt e = black(f, v, k, t);
        checkf(std::fabs(p - (double)e.value) <= 1e-12 * scale, "black-value", [&] { return cat("got ", p, " expected ", (double)e.value); });
        if (S().caseNo % 8 == 0) {
            const L q = expectation([&](L z) { return f * expl(v * z - L(v) * v / 2); }, k, (logl(L(k) / f) + L(v) * v / 2) / v, t);
            checkf(std::fabs(p - (double)q) <= 1e-8 * scale * std::exp(0.1 * v * v), "black-expectation", [&] { return cat("got ", p, " expected ", (double)q); });
            count("expectations");
        }
        const double c = Distribution::BlackOpt(f, v, k, type(r, CALL)), u = Distribution::BlackOpt(f, v, k, type(r, PUT)), s = Distribution::BlackOpt(f, v, k, type(r, STRADDLE));
        check(std::fabs(c - u - (f - k)) <= 1e-13 * scale && std::fabs(c + u - s) <= 1e-13 * scale, "black-parity", "call, put and straddle do not agree");
        const double tiny = 1e-13 * scale;
        check(c >= std::max(0.0, f - k) - tiny && c <= f + tiny && u >= std::max(0.0, k - f) - tiny && u <= k + tiny, "black-bounds", "outside its bounds");
        const double k2 = k * (1 + r.logUniform(1e-4, 0.5)), v2 = v * (1 + r.logUniform(1e-4, 0.5));
        check(Distribution::BlackOpt(f, v, k2, type(r, CALL)) <= c + tiny && Distribution::BlackOpt(f, v, k2, type(r, PUT)) >= u - tiny, "black-strike", "not monotone in the strike");
        check(Distribution::BlackOpt(f, v2, k, T) >= p - tiny * 2, "black-vol", "decreasing in the volatility");
        check(near(Distribution::BlackOpt(f, 0.0, k, T), (double)payout(t, f, k), 0, 1e-15), "black-intrinsic", "without volatility");
        const auto g = Distribution::BlackGreeks(f, v, k, T);
        const double round = 4e-16 * (2 + std::fabs(std::log(f)) + std::fabs(std::log(k))) / v; // of the moneyness, however it is calculated
        check(g.size() == 2 && std::fabs(g[0] - (double)e.delta) < 1e-12 + round, "black-delta", cat("delta ", g[0], " expected ", (double)e.delta));
        check(g.size() == 2 && std::fabs(g[1] - (double)e.vega) <= (1e-11 + round) * f, "black-vega", cat("vega ", g[1], " expected ", (double)e.vega));
        DistributionBlack_ d(f, v);
        check(d.Forward() == f && d.Vol() == v && d.OptionPrice(k, T) == p, "black-distribution", "");
        {
            const auto& fixed = d;
            check(fixed.Vol() == v && fixed.ParameterNames() == Dal::Vector_<Dal::String_>({"forward", "vol"}), "black-distribution", "parameters");
        }
        check(near(d.VolVega(k, T), v * g[1], 0, 1e-13), "black-distribution", "vega with respect to the relative volatility");
        auto m = d.ParameterDerivatives(k, T, {"delta", "vega", "volvega"});
        check(m.size() == 3 && m["delta"] == g[0] && m["vega"] == g[1] && near(m["volvega"], v * g[1], 0, 1e-13), "black-distribution", "derivatives");
        check(d.ParameterDerivatives(k, T, {"vega"}).size() == 1 && throws([&] { d.ParameterDerivatives(k, T, {"theta"}); }), "black-distribution", "derivatives asked for");
        d.Vol() = v2;
        check(d.OptionPrice(k, T) == Distribution::BlackOpt(f, v2, k, T), "black-distribution", "after a change of volatility");
        const double mat = r.logUniform(0.01, 30);
        check(near(AAD::BlackScholes(f, k, v / std::sqrt(mat), mat), c, 1e-11 * scale, 1e-11), "black-scholes", "");
        check(near(T.Payout(f, k), (double)payout(t, f, k), 0, 1e-15), "payout", "");
        observed(cat("b", f, k, v, t), (double)e.value > 1e-12 * scale);
        count("option-values");
    });
    section("normal", N(3000, 60000), [&](Rng& r) {
        const double f = r.coin(0.1) ? 0.0 : (r.coin(0.3) ? -1 : 1) * (r.coin(0.15) ? r.logUniform(1e-8, 1e-3) : r.logUniform(1e-3, 1e5)), v = r.logUniform(1e-3, 3) * (f == 0 ? 1 : std::fabs(f));
        const double k = r.coin(0.1) ? f : r.coin(0.1) ? 0.0 : f + v * r.uniform(-5, 5);
        const int t = r.range(0, 2);
        desc(cat("normal model: forward ", f, " strike ", k, " vol ", v, " ", SPELL[t][0]));
        const OptionType_ T = type(r, t);
        const double scale = std::max({std::fabs(f), std::fabs(k), v});
        const double p = Distribution::BachelierOpt(f, v, k, T);
        const Opt e = normal(f, v, k, t);
        checkf(std::fabs(p - (double)e.value) <= 1e-12 * scale, "normal-value", [&] { return cat("got ", p, " expected ", (double)e.value); });
        if (S().caseNo % 8 == 0) {
            const L q = expectation([&](L z) { return f + v * z; }, k, (L(k) - f) / v, t);
            checkf(std::fabs(p - (double)q) <= 1e-9 * scale, "normal-expectation", [&] { return cat("got ", p, " expected ", (double)q); });
            count("expectations");
        }
        const double c = Distribution::BachelierOpt(f, v, k, type(r, CALL)), u = Distribution::BachelierOpt(f, v, k, type(r, PUT)), s = Distribution::BachelierOpt(f, v, k, type(r, STRADDLE));
        const double tiny = 1e-13 * scale;
        check(std::fabs(c - u - (f - k)) <= tiny && std::fabs(c + u - s) <= tiny, "normal-parity", "call, put and straddle do not agree");
        check(c >= std::max(0.0, f - k) - tiny && u >= std::max(0.0, k - f) - tiny, "normal-bounds", "below intrinsic value");
        const double k2 = k + v * r.logUniform(1e-4, 1), v2 = v * (1 + r.logUniform(1e-4, 0.5));
        check(Distribution::BachelierOpt(f, v, k2, type(r, CALL)) <= c + tiny && Distribution::BachelierOpt(f, v2, k, T) >= p - 2 * tiny, "normal-monotone", "");
        check(near(Distribution::BachelierOpt(f, 0.0, k, T), (double)payout(t, f, k), 0, 1e-15), "normal-intrinsic", "without volatility");
        const auto g = Distribution::BachelierGreeks(f, v, k, T);
        check(g.size() == 2 && std::fabs(g[0] - (double)e.delta) < 1e-11 && std::fabs(g[1] - (double)e.vega) < 1e-11, "normal-greeks",
              cat("delta ", g[0], " vega ", g[1], " expected ", (double)e.delta, " ", (double)e.vega));
        DistributionBachelier_ d(f, v);
        check(d.Forward() == f && d.Vol() == v && d.OptionPrice(k, T) == p && near(d.VolVega(k, T), v * g[1], 0, 1e-13), "normal-distribution", "");
        auto m = d.ParameterDerivatives(k, T, {"delta", "vega", "volvega"});
        check(m.size() == 3 && m["delta"] == g[0] && m["vega"] == g[1] && near(m["volvega"], v * g[1], 0, 1e-13) && throws([&] { d.ParameterDerivatives(k, T, {"rho"}); }),
              "normal-distribution", "derivatives");
        const double mat = r.logUniform(0.01, 30);
        check(near(AAD::Bachelier(f, k, v / std::sqrt(mat), mat), c, 1e-11 * scale, 1e-11), "normal-analytic", "");
        observed(cat("n", f, k, v, t), (double)e.value > 1e-12 * scale);
        count("option-values");
    });
    section("jumps", N(800, 16000), [&](Rng& r) {
        const double s = r.logUniform(0.1, 1e4), v = r.uniform(0.02, 0.8), mat = r.logUniform(0.02, 20);
        const double lam = r.coin(0.1) ? 0 : r.logUniform(1e-3, 30) / mat, mu = r.uniform(-0.4, 0.3), sd = r.coin(0.1) ? 0 : r.uniform(0.01, 0.4);
        const double k = s * std::exp(std::sqrt(v * v * mat + lam * mat * (sd * sd + mu * mu)) * r.uniform(-2.5, 2.5));
        desc(cat("jumps: spot ", s, " strike ", k, " vol ", v, " maturity ", mat, " intensity ", lam, " mean ", mu, " deviation ", sd));
        const double p = AAD::Merton(s, k, v, mat, lam, mu, sd);
        const L m2 = L(mu) + L(sd) * sd / 2, comp = lam * (expl(m2) - 1), a = L(lam) * mat;
        L e = 0;
        for (int n = 0; n < 400; ++n) {
            const L w = expl(-a + (n ? n * logl(a) : 0) - lgammal(n + 1.0L));
            if (n && a == 0)
                break;
            const L fwd = s * expl(n * m2 - comp * mat);
            e += w * black(fwd, sqrtl(L(v) * v * mat + n * L(sd) * sd), k, CALL).value;
        }
        checkf(std::fabs(p - (double)e) <= 1e-10 * std::max(s, k), "jumps-value", [&] { return cat("got ", p, " expected ", (double)e); });
        check(p >= std::max(0.0, s - k) - 1e-9 * s && p <= s * (1 + 1e-9), "jumps-bounds", "");
        count("jump-values");
        if (p - std::max(0.0, s - k) > 1e-6 * s && (s - p) > 1e-6 * s) {
            double iv = NAN;
            string err;
            AAD::MertonIVS_ surf(s, v, lam, mu, sd);
            if (!throws([&] { iv = surf.ImpliedVol(k, mat); }, &err)) {
                check(std::fabs(AAD::BlackScholes(s, k, iv, mat) - p) <= 3e-10 * std::max(1.0, p) + 1e-9 * s * iv * std::sqrt(mat), "jumps-implied", cat("implied volatility ", iv));
                check(surf.Spot() == s && near(surf.Call(k, mat), p, 3e-10 * std::max(1.0, p) + 1e-9 * s, 0), "jumps-implied", "call from the surface");
                count("surface-vols");
            } else
                violation("jumps-implied-refused", err.substr(0, 200));
        }
        observed(cat("j", s, k, v, lam), lam > 0);
    });
}

static void impliedTests() {
    section("implied", N(4000, 80000), [&](Rng& r) {
        const bool bl = r.coin();
        const int t = r.range(0, 2);
        const OptionType_ T = type(r, t);
        const double f = bl ? r.logUniform(1e-2, 1e7) : (r.coin(0.3) ? -1 : 1) * r.logUniform(1e-2, 1e6);
        const double v = (bl ? 1 : std::fabs(f)) * r.logUniform(0.02, bl ? 2.0 : 1.0);
        const double k = bl ? f * std::exp(v * r.uniform(-3, 3)) : f + v * r.uniform(-3, 3);
        const double guess = r.coin() ? 0 : v * r.logUniform(0.2, 5);
        desc(cat(bl ? "Black" : "normal", " implied: forward ", f, " strike ", k, " vol ", v, " guess ", guess, " ", SPELL[t][0]));
        auto opt = [&](double vol) { return bl ? Distribution::BlackOpt(f, vol, k, T) : Distribution::BachelierOpt(f, vol, k, T); };
        auto iv = [&](double price) {
            return bl ? (guess > 0 ? Distribution::BlackIV(f, k, T, price, guess) : Distribution::BlackIV(f, k, T, price))
                      : (guess > 0 ? Distribution::BachelierIV(f, k, T, price, guess) : Distribution::BachelierIV(f, k, T, price));
        };
        const double p = opt(v), in = (double)payout(t, f, k);
        const double vega = (double)(bl ? black(f, v, k, t).vega : normal(f, v, k, t).vega);
        // attainable price with time value well above rounding
        if (p - in > 1e-8 * std::max({1.0, std::fabs(f), std::fabs(k)})) {
            double got = NAN;
            string err;
            if (throws([&] { got = iv(p); }, &err))
                violation("implied-refused", err.substr(0, 200));
            else {
                const double back = opt(got), tol = 1.1e-10 * std::max(1.0, p) + 1.1e-10 * vega * v + 1e-14 * std::max(std::fabs(f), std::fabs(k));
                checkf(std::fabs(back - p) <= tol, "implied-reprice", [&] { return cat("implied ", got, " is worth ", back, " instead of ", p); });
                checkf(got > 0 && std::fabs(got - v) * vega <= 3 * tol + 1e-3 * vega * std::fabs(got - v), "implied-vol", [&] { return cat("implied ", got, " expected ", v); });
            }
            count("implied");
        }
        // unattainable
        const double below = in - r.logUniform(1e-6, 1) * std::max(1.0, in);
        check(throws([&] { iv(below); }), "implied-accepted", cat("a price of ", below, " below intrinsic value ", in));
        if (bl) {
            const double cap = t == CALL ? f : t == PUT ? k : f + k;
            const double above = cap * (1 + r.logUniform(1e-3, 2)) + 1e-6;
            double got = NAN;
            check(throws([&] { got = iv(above); }), "implied-accepted", cat("a price of ", above, " above the limit ", cap, ": ", got));
        }
        observed(cat("i", f, k, v, t));
    });
    section("model-implied", N(600, 12000), [&](Rng& r) {
        const double f = r.logUniform(0.1, 1e4), v = r.uniform(0.05, 0.6), k = f * std::exp(v * r.uniform(-2, 2));
        const bool bl = r.coin();
        desc(cat("volatility of a ", bl ? "Black" : "normal", " model, forward ", f, " strike ", k, " vol ", v));
        std::unique_ptr<Distribution_> m;
        if (bl)
            m.reset(new DistributionBlack_(f, v));
        else
            m.reset(new DistributionBachelier_(f, v * f * 0.5));
        const int t = k > f ? CALL : PUT;
        const double p = m->OptionPrice(k, type(r, t));
        if (p < 1e-6 * f)
            return;
        const double got = Distribution::BlackIV(*m, k, r.coin() ? 0.0 : v, r.range(1, 5));
        const double back = Distribution::BlackOpt(f, got, k, type(r, t));
        checkf(std::fabs(back - p) <= 1.1e-10 * std::max(1.0, p) + 1e-9 * f * got, "model-implied", [&] { return cat("implied ", got, " is worth ", back, " instead of ", p); });
        if (bl)
            check(std::fabs(got - v) < 1e-3 * v, "model-implied", cat("implied ", got));
        const double mat = r.logUniform(0.05, 20), c = Distribution::BlackOpt(f, v, k, type(r, CALL));
        if (c - std::max(0.0, f - k) > 1e-6 * f) {
            const double bs = AAD::BlackScholesIVol(f, k, c, mat);
            check(near(AAD::BlackScholes(f, k, bs, mat), c, 1e-9 * std::max(1.0, f), 0), "implied-annual", cat("annual volatility ", bs));
            const double n = Distribution::BachelierOpt(f, v * f, k, type(r, CALL)), ba = AAD::BachelierIVol(f, k, n, mat);
            check(near(AAD::Bachelier(f, k, ba, mat), n, 1e-9 * std::max(1.0, f), 0), "implied-annual", cat("annual normal volatility ", ba));
        }
        observed(cat("m", f, k, v));
        count("model-implied");
    });
}
VH_MAIN([] {
    distributionTests();
    formulaTests();
    impliedTests();
})
