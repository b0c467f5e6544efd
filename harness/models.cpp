// P25: model paths against the reference simulator; copies, parameters, local-volatility calibration.
#include "simref.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/initall.hpp>
#include <dal/model/factory.hpp>
#include <dal/model/ivs.hpp>
#include <dal/math/aad/aad.hpp>
#include <public/src/models.hpp>
using namespace vh;
using Dal::Matrix_;
using Dal::String_;
using Dal::Vector_;
using Dal::AAD::SampleDef_;
using Dal::AAD::Scenario_;
template <class T> using Mdl = std::unique_ptr<Dal::AAD::Model_<T>>;

static Matrix_<> volMatrix(const sr::Model& m) {
    Matrix_<> v(m.spots.size(), m.times.size());
    for (size_t i = 0; i < m.spots.size(); ++i)
        for (size_t j = 0; j < m.times.size(); ++j)
            v(i, j) = m.vols[i][j];
    return v;
}
static Vector_<> vec(const vector<double>& x) { return Vector_<>(x.begin(), x.end()); }
static Mdl<double> model(const sr::Model& m, bool viaData) {
    if (!m.dupire) {
        if (viaData)
            return Dal::CreateModel<double>(Dal::NewBSModelData("x", m.spot, m.vol, m.rate, m.div));
        return std::make_unique<Dal::AAD::BlackScholes_<double>>(m.spot, m.vol, m.rate, m.div);
    }
    if (viaData && m.maxDt == 1.0)
        return Dal::CreateModel<double>(Dal::NewDupireModelData("x", m.spot, m.rate, m.div, vec(m.spots), vec(m.times), volMatrix(m)));
    return std::make_unique<Dal::AAD::Dupire_<double>>(m.spot, m.rate, m.div, vec(m.spots), vec(m.times), volMatrix(m), m.maxDt);
}
struct Line {
    vector<double> t;
    Vector_<> times;
    Vector_<SampleDef_> defs;
};
static std::unique_ptr<Line> line(Rng& r, bool dupire) {
    auto l = std::make_unique<Line>();
    std::set<int> days;
    const int n = r.size(1, 7, 60), span = r.pick({5, 40, 400, 3000});
    while ((int)days.size() < std::min(n, span))
        days.insert(r.coin(0.15) ? 365 * r.range(0, 8) : r.range(1, span + 8 * n));
    if (r.coin(0.35))
        days.insert(0);
    for (int d : days)
        l->t.push_back(dupire || r.coin(0.8) ? d / 365.0 : d / 365.0 + (d ? 0.001 * r.unit() : 0));
    l->times = vec(l->t);
    for (size_t i = 0; i < l->t.size(); ++i) {
        SampleDef_ d;
        d.numeraire_ = r.coin(0.8);
        for (int k = r.range(0, 3); k > 0; --k)
            d.discountMats_.push_back(l->t[i] + r.uniform(0, 3));
        for (int a = r.range(0, 2); a > 0; --a) {
            Vector_<> f;
            for (int k = r.range(0, 3); k > 0; --k)
                f.push_back(l->t[i] + r.uniform(0, 3));
            d.forwardMats_.push_back(f);
        }
        l->defs.push_back(d);
    }
    return l;
}
static string show(const Line& l) {
    string o = " times:";
    for (double t : l.t)
        o += cat(" ", t);
    return o;
}
// one path of the library's model against the reference
static void comparePath(Rng& r, const Dal::AAD::Model_<double>& mdl, const sr::Model& m, const Line& l, const string& what) {
    if (m.dupire)
        for (size_t i = 0; i < l.t.size(); ++i) {
            const double k = (l.t[i] - (i ? l.t[i - 1] : 0)) / m.maxDt, d = std::fabs(k - std::round(k));
            if (d > 0 && d < 1e-9)
                return; // a whole number of steps up to rounding: either count is right
        }
    const auto st = sr::steps(m, l.t);
    const size_t dim = st.t.size() - 1;
    if (!check(mdl.SimDim() == dim, "dimension", cat(what, " ", mdl.SimDim(), " expected ", dim)))
        return;
    vector<double> g(dim);
    for (double& x : g)
        x = r.coin(0.05) ? 0 : r.normal();
    Scenario_<> p;
    Dal::AAD::AllocatePath(l.defs, p);
    Dal::AAD::InitializePath(p);
    mdl.GeneratePath(vec(g), &p);
    const auto ref = sr::path(m, l.t, g);
    count("paths");
    const double rate = m.rate;
    for (size_t i = 0; i < l.t.size(); ++i) {
        checkf(near(p[i].spot_, ref.spot[i].v, 0, 1e-10), "spot-differs", [&] { return cat(what, " event ", i, " spot ", p[i].spot_, " expected ", ref.spot[i].v); });
        if (l.t[i] == 0)
            checkf(near(p[i].spot_, m.spot, 0, 1e-14), "today-not-spot", [&] { return cat(what, " today ", p[i].spot_, " spot ", m.spot); });
        const double num = l.defs[i].numeraire_ ? std::exp(rate * l.t[i]) : 1.0;
        checkf(near(p[i].numeraire_, num, 0, 1e-13), "numeraire-differs", [&] { return cat(what, " event ", i, " numeraire ", p[i].numeraire_, " expected ", num); });
        if (m.dupire) {
            for (size_t k = 0; k < l.defs[i].discountMats_.size(); ++k)
                checkf(near(p[i].discounts_[k], std::exp(-rate * (l.defs[i].discountMats_[k] - l.t[i])), 0, 1e-13), "discount-differs",
                       [&] { return cat(what, " event ", i, " discount ", k, " is ", p[i].discounts_[k]); });
            if (!p[i].forwards_.empty())
                for (double f : p[i].forwards_.front())
                    check(f == p[i].spot_, "forward-differs", what);
        }
        count("events");
    }
}
static sr::Model random(Rng& r, bool dupire) {
    sr::Model m = sr::randomModel(r, dupire);
    if (dupire && r.coin(0.4))
        m.maxDt = r.pick({0.05, 0.25, 0.5, 2.0});
    if (dupire && r.coin(0.2))
        m.spot = r.pick(m.spots); // starts on a node
    if (dupire && r.coin(0.1))
        m.times[0] = 0.0;
    if (r.coin(0.1))
        (m.dupire ? m.vols[0][0] : m.vol) = 0;
    return m;
}
static void setParam(Dal::AAD::Model_<double>& mdl, sr::Model& m, int k, double x) {
    *mdl.Parameters()[k] = x;
    m.param(k) = x;
}
static double bump(Rng& r, sr::Model& m, int k) {
    const double x = m.param(k);
    return k == 0 ? x * r.uniform(0.7, 1.4) : x + r.uniform(0.001, 0.1);
}

VH_MAIN([] {
    Dal::RegisterAll_::Init();

    section("paths", N(6000, 60000), [&](Rng& r) {
        const bool dupire = r.coin();
        sr::Model m = random(r, dupire);
        auto l = line(r, dupire);
        desc(cat(m.show(), " maxDt=", m.maxDt, show(*l)));
        auto mdl = model(m, r.coin());
        const auto labels = m.labels();
        if (check(mdl->ParameterLabels().size() == labels.size() && mdl->Parameters().size() == labels.size() && mdl->NumParams() == labels.size(), "labels", "number of parameters"))
            for (size_t i = 0; i < labels.size(); ++i) {
                check(string(mdl->ParameterLabels()[i].c_str()) == labels[i], "labels", labels[i]);
                check(*mdl->Parameters()[i] == m.param(i), "parameter-value", labels[i]);
            }
        mdl->Allocate(l->times, l->defs);
        mdl->Init(l->times, l->defs);
        for (int k = r.range(1, 3); k > 0; --k)
            comparePath(r, *mdl, m, *l, "path");
        // parameters through their pointers
        const int q = r.below(labels.size());
        setParam(*mdl, m, q, bump(r, m, q));
        mdl->Init(l->times, l->defs);
        comparePath(r, *mdl, m, *l, cat("after changing ", labels[q]));
        // another timeline
        if (r.coin(0.4)) {
            auto l2 = line(r, dupire);
            mdl->Allocate(l2->times, l2->defs);
            mdl->Init(l2->times, l2->defs);
            comparePath(r, *mdl, m, *l2, cat("second timeline", show(*l2)));
        }
        sample(cat(m.show(), show(*l)));
        observed(cat(m.show(), show(*l)), l->t.size() > 1 || l->t[0] > 0);
    });

    section("clones", N(3000, 30000), [&](Rng& r) {
        const bool dupire = r.coin();
        sr::Model m = random(r, dupire);
        auto l = line(r, dupire);
        desc(cat(m.show(), " maxDt=", m.maxDt, show(*l)));
        struct Live {
            Mdl<double> mdl;
            sr::Model m;
        };
        vector<Live> live;
        auto first = model(m, r.coin());
        const bool before = r.coin(0.3);
        if (!before) {
            first->Allocate(l->times, l->defs);
            first->Init(l->times, l->defs);
        }
        live.push_back({std::move(first), m});
        for (int k = r.range(1, 3); k > 0; --k) {
            auto& o = live[r.below(live.size())];
            live.push_back({o.mdl->Clone(), o.m});
        }
        if (before)
            for (auto& x : live) {
                x.mdl->Allocate(l->times, l->defs);
                x.mdl->Init(l->times, l->defs);
            }
        // all alive models are independent of each other
        for (int step = r.range(2, 8); step > 0; --step) {
            const int i = r.below(live.size());
            auto& x = live[i];
            switch (r.range(0, 3)) {
            case 0: {
                const int q = r.below(x.m.params());
                setParam(*x.mdl, x.m, q, bump(r, x.m, q));
                x.mdl->Init(l->times, l->defs);
                count("parameter-changes");
                break;
            }
            case 1:
                if (live.size() > 1) {
                    live.erase(live.begin() + i);
                    count("deletions");
                }
                break;
            default:
                live.push_back({x.mdl->Clone(), x.m});
                count("clones");
            }
            for (auto& y : live) {
                comparePath(r, *y.mdl, y.m, *l, "copy");
                for (int k = 0; k < y.m.params(); ++k)
                    check(*y.mdl->Parameters()[k] == y.m.param(k), "copy-parameter", cat(k));
            }
        }
        observed(cat(m.show(), show(*l)));
    });

    // recorded models: the value part of a path is the same
    section("recorded", N(800, 8000), [&](Rng& r) {
        const bool dupire = r.coin();
        sr::Model m = sr::randomModel(r, dupire);
        auto l = line(r, dupire);
        desc(cat(m.show(), show(*l)));
        using Dal::AAD::Number_;
        auto md = m.dupire ? Dal::NewDupireModelData("x", m.spot, m.rate, m.div, vec(m.spots), vec(m.times), volMatrix(m))
                           : Dal::NewBSModelData("x", m.spot, m.vol, m.rate, m.div);
        { // a changed copy of the data, under another name or the same
            const Dal::Vector_<Dal::Handle_<Dal::Slide_>> slides(r.range(0, 2)); // none of which changes anything
            const Dal::Handle_<Dal::ModelData_> other(md->MutantModel("renamed", slides));
            check(other->name_ == "renamed" && other->type_ == md->type_ && md->name_ == "x", "renamed-data", "name or type");
            check(other->parameterLabels_ == md->parameterLabels_, "renamed-data", "labels");
            auto mdl = Dal::CreateModel<double>(other);
            mdl->Allocate(l->times, l->defs);
            mdl->Init(l->times, l->defs);
            comparePath(r, *mdl, m, *l, "renamed");
            count("renamed-data");
        }
        Number_::Tape()->Rewind();
        {
            auto base = Dal::CreateModel<Number_>(md);
            auto mdl = base->Clone();
            mdl->Allocate(l->times, l->defs);
            for (auto* p : mdl->Parameters())
                p->PutOnTape();
            mdl->Init(l->times, l->defs);
            const auto st = sr::steps(m, l->t);
            vector<double> g(st.t.size() - 1);
            for (double& x : g)
                x = r.normal();
            Scenario_<Number_> p;
            Dal::AAD::AllocatePath(l->defs, p);
            Dal::AAD::InitializePath(p);
            if (!check(mdl->SimDim() == g.size(), "dimension", "recorded"))
                return;
            mdl->GeneratePath(vec(g), &p);
            const auto ref = sr::path(m, l->t, g);
            for (size_t i = 0; i < l->t.size(); ++i)
                checkf(near(p[i].spot_.value(), ref.spot[i].v, 0, 1e-10), "spot-differs", [&] { return cat("recorded event ", i, " spot ", p[i].spot_.value(), " expected ", ref.spot[i].v); });
            // derivative of the last spot to every parameter
            if (ref.minNode > 1e-9) {
                const size_t last = l->t.size() - 1;
                Number_ res = p[last].spot_ + 0.0;
                res.PropagateToStart();
                for (int k = 0; k < m.params(); ++k)
                    checkf(near(mdl->Parameters()[k]->Adjoint(), ref.spot[last].d[k], 1e-11 * (1 + ref.spot[last].ad[k]), 1e-10), "path-derivative",
                           [&] { return cat("parameter ", k, " got ", mdl->Parameters()[k]->Adjoint(), " expected ", ref.spot[last].d[k]); });
                count("path-derivatives", m.params());
            }
        }
        Number_::Tape()->Rewind();
        observed(cat(m.show(), show(*l)));
    });

    // local volatilities implied by a surface of implied volatilities
    section("surface", N(400, 4000), [&](Rng& r) {
        struct Ivs : Dal::AAD::IVS_ {
            double a, b, c;
            Ivs(double s, double a0, double b0, double c0) : IVS_(s), a(a0), b(b0), c(c0) {}
            double w(double k, double t) const { return (a * t + c * t * t) * (1 + b * k); } // total variance, k = log(K/S)
            double ImpliedVol(double K, double t) const override { return std::sqrt(w(std::log(K / Spot()), t) / t); }
            double local(double K, double t) const {
                const double k = std::log(K / Spot()), W = w(k, t), Wt = (a + 2 * c * t) * (1 + b * k), Wk = (a * t + c * t * t) * b;
                const double den = 1 - k / W * Wk + 0.25 * (-0.25 - 1 / W + k * k / W / W) * Wk * Wk;
                return std::sqrt(Wt / den);
            }
        };
        const double spot = r.uniform(50, 150), vol = r.uniform(0.1, 0.4);
        Ivs ivs(spot, vol * vol, r.coin(0.3) ? 0.0 : r.uniform(-0.2, 0.2), r.coin(0.3) ? 0.0 : r.uniform(0, 0.02));
        std::set<double> s, t;
        for (int i = r.range(2, 6); i > 0; --i)
            s.insert(std::round(spot * r.uniform(0.5, 1.7)));
        for (int i = r.range(1, 4); i > 0; --i)
            t.insert(0.25 * r.range(1, 12));
        const double maxDs = r.pick({5.0, 10.0, 50.0}), maxDt = r.pick({0.25, 0.5, 1.0});
        desc(cat("spot ", spot, " variance ", vol * vol, " slope ", ivs.b, " growth ", ivs.c, " maxDs ", maxDs, " maxDt ", maxDt, " spots ", s.size(), " times ", t.size()));
        const vector<double> ss(s.begin(), s.end()), ts(t.begin(), t.end());
        auto calib = [&] { return Dal::AAD::DupireCalib<double>(ivs, vec(ss), maxDs, vec(ts), maxDt, Dal::AAD::RiskView_<double>()); };
        // a maturity with no spot near the money has no local volatility: refused
        bool refused = false;
        decltype(calib()) res;
        try {
            res = calib();
        } catch (const std::exception&) {
            refused = true;
        }
        if (refused) {
            auto inside = [&](double T) {
                const double std = ivs.Call(spot, T) * 2.506628274631;
                for (double x : ss)
                    if (std::fabs(x - spot) < 2.49 * std)
                        return true;
                return false;
            };
            bool all = true;
            for (double T : ts)
                all = all && inside(T);
            check(!(all && inside(maxDt)), "calibration-refused");
            count("calibrations-refused");
            return;
        }
        check(res.lVols_.Rows() == (int)res.spots_.size() && res.lVols_.Cols() == (int)res.times_.size(), "calibration-shape");
        auto grid = [&](const Vector_<>& g, const std::set<double>& must, double step, const string& what) {
            for (size_t i = 1; i < g.size(); ++i)
                checkf(g[i] > g[i - 1] && g[i] - g[i - 1] <= step + 1e-9, "grid", [&] { return cat(what, " ", g[i - 1], " ", g[i]); });
            for (double x : must)
                check(std::find(g.begin(), g.end(), x) != g.end(), "grid-missing", what);
        };
        grid(res.spots_, s, maxDs, "spots");
        grid(res.times_, t, maxDt, "times");
        for (int j = 0; j < (int)res.times_.size(); ++j) {
            const double T = res.times_[j];
            const double std = ivs.Call(spot, T) * 2.506628274631;
            int il = 0, ih = res.spots_.size() - 1;
            while (il < (int)res.spots_.size() && res.spots_[il] < spot - 2.5 * std)
                ++il;
            while (ih >= 0 && res.spots_[ih] > spot + 2.5 * std)
                --ih;
            for (int i = il; i <= ih; ++i) {
                const double e = ivs.local(res.spots_[i], T);
                if (!(e > 0.01))
                    continue;
                checkf(near(res.lVols_(i, j), e, 0, 2e-4), "local-volatility", [&] { return cat("strike ", res.spots_[i], " time ", T, " got ", res.lVols_(i, j), " expected ", e); });
                count("local-volatilities");
            }
            if (il <= ih) {
                for (int i = 0; i < il; ++i)
                    check(res.lVols_(i, j) == res.lVols_(il, j), "local-volatility-extrapolation", "low");
                for (int i = ih + 1; i < (int)res.spots_.size(); ++i)
                    check(res.lVols_(i, j) == res.lVols_(ih, j), "local-volatility-extrapolation", "high");
            }
        }
        observed(cat(spot, vol, ivs.b, ivs.c, maxDs, maxDt));
    });
})
