// P03 / P10: Monte Carlo values and sensitivities against path-by-path replays.
#include "script.hpp"
#include "simref.hpp"
#include <dal/script/simulation.hpp>
#include <dal/concurrency/threadpool.hpp>
#include <dal/model/factory.hpp>
#include <public/src/value.hpp>
#include <public/src/models.hpp>
#include <public/src/script.hpp>
#include <thread>
#include <optional>
#include <functional>
using namespace vh;
using sl::D;
using sl::Script;
using sl::ScriptProduct_;
using sl::Table;
using Dal::Handle_;
using Dal::Matrix_;
using Dal::ModelData_;
using Dal::String_;
using Dal::ThreadPool_;
using Dal::Vector_;
using Dal::AAD::Number_;
using Dal::Script::CreateRNG;
using Dal::Script::MCSimulation;
using Dal::Script::SimResults_;

// injected faults: an allocation made by a worker thread fails
static std::atomic<long> failIn{0}; // counts down the allocations of workers while positive
static std::atomic<long> failed{0};
static thread_local bool spared = false; // the thread that calls the simulation
#if defined(__SANITIZE_ADDRESS__)
void* operator new(size_t n) {
    if (failIn.load(std::memory_order_relaxed) > 0 && !spared && failIn.fetch_sub(1) == 1) {
        ++failed;
        throw std::bad_alloc();
    }
    if (void* p = malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif

static Handle_<ModelData_> data(const sr::Model& m) {
    if (!m.dupire)
        return Dal::NewBSModelData("m", m.spot, m.vol, m.rate, m.div);
    Vector_<> s, t;
    for (double x : m.spots)
        s.push_back(x);
    for (double x : m.times)
        t.push_back(x);
    Matrix_<> v(m.spots.size(), m.times.size());
    for (size_t i = 0; i < m.spots.size(); ++i)
        for (size_t j = 0; j < m.times.size(); ++j)
            v(i, j) = m.vols[i][j];
    return Dal::NewDupireModelData("m", m.spot, m.rate, m.div, s, t, v);
}
struct Case {
    long today;
    Script s;
    Table t;
    string payoff;
    sr::Model m;
    string rng;
    bool bb, fuzzy, skip;
    string show() const { return cat(m.show(), " rng=", rng, bb ? "+bridge" : "", " fuzzy=", fuzzy, " skip=", skip, " payoff=", payoff, " | ", t.show()); }
    vector<double> times() const {
        vector<double> o;
        for (auto& e : s.events)
            if (!e.past)
                o.push_back((e.day - today) / 365.0);
        return o;
    }
};
static Case make(Rng& r, int maxIfDepth, int consts, bool dupire, bool small) {
    Case c;
    c.today = civil::toDays(2022, 1, 1) + r.range(0, 1200);
    sg::Gen g(r);
    g.wild = 0.02;
    g.maxDepth = 3;
    g.maxIfDepth = maxIfDepth;
    g.smooth = maxIfDepth == 0;
    const int nv = r.range(1, 4);
    g.script(c.today, r.coin(0.2) ? r.range(1, 2) : 0, r.range(1, small ? 3 : 5), nv, maxIfDepth && nv > 1 && r.coin(0.4) ? 1 : 0, consts, 3);
    c.s = g.s;
    c.t = sg::table(r, c.s);
    c.m = sr::randomModel(r, dupire, small);
    c.rng = r.coin(0.6) ? "mrg32" : "irn";
    c.bb = r.coin(0.3);
    c.fuzzy = r.coin(0.3);
    c.skip = r.coin(0.5);
    return c;
}
// nullptr when preprocessing refuses a script with an undefined constant
static std::unique_ptr<ScriptProduct_> product(const Case& c, bool compile, size_t* nested = nullptr, int fuzzy = -1) {
    sl::setToday(c.today);
    auto p = std::make_unique<ScriptProduct_>(sl::build(c.t, c.payoff));
    if (!sl::preprocess(c.s, "preprocess", [&] {
            const auto n = p->PreProcess(fuzzy < 0 ? c.fuzzy : fuzzy, c.skip);
            if (nested)
                *nested = n;
            if (compile)
                p->Compile();
        }))
        return nullptr;
    return p;
}
static bool usable(const ScriptProduct_& p) { return !p.VarNames().empty() && p.PayOffIdx() < p.VarNames().size(); }
static void threads(int n) { ThreadPool_::GetInstance()->Start(n, true); }

struct Sum {
    double v = 0, abs = 0;
};
// one thread, one path after the other, everything fresh for every path
static Sum replay(const ScriptProduct_& p, const Case& c, int nPaths, bool compiled) {
    auto mdl = Dal::CreateModel<double>(data(c.m));
    mdl->Allocate(p.TimeLine(), p.DefLine());
    mdl->Init(p.TimeLine(), p.DefLine());
    auto rng = CreateRNG(String_(c.rng), mdl->SimDim(), c.bb);
    Vector_<> g(mdl->SimDim());
    Sum o;
    for (int i = 0; i < nPaths; ++i) {
        rng->FillNormal(&g);
        Dal::AAD::Scenario_<> path;
        Dal::AAD::AllocatePath(p.DefLine(), path);
        Dal::AAD::InitializePath(path);
        mdl->GeneratePath(g, &path);
        double x;
        if (compiled) {
            auto e = p.BuildEvalState<double>();
            p.EvaluateCompiled(path, e);
            x = e.VarVals()[p.PayOffIdx()];
        } else {
            auto e = p.BuildEvaluator<double>();
            p.Evaluate(path, e);
            x = e.VarVals()[p.PayOffIdx()];
        }
        o.v += x;
        o.abs += std::fabs(x);
    }
    return o;
}
static bool same(double a, double b, double abs) { return (std::isnan(a) && std::isnan(b)) || a == b || (std::isinf(abs) || std::isnan(abs)) || std::fabs(a - b) <= 1e-9 * abs + 1e-13; }
static const vector<int> PATHS = {1, 2, 7, 100, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4097, 6000};

static void choosePayoff(Rng& r, Case& c) {
    if (r.coin(0.6))
        c.payoff = c.s.vars[r.below(c.s.vars.size())];
}

static void partReplay() {
    // callers first: a fresh pool
    section("replay", N(900, 9000), [&](Rng& r) {
        Case c = make(r, r.range(0, 2), r.range(0, 2), r.coin(0.35), false);
        choosePayoff(r, c);
        const bool compiled = r.coin();
        const int n = r.pick(PATHS);
        desc(cat("paths=", n, " compiled=", compiled, " ", c.show()));
        auto p = product(c, compiled);
        if (!p || !usable(*p))
            return;
        const Sum ref = replay(*p, c, n, compiled);
        const bool fine = std::isfinite(ref.abs);
        const int reps = r.range(1, 3);
        for (int k = 0; k < reps; ++k) {
            const int th = r.pick({1, 1, 2, 3, 4, 7, 8});
            threads(th);
            count(cat("threads:", th));
            const double v = MCSimulation<double>(*p, data(c.m), n, String_(c.rng), c.bb, compiled).aggregated_;
            checkf(same(v, ref.v, ref.abs), "value-differs", [&] { return cat("threads ", th, " repetition ", k, " got ", v, " replay ", ref.v); });
            count("simulations");
            count("paths", n);
            if (n > 1024)
                count("multi-batch");
        }
        sample(cat(n, " paths, sum ", ref.v, ": ", c.show()));
        observed(cat(n, c.rng, c.bb, c.t.show()), fine && ref.abs > 0);
    });

    section("public", N(100, 1000), [&](Rng& r) {
        Case c = make(r, r.range(0, 2), r.range(0, 2), r.coin(0.35), false);
        c.fuzzy = c.skip = false;
        const int n = r.pick({1, 100, 1025, 2100, 3000});
        desc(cat("paths=", n, " ", c.show()));
        auto p = product(c, false);
        if (!p || !usable(*p))
            return;
        const Sum ref = replay(*p, c, n, false);
        Vector_<Dal::Cell_> dates;
        Vector_<String_> ev;
        for (auto& x : c.t.rows) {
            dates.push_back(x.isDate ? Dal::Cell_(D(x.day)) : Dal::Cell_(String_(x.cell)));
            ev.push_back(String_(x.text));
        }
        auto prod = Dal::NewScriptProduct("p", dates, ev);
        for (int k = 0; k < 2; ++k) {
            threads(r.pick({1, 2, 4, 8}));
            auto res = Dal::ValueByMonteCarlo(prod, data(c.m), n, String_(c.rng), c.bb, false);
            checkf(same(res["PV"], ref.v / n, ref.abs / n), "public-value-differs", [&] { return cat("got ", res["PV"], " replay ", ref.v / n); });
            count("public-valuations");
        }
        observed(cat(n, c.rng, c.bb, c.t.show()), std::isfinite(ref.abs) && ref.abs > 0);
    });

    section("errors", N(40, 200), [&](Rng& r) {
        Case c = make(r, 1, 1, r.coin(), true);
        c.fuzzy = true;
        const int n = r.pick({1, 500, 2500, 5000});
        desc(cat("errors paths=", n, " ", c.show()));
        size_t nested = 0;
        auto p = product(c, true, &nested, 1);
        if (!p || !usable(*p))
            return;
        threads(r.range(1, 8));
        const string bad = r.pick({string("mrg33"), string(""), string("IRNX"), string("sobel")});
        for (int compiled = 0; compiled < 2; ++compiled) {
            check(throws([&] { MCSimulation<double>(*p, data(c.m), n, String_(bad), c.bb, compiled); }), "error-swallowed", "double");
            check(throws([&] { MCSimulation<Number_>(*p, data(c.m), n, String_(bad), c.bb, compiled, nested, 0.01); }), "error-swallowed", "aad");
            count("errors-raised", 2);
            // and the next simulation is unaffected
            const Sum ref = replay(*p, c, n, compiled);
            const double v = MCSimulation<double>(*p, data(c.m), n, String_(c.rng), c.bb, compiled).aggregated_;
            checkf(same(v, ref.v, ref.abs), "value-differs", [&] { return cat("after an error: got ", v, " replay ", ref.v); });
        }
        observed(cat(n, bad, c.t.show()));
    });

    // a task that fails on a worker fails the simulation, which waits for the others first; later simulations are unaffected
    section("faults", N(60, 600), [&](Rng& r) {
#if defined(__SANITIZE_ADDRESS__)
        Case c = make(r, r.range(0, 1), r.range(0, 1), r.coin(0.3), true);
        c.fuzzy = true;
        const int n = r.pick({2500, 3100, 5000, 6100});
        const bool compiled = r.coin(), aad = r.coin(0.6);
        if (!aad) {
            c.bb = r.coin(0.7); // tasks that allocate
            c.rng = "irn";
        }
        desc(cat("faults paths=", n, " compiled=", compiled, " aad=", aad, " ", c.show()));
        size_t nested = 0;
        auto p = product(c, compiled, &nested, 1);
        if (!p || !usable(*p))
            return;
        threads(r.pick({2, 3, 4, 8}));
        vector<double> expect;
        auto sim = [&] {
            vector<double> o;
            if (aad) {
                auto res = MCSimulation<Number_>(*p, data(c.m), n, String_(c.rng), c.bb, compiled, nested, 0.01);
                o.push_back(res.aggregated_);
                o.insert(o.end(), res.risks_.begin(), res.risks_.end());
            } else
                o.push_back(MCSimulation<double>(*p, data(c.m), n, String_(c.rng), c.bb, compiled).aggregated_);
            return o;
        };
        auto agrees = [&](const vector<double>& o, const char* when) {
            for (size_t i = 0; i < expect.size(); ++i)
                checkf(same(o[i], expect[i], std::fabs(expect[i]) + 1), "fault-changes-result", [&] { return cat(when, ": result ", i, " is ", o[i], " without the fault ", expect[i]); });
        };
        expect = sim();
        spared = true;
        for (int k = 0; k < 4; ++k) {
            failed = 0;
            failIn = (long)r.logUniform(1, aad ? 400 : 60);
            vector<double> o;
            string what;
            const bool thrown = throws([&] { o = sim(); }, &what);
            failIn = 0;
            const bool hit = failed > 0;
            check(!hit || thrown, "error-swallowed", "a failed task left no error");
            check(hit || !thrown, "error-from-nowhere", what.substr(0, 200));
            if (!thrown)
                agrees(o, "no fault");
            count(hit ? "faults" : "faults-not-reached");
            agrees(sim(), "after a fault");
        }
        spared = false;
        observed(cat(n, aad, compiled, c.t.show()));
#endif
    });

    section("concurrent", N(40, 400), [&](Rng& r) {
        const int callers = r.range(2, 4);
        struct Job {
            Case c;
            std::unique_ptr<ScriptProduct_> p;
            size_t nested = 0;
            Handle_<ModelData_> md;
            int n;
            bool compiled, aad;
            double expect, got[2];
            vector<double> risk, gotRisk[2];
            double abs;
            string err;
        };
        vector<Job> jobs(callers);
        const long today = civil::toDays(2023, 1, 1) + r.range(0, 500);
        string d;
        threads(r.pick({1, 2, 4, 8}));
        for (auto& j : jobs) {
            do {
                j.c = make(r, r.range(0, 1), r.range(0, 1), r.coin(0.3), true);
                const long shift = today - j.c.today;
                j.c.today = today; // one valuation date for all
                for (auto& e : j.c.s.events)
                    e.day += shift;
                for (auto& e : j.c.t.rows)
                    e.day += shift;
                j.compiled = r.coin();
                j.aad = r.coin();
                j.c.fuzzy = true;
                desc(d + j.c.show());
                j.p = product(j.c, j.compiled, &j.nested, 1);
            } while (!j.p || !usable(*j.p));
            j.n = r.pick({5, 300, 1100, 2100, 2500});
            j.md = data(j.c.m);
            const Sum ref = replay(*j.p, j.c, j.n, j.compiled);
            j.expect = ref.v;
            j.abs = ref.abs;
            if (j.aad) {
                auto res = MCSimulation<Number_>(*j.p, j.md, j.n, String_(j.c.rng), j.c.bb, j.compiled, j.nested, 0.01);
                j.expect = res.aggregated_;
                j.risk.assign(res.risks_.begin(), res.risks_.end());
            }
            d += cat("[n=", j.n, " compiled=", j.compiled, " aad=", j.aad, " ", j.c.show(), "] ");
        }
        desc(d);
        std::atomic<int> ready{0};
        vector<std::thread> th;
        for (auto& j : jobs)
            th.emplace_back([&] {
                ++ready;
                while (ready < callers)
                    std::this_thread::yield();
                try {
                    for (int k = 0; k < 2; ++k) {
                        if (j.aad) {
                            auto res = MCSimulation<Number_>(*j.p, j.md, j.n, String_(j.c.rng), j.c.bb, j.compiled, j.nested, 0.01);
                            j.got[k] = res.aggregated_;
                            j.gotRisk[k].assign(res.risks_.begin(), res.risks_.end());
                        } else
                            j.got[k] = MCSimulation<double>(*j.p, j.md, j.n, String_(j.c.rng), j.c.bb, j.compiled).aggregated_;
                    }
                } catch (const std::exception& e) {
                    j.err = e.what();
                }
            });
        for (auto& x : th)
            x.join();
        for (auto& j : jobs) {
            check(j.err.empty(), "concurrent-error", j.err);
            if (!j.err.empty())
                continue;
            for (int k = 0; k < 2; ++k) {
                checkf(same(j.got[k], j.expect, j.abs), "concurrent-value-differs", [&] { return cat("alone ", j.expect, " concurrent ", j.got[k], " aad=", j.aad); });
                for (size_t i = 0; i < j.risk.size(); ++i)
                    checkf(same(j.gotRisk[k][i], j.risk[i], std::fabs(j.risk[i]) + 1), "concurrent-risk-differs",
                           [&] { return cat("alone ", j.risk[i], " concurrent ", j.gotRisk[k][i]); });
                count("concurrent-simulations");
            }
        }
        observed(d);
    });
}

struct Ref {
    bool ok = true;
    double v = 0, scale = 0;
    std::array<double, sr::MAXD> risk{}, rscale{};
    double minSlack = 1e300, minDist = 1e300;
    bool conditions = false;
    u64 branches = 0;
};
static Ref reference(const Case& c, const ScriptProduct_& p, int nPaths, double eps, bool both = false) {
    Ref o;
    const auto times = c.times();
    const size_t dim = sr::steps(c.m, times).t.size() - 1;
    const string name = sl::lower(string(p.VarNames()[p.PayOffIdx()].c_str()));
    int idx = -1;
    for (size_t i = 0; i < c.s.vars.size(); ++i)
        if (sl::lower(c.s.vars[i]) == name)
            idx = i;
    if (idx < 0) {
        o.ok = false;
        return o;
    }
    auto rng = CreateRNG(String_(c.rng), dim, c.bb);
    Vector_<> g(dim);
    vector<double> gv(dim);
    for (int i = 0; i < nPaths; ++i) {
        rng->FillNormal(&g);
        gv.assign(g.begin(), g.end());
        const auto path = sr::path(c.m, times, gv);
        const auto run = sr::run(c.s, c.m, path, eps, both);
        if (!run.defined || run.minDist < 1e-9 || path.minNode < 1e-9) {
            o.ok = false;
            return o;
        }
        o.v += run.v[idx].v;
        o.scale += std::max(run.maxV, run.v[idx].m);
        for (int k = 0; k < sr::MAXD; ++k) {
            o.risk[k] += run.v[idx].d[k] / nPaths;
            o.rscale[k] += std::max(run.maxD[k], run.v[idx].ad[k]) / nPaths;
        }
        o.minSlack = std::min(o.minSlack, run.minSlack);
        o.conditions = o.conditions || run.conditions;
        o.branches = mix(o.branches ^ run.branches);
    }
    return o;
}
static void compare(const Case& c, const ScriptProduct_& p, const SimResults_& res, const Ref& ref, int n, const string& what) {
    checkf(near(res.aggregated_, ref.v, 1e-11 * ref.scale + 1e-12, 0), "aad-value-differs", [&] { return cat(what, " got ", res.aggregated_, " expected ", ref.v); });
    const auto labels = c.m.labels();
    size_t nonzero = 0;
    for (size_t k = 0; k < labels.size(); ++k) {
        if (!check(k < res.names_.size() && string(res.names_[k].c_str()) == labels[k], "parameter-name", cat(what, " parameter ", k, " is not ", labels[k])))
            return;
        checkf(near(res.risks_[k], ref.risk[k], 1e-10 * ref.rscale[k] + 1e-11, 1e-9), "sensitivity-wrong",
               [&] { return cat(what, " d/d(", labels[k], ") got ", res.risks_[k], " expected ", ref.risk[k]); });
        nonzero += ref.risk[k] != 0;
    }
    // constants: by name
    for (size_t k = 0; k < c.s.consts.size(); ++k) {
        const double e = ref.risk[c.m.params() + k];
        bool used = false;
        for (auto& n : p.ConstVarNames())
            used = used || sl::lower(string(n.c_str())) == sl::lower(c.s.consts[k]);
        if (!used) {
            check(e == 0, "constant-missing", c.s.consts[k]);
            continue;
        }
        double got = 1e300;
        for (size_t j = 0; j < res.names_.size(); ++j)
            if (sl::lower(string(res.names_[j].c_str())) == sl::lower(c.s.consts[k]))
                got = res.risks_[j];
        checkf(near(got, e, 1e-10 * ref.rscale[c.m.params() + k] + 1e-11, 1e-9), "constant-sensitivity-wrong",
               [&] { return cat(what, " d/d(", c.s.consts[k], ") got ", got, " expected ", e); });
        count("constant-sensitivities");
        nonzero += e != 0;
    }
    count("sensitivities", labels.size());
    count("nonzero-sensitivities", nonzero);
    // results are read by name, and copies outlive what they were copied from
    auto middle = std::make_unique<SimResults_>(res);
    SimResults_ copy(*middle);
    std::fill(middle->risks_.begin(), middle->risks_.end(), 77777.0);
    middle.reset();
    std::map<string, int> times;
    for (auto& x : copy.names_)
        ++times[sl::lower(string(x.c_str()))];
    for (size_t k = 0; k < copy.names_.size(); ++k)
        if (times[sl::lower(string(copy.names_[k].c_str()))] == 1) {
            const double got = copy[copy.names_[k]], want = res.risks_[k];
            checkf(got == want || (got != got && want != want), "result-by-name", [&] { return cat(copy.names_[k].c_str(), " is ", got, ", not ", want); });
            count("results-by-name");
        }
    check(throws([&] { (void)copy[String_("no such parameter")]; }), "unknown-result", "a sensitivity to an unknown name was returned");
}

static size_t tapeSize(Dal::AAD::Tape_& t) {
    size_t n = 0;
    for (auto it = t.Begin(); it != t.End(); ++it)
        ++n;
    return n;
}
// the caller may be on a thread with no tape, or be recording on a tape of its own, which the simulation leaves alone
static SimResults_ simulateFrom(Rng& r, const std::function<SimResults_()>& run) {
    std::optional<SimResults_> res;
    if (r.coin()) {
        std::exception_ptr err;
        std::thread t([&] {
            try {
                res.emplace(run());
            } catch (...) {
                err = std::current_exception();
            }
        });
        t.join();
        if (err)
            std::rethrow_exception(err);
        count("runs-from-threads-without-tape");
        return *res;
    }
    auto* before = Number_::Tape();
    {
        Dal::AAD::Tape_ tape;
        Number_::SetTape(tape);
        const double x0 = r.uniform(0.5, 2), y0 = r.uniform(0.5, 2);
        Number_ x(x0), y(y0);
        Number_ z = x * y + x;
        const bool marked = r.coin();
        if (marked)
            tape.Mark();
        const auto size = tapeSize(tape);
        res.emplace(run());
        check(Number_::Tape() == &tape, "caller-tape-replaced", "");
        check(tapeSize(tape) == size, "caller-tape-used", "the simulation recorded on the tape of its caller");
        Number_ w = z * z * y;
        w.PropagateToStart();
        const double z0 = x0 * y0 + x0;
        check(near(x.Adjoint(), 2 * z0 * (y0 + 1) * y0, 0, 1e-12) && near(y.Adjoint(), 2 * z0 * x0 * y0 + z0 * z0, 0, 1e-12), "caller-derivatives-wrong",
              "derivatives recorded around a simulation");
        Number_::SetTape(before);
    }
    count("runs-within-a-recording");
    return *res;
}

static void partGreeks() {
    section("exact", N(9000, 90000), [&](Rng& r) {
        Case c = make(r, r.coin(0.5) ? 0 : r.range(1, 2), r.range(0, 3), r.coin(0.4), true);
        choosePayoff(r, c);
        const bool compiled = r.coin();
        const int n = r.pick({1, 2, 3, 8, 40});
        const double eps = r.pick({1e-9, 1e-6, 1e-4, 0.01});
        desc(cat("paths=", n, " compiled=", compiled, " eps=", eps, " ", c.show()));
        size_t nested = 0;
        auto p = product(c, compiled, &nested, compiled ? -1 : 1);
        if (!p || !usable(*p))
            return;
        const Ref ref = reference(c, *p, n, eps);
        const bool cmp = ref.ok && (compiled || ref.minSlack > 0);
        if (r.coin(0.1))
            threads(r.range(1, 8));
        const auto run = [&] { return MCSimulation<Number_>(*p, data(c.m), n, String_(c.rng), c.bb, compiled, nested, eps); };
        const auto res = r.coin(0.15) ? simulateFrom(r, run) : run();
        if (!cmp) {
            count(ref.ok ? "in-smoothing-zone" : "undefined-or-kink");
            observed(c.t.show(), false);
            return;
        }
        count(ref.conditions ? (compiled ? "conditional-compiled" : "conditional-smoothed") : "unconditional");
        compare(c, *p, res, ref, n, compiled ? "compiled" : "interpreted");
        const double plain = MCSimulation<double>(*p, data(c.m), n, String_(c.rng), c.bb, compiled).aggregated_;
        checkf(near(res.aggregated_, plain, 1e-11 * ref.scale + 1e-12, 0), "aad-value-not-plain", [&] { return cat("aad ", res.aggregated_, " plain ", plain); });
        sample(cat("paths=", n, " compiled=", compiled, " ", c.show(), " risk[0]=", res.risks_[0], " risk[1]=", res.risks_[1]));
        observed(cat(compiled, ref.branches, c.t.show()), ref.risk[0] != 0 || ref.risk[1] != 0);
    });

    section("batches", N(240, 2400), [&](Rng& r) {
        Case c = make(r, r.coin() ? 0 : 1, r.range(0, 2), r.coin(0.3), true);
        const bool compiled = r.coin();
        const int n = r.pick({1023, 1024, 1025, 2048, 2049, 2500, 3100});
        const double eps = 1e-7;
        desc(cat("paths=", n, " compiled=", compiled, " ", c.show()));
        size_t nested = 0;
        auto p = product(c, compiled, &nested, compiled ? -1 : 1);
        if (!p || !usable(*p))
            return;
        const Ref ref = reference(c, *p, n, eps);
        if (!ref.ok || (!compiled && ref.minSlack <= 0)) {
            observed(c.t.show(), false);
            return;
        }
        for (int k = 0; k < 2; ++k) {
            threads(r.pick({1, 2, 3, 8}));
            const auto res = MCSimulation<Number_>(*p, data(c.m), n, String_(c.rng), c.bb, compiled, nested, eps);
            compare(c, *p, res, ref, n, cat(compiled ? "compiled" : "interpreted", " batches"));
            count("multi-batch-runs");
            // another simulation in between
            if (k == 0) {
                Case o = make(r, 1, 1, r.coin(), true);
                size_t nn = 0;
                auto q = product(o, true, &nn, 1);
                sl::setToday(c.today);
                if (q && usable(*q)) {
                    MCSimulation<Number_>(*q, data(o.m), 1500, "mrg32", false, r.coin(), nn, 0.1);
                    count("interleaved-runs");
                }
            }
        }
        observed(cat(compiled, n, ref.branches, c.t.show()), ref.risk[0] != 0 || ref.risk[1] != 0);
    });

    section("public", N(150, 1500), [&](Rng& r) {
        Case c = make(r, r.coin(0.6) ? 0 : 1, r.range(0, 2), r.coin(0.3), true);
        c.fuzzy = c.skip = true;
        const int n = r.pick({10, 100, 1100});
        const double eps = 1e-6;
        desc(cat("paths=", n, " ", c.show()));
        auto p = product(c, false);
        if (!p || !usable(*p))
            return;
        const Ref ref = reference(c, *p, n, eps);
        if (!ref.ok || ref.minSlack <= 0) {
            observed(c.t.show(), false);
            return;
        }
        Vector_<Dal::Cell_> dates;
        Vector_<String_> ev;
        for (auto& x : c.t.rows) {
            dates.push_back(x.isDate ? Dal::Cell_(D(x.day)) : Dal::Cell_(String_(x.cell)));
            ev.push_back(String_(x.text));
        }
        auto res = Dal::ValueByMonteCarlo(Dal::NewScriptProduct("p", dates, ev), data(c.m), n, String_(c.rng), c.bb, true, eps);
        checkf(near(res["PV"], ref.v / n, 1e-11 * ref.scale / n + 1e-12, 0), "public-pv", [&] { return cat("got ", res["PV"], " expected ", ref.v / n); });
        const auto labels = c.m.labels();
        for (size_t k = 0; k < labels.size(); ++k) {
            auto it = res.find(String_("d_" + labels[k]));
            if (!check(it != res.end(), "public-name", labels[k]))
                break;
            checkf(near(it->second, ref.risk[k], 1e-10 * ref.rscale[k] + 1e-11, 1e-9), "public-sensitivity", [&] { return cat(labels[k], " got ", it->second, " expected ", ref.risk[k]); });
        }
        count("public-valuations");
        observed(cat(n, ref.branches, c.t.show()), ref.risk[0] != 0 || ref.risk[1] != 0);
    });

    // inside the smoothing zone: bumped values of the same smoothed simulation
    // inside the smoothing zones the public function does what the simulation does with smoothing prepared
    section("public-smoothed", N(150, 1500), [&](Rng& r) {
        Case c = make(r, r.range(1, 3), r.range(0, 2), r.coin(0.3), true);
        c.fuzzy = true;
        const int n = r.pick({10, 100, 1100});
        const double eps = r.logUniform(0.01, 200);
        desc(cat("paths=", n, " width=", eps, " ", c.show()));
        size_t nested = 0;
        auto p = product(c, false, &nested);
        if (!p || !usable(*p))
            return;
        const SimResults_ want = MCSimulation<Number_>(*p, data(c.m), n, String_(c.rng), c.bb, false, (int)nested, eps);
        Vector_<Dal::Cell_> dates;
        Vector_<String_> ev;
        for (auto& x : c.t.rows) {
            dates.push_back(x.isDate ? Dal::Cell_(D(x.day)) : Dal::Cell_(String_(x.cell)));
            ev.push_back(String_(x.text));
        }
        auto res = Dal::ValueByMonteCarlo(Dal::NewScriptProduct("p", dates, ev), data(c.m), n, String_(c.rng), c.bb, true, eps);
        checkf(near(res["PV"], want.aggregated_ / n, 1e-12, 1e-9) || !std::isfinite(want.aggregated_), "public-pv-smoothed", [&] { return cat("got ", res["PV"], " expected ", want.aggregated_ / n); });
        check(res.size() == 1 + want.names_.size(), "public-name", cat(res.size(), " results"));
        for (size_t k = 0; k < want.names_.size(); ++k)
            checkf(near(res["d_" + want.names_[k]], want.risks_[k], 1e-9, 1e-9) || !std::isfinite(want.risks_[k]), "public-sensitivity-smoothed",
                   [&] { return cat(want.names_[k].c_str(), " got ", res["d_" + want.names_[k]], " expected ", want.risks_[k]); });
        count("public-smoothed");
        observed(cat(n, eps, c.t.show()), std::isfinite(want.aggregated_) && want.aggregated_ != 0);
    });
    section("bump", N(800, 8000), [&](Rng& r) {
        Case c = make(r, r.range(1, 2), r.range(0, 2), r.coin(0.3), true);
        c.rng = "mrg32";
        const int n = r.pick({1, 5, 30});
        const double eps = r.pick({5.0, 20.0, 60.0});
        desc(cat("paths=", n, " eps=", eps, " ", c.show()));
        auto value = [&](const Case& k, SimResults_* out) -> double {
            size_t nested = 0;
            auto p = product(k, false, &nested, 1);
            if (!p || !usable(*p))
                return NAN;
            auto res = MCSimulation<Number_>(*p, data(k.m), n, String_(k.rng), k.bb, false, nested, eps);
            if (out)
                *out = res;
            return res.aggregated_ / n;
        };
        SimResults_ base((Vector_<String_>()));
        const double v0 = value(c, &base);
        if (!std::isfinite(v0) || std::fabs(v0) > 1e7)
            return;
        const auto labels = c.m.labels();
        const Ref scale = reference(c, *product(c, false, nullptr, 1), n, eps, true);
        if (!scale.ok) {
            count("wild");
            return;
        }
        // sensitivities that are rounding noise change with the last digits of the spot: not comparable
        for (double e : {1e-13, -3e-13, 7e-13}) {
            Case b = c;
            b.m.spot *= 1 + e;
            SimResults_ other((Vector_<String_>()));
            value(b, &other);
            for (size_t k = 0; k < other.risks_.size(); ++k)
                if (!near(other.risks_[k], base.risks_[k], 1e-6, 1e-5)) {
                    count("noisy");
                    return;
                }
        }
        int compared = 0;
        for (int q = 0; q < 4; ++q) {
            const size_t k = q == 0 ? 0 : r.below(labels.size() + c.s.consts.size());
            auto bumped = [&](double h) {
                Case b = c;
                if (k < labels.size())
                    b.m.param(k) += h;
                else {
                    const size_t i = k - labels.size();
                    char t[64];
                    snprintf(t, sizeof t, "%.17g", c.s.constVals[i] + h);
                    for (auto& row : b.t.rows)
                        if (!row.isDate && row.cell == c.s.consts[i])
                            row.text = t;
                }
                return value(b, nullptr);
            };
            const double x = k < labels.size() ? c.m.param(k) : c.s.constVals[k - labels.size()];
            const double h = 2e-5 * std::max(std::fabs(x), k == 0 ? 1.0 : 0.1);
            const double d1 = (bumped(h) - bumped(-h)) / (2 * h), d2 = (bumped(h / 2) - bumped(-h / 2)) / h;
            const double up = (bumped(h) - v0) / h, dn = (v0 - bumped(-h)) / h;
            // a kink or a wild function here: not comparable
            if (!(near(d1, d2, 1e-6, 1e-4) && near(up, dn, 1e-4, 5e-3)))
                continue;
            double got = 0;
            if (k < labels.size())
                got = base.risks_[k];
            else {
                bool found = false;
                for (size_t j = labels.size(); j < base.names_.size(); ++j)
                    if (sl::lower(string(base.names_[j].c_str())) == sl::lower(c.s.consts[k - labels.size()])) {
                        got = base.risks_[j];
                        found = true;
                    }
                bool past = false;
                for (auto& e : c.s.events)
                    past = past || e.past;
                if (past || !found)
                    continue; // constants of past events are history
            }
            checkf(near(got, d2, 1e-5 + 1e-11 * scale.rscale[k] + 1e-13 * scale.scale / n / h, 2e-3), "smoothed-sensitivity-wrong",
                   [&] { return cat("parameter ", k < labels.size() ? labels[k] : c.s.consts[k - labels.size()], " got ", got, " bumped ", d2); });
            ++compared;
            count("bumped");
        }
        observed(cat(n, eps, c.t.show()), compared > 0);
    });
}

VH_MAIN([] {
    sl::init();
    const char* part = getenv("SIM_PART");
    if (string(part ? part : "") == "greeks")
        partGreeks();
    else
        partReplay();
})
