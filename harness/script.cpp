// P04: evaluation of generated scripts against the reference interpreter.  P05: all preprocessing and compilation
// configurations against it.  P06: smoothed evaluation.  P07 lives in scriptfuzz.cpp.
#include "script.hpp"
#include <public/src/script.hpp>
#include <sstream>

using namespace sl;
using Dal::Script::Event_;

// many events and statements, many conditions evaluated on one scenario
static Gen longScript(Rng& r, long today) {
    Gen g(r);
    g.maxDepth = r.range(1, 2);
    g.wild = 0;
    g.maxIfDepth = r.range(1, 3);
    const int nv = r.range(2, 12);
    if (r.coin())
        g.script(today, r.range(0, 12), r.range(10, 40), nv, r.range(0, nv - 1), r.range(0, 6), r.range(2, 8));
    else
        g.script(today, r.range(0, 1), r.range(1, 2), nv, r.range(0, nv - 1), r.range(0, 6), r.range(2, 8));
    // the same statements again and again
    auto& e = g.s.events.back().stmts;
    if (r.coin()) {
        vector<St> more = e;
        auto x = std::make_shared<Stmt>();
        x->op = IF;
        x->c = g.cond(3);
        x->yes.push_back(g.stmt(1));
        x->hasElse = r.coin();
        if (x->hasElse)
            x->no.push_back(g.stmt(1));
        more.push_back(x);
        for (int k = r.range(20, 160); k > 0; --k)
            e.insert(e.end(), r.coin(0.8) ? more.end() - 1 : more.begin(), more.end());
    }
    // a long history: the same payments on past dates
    auto& first = g.s.events.front();
    if (first.past && r.coin(0.7)) {
        auto x = std::make_shared<Stmt>();
        x->op = PAYS;
        x->var = r.range(0, nv - 1);
        x->e = g.number();
        const int k = r.range(100, 300);
        first.stmts.insert(first.stmts.end(), k, x);
        count("past-payments", k);
    }
    return g;
}

static bool usable(const Run& ref) { return ref.defined && ref.minDist > 1e-11; }

static bool compare(const Script& s, const Run& ref, const std::map<string, double>& got, const string& key, const string& what) {
    bool ok = true;
    for (size_t i = 0; i < s.vars.size(); ++i) {
        auto it = got.find(lower(s.vars[i]));
        if (it == got.end()) {
            continue; // a variable that never appears in the text
        }
        if (!near(it->second, ref.v[i], 1e-9, 1e-9)) {
            violation(key, cat(what, ": variable ", s.vars[i], " is ", it->second, ", the text says ", ref.v[i]));
            ok = false;
        }
    }
    return ok;
}

static std::map<string, double> plain(const ScriptProduct_& p, Dal::Script::Evaluator_<double>& ev, const Paths& w) {
    Scn sc = scenario(w.spot, w.num);
    p.Evaluate(sc, ev);
    return byName(p, ev.VarVals());
}

// comparisons a few roundings away from equality, or exactly on it: the text is about the numbers, not about numbers nearby
// (domain analysis is left out: there values within the library's tolerance count as equal)
static void hairline(Rng& r, bool compiled) {
    setToday(civil::toDays(2025, 1, 1));
    struct Side {
        string text;
        double value;
    };
    volatile double a = 0.1, b = 0.2, c = 0.3, d = 0.7, e = 1.1, f = 3.0;
    const double spot = r.coin(0.7) ? std::nextafter(100.0, r.coin() ? 0 : 1e9) : 100.0;
    const vector<std::pair<Side, Side>> PAIRS = {
        {{"0.1 + 0.2", a + b}, {"0.3", c}},
        {{"0.3 - 0.1", c - a}, {"0.2", b}},
        {{"0.7 + 0.1", d + a}, {"0.8", 0.8}},
        {{"1.1 * 3", e * f}, {"3.3", 3.3}},
        {{"1.1 * 1.1", e * e}, {"1.21", 1.21}},
        {{"0.1 * 3", a * f}, {"0.3", c}},
        {{"0.5 + 0.25", 0.75}, {"0.75", 0.75}},
        {{"spot()", spot}, {"100", 100}},
        {{"spot() - 100", spot - 100}, {"0", 0}},
        {{"spot() - 100", spot - 100}, {"0.00000000000001", 1e-14}},
        {{"0.000000000000001", 1e-15}, {"0", 0}},
        {{"v", c - a}, {"0.2", b}},
        {{"v - 0.2", (c - a) - b}, {"0", 0}},
        {{"KK", 0.3}, {"0.1 + 0.2", a + b}},
    };
    auto pr = r.pick(PAIRS);
    if (r.coin())
        std::swap(pr.first, pr.second);
    const string op = r.pick({"<", ">", "<=", ">=", "=", "!="});
    const double l = pr.first.value, q = pr.second.value;
    const bool yes = op == "<" ? l < q : op == ">" ? l > q : op == "<=" ? l <= q : op == ">=" ? l >= q : op == "=" ? l == q : l != q;
    const bool other = r.coin();
    string cond = cat(pr.first.text, " ", op, " ", pr.second.text);
    if (other)
        cond = r.coin() ? cond + " AND spot() > 50" : "spot() < 50 OR " + cond;
    Table t;
    t.rows.push_back({false, 0, "KK", "0.3"});
    t.rows.push_back({true, civil::toDays(2025, 6, 1), "", "v = 0.3 - 0.1 x = 0"});
    t.rows.push_back({true, civil::toDays(2025, 7, 1), "", "IF " + cond + " THEN x = 1 ELSE x = 2 END"});
    desc(cat("spot ", spot, " ", t.show()));
    ScriptProduct_ p = build(t);
    p.PreProcess(false, true);
    Scn sc = scenario({100.0, spot}, {1.0, 1.0});
    double x;
    if (compiled) {
        p.Compile();
        auto st = p.BuildEvalState<double>();
        p.EvaluateCompiled(sc, st);
        x = byName(p, st.VarVals())["x"];
    } else {
        auto ev = p.BuildEvaluator<double>();
        p.Evaluate(sc, ev);
        x = byName(p, ev.VarVals())["x"];
    }
    check(x == (yes ? 1 : 2), compiled ? "hairline-compiled" : "hairline", cat("took the branch of x = ", x, " where ", l, (yes ? " is " : " is not "), op, " ", q));
    count("hairlines");
    observed(t.show() + cat(spot), true);
}

static void evalSection() {
    section("hairline", N(2000, 20000), [](Rng& r) { hairline(r, false); });
    section("evaluate", N(36000, 400000), [](Rng& r) {
        const long today = civil::toDays(r.range(2000, 2060), r.range(1, 12), r.range(1, 28));
        setToday(today);
        Gen g = randomScript(r, today);
        const Table t = table(r, g.s);
        desc(t.show());
        ScriptProduct_ p = build(t);
        p.PreProcess(false, true);
        auto ev = p.BuildEvaluator<double>();
        bool any = false;
        u64 h = hashStr(t.show());
        const int k = r.range(1, 4);
        for (int i = 0; i < k; ++i) {
            const Paths w = paths(r, g.s);
            const Run ref = run(g.s, w.spot, w.num);
            auto got = plain(p, ev, w);
            if (!usable(ref)) {
                count("undefined-scenarios");
                continue;
            }
            any = true;
            count("scenarios");
            count("comparisons", ref.comparisons);
            h = mix(h ^ ref.branches);
            compare(g.s, ref, got, "script-value", show(w));
        }
        // copies of an evaluator that was used already
        if (r.coin(0.25)) {
            const Paths w = paths(r, g.s);
            const Run ref = run(g.s, w.spot, w.num);
            Dal::Script::Evaluator_<double> copy(ev), assigned(Dal::Vector_<>(r.below(4), 7.0), Dal::Vector_<>(r.below(3), 9.0));
            assigned = copy;
            auto a = plain(p, copy, w), b = plain(p, assigned, w), c = plain(p, ev, w);
            Dal::Script::Evaluator_<double> moved(std::move(copy)), moveAssigned(Dal::Vector_<>(r.below(4), 7.0));
            moveAssigned = std::move(assigned);
            auto d = plain(p, moved, w), e = plain(p, moveAssigned, w);
            if (usable(ref)) {
                for (auto* x : {&a, &b, &c, &d, &e})
                    compare(g.s, ref, *x, "evaluator-copy", show(w));
                count("evaluator-copies");
            }
        }
        // events in the right place
        size_t past = 0, fut = 0;
        for (auto& e : g.s.events)
            (e.past ? past : fut)++;
        check(p.EventDates().size() == fut && p.PastEventDates().size() == past, "event-split", cat("past ", p.PastEventDates().size(), " future ", p.EventDates().size()));
        size_t a = 0, b = 0;
        for (auto& e : g.s.events)
            check((e.past ? p.PastEventDates()[b++] : p.EventDates()[a++]) == D(e.day), "event-dates", "");
        for (size_t i = 0; i < p.TimeLine().size(); ++i) {
            const double yf = (g.s.events[past + i].day - today) / 365.0;
            if (!near(p.TimeLine()[i], yf, 1e-12, 1e-12))
                violation("timeline", cat("event ", i, " at ", p.TimeLine()[i], " expected ", yf));
        }
        observed(h, any);
        if (any)
            sample(t.show());
    });

    section("long", N(160, 3000), [](Rng& r) {
        const long today = civil::toDays(r.range(2000, 2050), r.range(1, 12), r.range(1, 28));
        setToday(today);
        Gen g = longScript(r, today);
        const Table t = table(r, g.s);
        desc(t.show());
        ScriptProduct_ p = build(t);
        p.PreProcess(false, true);
        auto ev = p.BuildEvaluator<double>();
        bool any = false;
        for (int i = 0; i < 3; ++i) {
            const Paths w = paths(r, g.s);
            const Run ref = run(g.s, w.spot, w.num);
            auto got = plain(p, ev, w);
            if (!usable(ref))
                continue;
            any = true;
            count("long-scenarios");
            count("long-comparisons", ref.comparisons);
            compare(g.s, ref, got, "long-script-value", show(w));
        }
        observed(t.show(), any);
    });

    // the payoff is the named variable, or the last one to appear
    section("payoff", N(600, 20000), [](Rng& r) {
        const long today = civil::toDays(2024, r.range(1, 12), r.range(1, 28));
        setToday(today);
        Gen g = randomScript(r, today, false);
        g.s.vars.push_back("theResult");
        const int res = (int)g.s.vars.size() - 1;
        auto x = std::make_shared<Stmt>();
        x->op = r.coin() ? PAYS : ASSIGN;
        x->var = res;
        x->e = mk(ADD, {Gen::numE(r.range(0, 9)), g.allowSpot ? mk(SPOT) : Gen::numE(1)});
        // all other variables first, so that this one is the last to appear
        auto& last = g.s.events.back().stmts;
        for (int v = 0; v < res; ++v) {
            auto y = std::make_shared<Stmt>();
            y->op = ASSIGN;
            y->var = v;
            y->e = mk(VAR);
            y->e->var = v;
            last.push_back(y);
        }
        last.push_back(x);
        const Table t = table(r, g.s);
        const int named = r.coin() ? (int)r.below(g.s.vars.size()) : -1;
        const string payoff = named < 0 ? "" : g.s.vars[named];
        desc(cat("payoff '", payoff, "' of ", t.show()));
        ScriptProduct_ p = build(t, payoff);
        const bool skip = r.coin();
        if (!preprocess(g.s, "payoff", [&] { p.PreProcess(false, skip); }))
            return;
        const string want = lower(named < 0 ? g.s.vars[res] : payoff);
        const size_t idx = p.PayOffIdx();
        check(idx < p.VarNames().size() && lower(p.VarNames()[idx].c_str()) == want, "payoff-variable",
              cat("index ", idx, " wanted ", want));
        count("payoffs");
        observed(t.show() + payoff, true);
    });

    // textual macros and schedules
    section("macros", N(1500, 30000), [](Rng& r) {
        const long today = civil::toDays(r.range(2010, 2040), r.range(1, 12), r.range(1, 28));
        setToday(today);
        Gen g(r);
        g.s.vars = {"acc", "m1", "m2"};
        g.maxDepth = 2;
        // a macro stands for an expression (in parentheses) or for whole statements
        auto bare = [&]() {
            Gen h(r);
            h.s.vars = {"acc"};
            h.wild = 0;
            E e = h.expr(2);
            return e;
        };
        const E e1 = bare(), e2 = bare();
        vector<St> ms;
        {
            auto x = std::make_shared<Stmt>();
            x->op = ASSIGN, x->var = 1, x->e = e1;
            ms.push_back(x);
            auto y = std::make_shared<Stmt>();
            y->op = PAYS, y->var = 2, y->e = e2;
            ms.push_back(y);
        }
        Printer pr{r, g.s};
        pr.ex(*e1, 1);
        const string m1 = "(" + pr.join(pr.toks) + ")";
        const string m2 = pr.text(ms);
        Table t;
        t.rows.push_back({false, 0, "MACRO_ONE", m1});
        t.rows.push_back({false, 0, "macroTwo", m2});
        const int n = r.range(1, 3);
        std::set<long> days;
        while ((int)days.size() < n)
            days.insert(today + r.range(0, 500));
        for (long d : days) {
            Event e;
            e.day = d;
            string txt;
            const int k = r.range(1, 3);
            for (int i = 0; i < k; ++i) {
                if (r.coin(0.4)) {
                    for (auto& x : ms)
                        e.stmts.push_back(x);
                    txt += pr.casing("macroTwo") + "\n";
                } else {
                    auto x = std::make_shared<Stmt>();
                    const int c = r.range(1, 5);
                    x->op = r.coin() ? ASSIGN : PAYS, x->var = 0;
                    x->e = mk(SUB, {Gen::numE(c), mk(MUL, {e1, Gen::numE(2)})});
                    e.stmts.push_back(x);
                    txt += cat("acc ", x->op == ASSIGN ? "=" : "PAYS", " ", c, " - ", pr.casing("Macro_One"), " * 2\n");
                }
            }
            g.s.events.push_back(e);
            t.rows.push_back({true, d, "", txt});
        }
        desc(t.show());
        ScriptProduct_ p = build(t);
        p.PreProcess(false, true);
        auto ev = p.BuildEvaluator<double>();
        const Paths w = paths(r, g.s);
        const Run ref = run(g.s, w.spot, w.num);
        auto got = plain(p, ev, w);
        if (usable(ref)) {
            count("macro-scripts");
            compare(g.s, ref, got, "macro-value", show(w));
        }
        observed(t.show(), true);
    });

    section("schedules", N(1500, 30000), [](Rng& r) {
        const long today = civil::toDays(r.range(2010, 2040), r.range(1, 12), r.range(1, 28));
        setToday(today);
        // exact periods: nothing about stubs or adjustment is decided here
        const int step = r.pick({1, 3, 6, 12}), n = r.range(1, 6);
        const civil::YMD s0 = civil::fromDays(civil::toDays(civil::fromDays(today).y, civil::fromDays(today).m, 1) + r.range(0, 27));
        const int shift = r.range(-14, 6);
        const auto A = civil::addMonths(s0, shift, false);
        vector<long> dates;
        for (int i = 0; i <= n; ++i)
            dates.push_back(civil::days(civil::addMonths(A, i * step, false)));
        const auto B = civil::fromDays(dates.back());
        const bool atEnd = r.coin();
        char a[16], b[16];
        snprintf(a, sizeof a, "%04d-%02d-%02d", A.y, A.m, A.d);
        snprintf(b, sizeof b, "%04d-%02d-%02d", B.y, B.m, B.d);
        vector<string> parts = {cat("START: ", a), cat(r.coin() ? "END: " : "end:", b), cat("FREQ: ", r.coin() || step % 12 ? cat(step, "m") : cat(step / 12, "Y"))};
        if (!atEnd)
            parts.push_back("FIXING: BEGIN");
        else if (r.coin())
            parts.push_back("fixing: end");
        if (r.coin(0.3))
            parts.push_back("BizRule: Unadjusted");
        r.shuffle(parts);
        string cell;
        for (auto& x : parts)
            cell += (cell.empty() ? "" : " ") + x;
        Gen g(r);
        g.s.vars = {"acc", "n", "tot"};
        const bool f365 = r.coin();
        const string txt = cat("n = n + 1 acc = acc + ", f365 ? "dcf(ACT/365F" : "DCF(ACT360", ", PeriodBegin, ", r.coin() ? "PeriodEnd" : "periodend",
                               ") tot PAYS n * DCF(ACT/365F, PERIODBEGIN, PeriodEnd)");
        Table t;
        t.rows.push_back({false, 0, cell, txt});
        const bool extra = r.coin();
        const long xd = r.coin() ? dates[r.below(dates.size())] : today + r.range(0, 400);
        if (extra)
            t.rows.push_back({true, xd, "", "n = n * 2"});
        desc(cat("today ", today, " ", t.show()));
        // reference
        std::map<long, vector<int>> at; // period index or -1 for the extra event, in row order
        for (int i = 0; i < n; ++i)
            at[atEnd ? dates[i + 1] : dates[i]].push_back(i);
        if (extra)
            at[xd].push_back(-1);
        double acc = 0, cnt = 0, tot = 0;
        vector<double> spot, num;
        for (auto& kv : at) {
            const bool past = kv.first < today;
            const double nu = past ? 1 : r.uniform(0.9, 1.2);
            if (!past)
                num.push_back(nu), spot.push_back(100);
            for (int i : kv.second) {
                if (i < 0) {
                    cnt *= 2;
                    continue;
                }
                const double days = dates[i + 1] - dates[i];
                cnt += 1;
                acc += days / (f365 ? 365.0 : 360.0);
                if (!past)
                    tot += cnt * days / 365.0 / nu;
            }
        }
        ScriptProduct_ p = build(t);
        p.PreProcess(false, true);
        check(p.EventDates().size() == num.size(), "schedule-events", cat(p.EventDates().size(), " future events, expected ", num.size()));
        if (p.EventDates().size() != num.size())
            return;
        auto ev = p.BuildEvaluator<double>();
        Scn sc = scenario(spot, num);
        p.Evaluate(sc, ev);
        auto got = byName(p, ev.VarVals());
        checkNear(got["n"], cnt, 1e-9, 1e-9, "schedule-count", "n");
        checkNear(got["acc"], acc, 1e-9, 1e-9, "schedule-accrual", "acc");
        checkNear(got["tot"], tot, 1e-9, 1e-9, "schedule-payments", "tot");
        count("schedule-periods", n);
        observed(cell + cat(today), true);
    });
}

// ---------------------------------------------------------------------------------------------------------- P05
static void configSection() {
    section("hairline-compiled", N(2000, 20000), [](Rng& r) { hairline(r, true); });
    section("configurations", N(6000, 150000), [](Rng& r) {
        const long today = civil::toDays(r.range(2000, 2060), r.range(1, 12), r.range(1, 28));
        setToday(today);
        Gen g = r.coin(0.01) ? longScript(r, today) : randomScript(r, today);
        const Table t = table(r, g.s);
        desc(t.show());
        vector<Paths> ws;
        vector<Run> refs;
        bool any = false;
        u64 h = hashStr(t.show());
        for (int i = 0; i < 4; ++i) {
            ws.push_back(paths(r, g.s));
            refs.push_back(run(g.s, ws[i].spot, ws[i].num));
            any = any || usable(refs[i]);
            h = mix(h ^ refs[i].branches);
        }
        for (int k = 0; k < 8; ++k) {
            const Config c{(k & 1) > 0, (k & 2) > 0, (k & 4) > 0};
            ScriptProduct_ p = build(t);
            if (!preprocess(g.s, c.name(), [&] { p.PreProcess(c.fuzzy, c.skip); }))
                continue;
            if (c.compiled)
                p.Compile();
            auto ev = p.BuildEvaluator<double>();
            auto st = p.BuildEvalState<double>();
            for (size_t i = 0; i < ws.size(); ++i) {
                Scn sc = scenario(ws[i].spot, ws[i].num);
                std::map<string, double> got;
                if (c.compiled) {
                    p.EvaluateCompiled(sc, st);
                    got = byName(p, st.VarVals());
                } else {
                    p.Evaluate(sc, ev);
                    got = byName(p, ev.VarVals());
                }
                if (usable(refs[i])) {
                    compare(g.s, refs[i], got, "config:" + c.name(), show(ws[i]));
                    count(c.name());
                }
            }
            // copies of states and evaluators that were used already
            if (usable(refs[0]) && r.coin(0.3)) {
                Scn sc = scenario(ws[0].spot, ws[0].num);
                if (c.compiled) {
                    auto copy = st;
                    auto other = build(t).BuildEvalState<double>();
                    other = st;
                    p.EvaluateCompiled(sc, copy);
                    p.EvaluateCompiled(sc, other);
                    compare(g.s, refs[0], byName(p, copy.VarVals()), "config:state-copy", show(ws[0]));
                    compare(g.s, refs[0], byName(p, other.VarVals()), "config:state-copy", show(ws[0]));
                } else {
                    auto copy = ev;
                    p.Evaluate(sc, copy);
                    compare(g.s, refs[0], byName(p, copy.VarVals()), "config:evaluator-copy", show(ws[0]));
                }
            }
            // what was compiled can also still be interpreted
            if (c.compiled && usable(refs[0])) {
                Scn sc = scenario(ws[0].spot, ws[0].num);
                p.Evaluate(sc, ev);
                compare(g.s, refs[0], byName(p, ev.VarVals()), "config:interpreted-after-compile", show(ws[0]));
            }
        }
        observed(h, any);
        if (any)
            sample(t.show());
    });

    // conditions at the edge of what can happen: comparisons of functions with bounded range, of flags, of paid amounts
    section("edges", N(6000, 100000), [](Rng& r) {
        const long today = civil::toDays(2025, 1, 1);
        setToday(today);
        Gen g(r);
        g.maxDepth = 2;
        g.s.vars = {"f", "x", "hit"};
        g.s.flags = {0};
        if (r.coin(0.3)) {
            g.s.consts = {"KK"};
            g.s.constText = {r.pick({string("1"), string("0"), string("100"), string("-1")})};
            g.s.constVals = {strtod(g.s.constText[0].c_str(), nullptr)};
        }
        auto small = [&]() -> E {
            switch (r.range(0, 12)) {
            case 0:
                return mk(SQRT, {mk(MAX, {mk(SUB, {mk(SPOT), Gen::numE(100)}), Gen::numE(0)})});
            case 1:
                return mk(LOG, {mk(DIV, {mk(SPOT), Gen::numE(100)})});
            case 2:
                return mk(EXP, {mk(SUB, {Gen::numE(0), mk(SPOT)})});
            case 3:
                return mk(MAX, {mk(SUB, {mk(SPOT), Gen::numE(100)}), Gen::numE(0)});
            case 4:
                return mk(MIN, {mk(SUB, {mk(SPOT), Gen::numE(100)}), Gen::numE(0)});
            case 5: {
                auto e = mk(VAR);
                e->var = r.below(3);
                return e;
            }
            case 6: {
                auto e = mk(VAR);
                e->var = 0;
                auto x = mk(VAR);
                x->var = 1;
                return mk(MUL, {e, x});
            }
            case 7:
                return mk(POW, {mk(SUB, {mk(SPOT), Gen::numE(100)}), Gen::numE(2)});
            case 8:
                return mk(SUB, {mk(MAX, {mk(SPOT), Gen::numE(100)}), Gen::numE(100)});
            case 9:
                return mk(NEG, {mk(SQRT, {mk(MAX, {mk(SUB, {mk(SPOT), Gen::numE(100)}), Gen::numE(0)})})});
            case 10: {
                auto x = mk(VAR);
                x->var = 1;
                return mk(DIV, {x, mk(SPOT)});
            }
            case 11:
                if (!g.s.consts.empty()) {
                    auto e = mk(CVAR);
                    e->var = 0;
                    return e;
                }
            default:
                return mk(SUB, {mk(SPOT), Gen::numE(100)});
            }
        };
        auto assign = [&](int v, E e, bool pays = false) {
            auto x = std::make_shared<Stmt>();
            x->op = pays ? PAYS : ASSIGN;
            x->var = v;
            x->e = e;
            return x;
        };
        auto cond = [&]() {
            std::function<C(int)> mkc = [&](int d) {
                auto c = std::make_shared<Cond>();
                if (d > 0 && r.coin(0.4)) {
                    c->op = r.coin() ? AND : OR;
                    c->a = mkc(d - 1), c->b = mkc(d - 1);
                    return c;
                }
                c->op = CMP;
                c->cmp = r.pick({string("="), string("!="), string("<"), string(">"), string("<="), string(">=")});
                c->l = small();
                c->r = r.coin(0.7) ? Gen::numE(r.pick({0, 0, 0, 1, 2})) : small();
                if (r.coin(0.3))
                    std::swap(c->l, c->r);
                return c;
            };
            return mkc(2);
        };
        std::function<St(int)> st = [&](int d) -> St {
            const int k = r.range(0, 5);
            if (k < 3 && d > 0) {
                auto x = std::make_shared<Stmt>();
                x->op = IF;
                x->c = cond();
                for (int i = 0, n = r.range(1, 2); i < n; ++i)
                    x->yes.push_back(st(d - 1));
                x->hasElse = r.coin();
                if (x->hasElse)
                    x->no.push_back(st(d - 1));
                return x;
            }
            if (k == 3)
                return assign(0, r.coin(0.2) ? mk(NEG, {Gen::numE(1)}) : Gen::numE(r.range(0, 2)));
            if (k == 4)
                return assign(1, small(), r.coin());
            return assign(2, mk(ADD, {Gen::numE(r.range(1, 9)), mk(MUL, {Gen::numE(2), [&] { auto e = mk(VAR); e->var = 2; return e; }()})}));
        };
        const int ne = r.range(1, 3);
        const bool past = r.coin(0.4);
        for (int i = 0; i < ne + past; ++i) {
            Event e;
            e.past = past && i == 0;
            e.day = e.past ? today - 10 : today + 30 * i;
            if (e.past) {
                // fixed history without market data
                if (r.coin(0.5))
                    e.stmts.push_back(assign(1, Gen::numE(r.range(0, 3)), r.coin()));
                if (r.coin(0.5))
                    e.stmts.push_back(assign(0, Gen::numE(r.range(0, 2))));
                e.stmts.push_back(assign(2, Gen::numE(0)));
            } else
                for (int k = 0, n = r.range(1, 4); k < n; ++k)
                    e.stmts.push_back(st(2));
            g.s.events.push_back(e);
        }
        const Table t = table(r, g.s);
        desc(t.show());
        vector<vector<double>> spots = {{100, 100, 100}, {90, 110, 100}, {110, 100, 90}, {120, 130, 140}, {80, 70, 60}, {100.5, 99.5, 100}};
        u64 h = hashStr(t.show());
        for (int k = 0; k < 8; ++k) {
            const Config c{(k & 1) > 0, (k & 2) > 0, (k & 4) > 0};
            ScriptProduct_ p = build(t);
            if (!preprocess(g.s, c.name(), [&] { p.PreProcess(c.fuzzy, c.skip); }))
                continue;
            if (c.compiled)
                p.Compile();
            auto ev = p.BuildEvaluator<double>();
            auto stt = p.BuildEvalState<double>();
            for (auto& sp : spots) {
                Paths w{{sp.begin(), sp.begin() + ne}, vector<double>(ne, r.coin() ? 1.0 : 1.25)};
                const Run ref = run(g.s, w.spot, w.num);
                if (!usable(ref))
                    continue;
                h = mix(h ^ ref.branches);
                Scn sc = scenario(w.spot, w.num);
                if (c.compiled)
                    p.EvaluateCompiled(sc, stt);
                else
                    p.Evaluate(sc, ev);
                compare(g.s, ref, byName(p, c.compiled ? stt.VarVals() : ev.VarVals()), "edge:" + c.name(), show(w));
                count("edge-scenarios");
                if (ref.zeroHit)
                    count("at-decision-point");
            }
        }
        observed(h, true);
        sample(t.show());
    });
}

// ---------------------------------------------------------------------------------------------------------- P06
// A continuous function moves less and less over smaller and smaller steps: halves [a,b], keeping the half that moves more, until the
// move is small or the step is; returns the move left.
template <class F> static double jumpIn(F f, double a, double b, double fa, double fb, double small, double step) {
    while (std::fabs(fb - fa) > small && b - a > step) {
        const double m = 0.5 * (a + b), fm = f(m);
        if (std::fabs(fm - fa) > std::fabs(fb - fm))
            b = m, fb = fm;
        else
            a = m, fa = fm;
    }
    return std::fabs(fb - fa);
}

static void fuzzySection() {
    section("smooth-away", N(30000, 400000), [](Rng& r) {
        const long today = civil::toDays(2025, r.range(1, 12), r.range(1, 28));
        setToday(today);
        Gen g = randomScript(r, today);
        const Table t = table(r, g.s);
        const double eps = r.pick({0.01, 1e-4, 0.5, 2.0, 1e-8});
        desc(cat("eps ", eps, " ", t.show()));
        ScriptProduct_ p = build(t);
        size_t depth = 0;
        const bool skip = r.coin();
        if (!preprocess(g.s, "smoothed", [&] { depth = p.PreProcess(true, skip); }))
            return;
        // the nesting depth may be left to the product
        auto ev = p.BuildFuzzyEvaluator<double>(r.coin(0.2) ? -1 : (int)depth + (r.coin(0.1) ? 2 : 0), eps);
        u64 h = hashStr(t.show());
        bool any = false;
        for (int i = 0; i < 6; ++i) {
            const Paths w = paths(r, g.s);
            const Run ref = run(g.s, w.spot, w.num, eps);
            Scn sc = scenario(w.spot, w.num);
            p.Evaluate(sc, ev);
            if (i == 3) { // go on with a copy of the evaluator
                auto copy = ev;
                auto assigned = p.BuildFuzzyEvaluator<double>((int)depth, eps * 2);
                assigned = copy;
                p.Evaluate(sc, copy);
                p.Evaluate(sc, assigned);
                for (size_t v = 0; v < ev.VarVals().size(); ++v)
                    check((copy.VarVals()[v] == ev.VarVals()[v] && assigned.VarVals()[v] == ev.VarVals()[v]) || std::isnan(ev.VarVals()[v]), "smooth-copy",
                          cat("variable ", v, " is ", ev.VarVals()[v], ", by a copy ", copy.VarVals()[v], ", by an assigned copy ", assigned.VarVals()[v]));
                if (r.coin())
                    ev = assigned;
            }
            if (!usable(ref) || !(ref.minSlack > 1e-9 + 1e-9 * std::fabs(eps)))
                continue;
            any = true;
            h = mix(h ^ ref.branches);
            count("scenarios-away");
            count("comparisons", ref.comparisons);
            compare(g.s, ref, byName(p, ev.VarVals()), "smooth-away", show(w));
        }
        observed(h, any);
        if (any)
            sample(t.show());
    });

    // one condition crossed slowly: from the result of one branch to that of the other, continuously and within their range
    section("smooth-inside", N(2500, 40000), [](Rng& r) {
        setToday(civil::toDays(2025, 1, 1));
        Gen g(r);
        const double K = r.range(50, 150), eps = r.pick({0.01, 0.5, 2.0, 10.0});
        const bool own = r.coin(0.3);
        const double w = own ? eps : eps; // width in force
        const string cmp = r.pick({string("<"), string(">"), string("<="), string(">="), string("="), string("!=")});
        const double a = r.range(-20, 20), b = r.range(-20, 20), c0 = r.range(-5, 5);
        const int shape = r.range(0, 3);
        auto num = [](double x) { return x < 0 ? cat("-", -x) : cat(x); };
        string cond = shape == 1 ? cat("spot() - ", K, " ", cmp, " 0") : cat("spot() ", cmp, " ", K);
        if (own)
            cond += cat(r.coin() ? ";" : ":", eps);
        string txt = cat("x = ", num(c0), " ");
        double A, B;
        if (shape == 2) { // no else
            txt += cat("IF ", cond, " THEN x = ", num(a), " END");
            A = a, B = c0;
        } else if (shape == 3) { // nested, the outer always one way here
            txt += cat("IF spot() > 1 THEN IF ", cond, " THEN x = x + ", num(a), " y = ", num(a), " ELSE x = x * ", num(b), " END END");
            A = c0 + a, B = c0 * b;
        } else {
            txt += cat("IF ", cond, " THEN x = ", num(a), " y = 1 ELSE x = ", num(b), " END");
            A = a, B = b;
        }
        Table t;
        t.rows.push_back({true, civil::toDays(2025, 6, 1), "", txt});
        desc(cat("eps ", eps, " ", t.show()));
        ScriptProduct_ p = build(t);
        const size_t depth = p.PreProcess(true, r.coin());
        auto ev = p.BuildFuzzyEvaluator<double>((int)depth, own ? r.pick({0.001, 20.0}) : eps);
        const int n = 80;
        const bool eq = cmp == "=" || cmp == "!=";
        const double lo = std::min(A, B), hi = std::max(A, B), tol = 1e-9 * (1 + std::fabs(lo) + std::fabs(hi));
        vector<double> xs;
        auto f = [&](double s) {
            Paths q{{s}, {1.0}};
            Scn sc = scenario(q.spot, q.num);
            p.Evaluate(sc, ev);
            count("points-inside");
            return byName(p, ev.VarVals())["x"];
        };
        auto at = [&](int i) { return K + (2.0 * i / n - 1.0) * w; }; // from -w to +w, the zone being at most [-w, w]
        const double small = 1e-4 * (hi - lo) + tol;
        for (int i = 0; i <= n; ++i) {
            const double x = f(at(i));
            xs.push_back(x);
            if (x < lo - tol || x > hi + tol)
                violation("smooth-range", cat("at ", at(i), ": ", x, " outside [", lo, ",", hi, "]"));
            if (i) {
                const double j = jumpIn(f, at(i - 1), at(i), xs[i - 1], x, small, 1e-9 * w + 1e-12 * K);
                if (j > small)
                    violation("smooth-jump", cat("jump of ", j, " near ", at(i), " between branches ", lo, " and ", hi));
            }
        }
        const bool right = cmp == ">" || cmp == ">=" || cmp == "!=";
        const bool left = cmp == "<" || cmp == "<=" || cmp == "!=";
        checkNear(xs.front(), left ? A : B, tol, 0, "smooth-ends", cat("left end"));
        checkNear(xs.back(), right ? A : B, tol, 0, "smooth-ends", cat("right end"));
        if (eq)
            checkNear(xs[n / 2], cmp == "=" ? A : B, 1e-6 * (1 + hi - lo), 0, "smooth-ends", cat("at the point itself"));
        count("crossings");
        observed(t.show(), A != B);
        sample(t.show());
    });

    // several variables, two crossed conditions: every variable stays within the hull of its branch results
    section("smooth-hull", N(2500, 40000), [](Rng& r) {
        setToday(civil::toDays(2025, 1, 1));
        const double eps = r.pick({1.0, 4.0});
        const string ops[] = {"<", ">", "<=", ">=", "=", "!="};
        const string c1 = ops[r.below(6)], c2 = ops[r.below(6)], con = r.pick({string("AND"), string("OR")});
        auto v = [&] { return r.range(-9, 9); };
        const int v0 = v(), v1 = v(), v2 = v(), v3 = v(), w1 = v(), w2 = v();
        auto num = [](int x) { return x < 0 ? cat("-", -x) : cat(x); };
        const bool nested = r.coin();
        string txt;
        vector<double> X = {double(v0)}, Y = {0.0};
        if (nested) {
            txt = cat("x = ", num(v0), " IF spot() ", c1, " 100 THEN x = ", num(v1), " IF spot() ", c2, " 101 THEN x = ", num(v2), " y = ", num(w1),
                      " ELSE y = ", num(w2), " END ELSE x = ", num(v3), " END");
            X = {double(v1), double(v2), double(v3)};
            Y = {0.0, double(w1), double(w2)};
        } else {
            txt = cat("x = ", num(v0), " IF spot() ", c1, " 100 ", con, " spot() ", c2, " 101 THEN x = ", num(v1), " y = ", num(w1), " ELSE x = ", num(v2), " END");
            X = {double(v1), double(v2)};
            Y = {0.0, double(w1)};
        }
        Table t;
        t.rows.push_back({true, civil::toDays(2025, 6, 1), "", txt});
        desc(cat("eps ", eps, " ", t.show()));
        ScriptProduct_ p = build(t);
        const size_t depth = p.PreProcess(true, r.coin());
        // the nesting depth may be left to the product
        auto ev = p.BuildFuzzyEvaluator<double>(r.coin(0.2) ? -1 : (int)depth + (r.coin(0.1) ? 2 : 0), eps);
        auto hull = [&](double x, const vector<double>& c, const char* n, double s) {
            const double lo = *std::min_element(c.begin(), c.end()), hi = *std::max_element(c.begin(), c.end());
            if (x < lo - 1e-9 || x > hi + 1e-9)
                violation("smooth-hull", cat(n, " = ", x, " outside [", lo, ",", hi, "] at ", s));
        };
        auto f = [&](double s) {
            Scn sc = scenario({s}, {1.0});
            p.Evaluate(sc, ev);
            auto got = byName(p, ev.VarVals());
            return std::make_pair(got["x"], got["y"]);
        };
        auto fx = [&](double s) { return f(s).first; };
        auto fy = [&](double s) { return f(s).second; };
        std::pair<double, double> prev;
        for (int i = 0; i <= 160; ++i) {
            const double s = 94 + 13.0 * i / 160, s0 = s - 13.0 / 160;
            const auto got = f(s);
            hull(got.first, X, "x", s);
            hull(got.second, Y, "y", s);
            if (i && (jumpIn(fx, s0, s, prev.first, got.first, 2e-3, 1e-9) > 2e-3 || jumpIn(fy, s0, s, prev.second, got.second, 2e-3, 1e-9) > 2e-3))
                violation("smooth-jump", cat("jump near ", s, ": x ", prev.first, " -> ", got.first, ", y ", prev.second, " -> ", got.second));
            prev = got;
        }
        count("hulls");
        observed(t.show(), true);
    });
}

// Statements in any nesting, several conditions inside their zones at once: at every IF the state is the blend of the states the two
// branches lead to, with the degree of truth of its condition as seen by a probe that does nothing else.
namespace {
    struct BStmt {
        int kind = 0; // 0 assign, 1 pays, 2 if
        int var = 0, cond = -1, rhsKind = 0;
        int c0 = 0, v1 = 0, v2 = 0;
        bool hasElse = false;
        vector<BStmt> yes, no;
    };
    struct BCond {
        string text;
        int event;
    };
    const char* const BV[] = {"x", "y", "z", "u"};
    string bnum(int x) { return x < 0 ? cat("-", -x) : cat(x); }
    string btext(const vector<BStmt>& v, const vector<BCond>& conds) {
        string r;
        for (auto& s : v) {
            if (s.kind == 2) {
                r += "IF " + conds[s.cond].text + " THEN " + btext(s.yes, conds);
                if (s.hasElse)
                    r += "ELSE " + btext(s.no, conds);
                r += "END ";
                continue;
            }
            r += cat(BV[s.var], s.kind == 1 ? " PAYS " : " = ");
            switch (s.rhsKind) {
            case 0: r += bnum(s.c0); break;
            case 1: r += cat(BV[s.v1], " + ", bnum(s.c0)); break;
            case 2: r += cat(BV[s.v1], " * ", BV[s.v2], " / 8"); break;
            case 3: r += cat("spot() / 50 + ", BV[s.v1]); break;
            default: r += cat("MAX(", BV[s.v1], ", ", bnum(s.c0), ")"); break;
            }
            r += " ";
        }
        return r;
    }
    void beval(const vector<BStmt>& v, const vector<double>& dt, double spot, double num, double* st, int& fuzzies, int& together, int inside) {
        for (auto& s : v) {
            if (s.kind == 2) {
                const double d = dt[s.cond];
                double a[4], b[4];
                std::copy(st, st + 4, a), std::copy(st, st + 4, b);
                const bool in = d > 1e-9 && d < 1 - 1e-9;
                fuzzies += in;
                if (in && inside)
                    ++together;
                if (d > 0)
                    beval(s.yes, dt, spot, num, a, fuzzies, together, inside + in);
                if (d < 1)
                    beval(s.no, dt, spot, num, b, fuzzies, together, inside + in);
                for (int i = 0; i < 4; ++i)
                    st[i] = d >= 1 ? a[i] : d <= 0 ? b[i] : d * a[i] + (1 - d) * b[i];
                continue;
            }
            double e = 0;
            switch (s.rhsKind) {
            case 0: e = s.c0; break;
            case 1: e = st[s.v1] + s.c0; break;
            case 2: e = st[s.v1] * st[s.v2] / 8; break;
            case 3: e = spot / 50 + st[s.v1]; break;
            default: e = std::max(st[s.v1], double(s.c0)); break;
            }
            if (s.kind == 1)
                st[s.var] += e / num;
            else
                st[s.var] = e;
        }
    }
} // namespace

static void blendSection() {
    section("smooth-blend", N(5000, 120000), [](Rng& r) {
        setToday(civil::toDays(2025, 1, 1));
        const double eps = r.pick({1.0, 4.0, 0.2});
        const int ne = r.range(1, 3);
        vector<BCond> conds;
        auto cond = [&](int e) {
            auto one = [&] {
                string c = cat("spot() ", r.pick({string("<"), string(">"), string("<="), string(">="), string("="), string("!=")}), " ", 100 + 0.25 * eps * r.range(-5, 5));
                if (r.coin(0.15))
                    c += cat(";", r.pick({0.5, 2.0}));
                return c;
            };
            string c = one();
            if (r.coin(0.25))
                c += (r.coin() ? " AND " : " OR ") + one();
            conds.push_back({c, e});
            return int(conds.size()) - 1;
        };
        std::function<vector<BStmt>(int, int)> stmts = [&](int e, int d) {
            vector<BStmt> v;
            for (int i = 0, n = r.range(1, d == 3 ? 4 : 3); i < n; ++i) {
                BStmt s;
                s.kind = d > 0 && r.coin(0.5) ? 2 : r.coin(0.25);
                s.var = r.range(0, 3);
                s.rhsKind = r.range(0, 4);
                s.c0 = r.range(-9, 9), s.v1 = r.range(0, 3), s.v2 = r.range(0, 3);
                if (s.kind == 2) {
                    s.cond = cond(e);
                    s.yes = stmts(e, d - 1);
                    s.hasElse = r.coin(0.6);
                    if (s.hasElse)
                        s.no = stmts(e, d - 1);
                }
                v.push_back(s);
            }
            return v;
        };
        vector<vector<BStmt>> evs;
        Table t, probe;
        for (int e = 0; e < ne; ++e) {
            evs.push_back(stmts(e, 3));
            const long day = civil::toDays(2025, 2 + e, 1);
            string first = e ? "" : "x = 1 y = 2 z = 3 u = 4 ";
            t.rows.push_back({true, day, "", first + btext(evs[e], conds)});
            string pr;
            for (size_t k = 0; k < conds.size(); ++k)
                if (conds[k].event == e)
                    pr += cat("IF ", conds[k].text, " THEN p", k, "q = 1 ELSE p", k, "q = 0 END ");
            if (pr.empty())
                pr = "nop = 1";
            probe.rows.push_back({true, day, "", pr});
        }
        desc(cat("eps ", eps, " ", t.show()));
        ScriptProduct_ p = build(t), q = build(probe);
        const bool skip = r.coin();
        const size_t depth = p.PreProcess(true, skip), depthQ = q.PreProcess(true, skip);
        // the nesting depth may be left to the product
        auto ev = p.BuildFuzzyEvaluator<double>(r.coin(0.2) ? -1 : (int)depth + (r.coin(0.1) ? 2 : 0), eps);
        auto eq = q.BuildFuzzyEvaluator<double>((int)depthQ, eps);
        bool any = false;
        for (int k = 0; k < 5; ++k) {
            Paths w;
            for (int e = 0; e < ne; ++e)
                w.spot.push_back(100 + eps * r.uniform(-2.2, 2.2)), w.num.push_back(r.pick({1.0, 1.25}));
            Scn sc = scenario(w.spot, w.num);
            p.Evaluate(sc, ev);
            q.Evaluate(sc, eq);
            auto got = byName(p, ev.VarVals());
            auto pr = byName(q, eq.VarVals());
            vector<double> dt;
            for (size_t i = 0; i < conds.size(); ++i) {
                dt.push_back(pr[cat("p", i, "q")]);
                if (!(dt[i] >= -1e-12 && dt[i] <= 1 + 1e-12))
                    violation("smooth-degree", cat("degree of truth ", dt[i], " of ", conds[i].text, " for ", show(w)));
            }
            double st[4] = {1, 2, 3, 4};
            int fz = 0, together = 0;
            for (int e = 0; e < ne; ++e)
                beval(evs[e], dt, w.spot[e], w.num[e], st, fz, together, 0);
            for (int i = 0; i < 4; ++i)
                if (std::isfinite(st[i]) && std::fabs(st[i]) < 1e12)
                    checkNear(got[BV[i]], st[i], 1e-9, 1e-9, "smooth-blend", cat(BV[i], " for ", show(w)));
            count("blends", fz);
            count("blends-inside-blends", together);
            any |= fz > 0;
        }
        observed(t.show(), any);
        sample(t.show());
    });

    // a variable with a few possible values, itself a blend while the first condition is inside its zone, decides a second condition
    section("smooth-discrete", N(1500, 20000), [](Rng& r) {
        setToday(civil::toDays(2025, 1, 1));
        const double eps = r.pick({1.0, 4.0});
        auto num = [](double x) { return x < 0 ? cat("-", -x) : cat(x); };
        const int v0 = r.range(-3, 3), v1 = r.range(-3, 3), v2 = r.range(-3, 3), a = r.range(-9, 9), b = r.range(-9, 9);
        const bool three = r.coin();
        const double c = r.pick({double(v0), double(v1), double(v2), 0.5 * (v0 + v1), r.range(-6, 6) + 0.0});
        const string cmp = r.pick({string("<"), string(">"), string("<="), string(">="), string("="), string("!=")});
        string txt = cat("n = ", num(v0), " x = 0 IF spot() ", r.coin() ? ">" : ">=", " 100 THEN n = ", num(v1), " END ");
        if (three)
            txt += cat("IF spot() > ", 100 + 3 * eps, " THEN n = ", num(v2), " END ");
        const string lhs = r.pick({string("n"), string("n + 1"), string("2 * n")});
        const double rhs = lhs == "n" ? c : lhs == "n + 1" ? c + 1 : 2 * c;
        const bool swap = r.coin(0.3);
        txt += cat("IF ", swap ? num(rhs) : lhs, " ", cmp, " ", swap ? lhs : num(rhs), " THEN x = ", num(a), " ELSE x = ", num(b), " END");
        auto truth = [&](double n) {
            const double l = swap ? c : n, q = swap ? n : c;
            return cmp == "<" ? l < q : cmp == ">" ? l > q : cmp == "<=" ? l <= q : cmp == ">=" ? l >= q : cmp == "=" ? l == q : l != q;
        };
        Table t;
        t.rows.push_back({true, civil::toDays(2025, 6, 1), "", txt});
        desc(cat("eps ", eps, " ", t.show()));
        ScriptProduct_ p = build(t);
        const size_t depth = p.PreProcess(true, r.coin());
        // the nesting depth may be left to the product
        auto ev = p.BuildFuzzyEvaluator<double>(r.coin(0.2) ? -1 : (int)depth + (r.coin(0.1) ? 2 : 0), eps);
        auto f = [&](double s) {
            Scn sc = scenario({s}, {1.0});
            p.Evaluate(sc, ev);
            return byName(p, ev.VarVals())["x"];
        };
        const double lo = std::min(a, b), hi = std::max(a, b), small = 1e-4 * (hi - lo) + 1e-9;
        const double from = 100 - 1.5 * eps, to = 100 + (three ? 4.5 : 1.5) * eps;
        double prev = 0;
        const int n = 60;
        for (int i = 0; i <= n; ++i) {
            const double s = from + (to - from) * i / n, x = f(s);
            if (x < lo - 1e-9 || x > hi + 1e-9)
                violation("smooth-range", cat("at ", s, ": ", x, " outside [", lo, ",", hi, "]"));
            if (i && jumpIn(f, s - (to - from) / n, s, prev, x, small, 1e-9) > small)
                violation("smooth-jump", cat("jump near ", s, ": ", prev, " -> ", x));
            prev = x;
        }
        checkNear(f(100 - 1.2 * eps), truth(v0) ? a : b, 1e-9, 0, "smooth-discrete", "before the first condition");
        checkNear(f(100 + 1.5 * eps), truth(v1) ? a : b, 1e-9, 0, "smooth-discrete", "after the first condition");
        if (three)
            checkNear(f(100 + 4.2 * eps), truth(v2) ? a : b, 1e-9, 0, "smooth-discrete", "after the second condition");
        count("discrete-crossings");
        observed(t.show(), a != b && v0 != v1);
        sample(t.show());
    });
}

// ------------------------------------------------------------------ the debug view
// the tree it prints, read back
struct Shown {
    string name;
    vector<string> tags;
    vector<Shown> args;
    string str() const {
        string o = name;
        for (auto& t : tags)
            o += "[" + t + "]";
        for (size_t i = 0; i < args.size(); ++i)
            o += (i ? "," : "(") + args[i].str();
        return args.empty() ? o : o + ")";
    }
};
struct ViewReader {
    const string& t;
    size_t i = 0;
    bool ok = true;
    void space() {
        while (i < t.size() && isspace((unsigned char)t[i]))
            ++i;
    }
    Shown node() {
        Shown n;
        space();
        while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_'))
            n.name += t[i++];
        ok &= !n.name.empty();
        if (i < t.size() && t[i] == '[') {
            string tag;
            for (++i; i < t.size() && t[i] != ']'; ++i)
                if (t[i] == ',') {
                    n.tags.push_back(tag);
                    tag.clear();
                } else
                    tag += t[i];
            n.tags.push_back(tag);
            ok &= i < t.size();
            ++i;
        }
        space();
        if (ok && i < t.size() && t[i] == '(') {
            do {
                ++i;
                n.args.push_back(node());
                space();
            } while (ok && i < t.size() && t[i] == ',');
            ok &= i < t.size() && t[i] == ')';
            ++i;
        }
        return n;
    }
};
// empty when the view shows the expression, otherwise what differs
struct ViewCheck {
    const Script& s;
    const std::map<string, int>* index; // of the variables, once they are numbered
    bool analysed = false;              // comparisons may show the values next to zero instead of a width
    static bool number(const string& text, double v) {
        char* end;
        const double x = strtod(text.c_str(), &end);
        return !text.empty() && !*end && std::fabs(x - v) <= 5.1e-7 + 1e-12 * std::fabs(v);
    }
    string bad(const Shown& n, const string& want) const { return "shows " + n.str().substr(0, 300) + " where " + want + " is meant"; }
    string leaf(const Shown& n, const string& kind, const string& name, const double* val) const {
        if (n.name != kind || !n.args.empty() || n.tags.size() != 3 || lower(n.tags[0]) != lower(name))
            return bad(n, kind + " " + name);
        if (index && kind == "VAR" && n.tags[1] != std::to_string(index->at(lower(name))))
            return bad(n, cat("number ", index->at(lower(name)), " of ", name));
        if (val && !number(n.tags[2], *val))
            return bad(n, cat(name, " = ", *val));
        return "";
    }
    string ex(const Shown& shown, const Ex& e) const {
        // the printer adds plus signs at will
        if (e.op == POS)
            return ex(shown, *e.a[0]);
        const Shown* m = &shown;
        while (m->name == "UPLUS" && m->args.size() == 1)
            m = &m->args[0];
        const Shown& n = *m;
        static const std::map<Op, string> NAME = {{SPOT, "SPOT"}, {ADD, "ADD"}, {SUB, "SUBTRACT"}, {MUL, "MULT"}, {DIV, "DIV"}, {POW, "POW"}, {NEG, "UMINUS"},
            {LOG, "LOG"}, {SQRT, "SQRT"}, {EXP, "EXP"}, {MIN, "MIN"}, {MAX, "MAX"}};
        if (e.op == NUM || e.op == DCF)
            return n.name == "CONST" && n.args.empty() && n.tags.size() == 1 && number(n.tags[0], e.num) ? "" : bad(n, cat("the number ", e.num));
        if (e.op == VAR)
            return leaf(n, "VAR", s.vars[e.var], nullptr);
        if (e.op == CVAR)
            return leaf(n, "CONST_VAR", s.consts[e.var], &s.constVals[e.var]);
        if (n.name != NAME.at(e.op))
            return bad(n, NAME.at(e.op));
        if (e.a.size() > 2) { // of several arguments: nested to the left
            Ex first = e;
            first.a.pop_back();
            if (n.args.size() != 2)
                return bad(n, cat(e.a.size(), " arguments"));
            const string o = ex(n.args[0], first);
            return o.empty() ? ex(n.args[1], *e.a.back()) : o;
        }
        if (n.args.size() != e.a.size())
            return bad(n, cat(e.a.size(), " arguments"));
        string o;
        for (size_t i = 0; i < e.a.size() && o.empty(); ++i)
            o = ex(n.args[i], *e.a[i]);
        return o;
    }
    string cond(const Shown& n, const Cond& c) const {
        if (c.op != CMP) {
            const string want = c.op == AND ? "AND" : "OR";
            if (n.name != want || n.args.size() != 2)
                return bad(n, want);
            const string o = cond(n.args[0], *c.a);
            return o.empty() ? cond(n.args[1], *c.b) : o;
        }
        const Shown* m = &n;
        if (c.cmp == "!=") {
            if (n.name != "NOT" || n.args.size() != 1)
                return bad(n, "!=");
            m = &n.args[0];
        }
        const bool eq = c.cmp == "=" || c.cmp == "!=", less = c.cmp[0] == '<';
        const string want = eq ? "EQUALZERO" : c.cmp.size() == 2 ? "GTEQUALZERO" : "GTZERO";
        if (m->name != want || m->args.size() != 1 || m->args[0].name != "SUBTRACT" || m->args[0].args.size() != 2)
            return bad(n, want);
        if (analysed && m->tags.size() == 3 && m->tags[0] == "DISCRETE") {
            double lb = 0, rb = 0;
            if (sscanf(m->tags[1].c_str(), "BOUNDS=%lf", &lb) != 1 || sscanf(m->tags[2].c_str(), "%lf", &rb) != 1 || lb > rb)
                return bad(n, "the values around zero");
            count("discrete-comparisons-shown");
        } else if (m->tags.size() != 2 || m->tags[0] != "CONT" || m->tags[1].substr(0, 4) != "EPS=" || !number(m->tags[1].substr(4), c.eps < 0 ? -1 : c.eps))
            return bad(n, cat(want, " with width ", c.eps));
        const auto& d = m->args[0].args;
        const string o = ex(d[0], less ? *c.r : *c.l);
        return o.empty() ? ex(d[1], less ? *c.l : *c.r) : o;
    }
    string stmt(const Shown& n, const Stmt& x) const {
        if (x.op != IF) {
            const string want = x.op == ASSIGN ? "ASSIGN" : "PAYS";
            if (n.name != want || n.args.size() != 2)
                return bad(n, want);
            const string o = leaf(n.args[0], "VAR", s.vars[x.var], nullptr);
            return o.empty() ? ex(n.args[1], *x.e) : o;
        }
        if (n.name != "IF" || n.tags.size() != 1 || n.args.size() != 1 + x.yes.size() + x.no.size())
            return bad(n, cat("a condition with ", x.yes.size(), " and ", x.no.size(), " statements"));
        const int first = x.hasElse ? 1 + (int)x.yes.size() : -1;
        if (n.tags[0] != "FIRSTELSE=" + std::to_string(first))
            return bad(n, cat("the else part at ", first));
        string o = cond(n.args[0], *x.c);
        for (size_t i = 0; i < x.yes.size() && o.empty(); ++i)
            o = stmt(n.args[1 + i], *x.yes[i]);
        for (size_t i = 0; i < x.no.size() && o.empty(); ++i)
            o = stmt(n.args[1 + x.yes.size() + i], *x.no[i]);
        return o;
    }
};
static void checkView(const Script& s, const string& text, const std::map<string, int>* index, const string& when, bool analysed = false) {
    vector<string> lines;
    std::istringstream in(text);
    for (string l; std::getline(in, l);)
        lines.push_back(l);
    size_t at = 0;
    auto word = [&](const string& key, string* rest) {
        while (at < lines.size() && lines[at].find_first_not_of(" \t\r") == string::npos)
            ++at;
        if (at >= lines.size() || lines[at].compare(0, key.size(), key) != 0)
            return false;
        *rest = lines[at++].substr(key.size());
        return true;
    };
    string rest;
    std::map<string, int> listed;
    while (word("Var[", &rest)) {
        const size_t k = rest.find("] = ");
        if (k != string::npos)
            listed[lower(rest.substr(k + 4))] = atoi(rest.c_str());
    }
    check(index ? listed == *index : listed.empty(), "variables-shown", cat(when, ": ", listed.size(), " variables listed, ", index ? index->size() : 0, " expected"));
    int e = 0;
    for (auto& ev : s.events) {
        if (ev.past)
            continue;
        const auto c = civil::fromDays(ev.day);
        char date[32];
        snprintf(date, sizeof date, "%04d-%02d-%02d", c.y, c.m, c.d);
        if (!word("EventTime_: ", &rest) || rest.substr(0, 10) != date || rest.find(cat("Event_: ", ++e)) == string::npos) {
            violation("event-shown", cat(when, ": event ", e, " of ", date, " is shown as ", rest));
            return;
        }
        int k = 0;
        for (auto& x : ev.stmts) {
            if (!word("Statement_: ", &rest) || atoi(rest.c_str()) != ++k) {
                violation("statement-shown", cat(when, ": statement ", k, " of ", date, " is not shown"));
                return;
            }
            string tree;
            while (at < lines.size() && lines[at].compare(0, 12, "Statement_: ") != 0 && lines[at].compare(0, 12, "EventTime_: ") != 0)
                tree += lines[at++] + "\n";
            ViewReader rd{tree};
            const Shown n = rd.node();
            rd.space();
            if (!rd.ok || rd.i != tree.size()) {
                violation("tree-malformed", cat(when, ": ", esc(tree.substr(0, 300))));
                return;
            }
            const string o = ViewCheck{s, index, analysed}.stmt(n, *x);
            checkf(o.empty(), "tree-shown", [&] { return cat(when, ": statement ", k, " of ", date, " ", o); });
            count("statements-shown");
        }
        count("events-shown");
    }
    check(!word("", &rest), "more-shown", cat(when, ": ", rest));
}
static void debugSection() {
    section("view", N(8000, 150000), [](Rng& r) {
        const long today = civil::toDays(r.range(2000, 2050), r.range(1, 12), r.range(1, 28));
        setToday(today);
        const bool big = r.coin(0.02);
        Gen g = big ? longScript(r, today) : randomScript(r, today);
        const Table t = table(r, g.s);
        desc(t.show());
        ScriptProduct_ p = build(t);
        auto text = [&] {
            std::ostringstream o;
            p.Debug(o);
            return o.str();
        };
        const string first = text();
        checkView(g.s, first, nullptr, "as parsed");
        check(text() == first, "view-changes", "a second view differs");
        const bool indexed = r.coin(0.7);
        if (indexed) {
            r.coin() ? p.IndexVariables() : (void)p.PreProcess(false, true);
            std::map<string, int> index;
            for (size_t i = 0; i < p.VarNames().size(); ++i)
                index[lower(string(p.VarNames()[i].c_str()))] = (int)i;
            check(index.size() == p.VarNames().size(), "variables-shown", "one variable has two numbers");
            checkView(g.s, text(), &index, "numbered");
            count("numbered");
            if (r.coin(0.4) && preprocess(g.s, "domain analysis", [&] {
                    p.IFProcess();
                    p.DomainProcess(r.coin(0.7));
                })) {
                checkView(g.s, text(), &index, "analysed", true);
                count("analysed");
            }
        }
        // the public function on the stored form
        {
            Dal::Vector_<Cell_> d;
            Dal::Vector_<String_> ev;
            for (auto& x : t.rows) {
                d.push_back(x.isDate ? Cell_(D(x.day)) : Cell_(String_(x.cell)));
                ev.push_back(String_(x.text));
            }
            const auto h = Dal::NewScriptProduct("product", d, ev);
            check(string(Dal::DebugScriptProduct(h).c_str()) == first, "public-view", "the stored product is described differently");
            check(h->name_ == String_("product") && h->type_ == String_("ScriptProduct"), "public-view", "name or type");
        }
        observed(t.show(), true);
        sample(first.substr(0, 400));
    });
}

static void body() {
    init();
    const char* what = getenv("SCRIPT_PART");
    const string w = what ? what : "all";
    if (w == "eval" || w == "all")
        evalSection();
    if (w == "config" || w == "all")
        configSection();
    if (w == "fuzzy" || w == "all")
        fuzzySection(), blendSection();
    if (w == "debug" || w == "all")
        debugSection();
}
VH_MAIN(body)
