// Payoff scripts: an own syntax tree, its printer in the library's script language, and a reference interpreter.
// Shares nothing with the library; the text is the only thing handed over.
#pragma once
#include "vh.hpp"
#include "civil.hpp"
#include <memory>

namespace sg {
    using namespace vh;

    enum Op { NUM, VAR, CVAR, SPOT, ADD, SUB, MUL, DIV, POW, NEG, POS, LOG, SQRT, EXP, MIN, MAX, DCF };
    struct Ex {
        Op op;
        double num = 0;
        string text; // numbers and DCF: as spelled
        int var = -1;
        vector<std::shared_ptr<Ex>> a;
    };
    using E = std::shared_ptr<Ex>;
    enum COp { AND, OR, CMP };
    struct Cond {
        COp op;
        string cmp;
        double eps = -1;
        string epsText;
        E l, r;
        std::shared_ptr<Cond> a, b;
    };
    using C = std::shared_ptr<Cond>;
    enum SOp { ASSIGN, PAYS, IF };
    struct Stmt {
        SOp op;
        int var = -1;
        E e;
        C c;
        vector<std::shared_ptr<Stmt>> yes, no;
        bool hasElse = false;
    };
    using St = std::shared_ptr<Stmt>;

    inline E mk(Op op, vector<E> a = {}) {
        auto e = std::make_shared<Ex>();
        e->op = op;
        e->a = std::move(a);
        return e;
    }

    struct Event {
        long day; // days since epoch
        vector<St> stmts;
        bool past = false;
    };

    struct Script {
        vector<string> vars;       // names
        vector<string> consts;     // names of differentiable constants
        vector<double> constVals;
        vector<string> constText;
        vector<Event> events;      // by date, dates distinct
        // discrete variables (only ever assigned constants)
        std::set<int> flags;
    };

    // ------------------------------------------------------------------ printing
    struct Printer {
        Rng& r;
        const Script& s;
        double redundant = 0.1; // parentheses
        vector<string> toks;

        string casing(const string& w) {
            string o = w;
            const int k = r.range(0, 3);
            if (k == 0)
                return o;
            for (char& c : o)
                c = k == 1 ? toupper(c) : k == 2 ? tolower(c) : (r.coin() ? toupper(c) : tolower(c));
            return o;
        }
        void t(const string& x) { toks.push_back(x); }
        static int prec(const Ex& e) {
            switch (e.op) {
            case ADD:
            case SUB:
                return 1;
            case MUL:
            case DIV:
                return 2;
            case POW:
                return 3;
            case NEG:
            case POS:
                return 4;
            default:
                return 5;
            }
        }
        void ex(const Ex& e, int min) {
            const bool par = prec(e) < min || r.coin(redundant * 0.5);
            if (par)
                t("(");
            switch (e.op) {
            case NUM:
                t(e.text);
                break;
            case VAR:
                t(casing(s.vars[e.var]));
                break;
            case CVAR:
                t(casing(s.consts[e.var]));
                break;
            case SPOT:
                t(casing("SPOT"));
                t("(");
                t(")");
                break;
            case ADD:
            case SUB:
                ex(*e.a[0], 1);
                t(e.op == ADD ? "+" : "-");
                ex(*e.a[1], 2);
                break;
            case MUL:
            case DIV:
                ex(*e.a[0], 2);
                t(e.op == MUL ? "*" : "/");
                ex(*e.a[1], 3);
                break;
            case POW:
                ex(*e.a[0], 3);
                t("^");
                ex(*e.a[1], 4);
                break;
            case NEG:
            case POS:
                t(e.op == NEG ? "-" : "+");
                ex(*e.a[0], 4);
                break;
            case DCF:
                t(casing("DCF"));
                t("(");
                t(e.text); // basis,start,end as one piece
                t(")");
                break;
            default: {
                static const std::map<int, string> F = {{LOG, "LOG"}, {SQRT, "SQRT"}, {EXP, "EXP"}, {MIN, "MIN"}, {MAX, "MAX"}};
                t(casing(F.at(e.op)));
                t("(");
                for (size_t i = 0; i < e.a.size(); ++i) {
                    if (i)
                        t(",");
                    ex(*e.a[i], 1);
                }
                t(")");
            }
            }
            if (par)
                t(")");
        }
        // precedence: OR 1, AND 2, comparison 3
        void cond(const Cond& c, int min) {
            const int p = c.op == OR ? 1 : c.op == AND ? 2 : 3;
            const bool par = p < min || r.coin(redundant);
            if (par)
                t("(");
            if (c.op == CMP) {
                const size_t at = toks.size();
                ex(*c.l, 1);
                if (toks[at] == "(")
                    toks.insert(toks.begin() + at, "+"); // a comparison cannot start with a parenthesis
                t(c.cmp);
                ex(*c.r, 1);
                if (!c.epsText.empty()) {
                    t(r.coin() ? ";" : ":");
                    t(c.epsText);
                }
            } else {
                cond(*c.a, p);
                t(casing(c.op == OR ? "OR" : "AND"));
                cond(*c.b, p + 1);
            }
            if (par)
                t(")");
        }
        void stmt(const Stmt& x) {
            if (x.op == IF) {
                t(casing("IF"));
                cond(*x.c, 1);
                t(casing("THEN"));
                for (auto& y : x.yes)
                    stmt(*y);
                if (x.hasElse) {
                    t(casing("ELSE"));
                    for (auto& y : x.no)
                        stmt(*y);
                }
                t(casing("END"));
            } else {
                t(casing(s.vars[x.var]));
                t(x.op == ASSIGN ? "=" : casing("PAYS"));
                ex(*x.e, 1);
            }
        }
        static bool word(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; }
        string text(const vector<St>& v) {
            toks.clear();
            for (auto& x : v)
                stmt(*x);
            return join(toks);
        }
        string join(const vector<string>& tk) {
            string o;
            for (size_t i = 0; i < tk.size(); ++i) {
                if (i) {
                    const bool need = word(o.back()) && word(tk[i][0]);
                    if (need || r.coin(0.6))
                        o += r.coin(0.85) ? " " : r.coin() ? "\n" : "\t";
                }
                o += tk[i];
            }
            return o;
        }
    };

    // ------------------------------------------------------------------ reference interpreter
    struct Run {
        vector<double> v;       // variables
        bool defined = true;    // every intermediate value finite and moderate
        double minDist = 1e300; // smallest nonzero distance of an evaluated continuous comparison from its decision point
        double minSlack = 1e300; // smallest (distance - smoothing half-width) over comparisons not known to be discrete
        bool zeroHit = false;   // a comparison exactly at its decision point
        u64 branches = 0;       // hash of branches taken
        int comparisons = 0;
    };
    struct Interp {
        const Script& s;
        double defEps = 0.0;
        bool evalAll = true; // no short circuit for the distance bookkeeping (values have no side effects)
        Run& o;
        double spot = 0, numeraire = 1;
        bool past = false;
        bool discreteOnly = false;

        double num(double x) {
            if (!std::isfinite(x) || std::fabs(x) > 1e24)
                o.defined = false;
            return x;
        }
        double ex(const Ex& e) {
            switch (e.op) {
            case NUM:
            case DCF:
                return e.num;
            case VAR:
                return o.v[e.var];
            case CVAR:
                return s.constVals[e.var];
            case SPOT:
                return spot;
            case ADD:
                return num(ex(*e.a[0]) + ex(*e.a[1]));
            case SUB:
                return num(ex(*e.a[0]) - ex(*e.a[1]));
            case MUL:
                return num(ex(*e.a[0]) * ex(*e.a[1]));
            case DIV:
                return num(ex(*e.a[0]) / ex(*e.a[1]));
            case POW:
                return num(std::pow(ex(*e.a[0]), ex(*e.a[1])));
            case NEG:
                return -ex(*e.a[0]);
            case POS:
                return ex(*e.a[0]);
            case LOG:
                return num(std::log(ex(*e.a[0])));
            case SQRT:
                return num(std::sqrt(ex(*e.a[0])));
            case EXP:
                return num(std::exp(ex(*e.a[0])));
            case MIN:
            case MAX: {
                double x = ex(*e.a[0]);
                for (size_t i = 1; i < e.a.size(); ++i) {
                    const double y = ex(*e.a[i]);
                    x = e.op == MIN ? (y < x ? y : x) : (y > x ? y : x);
                }
                return x;
            }
            }
            return 0;
        }
        bool discrete(const Ex& e) const {
            if (e.op == NUM || e.op == CVAR || e.op == DCF)
                return true;
            if (e.op == VAR)
                return s.flags.count(e.var) > 0;
            if (e.op == POS || e.op == NEG)
                return discrete(*e.a[0]);
            return false;
        }
        bool cond(const Cond& c) {
            if (c.op == CMP) {
                const double l = ex(*c.l), r = ex(*c.r), d = l - r;
                ++o.comparisons;
                if (d == 0)
                    o.zeroHit = true;
                else
                    o.minDist = std::min(o.minDist, std::fabs(d) / std::max({1.0, std::fabs(l), std::fabs(r)}));
                if (!(discrete(*c.l) && discrete(*c.r))) {
                    const double w = c.eps < 0 ? defEps : c.eps;
                    o.minSlack = std::min(o.minSlack, std::fabs(d) - 0.5 * w);
                }
                if (c.cmp == "=")
                    return d == 0;
                if (c.cmp == "!=")
                    return d != 0;
                if (c.cmp == "<")
                    return d < 0;
                if (c.cmp == ">")
                    return d > 0;
                if (c.cmp == "<=")
                    return d <= 0;
                return d >= 0;
            }
            const bool a = cond(*c.a), b = cond(*c.b);
            return c.op == AND ? a && b : a || b;
        }
        void stmt(const Stmt& x) {
            if (x.op == ASSIGN)
                o.v[x.var] = ex(*x.e);
            else if (x.op == PAYS) {
                const double p = ex(*x.e);
                if (!past)
                    o.v[x.var] = num(o.v[x.var] + num(p / numeraire));
            } else {
                const bool b = cond(*x.c);
                o.branches = mix(o.branches * 3 + b + 1);
                for (auto& y : b ? x.yes : x.no)
                    stmt(*y);
            }
        }
    };
    // spots and numeraires: one per future event
    inline Run run(const Script& s, const vector<double>& spot, const vector<double>& num, double defEps = 0.0) {
        Run o;
        o.v.assign(s.vars.size(), 0.0);
        Interp in{s, defEps, true, o};
        size_t k = 0;
        for (auto& e : s.events) {
            in.past = e.past;
            in.spot = e.past ? 0.0 : spot[k];
            in.numeraire = e.past ? 1.0 : num[k];
            for (auto& x : e.stmts)
                in.stmt(*x);
            if (!e.past)
                ++k;
        }
        return o;
    }

    // ------------------------------------------------------------------ generation
    struct Gen {
        Rng& r;
        Script s;
        int maxDepth = 4;
        bool allowSpot = true;
        bool smooth = false;      // only differentiable operations, no conditions
        double wild = 0.15;       // operations that may be undefined
        int maxIfDepth = 3;

        explicit Gen(Rng& rr) : r(rr) {}

        E number() {
            auto e = mk(NUM);
            char b[64];
            switch (r.range(0, 7)) {
            case 0:
                snprintf(b, sizeof b, "%d", r.range(0, 9));
                break;
            case 1:
                snprintf(b, sizeof b, "%d", r.range(0, 200));
                break;
            case 2:
                snprintf(b, sizeof b, "%.2f", r.uniform(0, 3));
                break;
            case 3:
                snprintf(b, sizeof b, ".%d", r.range(1, 99));
                break;
            case 4:
                snprintf(b, sizeof b, "%d.", r.range(1, 9));
                break;
            case 5:
                snprintf(b, sizeof b, "%.6f", r.uniform(0, 150));
                break;
            case 6:
                snprintf(b, sizeof b, "%03d.50", r.range(0, 120));
                break;
            default:
                snprintf(b, sizeof b, "%d", r.pick({0, 1, 2, 100}));
            }
            e->text = b;
            e->num = strtod(b, nullptr);
            return e;
        }
        static E numE(double x) {
            auto e = mk(NUM);
            char b[64];
            snprintf(b, sizeof b, "%.17g", x);
            if (string(b).find('e') != string::npos)
                snprintf(b, sizeof b, "%.12f", x);
            e->text = b;
            e->num = strtod(b, nullptr);
            return e;
        }
        E leaf() {
            const int k = r.range(0, 9);
            if (k <= 2 && allowSpot)
                return mk(SPOT);
            if (k <= 5 && !s.vars.empty()) {
                auto e = mk(VAR);
                e->var = r.below(s.vars.size());
                return e;
            }
            if (k == 6 && !s.consts.empty()) {
                auto e = mk(CVAR);
                e->var = r.below(s.consts.size());
                return e;
            }
            if (k == 7 && r.coin(0.3))
                return dcf();
            return number();
        }
        E dcf() {
            auto e = mk(DCF);
            const long a = civil::toDays(r.range(2000, 2040), r.range(1, 12), r.range(1, 28)), b = a + r.range(r.coin(0.2) ? -3000 : 0, 4000);
            const auto A = civil::fromDays(a), B = civil::fromDays(b);
            char t[128];
            const bool f = r.coin();
            const char* basis = f ? r.pick({(const char*)"ACT/365F", (const char*)"ACT365F", (const char*)"act/365f"})
                                  : r.pick({(const char*)"ACT/360", (const char*)"ACT360"});
            snprintf(t, sizeof t, "%s%s%04d-%02d-%02d%s%04d-%02d-%02d", basis, r.coin() ? "," : ", ", A.y, A.m, A.d, r.coin() ? "," : " , ",
                     B.y, B.m, B.d);
            e->text = t;
            e->num = (b - a) / (f ? 365.0 : 360.0);
            return e;
        }
        E expr(int depth) {
            if (depth <= 0 || r.coin(0.2))
                return leaf();
            switch (r.range(0, 13)) {
            case 0:
            case 1:
            case 2:
                return mk(ADD, {expr(depth - 1), expr(depth - 1)});
            case 3:
            case 4:
            case 5:
                return mk(SUB, {expr(depth - 1), expr(depth - 1)});
            case 6:
            case 7:
                return mk(MUL, {expr(depth - 1), expr(depth - 1)});
            case 8: {
                if (r.coin(wild))
                    return mk(DIV, {expr(depth - 1), expr(depth - 1)});
                // a divisor that keeps away from zero
                E d = r.coin() ? mk(ADD, {numE(r.range(1, 4)), mk(MUL, {dup(depth - 2), nullptr})}) : mk(MAX, {expr(depth - 2), numE(0.5 * r.range(1, 8))});
                if (d->op == ADD) {
                    d->a[1]->a[1] = d->a[1]->a[0]; // 1 + x*x
                }
                return mk(DIV, {expr(depth - 1), d});
            }
            case 9: {
                E base = r.coin(wild) ? expr(depth - 1) : mk(MAX, {expr(depth - 1), numE(0.25 * r.range(1, 8))});
                E ex = r.coin(0.6) ? numE(0.5 * r.range(0, 5)) : mk(MIN, {expr(depth - 2), numE(2)});
                if (r.coin(0.3))
                    ex = mk(NEG, {ex});
                E pw = mk(POW, {base, ex});
                while (r.coin(0.35)) // chains: a power applies to everything in front of it
                    pw = mk(POW, {pw, r.coin(0.2) ? mk(NEG, {numE(0.5 * r.range(1, 4))}) : numE(0.5 * r.range(0, 5))});
                return pw;
            }
            case 10:
                return mk(r.coin(0.8) ? NEG : POS, {expr(depth - 1)});
            case 11: {
                const int k = r.range(0, 2);
                if (k == 0)
                    return mk(LOG, {r.coin(wild) ? expr(depth - 1) : mk(MAX, {expr(depth - 1), numE(0.1 * r.range(1, 30))})});
                if (k == 1)
                    return mk(SQRT, {r.coin(wild) ? expr(depth - 1) : mk(MAX, {expr(depth - 1), numE(r.range(0, 2))})});
                return mk(EXP, {r.coin(wild) ? expr(depth - 1) : mk(MIN, {expr(depth - 1), numE(r.range(0, 4))})});
            }
            default: {
                vector<E> a;
                const int n = r.coin(0.75) ? 2 : r.coin(0.9) ? r.range(3, 5) : r.range(6, 12);
                for (int i = 0; i < n; ++i)
                    a.push_back(expr(depth - 1));
                return mk(r.coin() ? MIN : MAX, a);
            }
            }
        }
        E dup(int depth) { return expr(std::max(0, depth)); }

        C cond(int depth) {
            auto c = std::make_shared<Cond>();
            if (depth > 0 && r.coin(0.35)) {
                c->op = r.coin() ? AND : OR;
                c->a = cond(depth - 1);
                c->b = cond(depth - 1);
                return c;
            }
            c->op = CMP;
            c->cmp = r.pick({string("="), string("!="), string("<"), string(">"), string("<="), string(">="), string(">"), string("<")});
            const int k = r.range(0, 9);
            if (k < 2 && !s.flags.empty()) {
                // discrete
                auto e = mk(VAR);
                auto it = s.flags.begin();
                std::advance(it, r.below(s.flags.size()));
                e->var = *it;
                c->l = e;
                c->r = numE(r.range(0, 2));
                if (r.coin(0.3))
                    std::swap(c->l, c->r);
            } else if (k < 5 && allowSpot) {
                c->l = mk(SPOT);
                c->r = r.coin(0.7) ? number() : expr(2);
                if (r.coin(0.3))
                    std::swap(c->l, c->r);
            } else {
                c->l = expr(2);
                c->r = expr(r.range(0, 2));
            }
            if (r.coin(0.15)) {
                c->epsText = r.pick({string("0.01"), string("1"), string("0.5"), string(".1")});
                c->eps = strtod(c->epsText.c_str(), nullptr);
            }
            return c;
        }
        int pickVar(bool flagOk) {
            for (int i = 0; i < 50; ++i) {
                const int v = r.below(s.vars.size());
                if (flagOk || !s.flags.count(v))
                    return v;
            }
            return -1;
        }
        // now and then a long block
        int blockSize(int ifDepth) { return r.coin(ifDepth == 1 ? 0.08 : 0.02) ? r.range(4, 14) : r.range(1, 3); }
        St stmt(int ifDepth) {
            auto x = std::make_shared<Stmt>();
            const int k = r.range(0, 9);
            if (k < 3 && ifDepth > 0 && !smooth) {
                x->op = IF;
                x->c = cond(r.coin(0.05) ? 4 : 2);
                const int n = r.coin(0.9) ? blockSize(ifDepth) : 0;
                for (int i = 0; i < n; ++i)
                    x->yes.push_back(stmt(ifDepth - 1));
                x->hasElse = r.coin();
                if (x->hasElse) {
                    const int m = r.coin(0.9) ? blockSize(ifDepth) : 0;
                    for (int i = 0; i < m; ++i)
                        x->no.push_back(stmt(ifDepth - 1));
                }
                return x;
            }
            if (k < 5) {
                x->op = PAYS;
                x->var = pickVar(false);
                x->e = expr(maxDepth - 1);
                if (x->var >= 0)
                    return x;
            }
            x->op = ASSIGN;
            x->var = pickVar(true);
            if (s.flags.count(x->var))
                x->e = r.coin(0.15) ? mk(NEG, {numE(r.range(1, 2))}) : numE(r.range(0, 2));
            else
                x->e = expr(maxDepth);
            return x;
        }
        // nPast events before `today`, nFuture on or after
        void script(long today, int nPast, int nFuture, int nVars, int nFlags, int nConsts, int maxStmts) {
            static const vector<string> NAMES = {"alpha", "beta_1", "x", "yy", "Digital", "knocked", "p.q", "z9", "coupon", "v_", "endcap", "iffy", "order", "spots", "Payoff", "accumulated_coupon_paid_so_far", "accumulated_coupon_paid_so_far_2", "knock_in_observation_flag"};
            vector<string> nm = NAMES;
            r.shuffle(nm);
            for (int i = 0; i < nVars; ++i) {
                s.vars.push_back(nm[i]);
                if (i < nFlags)
                    s.flags.insert(i);
            }
            static const vector<string> CN = {"STRIKE", "barrier_K", "Notional", "KNOCK_OUT_BARRIER_LEVEL_OF_THE_TRADE", "q.cap", "Weight"};
            for (int i = 0; i < nConsts; ++i) {
                s.consts.push_back(CN[i]);
                const int k = r.range(0, 3);
                char b[40];
                if (k == 0)
                    snprintf(b, sizeof b, "%d", r.range(1, 120));
                else if (k == 1)
                    snprintf(b, sizeof b, "%.3f", r.uniform(0.1, 110));
                else if (k == 2)
                    snprintf(b, sizeof b, "-%.2f", r.uniform(0.1, 3));
                else
                    snprintf(b, sizeof b, "%d.%de1", r.range(1, 9), r.range(0, 99));
                s.constText.push_back(b);
                s.constVals.push_back(strtod(b, nullptr));
            }
            std::set<long> days;
            while ((int)days.size() < nPast)
                days.insert(today - r.range(1, 900));
            std::set<long> fut;
            if (r.coin(0.3) && nFuture)
                fut.insert(today);
            while ((int)fut.size() < nFuture)
                fut.insert(today + r.range(1, 1500 + 40 * nFuture));
            for (long d : days)
                addEvent(d, true, maxStmts);
            for (long d : fut)
                addEvent(d, false, maxStmts);
        }
        void addEvent(long d, bool past, int maxStmts) {
            Event e;
            e.day = d;
            e.past = past;
            const bool keep = allowSpot;
            allowSpot = keep && !past;
            const int n = r.range(1, maxStmts);
            for (int i = 0; i < n; ++i)
                e.stmts.push_back(stmt(maxIfDepth));
            allowSpot = keep;
            s.events.push_back(std::move(e));
        }
    };

    // can any operation of the script fail for some argument (division by zero, power of a negative number, overflow)?
    inline bool partial(const Ex& e) {
        if (e.op == DIV || e.op == POW || e.op == LOG || e.op == SQRT || e.op == EXP)
            return true;
        for (auto& x : e.a)
            if (partial(*x))
                return true;
        return false;
    }
    inline bool partial(const Cond& c) { return c.op == CMP ? partial(*c.l) || partial(*c.r) : partial(*c.a) || partial(*c.b); }
    inline bool partial(const vector<St>& v) {
        for (auto& x : v)
            if ((x->e && partial(*x->e)) || (x->c && partial(*x->c)) || partial(x->yes) || partial(x->no))
                return true;
        return false;
    }
    inline bool partial(const Script& s) {
        for (auto& e : s.events)
            if (partial(e.stmts))
                return true;
        return false;
    }

    // event table handed to the library
    struct Table {
        struct Row {
            bool isDate;
            long day;
            string cell, text;
        };
        vector<Row> rows;
        string show() const {
            string o;
            for (auto& x : rows) {
                if (x.isDate) {
                    auto a = civil::fromDays(x.day);
                    char b[32];
                    snprintf(b, sizeof b, "%04d-%02d-%02d", a.y, a.m, a.d);
                    o += b;
                } else
                    o += x.cell;
                o += " | " + x.text + " || ";
            }
            return o;
        }
    };
    inline Table table(Rng& r, const Script& s) {
        Table t;
        for (size_t i = 0; i < s.consts.size(); ++i)
            t.rows.push_back({false, 0, s.consts[i], s.constText[i]});
        vector<Table::Row> ev;
        for (auto& e : s.events) {
            // the statements of one date may be spread over several rows: they are joined in the order of the rows
            const size_t cut = e.stmts.size() > 1 && r.coin(0.3) ? 1 + r.below(e.stmts.size() - 1) : e.stmts.size();
            vector<St> a(e.stmts.begin(), e.stmts.begin() + cut), b(e.stmts.begin() + cut, e.stmts.end());
            Printer p{r, s};
            ev.push_back({true, e.day, "", p.text(a)});
            if (!b.empty())
                ev.push_back({true, e.day, "", p.text(b)});
        }
        // dates may come in any order, rows of one date keep theirs
        if (r.coin(0.5)) {
            std::map<long, vector<Table::Row>> by;
            for (auto& x : ev)
                by[x.day].push_back(x);
            vector<long> slots;
            for (auto& x : ev)
                slots.push_back(x.day);
            r.shuffle(slots);
            std::map<long, size_t> at;
            vector<Table::Row> o;
            for (long d : slots)
                o.push_back(by[d][at[d]++]);
            ev = o;
        }
        for (auto& x : ev)
            t.rows.push_back(x);
        return t;
    }
} // namespace sg
