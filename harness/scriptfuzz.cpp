// P07: hostile script tables through the whole pipeline.
#include "script.hpp"

using namespace sl;

static const long TODAY = civil::toDays(2024, 6, 14);

// a product whose value is known, run between the hostile ones
static void canary(const string& after) {
    setToday(TODAY);
    Table t;
    t.rows.push_back({false, 0, "STRIKE", "100"});
    t.rows.push_back({false, 0, "PAYOFF_", "(MAX(spot() - STRIKE, 0))"});
    t.rows.push_back({true, TODAY + 30, "", "x = spot() IF x > 105 THEN k = 2 ELSE k = 3 END"});
    t.rows.push_back({true, TODAY + 60, "", "p PAYS k * PAYOFF_"});
    ScriptProduct_ p = build(t);
    p.PreProcess(false, false);
    p.Compile();
    auto ev = p.BuildEvaluator<double>();
    auto st = p.BuildEvalState<double>();
    Scn sc = scenario({104, 120}, {1.0, 1.25});
    p.Evaluate(sc, ev);
    p.EvaluateCompiled(sc, st);
    auto a = byName(p, ev.VarVals()), b = byName(p, st.VarVals());
    if (!near(a["p"], 48, 1e-12, 0) || !near(b["p"], 48, 1e-12, 0) || a["k"] != 3 || a.size() != 3)
        violation("later-product-affected", cat("after ", after, ": p = ", a["p"], " / ", b["p"]));
}

struct Row {
    Cell_ cell;
    string text;
};
static string showRows(const vector<Row>& rows, const vector<string>& cells) {
    string o;
    for (size_t i = 0; i < rows.size(); ++i)
        o += cells[i] + " | " + rows[i].text + " || ";
    return o;
}

enum class Fate { Refused, Ran, RefusedLater };
// everything a caller can do with a table; whatever happens is either a result or an exception with a message
static Fate pipeline(Rng& r, const vector<Row>& rows, const string& payoff = "") {
    Fate fate = Fate::Refused;
    try {
        Vector_<Cell_> d;
        Vector_<String_> e;
        for (auto& x : rows) {
            d.push_back(x.cell);
            e.push_back(String_(x.text));
        }
        ScriptProduct_ p(d, e, String_(payoff));
        fate = Fate::RefusedLater;
        const bool fuzzy = r.coin(), skip = r.coin();
        const size_t depth = p.PreProcess(fuzzy, skip);
        Paths w;
        for (size_t i = 0; i < p.EventDates().size(); ++i) {
            w.spot.push_back(100 + 10 * r.normal());
            w.num.push_back(r.uniform(0.9, 1.2));
        }
        Scn sc = scenario(w.spot, w.num);
        {
            auto ev = p.BuildEvaluator<double>();
            p.Evaluate(sc, ev);
            if (fuzzy) {
                auto fz = p.BuildFuzzyEvaluator<double>((int)depth, 0.1);
                p.Evaluate(sc, fz);
            }
        }
        if (r.coin()) {
            p.Compile();
            auto st = p.BuildEvalState<double>();
            p.EvaluateCompiled(sc, st);
            count("compiled");
        }
        if (r.coin(0.2)) {
            std::ostringstream o;
            p.Debug(o);
        }
        fate = Fate::Ran;
        count("ran");
    } catch (const std::exception& x) {
        count(fate == Fate::Refused ? "refused" : "refused-later");
        if (!*x.what())
            violation("empty-message", "an exception without a message");
    } catch (...) {
        violation("foreign-exception", "something that is not a std::exception was thrown");
    }
    return fate;
}
static Row row(const Table::Row& x) { return {x.isDate ? Cell_(D(x.day)) : Cell_(String_(x.cell)), x.text}; }

static string mutateText(Rng& r, string s) {
    static const vector<string> TOK = {"IF",  "THEN", "ELSE", "END", "PAYS", "=",  "!=",  "<",    ">",    "<=",  ">=",   "(",     ")",        ",",  ";",
                                       ":",   "+",    "-",    "*",   "/",    "^",  "AND", "OR",   "SPOT", "MAX", "MIN",  "LOG",   "SQRT",     "EXP", "DCF",
                                       "x",   "1",    "0",    ".",   "1e5",  "..", "_",   "()",   "SPOT()", "ACT/365F", "2024-01-01", "STRIKE", "\n", "\t", "@",
                                       "\"", "\\",   "$",    "1.2.3", "-1",  "!",  "[",   "]",    "{",    "}",   "PeriodBegin", "x = 1", "\xff", "é"};
    const int n = r.range(1, 4);
    for (int k = 0; k < n; ++k) {
        const size_t at = s.empty() ? 0 : r.below(s.size() + 1);
        switch (r.range(0, 7)) {
        case 0: // delete a stretch
            if (!s.empty())
                s.erase(std::min(at, s.size() - 1), r.coin(0.7) ? 1 : r.range(1, 12));
            break;
        case 1:
        case 2:
            s.insert(at, " " + r.pick(TOK) + " ");
            break;
        case 3:
            s.insert(at, string(1, (char)r.range(1, 255)));
            break;
        case 4: // duplicate a stretch
            if (!s.empty() && s.size() < 3000) {
                const size_t a = r.below(s.size());
                s.insert(at, s.substr(a, r.range(1, 30)));
            }
            break;
        case 5: // truncate
            s.resize(at);
            break;
        case 6: { // swap two words
            if (s.size() > 4) {
                const size_t a = r.below(s.size() - 1), b = r.below(s.size() - 1);
                std::swap(s[a], s[b]);
            }
            break;
        }
        default: // replace a word
            if (!s.empty()) {
                size_t a = r.below(s.size()), b = a;
                while (a > 0 && Printer::word(s[a - 1]))
                    --a;
                while (b < s.size() && Printer::word(s[b]))
                    ++b;
                s.replace(a, std::max<size_t>(1, b - a), r.pick(TOK));
            }
        }
    }
    return s;
}

static Gen small(Rng& r) {
    Gen g(r);
    g.maxDepth = r.range(1, 3);
    g.maxIfDepth = r.range(0, 3);
    g.script(TODAY, r.range(0, 1), r.range(1, 2), r.range(1, 3), r.range(0, 1), r.range(0, 2), r.range(1, 3));
    return g;
}

static vector<string> tokens(const string& s) {
    vector<string> o;
    for (size_t i = 0; i < s.size();) {
        if (Printer::word(s[i])) {
            size_t j = i;
            while (j < s.size() && Printer::word(s[j]))
                ++j;
            o.push_back(s.substr(i, j - i));
            i = j;
        } else {
            if (i + 1 < s.size() && s[i + 1] == '=' && (s[i] == '!' || s[i] == '<' || s[i] == '>')) {
                o.push_back(s.substr(i, 2));
                i += 2;
                continue;
            }
            if (!isspace((unsigned char)s[i]))
                o.push_back(string(1, s[i]));
            ++i;
        }
    }
    return o;
}
static bool isComparator(const string& t) { return t == "=" || t == "!=" || t == "<" || t == ">" || t == "<=" || t == ">="; }

// a change to a well-formed text after which it certainly is not one; empty: none found
static string breakText(Rng& r, const string& text, string& how) {
    vector<string> t = tokens(text);
    auto join = [&] {
        string o;
        for (auto& x : t)
            o += x + " ";
        return o;
    };
    auto find = [&](auto pred) {
        vector<size_t> at;
        for (size_t i = 0; i < t.size(); ++i)
            if (pred(i))
                at.push_back(i);
        return at.empty() ? (size_t)-1 : at[r.below(at.size())];
    };
    auto is = [&](size_t i, const char* w) { return lower(t[i]) == w; };
    auto kw = [&](size_t i) {
        for (auto w : {"if", "then", "else", "end", "pays", "and", "or"})
            if (is(i, w))
                return true;
        return false;
    };
    // positions inside DCF( ... ) hold dates, not expressions
    vector<char> dcf(t.size(), 0);
    for (size_t i = 0; i < t.size(); ++i)
        if (is(i, "dcf"))
            for (size_t j = i; j < t.size(); ++j) {
                dcf[j] = 1;
                if (t[j] == ")")
                    break;
            }
    for (int tries = 0; tries < 20; ++tries) {
        const int k = r.range(0, 15);
        size_t i;
        switch (k) {
        case 0:
            i = find([&](size_t j) { return t[j] == "("; });
            how = "opening parenthesis removed";
            if (i != (size_t)-1) {
                t.erase(t.begin() + i);
                return join();
            }
            break;
        case 1:
            i = find([&](size_t j) { return t[j] == ")"; });
            how = "closing parenthesis removed";
            if (i != (size_t)-1) {
                t.erase(t.begin() + i);
                return join();
            }
            break;
        case 2:
            i = find([&](size_t j) { return is(j, "then"); });
            how = "THEN removed";
            if (i != (size_t)-1) {
                t.erase(t.begin() + i);
                return join();
            }
            break;
        case 3:
            i = find([&](size_t j) { return is(j, "end"); });
            how = "END removed";
            if (i != (size_t)-1) {
                t.erase(t.begin() + i);
                return join();
            }
            break;
        case 4:
            i = find([&](size_t j) { return is(j, "if"); });
            how = "IF removed";
            if (i != (size_t)-1) {
                t.erase(t.begin() + i);
                return join();
            }
            break;
        case 5:
            i = find([&](size_t j) { return isComparator(t[j]) || is(j, "pays"); });
            how = "comparator, = or PAYS removed";
            if (i != (size_t)-1) {
                t.erase(t.begin() + i);
                return join();
            }
            break;
        case 6:
            i = find([&](size_t j) { return isComparator(t[j]); });
            how = "comparator doubled";
            if (i != (size_t)-1) {
                t.insert(t.begin() + i, t[i]);
                return join();
            }
            break;
        case 7: // operand after a binary operator removed, with nothing that could take its place
            i = find([&](size_t j) {
                return !dcf[j] && j > 0 && (t[j - 1] == "*" || t[j - 1] == "/" || t[j - 1] == "^" || t[j - 1] == "+" || t[j - 1] == "-") &&
                       Printer::word(t[j][0]) && (j + 1 == t.size() || t[j + 1] == ")" || t[j + 1] == "," || isComparator(t[j + 1]) || kw(j + 1));
            });
            how = "operand removed";
            if (i != (size_t)-1) {
                t.erase(t.begin() + i);
                return join();
            }
            break;
        case 8:
            i = find([&](size_t j) { return !dcf[j] && (t[j] == "*" || t[j] == "/" || t[j] == "^"); });
            how = "operator doubled";
            if (i != (size_t)-1) {
                t.insert(t.begin() + i, r.pick({string("*"), string("/"), string("^")}));
                return join();
            }
            break;
        case 9: {
            how = "key word assigned";
            const string w = r.pick({string("IF"), string("END"), string("THEN"), string("ELSE"), string("PAYS"), string("AND"), string("OR"), string("SPOT"), string("max"),
                                     string("Min"), string("LOG"), string("SQRT"), string("EXP"), string("DCF")});
            return text + " " + w + " = 1";
        }
        case 10: {
            how = "wrong number of arguments";
            const string w = r.pick({string("LOG()"), string("LOG(1,2)"), string("SQRT()"), string("EXP(1,2)"), string("SPOT(1)"), string("MAX(1)"), string("MIN()"),
                                     string("MAX()"), string("DCF(ACT/365F,2020-01-01)"), string("DCF()"), string("DCF(ACT/365F)"), string("MAX(1,2,)"), string("MIN(,1,2)"),
                                     string("DCF(ACT/365F,2020-01-01,2021-01-01,2022-01-01)"), string("MAX(1,,2)"), string("MAX(1 2)"), string("MIN(1,2 3)"), string("DCF(ACT/365F 2020-01-01,2021-01-01)"),
                                     string("DCF(ACT/365F,2020-01-01 2021-01-01)")});
            return text + " q = " + w;
        }
        case 11: {
            how = "not an expression";
            const string w = r.pick({string("SPOT"), string("LOG 2"), string("()"), string("(1"), string("1)"), string("1 2"), string("^"), string("^2"), string("2 ^ ^ 3"),
                                     string("1.2.3"), string("12abc"), string("foo(1)"), string("x y"), string(","), string("1,"), string("IF"), string("(x = 1)"), string("1 > 2"),
                                     string("* 2"), string("2 *"), string("(2))"), string("PAYS"), string("1e"), string(".")});
            return text + " q = " + w;
        }
        case 12: {
            how = "not a statement";
            const string w = r.pick({string("x"), string("1 = x"), string("x ="), string("= 1"), string("x PAYS"), string("PAYS 1"), string("(x) = 1"), string("-x = 1"),
                                     string("x + 1"), string("x + y = 1"), string("IF"), string("END"), string("ELSE"), string("THEN x = 1 END"), string("^ = 1"), string("x := 1"),
                                     string("x == 1"), string("IF x > 1 THEN y = 1"), string("IF x > 1 THEN y = 1 ELSE z = 1"), string("IF x THEN y = 1 END"),
                                     string("IF x > 1 THEN y = 1 ELSE y = 2 ELSE y = 3 END"), string("IF x > 1 y = 1 END"), string("IF x > 1 AND THEN y = 1 END"),
                                     string("IF OR x > 1 THEN y = 1 END"), string("IF (x > 1 THEN y = 1 END"), string("IF x > 1) THEN y = 1 END"), string("IF x > 1; THEN y = 1 END"),
                                     string("IF x > 1;z THEN y = 1 END"), string("IF x > 1 > 2 THEN y = 1 END"), string("1 PAYS 2")});
            return text + " " + w;
        }
        case 13:
            how = "impossible date";
            return text + " q = " + r.pick({string("DCF(ACT/365F, 2023-02-29, 2024-01-01)"), string("DCF(ACT/365F, 2023-13-01, 2024-01-01)"), string("DCF(NOBASIS, 2023-01-01, 2024-01-01)"),
                                            string("DCF(ACT/365F, 2023-01-00, 2024-01-01)"), string("DCF(ACT/365F, x, y)"), string("DCF(ACT/365F, 2023, 2024)")});
        case 14:
            i = find([&](size_t j) { return is(j, "and") || is(j, "or"); });
            how = "connective doubled";
            if (i != (size_t)-1) {
                t.insert(t.begin() + i, r.pick({string("AND"), string("OR")}));
                return join();
            }
            break;
        default:
            i = find([&](size_t j) { return is(j, "and") || is(j, "or"); });
            how = "connective removed";
            if (i != (size_t)-1) {
                t.erase(t.begin() + i);
                return join();
            }
        }
    }
    return "";
}

static void body() {
    init();
    canary("start");
    // the changed text must be refused
    section("malformed", N(48000, 600000), [](Rng& r) {
        setToday(TODAY);
        Gen g = small(r);
        Table t = table(r, g.s);
        vector<size_t> ev;
        for (size_t i = 0; i < t.rows.size(); ++i)
            if (t.rows[i].isDate)
                ev.push_back(i);
        string how;
        const size_t at = r.pick(ev);
        if (r.coin(0.06)) { // the table itself is wrong
            const string value = r.coin() ? "2.5" : "1.5 * 2";
            if (r.coin()) {
                how = "macro after an event";
                t.rows.insert(t.rows.begin() + at + 1, {false, 0, "LATENAME", value});
            } else {
                how = "macro name given twice";
                const size_t a = r.below(ev[0] + 1);
                t.rows.insert(t.rows.begin() + a, {false, 0, "TWICE", r.coin() ? "2.5" : "1.5 * 2"});
                t.rows.insert(t.rows.begin() + r.range((int)a + 1, (int)ev[0] + 1), {false, 0, r.coin() ? "TWICE" : "twice", value});
            }
        } else {
            const string broken = breakText(r, t.rows[at].text, how);
            if (broken.empty())
                return;
            t.rows[at].text = broken;
        }
        desc(how + ": " + t.show());
        vector<Row> rows;
        for (auto& x : t.rows)
            rows.push_back(row(x));
        bool refused = false;
        try {
            ScriptProduct_ p = build(t);
            p.PreProcess(false, true);
        } catch (const std::exception& e) {
            refused = true;
            if (!*e.what())
                violation("empty-message", how);
        }
        if (!refused)
            violation("malformed-accepted:" + how, t.rows[at].text.size() > 300 ? "..." + t.rows[at].text.substr(t.rows[at].text.size() - 300) : t.rows[at].text);
        count("malformed");
        observed(t.show(), true);
        sample(how + ": " + t.show());
    });

    section("mutated", N(48000, 800000), [](Rng& r) {
        setToday(TODAY);
        Gen g = small(r);
        Table t = table(r, g.s);
        vector<Row> rows;
        vector<string> cells;
        const int victims = r.range(1, 2);
        for (int k = 0; k < victims; ++k) {
            auto& x = t.rows[r.below(t.rows.size())];
            x.text = mutateText(r, x.text);
            if (!x.isDate && r.coin(0.3))
                x.cell = mutateText(r, x.cell);
        }
        desc(t.show());
        for (auto& x : t.rows)
            rows.push_back(row(x));
        const Fate f = pipeline(r, rows, r.coin(0.2) ? mutateText(r, "x") : "");
        observed(t.show(), true);
        count("mutated");
        if (S().caseNo % 40 < 8)
            canary(cat("mutated ", (int)f));
        sample(t.show());
    });

    // nothing but tokens, or nothing but bytes
    section("soup", N(16000, 400000), [](Rng& r) {
        setToday(TODAY);
        string s;
        const int n = r.coin(0.8) ? r.range(0, 30) : r.range(30, 300);
        const bool bytes = r.coin(0.3);
        for (int i = 0; i < n; ++i) {
            if (bytes)
                s += (char)r.range(0, 255);
            else
                s = s + " " + r.pick({string("IF"),   string("THEN"), string("ELSE"), string("END"), string("PAYS"), string("="),   string("!="),  string("<"),    string(">"),
                                      string("("),    string(")"),    string(","),    string(";"),   string("+"),    string("-"),   string("*"),   string("/"),    string("^"),
                                      string("AND"),  string("OR"),   string("SPOT"), string("()"),  string("MAX("), string("x"),   string("y ="), string("z PAYS"), string("1"),
                                      string("0.5"),  string("SPOT()"), string("IF x > 1 THEN"), string("DCF("), string("LOG("), string("x = 1"), string("K")});
        }
        vector<Row> rows;
        if (r.coin(0.3))
            rows.push_back({Cell_(String_("K")), r.coin() ? "3" : "x"});
        rows.push_back({Cell_(D(TODAY + r.range(-5, 100))), s});
        desc(s);
        pipeline(r, rows);
        observed(s, n > 0);
        count("soups");
        if (S().caseNo % 40 < 8)
            canary("soup");
    });

    // cells of the first column: schedules, names, numbers, dates
    section("cells", N(24000, 400000), [](Rng& r) {
        setToday(TODAY);
        vector<Row> rows;
        vector<string> cells;
        const int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            string c;
            Cell_ cell;
            switch (r.range(0, 7)) {
            case 0:
            case 1:
            case 2: {
                vector<string> parts = {"START: 2024-01-15", "END: 2026-01-15", "FREQ: 3M", "CALENDAR: CN.SSE", "BizRule: ModifiedFollowing", "FIXING: BEGIN"};
                if (r.coin(0.4))
                    r.shuffle(parts);
                parts.resize(r.range(0, 6));
                for (auto& p : parts)
                    c += p + " ";
                const int m = r.range(0, 3);
                for (int k = 0; k < m; ++k)
                    switch (r.range(0, 5)) {
                    case 0:
                        c = mutateText(r, c);
                        break;
                    case 1:
                        c += r.pick({string("START:"), string("END:"), string("FREQ:"), string("CALENDAR:"), string(":"), string("FIXING: MIDDLE"), string("FREQ: 0M"), string("FREQ: -1M"),
                                     string("FREQ: 1D"), string("FREQ: IMM"), string("START: 2026-13-45"), string("FREQ: 3M FREQ: 6M")});
                        break;
                    case 2:
                        c = c.substr(0, r.below(c.size() + 1));
                        break;
                    case 3: {
                        const size_t at = c.find("20");
                        if (at != string::npos)
                            c.replace(at, 4, r.pick({string("1900"), string("2149"), string("2030"), string("99999999999"), string("0"), string("20x4")}));
                        break;
                    }
                    default:
                        break;
                    }
                if (c.find(':') == string::npos)
                    c += ":";
                cell = Cell_(String_(c));
                break;
            }
            case 3:
                c = r.pick({string("K"), string("K("), string("[a-z"), string("("), string("*"), string("x"), string(""), string("SPOT"), string("a|b"), string("$1"), string("\\"), string("."),
                            string("=")});
                cell = Cell_(String_(c));
                break;
            case 4: {
                const double x = r.pick({0.0, 1.0, -1.0, 45000.0, 1e300, 1e-300, 45000.5, 2147483648.0, std::nan("")});
                c = cat(x);
                cell = Cell_(x);
                break;
            }
            case 5:
                c = "(bool)";
                cell = Cell_(r.coin());
                break;
            case 6:
                c = "(empty)";
                break;
            default: {
                const long d = TODAY + r.range(-400, 400);
                c = cat("day ", d);
                cell = Cell_(D(d));
            }
            }
            string text = r.pick({string("x = DCF(ACT/365F, PeriodBegin, PeriodEnd)"), string("p PAYS spot() - K"), string("3"), string("K = K + 1"), string("IF x > K THEN y = 1 END"), string(""),
                                  string("x = a + K"), string("n = n + 1")});
            if (r.coin(0.2))
                text = mutateText(r, text);
            cells.push_back(c);
            rows.push_back({cell, text});
        }
        if (r.coin(0.1))
            rows.clear(), cells.clear();
        const string d = showRows(rows, cells);
        desc(d);
        pipeline(r, rows);
        observed(d, !rows.empty());
        count("cell-tables");
        if (S().caseNo % 40 < 8)
            canary("cells");
        sample(d);
    });

    // size: deep nesting and long texts are either run or refused
    section("deep", N(160, 1600), [](Rng& r) {
        setToday(TODAY);
        const int n = (int)r.logUniform(10, 20000);
        const int kind = r.range(0, 11);
        string s;
        auto rep = [&](const string& x, int k) {
            string o;
            o.reserve(x.size() * k);
            for (int i = 0; i < k; ++i)
                o += x;
            return o;
        };
        switch (kind) {
        case 0:
            s = "x = " + rep("(", n) + "1" + rep(")", n);
            break;
        case 1:
            s = "x = " + rep("-", n) + "1";
            break;
        case 2:
            s = rep("IF spot() > 1 THEN ", n) + "x = 1" + rep(" END", n);
            break;
        case 3:
            s = "x = " + rep("MAX(1,", n) + "1" + rep(")", n);
            break;
        case 4:
            s = "IF " + rep("(", n) + "x > 1" + rep(")", n) + " THEN y = 1 END";
            break;
        case 5:
            s = "x = 1" + rep(" + 1", n);
            break;
        case 6:
            s = "IF x > 1" + rep(" OR x > 2", n) + " THEN y = 1 END";
            break;
        case 7:
            s = rep("x = x + 1 ", n);
            break;
        case 8:
            s = "x = 1" + rep(" ^ 1", n);
            break;
        case 9:
            s = rep("v", n) + " = 1";
            break;
        case 10:
            s = "x = 1." + rep("0", n);
            break;
        default:
            s = "x = MAX(1" + rep(", 2", n) + ")";
        }
        desc(cat("kind ", kind, " size ", n));
        vector<Row> rows = {{Cell_(D(TODAY + 10)), s}};
        pipeline(r, rows);
        canary("deep");
        count("deep");
        observed(cat(kind, ":", n), true);
    });
}
VH_MAIN(body)
