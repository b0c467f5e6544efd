// P08: texts and tables that are not what they should be are understood or refused, never crashed on.
#include "archive.hpp"
#include <csignal>
#include <dal/currency/currency.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/indexparse.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/platform/initall.hpp>
#include <dal/protocol/clearer.hpp>
#include <dal/protocol/collateraltype.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/protocol/optiontype.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/string/stringutils.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/time/schedules.hpp>
#include <dal/utilities/exceptions.hpp>
#include <dal/utilities/file.hpp>

namespace {
    const int CASE_SECONDS = 120; // per case; ordinary ones take milliseconds
    std::atomic<double> sink{0};

    // f either returns or raises an error with a message
    template <class F> bool answers(const char* who, F f) {
        alarm(CASE_SECONDS);
        string what = "-";
        bool ok = true;
        try {
            f();
            count(string(who) + ":understood");
        } catch (const std::exception& e) {
            ok = false;
            what = e.what();
            count(string(who) + ":refused");
        } catch (...) {
            ok = false;
            violation("not-an-exception", cat(who, " raised something that is not an exception"));
        }
        alarm(0);
        check(!what.empty(), "no-message", who);
        return ok;
    }
    // an object which was understood can be used
    void use(const H& h, Rng& r) {
        if (!h)
            return;
        try {
            (void)account(*h);
        } catch (const std::exception&) {
        }
        try {
            (void)JSON::WriteString(*h);
        } catch (const std::exception&) {
        }
        try {
            (void)Splat(*h);
        } catch (const std::exception&) {
        }
        for (int i = 0; i < 5; ++i)
            try {
                if (auto p = dynamic_cast<const Interp1_*>(h.get()))
                    sink = (*p)(r.normal() * 50);
                else if (auto p = dynamic_cast<const Interp2_*>(h.get()))
                    sink = (*p)(r.normal() * 50, r.normal() * 50);
                else if (auto p = dynamic_cast<const DiscountCurve_*>(h.get()))
                    sink = (*p)(Date::FromExcel(r.range(26000, 50000)), Date::FromExcel(r.range(26000, 50000)));
                else if (auto p = dynamic_cast<const PiecewiseConstant_*>(h.get()))
                    sink = p->IntegralTo(Date::FromExcel(r.range(26000, 50000)));
                else if (auto p = dynamic_cast<const PseudoRSG_*>(h.get())) {
                    if (p->NDim() < 10000) {
                        Vector_<> u(p->NDim());
                        p->FillUniform(&u);
                        p->FillNormal(&u);
                    }
                } else if (auto p = dynamic_cast<const Report_*>(h.get())) {
                    auto a = p->MakeAddress();
                    for (const auto& x : p->Axes())
                        a[x] = r.range(0, 3);
                    sink = (*p)[a];
                } else if (auto p = dynamic_cast<const Script::ScriptProductData_*>(h.get()))
                    (void)p->Product();
            } catch (const std::exception&) {
            }
        count("objects-used");
    }
    // sizes in the text may ask for more memory than is sensible to give here
    bool greedy(const string& t) {
        for (const char* k : {"n_dim", "sizes"})
            for (size_t at = t.find(k); at != string::npos; at = t.find(k, at + 1)) {
                const string s = t.substr(at + strlen(k), 120);
                for (size_t i = 0; i < s.size(); ++i)
                    if (isdigit(static_cast<unsigned char>(s[i])) && (i == 0 || !(isdigit(static_cast<unsigned char>(s[i - 1])) || s[i - 1] == '.'))) {
                        const double d = strtod(s.c_str() + i, nullptr);
                        if (d > 3000 && d < 3e9)
                            return true;
                    }
            }
        return false;
    }
    string randomBytes(Rng& r, int most) {
        string s;
        const int kind = r.range(0, 3);
        for (int n = r.range(0, most); n > 0; --n)
            s += kind == 0 ? static_cast<char>(r.below(256)) : kind == 1 ? static_cast<char>(r.range(32, 126)) : kind == 2 ? r.pick({'{', '}', '[', ']', '"', ':', ',', '\\', '1', '-', 'e', '.', 't', 'n'}) : r.pick({'0', '9', '-', '/', ' ', ':', ';', 'M', 'Y', '(', ')', ',', '\t', '\n'});
        return s;
    }
    string longText(Rng& r) {
        const string unit = r.pick({string("0"), string("9"), string("a"), string("-"), string(" "), string("["), string("{"), string("("), string(","), string(";"), string("1,"), string("\""), string("\\"),
                                    string("A B"), string("1M;"), string("x=1;"), string("\xff"), string(1, '\0'), string("["), string("{\"a\":"), string("/"), string("."), string("1e"), string("2020-01-01 ")});
        string s;
        const size_t n = r.pick({300u, 3000u, 20000u, 100000u});
        while (s.size() < n)
            s += unit;
        return s;
    }
    // something sensible in many brackets, or with many marks after it
    string nested(Rng& r, const string& core) {
        const size_t n = r.pick({10u, 300u, 3000u, 20000u, 60000u});
        const auto b = r.pick({std::pair<char, char>('(', ')'), std::pair<char, char>('[', ']'), std::pair<char, char>('{', '}'), std::pair<char, char>('"', '"'), std::pair<char, char>(' ', ' ')});
        switch (r.range(0, 3)) {
        case 0:
        case 1: return string(n, b.first) + core + string(n, b.second);
        case 2: return core + string(n, r.pick({'t', 'T', 'i', '*', '0', '9', 'M', '-', '+'}));
        default: return string(n, r.pick({'-', '+', '0', 'E'})) + core;
        }
    }
    // edits of a text: bytes, pieces, tokens
    string mutate(Rng& r, string s, const vector<string>& dict, bool digits) {
        for (int n = r.pick({1, 1, 1, 2, 3, 8}); n > 0; --n) {
            const size_t at = r.below(s.size() + 1), len = std::min<size_t>(r.range(1, 12), s.size() - at);
            switch (r.range(0, 9)) {
            case 0:
                s.erase(at, len);
                break;
            case 1:
                s.insert(at, s.substr(at, len));
                break;
            case 2: {
                char c = static_cast<char>(r.below(256));
                if (!digits && isdigit(static_cast<unsigned char>(c)))
                    c = '#';
                if (at < s.size())
                    s[at] = c;
                break;
            }
            case 3:
                s.insert(at, r.pick(dict));
                break;
            case 4:
                s.replace(at, len, r.pick(dict));
                break;
            case 5:
                s.resize(at);
                break;
            case 6:
                s = s.substr(at) + s.substr(0, at);
                break;
            case 7: { // a number elsewhere
                size_t p = at;
                while (p < s.size() && !isdigit(static_cast<unsigned char>(s[p])))
                    ++p;
                size_t q = p;
                while (q < s.size() && (isdigit(static_cast<unsigned char>(s[q])) || strchr(".eE+-", s[q])))
                    ++q;
                if (r.coin(0.2)) { // many digits, large exponents
                    string n = r.coin(0.3) ? "-" : "";
                    for (int i = r.pick({1, 5, 18, 25, 60, 310, 800}); i > 0; --i)
                        n += static_cast<char>('0' + (digits ? r.below(10) : 0));
                    if (r.coin(0.4)) {
                        n += ".";
                        for (int i = r.pick({1, 20, 400}); i > 0; --i)
                            n += static_cast<char>('0' + r.below(10));
                    }
                    if (digits && r.coin(0.7))
                        n += cat("e", r.pick({"", "+", "-"}), r.pick({1, 22, 100, 300, 308, 309, 320, 340, 700, 9999, 2147483647}));
                    s.replace(p, q - p, n);
                    break;
                }
                s.replace(p, q - p, r.pick({"0", "-1", "1e400", "-1e400", "1e300", "0.5", "99999999999999999999", "2147483648", "-2147483649", "4294967296", "NaN", "nan", "1e-400", "00012", "+3", "0x10",
                                            "true", "\"1\"", "null", "[]", "{}", "[1,2,3]", "[[1],[2,3]]", "", "3", "1e", "-", "1.2.3"}));
                break;
            }
            case 8: { // exchange two words
                const size_t b = r.below(s.size() + 1), l2 = std::min<size_t>(r.range(1, 12), s.size() - b);
                const string x = s.substr(at, len), y = s.substr(b, l2);
                s.replace(at, len, y);
                if (b + l2 <= s.size())
                    s.replace(b, l2, x);
                break;
            }
            default: // the line or member around, removed or doubled
            {
                size_t p = s.rfind(',', at), q = s.find(',', at);
                if (p != string::npos && q != string::npos && p < q) {
                    if (r.coin())
                        s.erase(p, q - p);
                    else
                        s.insert(p, s.substr(p, q - p));
                }
            }
            }
            if (s.size() > 300000)
                s.resize(300000);
        }
        return s;
    }
    const vector<string> JSON_WORDS = {"{", "}", "[", "]", "\"", ":", ",", "null", "true", "false", "\\", "\\u12", "\\ud800", "{}", "[]", "[[]]", "\"\"", "~type", "\"~type\": \"Box\"", "\"~type\": \"Bag\"", "~tag",
                                       "\"name\": ", "\"~tag\": \"$1\"", "\"$1\"", "\"$2\"", "Bag", "Box", "VhEvery", "Report_v1", "Interp1Linear_v1", "Cubic1", "DiscountPWLF_v1", "Fixings", "PiecewiseConstant_v1", "BSModelData_v1", "DupireModelData_v1",
                                       "ScriptProductData_v1", "PseudoRSG_v1", "Interp2Linear_v1", "UnderdeterminedControls", "contents", "keys", "cols", "rows", "\"rows\": 2", "\"cols\": -1", "vals", "2020-01-01", "2020-01-01 10:00:00", "1", "-1", "0", "1.5", "// c\n", "/*", "\xef\xbb\xbf"};

    void json(Rng& r, const Scratch& dir) {
        Gen g(r, true, false);
        const int kind = r.below(Gen::KINDS);
        const bool sized = kind == 11 || kind == 12;
        const H o = g.make(kind, sized ? 0 : r.range(0, 2));
        string t = std_(JSON::WriteString(*o));
        if (t.size() > 60000)
            t.resize(60000);
        const string m = mutate(r, t, JSON_WORDS, !sized);
        if (greedy(m))
            return;
        desc(cat("json of a ", std_(o->Type()), " ", esc(m.substr(0, 8000))));
        H h;
        if (r.coin(0.85))
            answers("json", [&] { h = JSON::ReadString(dal_(m), r.coin()); });
        else {
            std::ofstream(std_(dir.file("m.json")), std::ios::binary) << m;
            answers("json-file", [&] { h = JSON::ReadFile(dir.file("m.json"), r.coin()); });
        }
        use(h, r);
        observed(m, m != t);
        sample(esc(m.substr(0, 200)));
    }
    // the brace that closes the one at this place
    size_t closing(const string& t, size_t b) {
        int level = 0;
        bool quoted = false;
        for (; b < t.size(); ++b) {
            if (t[b] == '\\') {
                ++b;
                continue;
            }
            if (t[b] == '"')
                quoted = !quoted;
            if (!quoted && t[b] == '{')
                ++level;
            if (!quoted && t[b] == '}' && --level == 0)
                break;
        }
        return b;
    }
    // objects within objects, far deeper than anything written; objects where another kind is expected
    void jsonDeep(Rng& r) {
        Gen g(r, true, false);
        const H leaf = g.make(r.coin() ? 0 : r.below(Gen::KINDS), 0);
        string inner = std_(JSON::WriteString(*leaf));
        if (r.coin()) { // in place of a part of another object
            const H o = g.make(r.below(Gen::KINDS), 2);
            string t = std_(JSON::WriteString(*o));
            vector<size_t> at;
            for (size_t k = 1; k < t.size() && t.size() < 200000; ++k)
                if (t[k] == '{' && t[k - 1] != '"')
                    at.push_back(k);
            if (at.empty())
                return;
            const size_t a = r.pick(at);
            const size_t b = closing(t, a);
            if (b >= t.size())
                return;
            t.replace(a, b + 1 - a, inner);
            if (greedy(t))
                return;
            desc(cat("a ", std_(leaf->Type()), " within a ", std_(o->Type()), " ", esc(t.substr(0, 8000))));
            H h;
            if (answers("json-other-kind", [&] { h = JSON::ReadString(dal_(t), false); }))
                count("other-kinds-accepted");
            else
                count("other-kinds-refused");
            use(h, r);
            observed(t);
            return;
        }
        std::multimap<String_, H> m;
        m.insert(std::make_pair(String_("k"), H(new Dal::Box_("LEAF", Dal::Matrix_<Cell_>(1, 1)))));
        const Dal::Bag_ bag("bag", m);
        const string one = std_(JSON::WriteString(bag));
        const size_t name = one.find("LEAF"), a = one.rfind('{', name), b = closing(one, a);
        if (!check(name != string::npos && a != string::npos && b < one.size(), "bag-format", esc(one)))
            return;
        const string head = one.substr(0, a), tail = one.substr(b + 1);
        const int n = r.pick({3, 50, 900, 3000, 20000, 60000});
        string t;
        for (int i = 0; i < n; ++i)
            t += head;
        t += inner;
        if (r.coin(0.8))
            for (int i = 0; i < n; ++i)
                t += tail;
        desc(cat(n, " bags within each other around a ", std_(leaf->Type())));
        H h;
        const bool ok = answers("json-deep", [&] { h = JSON::ReadString(dal_(t), false); });
        count(ok ? "deep-accepted" : "deep-refused");
        observed(cat(n, r.next()));
    }
    void jsonPrefixes(Rng& r) {
        Gen g(r, true, false);
        const H o = g.make(r.below(Gen::KINDS), 1);
        string t = std_(JSON::WriteString(*o));
        t.resize(t.rfind('}') + 1);
        const size_t n = t.size();
        for (size_t k = 0; k < n; k += n < 400 ? 1 : r.range(1, static_cast<int>(n / 200))) {
            desc(cat("first ", k, " of ", esc(t.substr(0, 4000))));
            H h;
            const bool ok = answers("json-prefix", [&] { h = JSON::ReadString(dal_(t.substr(0, k)), false); });
            check(!ok, "truncated-accepted", cat("the first ", k, " of ", n, " characters were taken for an object"));
        }
        observed(t);
    }
    void jsonSoup(Rng& r) {
        string s;
        switch (r.range(0, 3)) {
        case 0: s = randomBytes(r, 200); break;
        case 1: s = longText(r); break;
        case 2:
            for (int n = r.range(1, 40); n > 0; --n)
                s += r.pick(JSON_WORDS);
            break;
        default: { // well-formed, of any shape
            std::function<string(int)> val = [&](int d) -> string {
                switch (r.range(d > 4 ? 2 : 0, 7)) {
                case 0: {
                    string o = "{";
                    for (int n = r.range(0, 5); n > 0; --n)
                        o += (o.size() > 1 ? "," : "") + string("\"") + r.pick({"~type", "~tag", "name", "contents", "contents0", "keys", "vals", "cols", "rows", "x", "f", "f_left", "f_right", "knots", "base", "spot", "vol", "rate", "i", "d", "b", "vd", "vi", "md", "mc", "kids", "kids0", "kids1", "curve", "dict", "fixings", "fixing_times"}) + "\":" + val(d + 1);
                    return o + "}";
                }
                case 1: {
                    string o = "[";
                    for (int n = r.range(0, 5); n > 0; --n)
                        o += (o.size() > 1 ? "," : "") + val(d + 1);
                    return o + "]";
                }
                case 2: return r.pick({"1", "0", "-3", "2.5", "1e10", "-1e-5", "2147483647", "4294967295", "1e308"});
                case 3: return r.pick({"true", "false", "null"});
                case 4: return "\"" + r.pick({string("Box"), string("Bag"), string("VhEvery"), string("Interp1Linear_v1"), string("Fixings"), string("DiscountPWLF_v1"), string("PiecewiseConstant_v1"), string("Cubic1"), string("Interp2Linear_v1"), string("Report_v1"), string("BSModelData_v1"), string("DupireModelData_v1"), string("ScriptProductData_v1")}) + "\"";
                case 5: return "\"" + r.pick({string("$1"), string("$2"), string("2020-01-01"), string("2020-02-30"), string("2020-01-01 10:00:00"), string(""), string("x")}) + "\"";
                case 6: return "[[1,2],[3]]";
                default: return "\"text\"";
                }
            };
            s = val(0);
            if (r.coin(0.8))
                s = "{\"~type\":\"" + r.pick({string("Box"), string("Bag"), string("VhEvery"), string("Interp1Linear_v1"), string("Fixings"), string("DiscountPWLF_v1"), string("PiecewiseConstant_v1"), string("Cubic1"), string("Interp2Linear_v1"), string("Report_v1"), string("BSModelData_v1"), string("DupireModelData_v1"), string("ScriptProductData_v1"), string("PseudoRSG_v1"), string("UnderdeterminedControls")}) +
                    "\"" + (s[0] == '{' && s.size() > 2 ? "," + s.substr(1) : "}");
        }
        }
        if (greedy(s))
            return;
        desc("json soup " + esc(s.substr(0, 8000)));
        H h;
        answers("json-soup", [&] { h = JSON::ReadString(dal_(s), r.coin()); });
        use(h, r);
        observed(s, s.size() > 1);
    }

    Cell_ oddCell(Rng& r) {
        switch (r.range(0, 8)) {
        case 0: return Cell_();
        case 1: return Cell_(r.coin());
        case 2: return Cell_(r.pick({0.0, -1.0, 1.0, 2.0, 0.5, 1e300, -1e300, 4294967296.0, std::nan(""), HUGE_VAL, 3.0}));
        case 3: return Cell_(dal_(r.pick({string("$1"), string("$2"), string("$"), string("~Box"), string("$1~Box"), string("$2~Bag"), string("~"), string("$9~VhEvery"), string("$1~"), string("$~Box")})));
        case 4: return Cell_(dal_(r.pick({string("name"), string("contents"), string("contents0"), string("contents1"), string("keys"), string("x"), string("f"), string("vals"), string("kids"), string("kids0"), string("kids0:x"), string("name:"), string("vd"), string("mc")})));
        case 5: return Cell_(Date_(2020, 1, 1));
        case 6: return Cell_(DateTime_(Date_(2020, 1, 1), 0.5));
        case 7: return Cell_(dal_(randomBytes(r, 12)));
        default: return Cell_(dal_(r.pick({string("Interp1Linear_v1"), string("~Interp1Linear_v1"), string("~Report_v1"), string("~Fixings"), string("~DiscountPWLF_v1"), string("~Cubic1"), string("~PiecewiseConstant_v1"), string("TRUE"), string("1"), string("")})));
        }
    }
    void tables(Rng& r) {
        Matrix_<Cell_> m;
        string what;
        if (r.coin(0.75)) {
            Gen g(r, false, false);
            const int kind = r.below(Gen::KINDS);
            const H o = g.make(kind, kind == 11 || kind == 12 ? 0 : r.range(0, 2));
            m = Splat(*o);
            what = std_(o->Type());
            for (int n = r.pick({1, 1, 1, 2, 5}); n > 0 && !m.Empty(); --n) {
                const int i = r.below(m.Rows()), j = r.below(m.Cols());
                switch (r.range(0, 6)) {
                case 0:
                case 1: m(i, j) = oddCell(r); break;
                case 2: m(i, j) = Cell_(); break;
                case 3: { // another cell's text
                    const Cell_ c = m(r.below(m.Rows()), r.below(m.Cols()));
                    if (!Cell::IsDouble(c))
                        m(i, j) = c;
                    break;
                }
                case 4: { // a row out
                    Matrix_<Cell_> q(m.Rows() - 1, m.Cols());
                    for (int a = 0; a < q.Rows(); ++a)
                        for (int b = 0; b < q.Cols(); ++b)
                            q(a, b) = m(a + (a >= i), b);
                    m = q;
                    break;
                }
                case 5: { // a column out
                    Matrix_<Cell_> q(m.Rows(), m.Cols() - 1);
                    for (int a = 0; a < q.Rows(); ++a)
                        for (int b = 0; b < q.Cols(); ++b)
                            q(a, b) = m(a, b + (b >= j));
                    m = q;
                    break;
                }
                default: { // cut
                    Matrix_<Cell_> q(r.range(0, m.Rows()), r.range(0, m.Cols()));
                    for (int a = 0; a < q.Rows(); ++a)
                        for (int b = 0; b < q.Cols(); ++b)
                            q(a, b) = m(a, b);
                    m = q;
                }
                }
            }
        } else {
            m = Matrix_<Cell_>(r.range(0, 6), r.range(0, 6));
            for (int a = 0; a < m.Rows(); ++a)
                for (int b = 0; b < m.Cols(); ++b)
                    m(a, b) = oddCell(r);
            what = "soup";
        }
        const string acc = Recorder_::M(m);
        desc(cat("table of a ", what, " ", esc(acc.substr(0, 8000))));
        H h;
        answers("table", [&] { h = UnSplat(m, r.coin()); });
        use(h, r);
        observed(acc);
        sample(esc(acc.substr(0, 200)));
    }
    void csv(Rng& r, const Scratch& dir) {
        string s;
        if (r.coin(0.8)) {
            Gen g(r, false, true);
            const int kind = r.below(Gen::KINDS);
            const H o = g.make(kind, kind == 11 || kind == 12 ? 0 : 1);
            SplatFile(dir.file("t.csv"), *o);
            std::ifstream in(std_(dir.file("t.csv")), std::ios::binary);
            s.assign(std::istreambuf_iterator<char>(in), {});
            static const vector<string> W = {",", "\n", "\"", "\"\"", "\r\n", "=", "\"=\"", "$1", "~Box", "name", "contents0", "TRUE", "x", ",,,,", "\n\n", "\"a\nb\""};
            const bool sized = kind == 11 || kind == 12;
            if (sized) { // no new numbers where they are sizes
                for (int n = r.range(1, 3); n > 0; --n)
                    s.insert(r.below(s.size() + 1), r.pick(W));
                if (r.coin(0.3))
                    s.resize(r.below(s.size() + 1));
                // an inserted separator may have merged or moved digits, never grown a number
            } else
                s = mutate(r, s, W, true);
        } else
            s = r.coin(0.7) ? randomBytes(r, 300) : longText(r);
        desc("csv " + esc(s.substr(0, 8000)));
        std::ofstream(std_(dir.file("m.csv")), std::ios::binary) << s;
        H h;
        answers("delimited-file", [&] { h = UnSplatFile(dir.file("m.csv"), r.coin()); });
        use(h, r);
        if (r.coin(0.2)) {
            Vector_<String_> lines;
            answers("lines", [&] { File::Read(dir.file("m.csv"), &lines); });
            answers("json-file", [&] { h = JSON::ReadFile(dir.file("m.csv"), r.coin()); });
        }
        observed(s);
    }

    // ---- texts broken in a known way: these must be refused ------------------------------------------------------------------------------
    struct Member {
        string name, good;
        vector<string> bad; // values of another kind
    };
    const vector<string> NOT_NUMBER = {"\"text\"", "true", "null", "{}", "[1]", "\"2020-01-01\""}, NOT_INT = {"1.5", "\"1\"", "3000000000", "-1e300", "null", "[]"}, NOT_BOOL = {"1", "\"x\"", "null", "[true]"},
                         NOT_TEXT = {"1", "true", "null", "[\"a\"]", "{\"a\":1}"}, NOT_NUMBERS = {"[1,\"a\"]", "[true]", "[null]", "[[1]]", "{\"a\":1}"}, NOT_TEXTS = {"[1]", "[\"a\",null]", "[[\"a\"]]"},
                         NOT_DATES = {"[\"x\"]", "[\"2020-02-30\"]", "[\"2021-13-01\"]", "[true]", "[null]"}, NOT_MATRIX = {"{\"cols\":2,\"vals\":[1,2,3]}", "{\"vals\":[1,2]}", "{\"cols\":2}", "{\"cols\":\"2\",\"vals\":[1,2]}", "{\"cols\":-1,\"vals\":[]}",
                         "{\"cols\":2,\"rows\":3,\"vals\":[1,2]}", "{\"cols\":1,\"vals\":[true]}"};
    struct Form {
        string type;
        vector<Member> must, may;
    };
    vector<Form> forms(Rng& r) {
        auto nums = [&](int n) {
            string s = "[";
            double x = r.range(-5, 5);
            for (int i = 0; i < n; ++i, x += 0.5 + r.unit())
                s += (i ? "," : "") + cat(x);
            return s + "]";
        };
        const int n = r.range(2, 6);
        string dates = "[", ints = "[", words = "[", flags = "[", times = "[";
        for (int i = 0; i < n; ++i) {
            const string c = i ? "," : "";
            dates += c + "\"" + cat(2001 + i, "-0", r.range(1, 9), "-1", r.range(0, 9)) + "\"";
            times += c + "\"" + cat(2001 + i, "-0", r.range(1, 9), "-1", r.range(0, 9), " 0", r.range(0, 9), ":3", r.range(0, 9), ":00") + "\"";
            ints += c + cat(r.range(-1000, 1000));
            flags += c + (r.coin() ? "true" : "false");
            words += c + "\"w" + cat(r.range(0, 99)) + "\"";
        }
        dates += "]", ints += "]", words += "]", flags += "]", times += "]";
        const string matrix = cat("{\"rows\":2,\"cols\":", n, ",\"vals\":", nums(2 * n), "}");
        const Member name{"name", "\"thing\"", NOT_TEXT};
        vector<Form> f;
        f.push_back({"Interp1Linear_v1", {{"x", nums(n), NOT_NUMBERS}, {"f", nums(n), NOT_NUMBERS}}, {name}});
        f.back().must[0].bad.push_back(nums(n + 1));
        f.push_back({"Cubic1", {{"x", nums(n), NOT_NUMBERS}, {"f", nums(n), NOT_NUMBERS}, {"fpp", nums(n), NOT_NUMBERS}}, {name}});
        f.back().must[1].bad.push_back(nums(n + 1));
        f.push_back({"Interp2Linear_v1", {{"x", nums(2), NOT_NUMBERS}, {"y", nums(n), NOT_NUMBERS}, {"f", matrix, NOT_MATRIX}}, {name}});
        f.back().must[1].bad.push_back(nums(n + 1));
        f.push_back({"DiscountPWLF_v1", {{"knotDates", dates, NOT_DATES}, {"leftVals", nums(n), NOT_NUMBERS}, {"rightVals", nums(n), NOT_NUMBERS}}, {name}});
        f.back().must[2].bad.push_back(nums(n + 1));
        f.push_back({"PiecewiseConstant_v1", {{"knotDates", dates, NOT_DATES}, {"fRight", nums(n), NOT_NUMBERS}}, {}});
        f.back().must[1].bad.push_back(nums(n - 1));
        f.push_back({"BSModelData_v1", {{"spot", cat(r.uniform(1, 9)), NOT_NUMBER}, {"vol", "0.5", NOT_NUMBER}, {"rate", "0.25", NOT_NUMBER}, {"div", "0", NOT_NUMBER}}, {name}});
        f.push_back({"Fixings", {{"fixings", nums(n), NOT_NUMBERS}, {"fixing_times", times, NOT_DATES}}, {name}});
        f.push_back({"PseudoRSG_v1", {{"name", "\"MRG32\"", NOT_TEXT}, {"seed", "7", NOT_NUMBER}, {"n_dim", "3", NOT_NUMBER}, {"precise", "true", NOT_BOOL}}, {}});
        f.push_back({"VhEvery", {{"d", "1.5", NOT_NUMBER}, {"i", "7", NOT_INT}, {"b", "false", NOT_BOOL}, {"s", "\"s\"", NOT_TEXT}, {"dt", "\"2020-02-29\"", {"\"2021-02-29\"", "\"x\"", "true", "null"}},
                                 {"dict", "\"A=1\"", {"\"A\"", "1"}}, {"vd", nums(n), NOT_NUMBERS}, {"vi", ints, {"[1.5]", "[3000000000]", "[\"1\"]", "[null]"}}, {"vb", flags, {"[1]", "[\"x\"]", "[null]"}}, {"vs", words, NOT_TEXTS},
                                 {"vdt", dates, NOT_DATES}, {"vt", times, NOT_DATES}, {"vc", "[1,true,\"x\",null]", {"[[1]]", "[{}]"}}, {"md", matrix, NOT_MATRIX}, {"ms", "{\"cols\":1,\"vals\":[\"a\",\"b\"]}", {"{\"cols\":1,\"vals\":[1]}", "{\"cols\":1}"}},
                                 {"mc", "{\"cols\":2,\"vals\":[\"a\",1]}", {"{\"cols\":2,\"vals\":[1,2,3]}", "{\"cols\":1,\"vals\":[[]]}"}}}, {name}});
        return f;
    }
    string asText(Rng& r, const string& type, vector<Member> m) {
        r.shuffle(m);
        string s = "{ \"~type\": \"" + type + "\"";
        for (const auto& x : m)
            s += ",\n\"" + x.name + "\": " + x.good;
        return s + "}";
    }
    void broken(Rng& r) {
        const auto all = forms(r);
        const Form f = r.pick(all);
        vector<Member> m = f.must;
        for (const auto& x : f.may)
            if (r.coin())
                m.push_back(x);
        const string good = asText(r, f.type, m);
        desc("well-formed " + esc(good));
        H h;
        check(answers("well-formed", [&] { h = JSON::ReadString(dal_(good), false); }) && h, "well-formed-refused", "the text before it was broken");
        string bad, how;
        Matrix_<Cell_> table;
        switch (r.range(0, 6)) {
        case 0: {
            const size_t k = r.below(f.must.size());
            m.erase(m.begin() + k);
            how = "without " + f.must[k].name;
            bad = asText(r, f.type, m);
            break;
        }
        case 1:
        case 2: {
            auto& x = m[r.below(m.size())];
            how = x.name + " of another kind: ";
            x.good = r.pick(x.bad);
            how += x.good;
            bad = asText(r, f.type, m);
            break;
        }
        case 3:
            how = "another type";
            bad = asText(r, r.pick({f.type + "x", string(""), f.type.substr(1), string("Storable"), string("~") + f.type}), m);
            break;
        case 4: {
            vector<size_t> at;
            bool in = false;
            for (size_t i = 0; i < good.size(); ++i) {
                if (good[i] == '"') {
                    in = !in;
                    at.push_back(i);
                } else if (!in && strchr("{}[]:", good[i]))
                    at.push_back(i);
            }
            const size_t k = r.pick(at);
            how = cat("character ", k, " removed");
            bad = good;
            bad.erase(k, 1);
            break;
        }
        case 5:
            how = "something after the end";
            bad = good + r.pick({"x", "{}", ",", "}", "]", "1", "\"\"", ":"});
            break;
        default: { // the same as a table
            table = Splat(*h);
            vector<std::pair<int, string>> at;
            for (int i = 0; i < table.Rows(); ++i)
                if (table.Cols() > 1 && Cell::IsString(table(i, 1)))
                    for (const auto& x : f.must)
                        if (std_(Cell::ToString(table(i, 1))) == x.name)
                            at.push_back({i, x.name});
            check(at.size() >= f.must.size(), "table-lost-members", cat(at.size(), " of ", f.must.size(), " members in the table"));
            if (at.empty() || r.coin(0.2)) {
                how = "table of another type";
                table(0, 0) = Cell_(dal_("~" + f.type + "x"));
            } else if (r.coin(0.6)) { // a cell of another kind, or one too many or too few
                const auto x = r.pick(at);
                const auto& mem = *std::find_if(f.must.begin(), f.must.end(), [&](const Member& q) { return q.name == x.second; });
                const string& v = mem.good;
                const bool list = v[0] == '[';
                const char c = list ? v[1] : v[0];
                int last = 2;
                while (last + 1 < table.Cols() && !Cell::IsEmpty(table(x.first, last + 1)))
                    ++last;
                const Cell_ text(String_("abc")), flag(true), number(2.5), large(3e9), day(Date_(2020, 1, 1));
                vector<Cell_> other;
                if (x.second == "vc" || x.second == "mc" || x.second == "dict")
                    ;
                else if (x.second == "i" || x.second == "vi")
                    other = {text, flag, number, large, Cell_(-2147483649.0), Cell_(0.5), Cell_(1e-9), Cell_(std::nan("")), day};
                else if (x.second == "ms")
                    other = {flag, number, day};
                else if (x.second == "md" || isdigit(static_cast<unsigned char>(c)) || c == '-' || c == '{')
                    other = {text, flag, day};
                else if (c == 't' || c == 'f')
                    other = {text, number, day};
                else if (mem.bad == NOT_TEXT || mem.bad == NOT_TEXTS)
                    other = {flag, number, day};
                else
                    other = {text, flag, number};
                const bool sized = f.type == "Interp1Linear_v1" || f.type == "Cubic1" || f.type == "DiscountPWLF_v1" || f.type == "PiecewiseConstant_v1";
                const int k = r.range(0, 4);
                if (k == 0 && sized && list) {
                    how = "table with one value less of " + x.second;
                    table(x.first, last) = Cell_();
                } else if (k == 1 && !list && c != '{' && x.second != "dict" && table.Cols() > 3) {
                    how = "table with two values of " + x.second;
                    table(x.first, 3) = table(x.first, 2);
                } else if (!other.empty()) {
                    const int j = r.range(2, last);
                    table(x.first, j) = r.pick(other);
                    how = cat("table with another kind at ", j, " of ", x.second);
                } else {
                    how = "table without " + x.second;
                    table(x.first, 1) = Cell_(dal_("zz"));
                }
                count("broken-table:" + string(how.find("another kind") != string::npos ? "kind" : how.find("one value") != string::npos ? "short" : how.find("two") != string::npos ? "two" : "without"));
            } else {
                const auto x = r.pick(at);
                how = "table without " + x.second;
                table(x.first, 1) = Cell_(dal_("zz"));
            }
            desc(how + " " + Recorder_::M(table));
            H b;
            const bool ok = answers("broken-table", [&] { b = UnSplat(table, true); });
            check(!ok, "broken-accepted", cat(f.type, ": ", how));
            observed(how + good);
            return;
        }
        }
        desc(cat(how, ": ", esc(bad)));
        H b;
        const bool ok = answers("broken", [&] { b = JSON::ReadString(dal_(bad), false); });
        check(!ok, "broken-accepted", cat(f.type, ": ", how));
        observed(bad);
        sample(how);
    }
    void brokenTexts(Rng& r) {
        string who, s;
        std::function<void(const String_&)> f;
        const char junk = r.pick({'x', '#', '!', '?', '%'});
        switch (r.range(0, 8)) {
        case 0:
            who = "number", s = r.pick({cat(r.range(-999, 999), junk), cat(junk, r.range(0, 9)), cat(r.range(0, 9), ".", r.range(0, 9), ".", r.range(0, 9)), string("1e"), cat(r.range(0, 9), " ", r.range(0, 9))});
            f = [](const String_& t) { sink = String::ToDouble(t); };
            break;
        case 1:
            who = "integer", s = r.pick({cat(r.range(-999, 999), junk), cat(r.range(0, 9), ".5"), cat(r.range(3, 9), "000000000"), cat("-", r.range(3, 9), "000000000"), string("99999999999999999999"), cat(r.range(0, 9), " ", r.range(0, 9))});
            f = [](const String_& t) { sink = String::ToInt(t); };
            break;
        case 2:
            who = "date", s = r.pick({cat(r.range(1980, 2060), "-", r.range(13, 99), "-01"), cat(2001 + 4 * r.range(0, 10), "-02-29"), cat(r.range(1980, 2060), "-0", r.pick({4, 6, 9}), "-31"), cat(r.range(1980, 2060), "-01-", r.range(32, 99)), cat(r.range(1980, 2060), "-01"), cat(junk), string()});
            f = [](const String_& t) { (void)Date::FromString(t); };
            break;
        case 3:
            who = "increment", s = r.pick({cat(r.range(1, 9), r.pick({'Q', 'Z', 'X', '?'})), cat(r.range(1, 9)), string("M"), cat(r.range(1, 9), "BD;NO.SUCH"), string("IMMX"), cat(junk)});
            f = [](const String_& t) { (void)Date::ParseIncrement(t); };
            break;
        case 4:
            who = "calendar", s = r.pick({string("NO.SUCH"), cat("CN.SSE", junk), string("CN.SSE NO.SUCH"), string("CN")});
            f = [](const String_& t) { Holidays_ h(t); (void)h.String(); };
            break;
        case 5:
            who = "enumeration", s = r.pick({cat("CALL", junk), string("NEITHER"), cat(junk), cat("ACT_", r.range(100, 200))});
            f = [&r](const String_& t) {
                switch (r.range(0, 4)) {
                case 0: (void)OptionType_(t).String(); break;
                case 1: (void)PeriodLength_(t).String(); break;
                case 2: (void)DayBasis_(t).String(); break;
                case 3: (void)BizDayConvention_(t).String(); break;
                default: (void)RepositoryErase_(t).String();
                }
            };
            break;
        case 6:
            who = "currency", s = r.pick({string("XQZ"), cat("USD", junk), string("U")});
            f = [](const String_& t) { (void)Ccy_(t); };
            break;
        case 7:
            who = "index", s = r.pick({string("EQ[IBM"), string("EQ"), string("EQ]"), string("ZZ[IBM]"), string("FX[USD]"), string("FX[USD/XQZ]"), cat(junk, "EQ[IBM]")});
            f = [](const String_& t) { std::unique_ptr<Index_> i(Index::Parse(t)); REQUIRE(i, "nothing"); };
            break;
        default:
            who = "format", s = r.pick({cat(r.range(5, 99)), string("(1"), string("1)"), string("1,;("), cat("1,", r.range(10, 99)), cat("1,", junk)});
            f = [](const String_& t) {
                static Matrix_<Cell_> a(2, 3);
                Vector_<const Matrix_<Cell_>*> p(4, &a);
                (void)Matrix::Format(p, t);
            };
        }
        desc(cat(who, " of '", esc(s), "'"));
        const bool ok = answers("broken-text", [&] { f(dal_(s)); });
        check(!ok, "broken-accepted", cat(who, " '", esc(s), "'"));
        observed(who + s);
    }

    struct Reader {
        const char* name;
        vector<string> good;
        std::function<void(const String_&)> f;
    };
    vector<Reader> readers() {
        vector<Reader> v;
        v.push_back({"date", {"2020-01-31", "20200131", "2020/1/31", "31-Jan-2020", "31JAN2020", "1/31/2020", "Jan 31 2020", "2020-02-29"}, [](const String_& s) { (void)Date::ToString(Date::FromString(s)); }});
        v.push_back({"is-date", {"2020-01-31", "20200131", "2020/1/31"}, [](const String_& s) { (void)Date::IsDateString(s); }});
        v.push_back({"date-time", {"2020-01-31 10:20:30", "2020-01-31 10:20", "20200131 23:59:59", "2020-01-31 0"}, [](const String_& s) { (void)DateTime::ToString(DateTime::FromString(s)); }});
        v.push_back({"is-date-time", {"2020-01-31 10:20:30"}, [](const String_& s) { (void)DateTime::IsDateTimeString(s); }});
        v.push_back({"increment", {"3M", "1Y;CN.SSE", "2BD;CN.SSE", "IMM", "CDS;CN.IB", "EOM", "3M&IMM", "1W", "10CD", "1M;CN.SSE CN.IB", "-5BD;CN.SSE"},
                     [](const String_& s) {
                         auto i = Date::ParseIncrement(s);
                         if (i) {
                             (void)i->FwdFrom(Date_(2020, 1, 31));
                             (void)(Date_(2020, 1, 31) - *i);
                         }
                     }});
        v.push_back({"period-text", {"3M", "1Y", "2W", "10D"}, [](const String_& s) { PeriodLength_ p(s); (void)p.Months(); }});
        v.push_back({"calendar", {"CN.SSE", "CN.IB", "CN.SSE CN.IB", ""}, [](const String_& s) { Holidays_ h(s); (void)Holidays::NextBus(h, Date_(2020, 1, 1)); (void)h.String(); }});
        v.push_back({"number", {"1.5", "-1e10", "3", "1e-5", ".5", "+2", "1.", "NaN", "inf"}, [](const String_& s) { (void)String::IsNumber(s); sink = String::ToDouble(s); }});
        v.push_back({"integer", {"15", "-3", "2147483647", "+4", "-2147483648"}, [](const String_& s) { sink = String::ToInt(s); }});
        v.push_back({"cell", {"2020-01-01", "TRUE", "1.5", "text", "2020-01-01 10:00:00", "", "false"}, [](const String_& s) { const Cell_ c = Cell::ConvertString(s); (void)Cell::CoerceToString(c); }});
        v.push_back({"cell-number", {"1", "1.5", "x"}, [](const String_& s) { const Cell_ c(s); (void)Cell::IsInt(c); sink = Cell::ToDouble(c); }});
        v.push_back({"cell-integer", {"1", "2", "x"}, [](const String_& s) { const Cell_ c(s); sink = Cell::ToInt(c); }});
        v.push_back({"cell-date", {"2020-01-01", "x"}, [](const String_& s) { const Cell_ c(s); (void)Cell::ToDate(c); }});
        v.push_back({"cell-flag", {"TRUE", "false", "1"}, [](const String_& s) { const Cell_ c(s); (void)Cell::ToBool(c); }});
        v.push_back({"dictionary", {"a=1;b=2", "x=TRUE;y=2020-01-01", "k=v", "a=1;", ""}, [](const String_& s) { (void)Dictionary::ToString(Dictionary::FromString(s)); }});
        v.push_back({"index", {"EQ[IBM]", "EQ[IBM]@2020-01-01", "EQ[IBM]>3M", "FX[USD/EUR]"},
                     [](const String_& s) {
                         std::unique_ptr<Index_> i(Index::Parse(s));
                         if (i)
                             (void)i->Name();
                     }});
        v.push_back({"currency", {"USD", "eur"}, [](const String_& s) { (void)Ccy_(s).String(); }});
        v.push_back({"enumeration", {"CALL", "P", "STRADDLE", "C+P", "ANNUAL", "3M", "ACT_365F", "BOND", "NONE", "NAME", "Following", "Backward", "OIS", "CME", "LIBOR_3M_CME"},
                     [](const String_& s) {
                         int refused = 0;
                         auto one = [&](auto f) {
                             try {
                                 f();
                             } catch (const std::exception&) {
                                 ++refused;
                             }
                         };
                         one([&] { (void)OptionType_(s).String(); });
                         one([&] { (void)PeriodLength_(s).String(); });
                         one([&] { (void)DayBasis_(s).String(); });
                         one([&] { (void)RepositoryErase_(s).String(); });
                         one([&] { (void)BizDayConvention_(s).String(); });
                         one([&] { (void)DateGeneration_(s).String(); });
                         one([&] { (void)CollateralType_(s).String(); });
                         one([&] { (void)Clearer_(s).String(); });
                         one([&] { (void)TradedRate_(s).String(); });
                         REQUIRE(refused < 9, "not an alternative of any enumeration");
                     }});
        v.push_back({"split", {"a,b,c", ",", ",,a"}, [](const String_& s) { (void)String::Split(s, ',', true); (void)String::Split(s, ',', false); (void)String::Condensed(s); (void)String::Equivalent(s, "abc"); }});
        v.push_back({"next-name", {"a", "a1", "name9"}, [](const String_& s) { (void)String::NextName(s); }});
        v.push_back({"format", {"1", "1,2", "1;2", "(1,2);3", "1t", "1*", "(1;2)t", "1.2", "1:2", "12", "i1", "1i", "()", "1,,2"},
                     [](const String_& s) {
                         static Matrix_<Cell_> a(2, 3), b(1, 1), c(3, 2), e(0, 0);
                         a.Fill(Cell_(1.0)), b.Fill(Cell_(2.0)), c.Fill(Cell_(String_("x")));
                         Vector_<const Matrix_<Cell_>*> p;
                         p.push_back(&a), p.push_back(&b), p.push_back(&c), p.push_back(&e);
                         (void)Matrix::Format(p, s);
                     }});
        return v;
    }
    const vector<string> TEXT_WORDS = {"", " ", "0", "-", "/", ":", ";", ",", ".", "=", "(", ")", "[", "]", "@", ">", "&", "+", "*", "t", "i", "M", "Y", "BD", "CD", "IMM", "CN.SSE", "2020", "13", "99999", "-1", "00", "e", "e400", "TRUE", "\t", "\n",
                                       "\xff", "\xc3\xa9", "\x80", string(1, '\0'), "2147483648", "99999999999999999999", "1e5", "NaN", "inf", "0x1p3"};
} // namespace
static void body() {
    RegisterAll_::Init(1);
    Scratch dir;
    section("json", N(12000, 200000), [&](Rng& r) { json(r, dir); });
    section("json-deep", N(800, 16000), [&](Rng& r) { jsonDeep(r); });
    section("json-prefix", N(60, 1000), [&](Rng& r) { jsonPrefixes(r); });
    section("json-soup", N(6000, 100000), [&](Rng& r) { jsonSoup(r); });
    section("tables", N(12000, 200000), [&](Rng& r) { tables(r); });
    section("broken", N(12000, 200000), [&](Rng& r) { broken(r); });
    section("broken-texts", N(3000, 40000), [&](Rng& r) { brokenTexts(r); });
    section("delimited", N(6000, 100000), [&](Rng& r) { csv(r, dir); });
    const auto all = readers();
    section("texts", N(30000, 600000), [&](Rng& r) {
        const Reader& x = all[r.below(all.size())];
        string s;
        switch (r.range(0, 9)) {
        case 0: s = randomBytes(r, 40); break;
        case 1: s = r.coin(0.15) ? longText(r) : r.coin(0.2) ? nested(r, r.pick(x.good)) : randomBytes(r, 10); break;
        case 2: s = r.pick(all[r.below(all.size())].good); break;
        case 3: {
            for (int n = r.range(1, 6); n > 0; --n)
                s += r.pick(TEXT_WORDS);
            break;
        }
        default: s = mutate(r, r.pick(x.good), TEXT_WORDS, true);
        }
        desc(cat(x.name, " of '", esc(s.substr(0, 4000)), "'"));
        answers(x.name, [&] { x.f(dal_(s)); });
        count("texts");
        observed(x.name + s);
        sample(cat(x.name, " ", esc(s.substr(0, 60))));
    });
}
VH_MAIN(body)
