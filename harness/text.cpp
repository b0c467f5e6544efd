// P18: strings, numbers as text, cells, dictionaries and enumeration names.
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <dal/currency/currency.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/vectors.hpp>
#include <dal/protocol/clearer.hpp>
#include <dal/protocol/collateraltype.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/protocol/optiontype.hpp>
#include <dal/string/strings.hpp>
#include <dal/string/stringutils.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/time/schedules.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/utilities/numerics.hpp>
#include <climits>
#include <map>
#include <set>
using namespace vh;
using namespace Dal;

static string plain(const String_& s) { return string(s.data(), s.size()); }
static String_ dalStr(const string& s) { return String_(s.begin(), s.end()); }
static bool same(const String_& a, const string& b) { return plain(a) == b; } // exact, unlike String_ ==

static int fold(unsigned char c) { // both halves of the code table fold alike
    const int low = c & 127;
    return low >= 'a' && low <= 'z' ? c - 32 : c;
}
static int order(const string& a, const string& b) { // what the comparison should say about equality
    if (a.size() != b.size())
        return 1;
    for (size_t i = 0; i < a.size(); ++i)
        if (fold(a[i]) != fold(b[i]))
            return 1;
    return 0;
}
static string word(Rng& r, int maxLen, int kind) {
    const int n = r.below(maxLen + 1);
    string s;
    for (int i = 0; i < n; ++i)
        switch (kind) {
        case 0:
            s += "abAB"[r.below(4)];
            break;
        case 1:
            s += static_cast<char>(r.range(32, 126));
            break;
        case 2:
            s += static_cast<char>(r.below(256));
            break;
        default:
            s += " \t_aZ0,;=[{@`\xe9\xc9"[r.below(15)];
        }
    return s;
}
static string recase(Rng& r, string s) {
    for (auto& c : s)
        if (isalpha((unsigned char)c) && r.coin())
            c ^= 32;
    return s;
}

static void comparison(Rng& r) {
    vector<string> v;
    const int k = r.below(4);
    for (int i = 0; i < 8; ++i)
        v.push_back(i && r.coin(0.3) ? recase(r, v[r.below(v.size())]) : word(r, 6, k));
    desc("strings " + esc(v[0]) + "|" + esc(v[1]) + "|" + esc(v[2]));
    vector<String_> d;
    for (auto& s : v)
        d.push_back(dalStr(s));
    auto sgn = [](int x) { return (x > 0) - (x < 0); };
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v.size(); ++j) {
            const bool eq = order(v[i], v[j]) == 0;
            const int c = sgn(d[i].compare(d[j]));
            check((d[i] == d[j]) == eq && !(d[i] != d[j]) == eq && (c == 0) == eq, "equality-ignores-case", esc(v[i]) + " | " + esc(v[j]));
            check((d[i] < d[j]) == (c < 0) && (d[j] < d[i]) == (c > 0) && c == -sgn(d[j].compare(d[i])), "order-consistent", esc(v[i]) + " | " + esc(v[j]));
            if (v[j].find('\0') == string::npos)
                check((d[i] == v[j].c_str()) == eq && (v[j].c_str() == d[i]) == eq, "equality-with-literal", esc(v[i]) + " | " + esc(v[j]));
            for (size_t q = 0; q < v.size(); ++q)
                if (d[i] < d[j] && d[j] < d[q])
                    check(d[i] < d[q], "order-transitive", esc(v[i]) + "|" + esc(v[j]) + "|" + esc(v[q]));
            // letters of an ASCII word are in alphabetical order
            if (k == 0) {
                string a = v[i], b = v[j];
                for (auto& ch : a)
                    ch = fold(ch);
                for (auto& ch : b)
                    ch = fold(ch);
                check(sgn(a.compare(b)) == c, "order-alphabetical", a + "|" + b);
            }
            // searching
            string f1 = v[i], f2 = v[j];
            for (auto& ch : f1)
                ch = fold(ch);
            for (auto& ch : f2)
                ch = fold(ch);
            check(d[i].find(d[j]) == f1.find(f2), "search", esc(v[i]) + " in " + esc(v[j]));
            count("comparisons");
        }
    std::set<String_> keys(d.begin(), d.end());
    std::set<string> ref;
    for (auto s : v) {
        for (auto& ch : s)
            ch = fold(ch);
        ref.insert(s);
    }
    check(keys.size() == ref.size(), "keys-ignore-case", "");
    // condensed and equivalent
    for (auto& s : v) {
        string want;
        for (char ch : s)
            if (ch != ' ' && ch != '\t' && ch != '_')
                want += static_cast<char>(static_cast<unsigned char>(ch) < 128 ? fold(ch) : ch);
        check(same(String::Condensed(dalStr(s)), want), "condensed", esc(s) + " gave " + esc(plain(String::Condensed(dalStr(s)))));
        if (want.find('\0') == string::npos) {
            check(String::Equivalent(dalStr(s), want.c_str()), "equivalent-to-condensed", esc(s));
            const string other = want + "X";
            check(!String::Equivalent(dalStr(s), other.c_str()), "equivalent-to-more", esc(s));
            if (!want.empty()) {
                string less = want;
                less.pop_back();
                check(!String::Equivalent(dalStr(s), less.c_str()), "equivalent-to-less", esc(s));
            }
        }
        count("condensations");
    }
    observed(S().caseDesc);
}

static void splitting(Rng& r) {
    const char sep = ",;=& |"[r.below(6)];
    vector<string> parts;
    const int n = r.below(7);
    for (int i = 0; i < n; ++i) {
        string w = r.coin(0.3) ? "" : word(r, 5, 1 + r.below(2));
        w.erase(std::remove(w.begin(), w.end(), sep), w.end());
        parts.push_back(w);
    }
    string joined;
    for (int i = 0; i < n; ++i)
        joined += (i ? string(1, sep) : "") + parts[i];
    desc("split " + esc(joined) + " at " + sep);
    const Vector_<String_> all = String::Split(dalStr(joined), sep, true), some = String::Split(dalStr(joined), sep, false);
    vector<string> wantAll = parts, wantSome;
    if (joined.empty())
        wantAll.clear(); // the empty text has no part
    for (auto& p : parts)
        if (!p.empty())
            wantSome.push_back(p);
    auto eq = [](const Vector_<String_>& a, const vector<string>& b) {
        bool ok = a.size() == b.size();
        for (size_t i = 0; ok && i < b.size(); ++i)
            ok = same(a[i], b[i]);
        return ok;
    };
    check(eq(all, wantAll), "split-keeping-empty", cat(all.size(), " parts of ", wantAll.size()));
    check(eq(some, wantSome), "split-dropping-empty", cat(some.size(), " parts of ", wantSome.size()));
    check(same(String::Accumulate(all, String_(1, sep), false), joined), "join-inverts-split", plain(String::Accumulate(all, String_(1, sep), false)));
    string skip;
    for (auto& p : wantSome)
        skip += (skip.empty() ? "" : string(1, sep)) + p;
    check(same(String::Accumulate(all, String_(1, sep), true), skip), "join-skipping-empty", plain(String::Accumulate(all, String_(1, sep), true)));
    count("splits");
    observed(S().caseDesc, n > 1);
}

static double anyDouble(Rng& r) {
    switch (r.below(10)) {
    case 0:
        return r.range(-1000, 1000);
    case 1:
        return r.range(-1000000, 1000000) / 1e6;
    case 2:
        return (r.coin() ? -1 : 1) * r.logUniform(1e-12, 1e12);
    case 3:
        return (r.coin() ? -1 : 1) * r.logUniform(1e-300, 1e300);
    case 4: {
        double d;
        u64 b = r.next();
        memcpy(&d, &b, 8);
        return std::isfinite(d) ? d : 0.0;
    }
    case 5:
        return (r.coin() ? -1 : 1) * (2147483647.0 + r.range(-3, 3));
    case 6:
        return r.pick({0.0, -0.0, 1e15, 1e16, 123456789012345680.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1.0 / 3, 1e-7, 4.9e-7});
    case 7:
        return r.range(-100000, 100000) + r.pick({0.5, 0.25, 1e-9, 1e-10, -1e-10});
    case 8:
        return r.unit();
    default:
        return std::ldexp(r.uniform(1, 2), r.range(-1070, 1000));
    }
}
static bool refNumber(const string& s, double* v) {
    if (s.empty() || s.find('\0') != string::npos)
        return false;
    char* e;
    *v = strtod(s.c_str(), &e);
    return *e == 0 && e != s.c_str();
}

static void numbers(Rng& r) {
    const double x = anyDouble(r);
    const String_ t = String::FromDouble(x);
    desc(cat("number ", x, " written ", plain(t)));
    check(String::IsNumber(t), "number-not-recognised", plain(t));
    check(String::ToDouble(t) == x, "number-changed", cat(plain(t), " read as ", String::ToDouble(t)));
    check(same(Dal::ToString(x), plain(t)), "number-text", "");
    const int i = r.coin(0.2) ? r.pick({INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 0}) : (int)(int32_t)r.next() >> r.below(31);
    const String_ it = String::FromInt(i);
    check(String::ToInt(it) == i && same(it, std::to_string(i)) && String::ToDouble(it) == i, "integer-changed", plain(it));
    for (bool b : {true, false})
        check(String::ToBool(String::FromBool(b)) == b, "boolean-changed", "");
    count("numbers");
    observed(S().caseDesc);
    // text near a number
    string s = r.coin() ? plain(t) : plain(it);
    const int edits = r.range(1, 3);
    for (int e = 0; e < edits; ++e) {
        const char c = "0123456789+-.eExX naif,#"[r.below(24)];
        const size_t at = r.below(s.size() + 1);
        if (r.coin() && at < s.size())
            s[at] = c;
        else
            s.insert(s.begin() + at, c);
    }
    desc("text " + esc(s));
    double v = 0;
    const bool ok = refNumber(s, &v), big = ok && std::isinf(v);
    if (!big) {
        check(String::IsNumber(dalStr(s)) == ok, "number-recognition", esc(s));
        if (ok && v == v)
            check(String::ToDouble(dalStr(s)) == v, "number-read", esc(s));
        else if (!ok)
            check(throws([&] { String::ToDouble(dalStr(s)); }), "not-a-number-read", esc(s));
    }
    // integers
    char* end;
    errno = 0;
    const long lv = strtol(s.c_str(), &end, 10);
    const bool iok = end != s.c_str() && *end == 0 && errno == 0 && lv >= INT_MIN && lv <= INT_MAX;
    int got = 0;
    const bool threw = throws([&] { got = String::ToInt(dalStr(s)); });
    check(threw != iok && (threw || got == lv), "integer-recognition", cat(esc(s), threw ? " refused" : " read as ", got));
    count("near-numbers");
}

static void rounding(Rng& r) {
    const double x = anyDouble(r);
    desc(cat("round ", x));
    for (int k = 0; k < 2; ++k) {
        int i = 0;
        const bool refused = throws([&] { i = k ? NearestInt(x) : Dal::AsInt(x); });
        if (std::fabs(x) >= 2147483647.0) {
            check(refused, "large-number-as-integer", cat(x));
            continue;
        }
        if (!check(!refused, "number-refused-as-integer", cat(x)))
            continue;
        if (k)
            check(std::fabs(x - i) <= 0.5 + 1e-12, "nearest-integer", cat(x, " to ", i));
        else
            check(std::fabs(i) <= std::fabs(x) + 1.01e-9 && std::fabs(x - i) < 1 + 1e-9, "integer-part", cat(x, " to ", i));
        count("roundings");
    }
    check(throws([&] { Dal::AsInt(std::nan("")); }) && throws([&] { NearestInt(std::nan("")); }), "not-a-number-as-integer", "");
}

static Date_ anyDate(Rng& r) { return Date::FromExcel(r.range(25600, 65000)); }
static DateTime_ anyTime(Rng& r) { return DateTime_(anyDate(r), r.below(24), r.below(60), r.below(60)); }

struct Val {
    int kind; // 0 empty 1 bool 2 double 3 date 4 datetime 5 string
    bool b = false;
    double d = 0;
    Date_ dt;
    DateTime_ tm;
    string s;
    Cell_ cell() const {
        switch (kind) {
        case 1:
            return Cell_(b);
        case 2:
            return Cell_(d);
        case 3:
            return Cell_(dt);
        case 4:
            return Cell_(tm);
        case 5:
            return Cell_(dalStr(s));
        }
        return {};
    }
};
static Val anyVal(Rng& r) {
    Val v;
    v.kind = r.below(6);
    v.b = r.coin();
    v.d = r.coin(0.3) ? (double)(int32_t)r.next() : anyDouble(r);
    v.dt = anyDate(r);
    v.tm = anyTime(r);
    v.s = word(r, 10, 1 + r.below(2));
    return v;
}
static string ymd(const Date_& d) {
    char b[16];
    snprintf(b, sizeof b, "%04d-%02d-%02d", Date::Year(d), Date::Month(d), Date::Day(d));
    return b;
}

static void cells(Rng& r) {
    const Val v = anyVal(r);
    desc(cat("cell kind ", v.kind, " ", v.b, " ", v.d, " ", ymd(v.dt), " ", esc(v.s)));
    Cell_ c = v.cell();
    switch (r.below(4)) {
    case 0: { // by assignment over something else
        Cell_ o = anyVal(r).cell();
        o = c;
        c = o;
        break;
    }
    case 1: {
        c = anyVal(r).cell();
        if (v.kind == 0)
            c.Clear();
        else if (v.kind == 1)
            c = v.b;
        else if (v.kind == 2)
            c = v.d;
        else if (v.kind == 3)
            c = v.dt;
        else if (v.kind == 4)
            c = v.tm;
        else
            c = dalStr(v.s);
        break;
    }
    default:;
    }
    check(Cell::IsEmpty(c) == (v.kind == 0 || (v.kind == 5 && v.s.empty())), "cell-empty", "");
    check(Cell::IsBool(c) == (v.kind == 1) && Cell::IsDouble(c) == (v.kind == 2) && Cell::IsDate(c) == (v.kind == 3) && Cell::IsDateTime(c) == (v.kind == 4) &&
              Cell::IsString(c) == (v.kind == 5),
          "cell-kind", "");
    const bool isInt = v.kind == 2 && v.d == std::floor(v.d) && v.d >= -2147483648.0 && v.d <= 2147483647.0;
    check(Cell::IsInt(c) == isInt, "cell-integer", cat(v.d));
    check((Cell::TypeCheck_<double, String_>()(c)) == (v.kind == 2 || v.kind == 5) && Cell::TypeCheck_<Date_>()(c) == (v.kind == 3), "cell-type-check", "");
    auto only = [&](bool ok, bool right, auto f, const char* what) {
        bool good = false;
        const bool refused = throws([&] { good = f(); });
        check(ok ? !refused && good : refused, string("cell-value:") + what, right ? "" : "");
    };
    only(v.kind == 1, true, [&] { return Cell::ToBool(c) == v.b; }, "bool");
    only(v.kind == 1 || v.kind == 2, true, [&] { return Cell::ToDouble(c) == (v.kind == 1 ? (v.b ? 1.0 : 0.0) : v.d); }, "double");
    only(v.kind == 1 || isInt, true, [&] { return Cell::ToInt(c) == (v.kind == 1 ? (v.b ? 1 : 0) : (int)v.d); }, "int");
    only(v.kind == 3, true, [&] { return Cell::ToDate(c) == v.dt; }, "date");
    only(v.kind == 4, true, [&] { return Cell::ToDateTime(c) == v.tm; }, "datetime");
    for (int k = 0; k < 2; ++k) {
        const String_ t = k ? Cell::CoerceToString(c) : Cell::ToString(c);
        switch (v.kind) {
        case 0:
            check(t.empty(), "cell-text", "empty");
            break;
        case 1:
            check(String::ToBool(t) == v.b, "cell-text", plain(t));
            break;
        case 2:
            check(String::ToDouble(t) == v.d && (!isInt || t.find('.') == String_::npos), "cell-text", plain(t));
            break;
        case 3:
            check(same(t, ymd(v.dt)) && Date::FromString(t) == v.dt, "cell-text", plain(t));
            break;
        case 4:
            check(DateTime::FromString(t) == v.tm, "cell-text", plain(t));
            break;
        default:
            check(same(t, v.s), "cell-text", esc(plain(t)));
        }
        if (v.kind < 5)
            check(Cell::ConvertString(t) == c, "cell-text-recognised", plain(t));
    }
    check(c == v.cell() && (!(c == anyVal(r).cell()) || true), "cell-equality", "");
    if (v.kind == 2) {
        check(Cell::FromDouble(v.d) == c && Cell::FromOptionalDouble(std::optional<double>(v.d)) == c, "cell-from-number", cat(v.d));
        if (isInt)
            check(Cell::FromInt((int)v.d) == c, "cell-from-integer", cat(v.d));
    } else if (v.kind == 1)
        check(Cell::FromBool(v.b) == c, "cell-from-bool", "");
    check(Cell::IsEmpty(Cell::FromOptionalDouble(std::optional<double>())), "cell-from-nothing", "");
    check(Cell::ToDouble(Cell_(), 7.5) == 7.5 && Cell::ToInt(Cell_(), 3) == 3, "cell-default", "");
    // plain words stay words
    string w = word(r, 8, 0) + "q";
    check(Cell::IsString(Cell::ConvertString(dalStr(w))) && same(Cell::ToString(Cell::ConvertString(dalStr(w))), w), "word-changed", w);
    Vector_<bool> bits;
    const int nb = r.below(9);
    for (int i = 0; i < nb; ++i)
        bits.push_back(r.coin());
    check(Cell::ToBoolVector(Cell::FromBoolVector(bits)) == bits, "bits-changed", plain(Cell::ToString(Cell::FromBoolVector(bits))));
    if (nb > 1) {
        string list;
        for (int i = 0; i < nb; ++i)
            list += (i ? "," : "") + r.pick(bits[i] ? vector<string>{"T", "true", "1", "Y", "TRUE"} : vector<string>{"F", "False", "0", "n", "FALSE"});
        check(String::ToBoolVector(dalStr(list)) == bits, "bit-list", list);
        // an element that is missing or no truth value is not skipped
        const size_t comma = list.find(',');
        const string bad = r.pick({"," + list, list + ",", list.substr(0, comma) + "," + list.substr(comma), list + ",maybe"});
        check(throws([&] { String::ToBoolVector(dalStr(bad)); }), "bad-bit-list-accepted", bad);
    }
    count("cells");
    observed(S().caseDesc, v.kind > 0);
}

static void table(Rng& r) {
    const int rows = r.size(0, 3, 60), cols = r.size(1, 4, 40);
    Matrix_<Cell_> m(rows, cols);
    vector<vector<Val>> v(rows, vector<Val>(cols));
    for (int i = 0; i < rows; ++i)
        for (int j = 0; j < cols; ++j) {
            v[i][j] = anyVal(r);
            m(i, j) = v[i][j].cell();
        }
    const Vector_<String_> lines = Cell::ToStringLines(m);
    check((int)lines.size() == rows, "table-lines", "");
    for (int i = 0; i < rows; ++i) {
        string want;
        for (int j = 0; j < cols; ++j)
            want += (j ? "," : "") + plain(Cell::CoerceToString(m(i, j)));
        check(same(lines[i], want), "table-line", esc(want));
    }
    count("tables");
}

static void dictionaries(Rng& r) {
    Dictionary_ d;
    std::map<string, Val> ref;
    const int n = r.size(0, 7, 60);
    string trace;
    bool textual = true;
    for (int i = 0; i < n; ++i) {
        string key = word(r, 4, 0) + (r.coin() ? " " : r.coin() ? "_" : "") + word(r, 2, 0);
        string k;
        for (char c : key)
            if (c != ' ' && c != '_' && c != '\t')
                k += fold(c);
        Val v = anyVal(r);
        if (v.kind == 5) { // words that stand for themselves
            v.s = word(r, 6, 0) + "q" + (r.coin() ? " z" : "");
        }
        trace += esc(key) + "=" + plain(Cell::CoerceToString(v.cell())) + ";";
        desc(trace);
        const bool dup = ref.count(k);
        const bool refused = throws([&] { d.Insert(dalStr(key), v.cell()); });
        check(refused == dup, "dictionary-duplicate", esc(key));
        if (!dup)
            ref[k] = v;
        if (k.empty())
            textual = false; // the text form has no empty keys
    }
    check(d.Size() == (int)ref.size(), "dictionary-size", "");
    auto verify = [&](const Dictionary_& x, const char* how) {
        check(x.Size() == (int)ref.size(), string("dictionary-size:") + how, "");
        for (auto& kv : ref) {
            string k = recase(r, kv.first);
            if (r.coin())
                k.insert(k.begin() + r.below(k.size() + 1), " _\t"[r.below(3)]);
            check(x.Has(dalStr(k)), string("dictionary-has:") + how, k);
            if (x.Has(dalStr(k)))
                check(x.At(dalStr(k)) == kv.second.cell(), string("dictionary-value:") + how, k);
        }
        const string absent = "zz" + word(r, 3, 0);
        check(!x.Has(dalStr(absent)) && Cell::IsEmpty(x.At(dalStr(absent), true)) && throws([&] { x.At(dalStr(absent)); }), string("dictionary-absent:") + how, absent);
    };
    verify(d, "direct");
    if (textual) {
        const String_ t = Dictionary::ToString(d);
        desc(trace + " text " + esc(plain(t)));
        verify(Dictionary::FromString(t), "text");
        check(same(Dictionary::ToString(Dictionary::FromString(t)), plain(t)), "dictionary-text-stable", esc(plain(t)));
        count("dictionary-texts");
    }
    for (const char* bad : {"a", "a=1=2", "=3", "a=1;A=2", "a=1;b"})
        check(throws([&] { Dictionary::FromString(bad); }), "dictionary-text-accepted", bad);
    count("dictionaries");
    observed(trace, n > 0);
}

static void names(Rng& r) {
    // names never repeat
    String_ n = dalStr(r.coin() ? "" : word(r, 3, 0) + (r.coin() ? std::to_string(r.below(1000)) : ""));
    desc("names from " + plain(n));
    std::set<string> seen{plain(n)};
    const int steps = r.range(5, 300);
    for (int i = 0; i < steps; ++i) {
        n = String::NextName(n);
        if (!check(seen.insert(plain(n)).second, "name-repeated", plain(n)))
            break;
    }
    count("names", steps);
    observed(S().caseDesc);
}

// the documented names, in order of value
struct Spec {
    const char* name;
    vector<const char*> other;
};
template <class E, class L> static void enumeration(Rng& r, const char* what, const vector<Spec>& spec, L list) {
    const Vector_<E> all = list();
    desc(what);
    if (!check(all.size() == spec.size(), string("enumeration-size:") + what, cat(all.size())))
        return;
    for (size_t i = 0; i < spec.size(); ++i) {
        check(all[i].String() && string(all[i].String()) == spec[i].name, string("enumeration-name:") + what, spec[i].name);
        vector<string> spell{spec[i].name};
        spell.insert(spell.end(), spec[i].other.begin(), spec[i].other.end());
        for (auto s : spell) {
            s = recase(r, s);
            for (int k = r.below(3); k > 0; --k)
                s.insert(s.begin() + r.below(s.size() + 1), " _\t"[r.below(3)]);
            bool ok = false;
            const bool refused = throws([&] { ok = E(dalStr(s)) == all[i] && string(E(dalStr(s)).String()) == spec[i].name; });
            check(!refused && ok, string("enumeration-read:") + what, s);
            check(Cell::ToEnum<E>(Cell_(dalStr(s))) == all[i] && same(Cell::ToString(Cell::FromEnum(all[i])), spec[i].name), string("enumeration-cell:") + what, s);
            // one letter too many or too few
            string w = s;
            w.insert(w.begin() + r.below(w.size() + 1), '#');
            check(throws([&] { E e(dalStr(w)); }), string("enumeration-accepts:") + what, w);
            count("enumeration-names");
        }
        for (size_t j = 0; j < spec.size(); ++j)
            check((all[i] == all[j]) == (i == j) && (all[i] != all[j]) == (i != j), string("enumeration-equality:") + what, spec[i].name);
    }
    check(throws([&] { E e(String_("")); }) && throws([&] { E e(String_("\xe9\xff")); }), string("enumeration-accepts:") + what, "empty");
}
static void enumerations(Rng& r) {
    enumeration<BizDayConvention_>(r, "BizDayConvention", {{"Unadjusted", {}}, {"Following", {}}, {"ModifiedFollowing", {}}}, BizDayConventionListAll);
    enumeration<DateGeneration_>(r, "DateGeneration", {{"Backward", {}}, {"Forward", {}}}, DateGenerationListAll);
    enumeration<Ccy_>(r, "Ccy", {{"USD", {}}, {"EUR", {}}, {"GBP", {}}, {"JPY", {}}, {"AUD", {}}, {"CHF", {}}, {"CAD", {}}, {"CNY", {}}}, CcyListAll);
    enumeration<Clearer_>(r, "Clearer", {{"CME", {}}, {"LCH", {}}}, ClearerListAll);
    enumeration<CollateralType_>(r, "CollateralType", {{"OIS", {}}, {"GC", {}}, {"NONE", {}}}, CollateralTypeListAll);
    enumeration<OptionType_>(r, "OptionType", {{"CALL", {"C"}}, {"PUT", {"P"}}, {"STRADDLE", {"V", "C+P"}}}, OptionTypeListAll);
    enumeration<PeriodLength_>(r, "PeriodLength", {{"ANNUAL", {"12M"}}, {"SEMIANNUAL", {"SEMI", "6M"}}, {"QUARTERLY", {"3M"}}, {"MONTHLY", {"1M"}}}, PeriodLengthListAll);
    enumeration<TradedRate_>(r, "TradedRate", {{"LIBOR_3M_CME", {}}, {"LIBOR_3M_LCH", {}}, {"LIBOR_3M_FUT", {}}, {"LIBOR_6M_CME", {}}, {"LIBOR_6M_LCH", {}}}, TradedRateListAll);
    enumeration<DayBasis_>(r, "DayBasis",
                           {{"ACT_365F", {"ACT/365F", "ACT_365FIXED", "ACT/365FIXED"}},
                            {"ACT_365L", {"ACT/365L", "ISMA_Year"}},
                            {"ACT_360", {"ACT/360", "MONEY", "ACTUAL/360"}},
                            {"ACT_ACT", {"ACT/ACT", "ACTUAL/ACTUAL"}},
                            {"BOND", {"30_360", "30/360", "30_360_US"}}},
                           DayBasisListAll);
    const int months[] = {12, 6, 3, 1};
    for (int i = 0; i < 4; ++i)
        check(PeriodLengthListAll()[i].Months() == months[i], "period-months", cat(i));
    for (auto& t : TradedRateListAll()) {
        const string n = t.String();
        check(t.Period().Months() == (n.find("3M") != string::npos ? 3 : 6), "rate-period", n);
        if (n.find("FUT") == string::npos) {
            check(string(t.Clearer().String()) == n.substr(9), "rate-clearer", n);
            check(FindRate(t.Period(), t.Clearer()) == t, "rate-found", n);
        } else
            check(t.Clearer() == Clearer_::Value_::CME, "rate-clearer", n);
    }
    // nominal maturities: same day of the month, or the last
    const Date_ d = anyDate(r);
    for (auto& p : PeriodLengthListAll()) {
        const Date_ m = Date::NominalMaturity(d, p, Ccy_("USD"));
        const int want = Date::Year(d) * 12 + Date::Month(d) + p.Months();
        check(Date::Year(m) * 12 + Date::Month(m) == want, "maturity-month", ymd(d));
        const bool last = Date::Day(m) == Date::DaysInMonth(Date::Year(m), Date::Month(m));
        check(Date::Day(m) == Date::Day(d) || (last && Date::Day(m) < Date::Day(d)), "maturity-day", ymd(d) + " to " + ymd(m));
        count("maturities");
    }
    observed(ymd(d));
}

static void body() {
    section("comparison", N(1500, 60000), comparison);
    section("splitting", N(8000, 300000), splitting);
    section("numbers", N(40000, 1500000), numbers);
    section("rounding", N(6000, 200000), rounding);
    section("cells", N(20000, 500000), cells);
    section("table", N(1000, 20000), table);
    section("dictionaries", N(4000, 100000), dictionaries);
    section("names", N(300, 6000), names);
    section("enumerations", N(150, 3000), enumerations);
}
VH_MAIN(body)
