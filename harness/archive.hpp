// Shared by P11 and P08: random storable objects of every kind, a store that records what an object says about itself, a storable
// that has members of every kind the archive can hold, and a scratch directory.
#pragma once
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <dal/curve/discount.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/ycimp.hpp>
#include <dal/indice/fixings.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/model/blackscholes.hpp>
#include <dal/model/dupire.hpp>
#include <dal/risk/report.hpp>
#include <dal/script/event.hpp>
#include <dal/storage/archive.hpp>
#include <dal/storage/bag.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/json.hpp>
#include <dal/storage/splat.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/utilities/dictionary.hpp>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <unistd.h>
using namespace vh;
using namespace Dal;

typedef Handle_<Storable_> H;
static std::string std_(const String_& s) { return std::string(s.begin(), s.end()); }
static String_ dal_(const std::string& s) { return String_(s); }

// ---- recording store: the canonical account of an object graph -------------------------------------------------------------------
struct Recorder_ : Archive::Store_ {
    std::string& out_;
    std::map<const Storable_*, int>& seen_;
    std::map<std::string, std::unique_ptr<Recorder_>> kids_;
    std::string own_;                       // text of this node
    std::unique_ptr<std::string> holder_;
    Recorder_(std::string& out, std::map<const Storable_*, int>& seen) : out_(out), seen_(seen) {}
    bool StoreRef(const Storable_* o) override {
        auto it = seen_.find(o);
        if (it != seen_.end()) {
            own_ += cat("ref#", it->second);
            return true;
        }
        const int k = static_cast<int>(seen_.size());
        seen_[o] = k;
        own_ += cat("def#", k, " ");
        return false;
    }
    void SetType(const String_& t) override { own_ += "type=" + std_(t); }
    void Done() override {}
    Archive::Store_& Child(const String_& name) override {
        auto& k = kids_[std_(name)];
        if (!k)
            k.reset(new Recorder_(out_, seen_));
        return *k;
    }
    std::string Text() const {
        std::string r = own_;
        for (const auto& k : kids_)
            r += "\n{" + esc(k.first) + ": " + k.second->Text() + "}";
        return r;
    }
    static std::string A(double d) {
        if (d == 0)
            d = 0; // the sign of zero is not kept by a file of delimited text
        char b[40];
        snprintf(b, sizeof b, "%.17g", d);
        return std::isnan(d) ? "nan" : b;
    }
    static std::string A(int d) { return cat("i", d); }
    static std::string A(bool d) { return d ? "true" : "false"; }
    static std::string A(const String_& s) { return "'" + esc(std_(s)) + "'"; }
    static std::string A(const Date_& d) { return "date" + (d.IsValid() ? std_(Date::ToString(d)) : "none"); }
    static std::string A(const DateTime_& d) { return "time" + (d.Date().IsValid() ? cat(std_(Date::ToString(d.Date())), "+", A(d.Frac())) : "none"); }
    static std::string A(const Cell_& c) {
        return "c:" + c.Visit([](const auto& v) -> std::string {
            using T = std::decay_t<decltype(v)>;
            if constexpr (std::is_same_v<T, std::monostate>)
                return std::string("blank");
            else
                return A(v);
        });
    }
    template <class T> static std::string V(const Vector_<T>& v) {
        std::string r = cat("[", v.size(), ":");
        for (size_t i = 0; i < v.size(); ++i)
            r += A(static_cast<T>(v[i])) + ",";
        return r + "]";
    }
    template <class T> static std::string M(const Matrix_<T>& m) {
        std::string r = cat("<", m.Rows(), "x", m.Cols(), ":");
        for (int i = 0; i < m.Rows(); ++i)
            for (int j = 0; j < m.Cols(); ++j)
                r += A(m(i, j)) + ",";
        return r + ">";
    }
#define VH_SET(T, F)                                                                                                                          \
    Archive::Store_& operator=(T v) override {                                                                                                \
        own_ += F(v);                                                                                                                         \
        return *this;                                                                                                                         \
    }
    VH_SET(double, A) VH_SET(int, A) VH_SET(bool, A) VH_SET(const String_&, A) VH_SET(const Date_&, A) VH_SET(const DateTime_&, A)
    VH_SET(const Vector_<>&, V) VH_SET(const Vector_<int>&, V) VH_SET(const Vector_<bool>&, V) VH_SET(const Vector_<String_>&, V)
    VH_SET(const Vector_<Date_>&, V) VH_SET(const Vector_<DateTime_>&, V) VH_SET(const Vector_<Cell_>&, V)
    VH_SET(const Matrix_<>&, M) VH_SET(const Matrix_<String_>&, M) VH_SET(const Matrix_<Cell_>&, M)
    Archive::Store_& operator=(const Dictionary_& d) override {
        own_ += "dict:";
        for (const auto& kv : d)
            own_ += A(kv.first) + "=" + A(kv.second) + ";";
        return *this;
    }
};
static std::string account(const Storable_& o) {
    std::string dummy;
    std::map<const Storable_*, int> seen;
    Recorder_ r(dummy, seen);
    o.Write(r);
    return "name=" + esc(std_(o.Name())) + " " + r.Text();
}

// ---- a storable with members of every kind ---------------------------------------------------------------------------------------------
struct Every_ : Storable_ {
    double d_ = 0;
    int i_ = 0;
    bool b_ = false;
    String_ s_;
    Date_ dt_;
    Dictionary_ dict_;
    Vector_<> vd_;
    Vector_<int> vi_;
    Vector_<bool> vb_;
    Vector_<String_> vs_;
    Vector_<Date_> vdt_;
    Vector_<DateTime_> vt_;
    Vector_<Cell_> vc_;
    Matrix_<> md_;
    Matrix_<String_> ms_;
    Matrix_<Cell_> mc_;
    Vector_<H> kids_;
    Handle_<Interp1_> curve_;
    Every_(const String_& name) : Storable_("Every", name) {}
    void Write(Archive::Store_& dst) const override {
        using namespace Archive::Utils;
        dst.SetType("VhEvery");
        SetOptional(dst, "name", name_);
        Set(dst, "d", d_), Set(dst, "i", i_), Set(dst, "b", b_), Set(dst, "s", s_), Set(dst, "dt", dt_), Set(dst, "dict", dict_);
        Set(dst, "vd", vd_), Set(dst, "vi", vi_), Set(dst, "vb", vb_), Set(dst, "vs", vs_), Set(dst, "vdt", vdt_), Set(dst, "vt", vt_);
        Set(dst, "vc", vc_), Set(dst, "md", md_), Set(dst, "ms", ms_), Set(dst, "mc", mc_);
        SetMultiple(dst, "kids", kids_);
        SetOptional(dst, "curve", curve_);
        dst.Done();
    }
};
struct EveryReader_ : Archive::Reader_ {
    EveryReader_() { Archive::Register("VhEvery", this); }
    Storable_* Build() const override { return nullptr; }
    Storable_* Build(const Archive::View_& src, Archive::Built_& share) const override {
        using namespace Archive::Utils;
        using V = Archive::View_;
        String_ name;
        GetOptional(src, "name", &name, std::mem_fn(&V::AsString));
        std::unique_ptr<Every_> r(new Every_(name));
        Get(src, "d", &r->d_, std::mem_fn(&V::AsDouble));
        Get(src, "i", &r->i_, std::mem_fn(&V::AsInt));
        Get(src, "b", &r->b_, std::mem_fn(&V::AsBool));
        Get(src, "s", &r->s_, std::mem_fn(&V::AsString));
        Get(src, "dt", &r->dt_, std::mem_fn(&V::AsDate));
        Get(src, "dict", &r->dict_, std::mem_fn(&V::AsDictionary));
        Get(src, "vd", &r->vd_, std::mem_fn(&V::AsDoubleVector));
        Get(src, "vi", &r->vi_, std::mem_fn(&V::AsIntVector));
        Get(src, "vb", &r->vb_, std::mem_fn(&V::AsBoolVector));
        Get(src, "vs", &r->vs_, std::mem_fn(&V::AsStringVector));
        Get(src, "vdt", &r->vdt_, std::mem_fn(&V::AsDateVector));
        Get(src, "vt", &r->vt_, std::mem_fn(&V::AsDateTimeVector));
        Get(src, "vc", &r->vc_, std::mem_fn(&V::AsCellVector));
        Get(src, "md", &r->md_, std::mem_fn(&V::AsDoubleMatrix));
        Get(src, "ms", &r->ms_, std::mem_fn(&V::AsStringMatrix));
        Get(src, "mc", &r->mc_, std::mem_fn(&V::AsCellMatrix));
        GetMultiple(src, "kids", &r->kids_, Archive::Builder_<>(share, "kids", ""));
        GetOptional(src, "curve", &r->curve_, Archive::Builder_<Interp1_>(share, "curve", "Interp1"));
        return r.release();
    }
};
static EveryReader_ THE_EVERY_READER;

// ---- random contents ----------------------------------------------------------------------------------------------------------------------
struct Gen {
    Rng& r;
    bool blanks;    // blank elements inside collections (a table cannot tell them from absent ones)
    bool finite;    // only finite numbers
    std::vector<H> pool;
    Gen(Rng& r_, bool blanks_, bool finite_) : r(r_), blanks(blanks_), finite(finite_) {}

    double num() {
        static const double SPECIAL[] = {0, 1, -1, 0.1, 1.0 / 3, 1e-300, 5e-324, 1.7976931348623157e308, 123456789.123456789, 4294967296.0, 9007199254740993.0,
                                         2147483647.0, -2147483648.0, 1e15, 1e16, 1e22, 1e23, 2.2250738585072014e-308, 0.30000000000000004, 100.0000001};
        switch (r.range(0, 9)) {
        case 0:
            return r.range(-1000, 1000);
        case 1:
            return SPECIAL[r.below(sizeof SPECIAL / sizeof *SPECIAL)] * (r.coin() ? 1 : -1);
        case 2:
            return std::pow(10.0, r.uniform(-307, 307)) * (r.coin() ? 1 : -1);
        case 3:
            if (!finite && r.coin(0.3))
                return r.coin() ? INFINITY : -INFINITY;
            return r.normal();
        case 4:
            return r.range(-100000, 100000) / 100.0;
        default:
            return r.normal() * r.logUniform(1e-8, 1e8);
        }
    }
    int integer() { return r.coin(0.2) ? (r.coin() ? INT_MAX : INT_MIN) : r.range(-100000, 100000); }
    static bool dateLike(const std::string& s) { // the format the JSON reader takes for a date in a cell
        if ((s.size() != 10 && s.size() != 19) || s[4] != '-' || s[7] != '-')
            return false;
        // no such day: stays text
        for (size_t i = 0; i < 10; ++i)
            if (i != 4 && i != 7 && !isdigit(static_cast<unsigned char>(s[i])))
                return false;
        const int m = atoi(s.substr(5, 2).c_str()), d = atoi(s.substr(8, 2).c_str());
        return m >= 1 && m <= 12 && d >= 1 && d <= 31;
    }
    std::string text(bool nonEmpty = false) {
        static const char* FUNNY[] = {"a\"b", "back\\slash", "\\", "\"", "line\nbreak", "tab\there", "a,b", ",", "=x=", "=", "==", "TRUE", "false", "123", "1e5", "-", ".",
                                      "$1", "~Box", "$2~Bag", "\\u0041", "{\"a\": 1}", "[1,2]", "null", "NaN", "inf", " leading", "trailing ", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac",
                                      "a;b", "k=v", "'quoted'", "cr\r", "\r\n", "contents0", "name", "2020-13-45", "2021-00-10", "2020-01-32", "0000-00-00", "2020-99-99 99:99:99", "2020-13-01 10:00:00", "2020-01-00 23:59:59", "20200131", "1/2/2020", "12:30", "\x01\x02", "\x7f", "\"\"", "\"a\",\"b\"", "x\\"};
        for (;;) {
            std::string s;
            switch (r.range(0, 5)) {
            case 0:
                s = FUNNY[r.below(sizeof FUNNY / sizeof *FUNNY)];
                break;
            case 1: {
                const int n = r.range(0, 12);
                for (int i = 0; i < n; ++i)
                    s += static_cast<char>(r.range(r.coin(0.1) ? 0 : 1, 126));
                break;
            }
            case 2:
                s = std::string(FUNNY[r.below(sizeof FUNNY / sizeof *FUNNY)]) + FUNNY[r.below(sizeof FUNNY / sizeof *FUNNY)];
                break;
            case 3:
                if (r.coin(0.03)) {
                    s = std::string(r.range(2000, 9000), static_cast<char>('a' + r.below(26)));
                    break;
                } // fall through
            default: {
                const int n = r.coin(0.15) ? r.range(11, 90) : r.range(1, 10);
                for (int i = 0; i < n; ++i)
                    s += "abcdefghijklmnopqrstuvwxyzABCDEF_0123456789"[r.below(43)];
            }
            }
            if ((nonEmpty && s.empty()) || dateLike(s))
                continue;
            return s;
        }
    }
    String_ str(bool nonEmpty = false) { return dal_(text(nonEmpty)); }
    Date_ date() { return Date::FromExcel(r.range(25570, 60000)); }
    DateTime_ time() { return DateTime_(date(), r.range(0, 23), r.range(0, 59), r.range(0, 59)); }
    Cell_ cell() {
        switch (r.range(blanks ? 0 : 1, 6)) {
        case 0:
            return Cell_();
        case 1:
            return Cell_(r.coin());
        case 2:
            return Cell_(date());
        case 3: {
            const auto t = time();
            return Cell_(t);
        }
        case 4:
            return Cell_(str(!blanks));
        default:
            return Cell_(num());
        }
    }
    int len(int most = 6) { return r.coin(0.15) ? 0 : r.coin(0.03) ? r.range(50, 700) : r.range(1, most); }
    template <class T, class F> Vector_<T> vec(int n, F f) {
        Vector_<T> v;
        for (int i = 0; i < n; ++i)
            v.push_back(f());
        return v;
    }
    template <class T, class F> Matrix_<T> mat(F f) {
        int rows = len(), cols = len();
        if (!blanks && (rows == 0 || cols == 0))
            rows = cols = 0;
        Matrix_<T> m(rows, cols);
        for (int i = 0; i < rows; ++i)
            for (int j = 0; j < cols; ++j)
                m(i, j) = f();
        return m;
    }
    Vector_<> nums(int n) { return vec<double>(n, [&] { return num(); }); }
    Vector_<> ladder(int n) {
        Vector_<> v;
        double at = r.uniform(-100, 100);
        for (int i = 0; i < n; ++i)
            v.push_back(at), at += r.logUniform(1e-3, 10);
        return v;
    }
    Vector_<Date_> dates(int n) {
        Vector_<Date_> v;
        int at = r.range(25570, 50000);
        for (int i = 0; i < n; ++i)
            v.push_back(Date::FromExcel(at)), at += r.range(1, 30);
        return v;
    }
    Vector_<> moderate(int n) { return vec<double>(n, [&] { return r.normal(); }); }
    Matrix_<> surface(int a, int b) {
        Matrix_<> m(a, b);
        for (int i = 0; i < a; ++i)
            for (int j = 0; j < b; ++j)
                m(i, j) = r.normal();
        return m;
    }
    Dictionary_ dict() {
        Dictionary_ d;
        const int n = r.size(0, 4, 40);
        for (int i = 0; i < n; ++i) {
            const String_ key = dal_(cat("key", r.range(0, n > 4 ? 99 : 9)));
            if (d.Has(key))
                continue;
            const int k = r.range(0, 3);
            d.Insert(key, k == 0 ? Cell_(r.coin()) : k == 1 ? Cell_(r.normal()) : k == 2 ? Cell_(date()) : Cell_(dal_(cat("word", char('a' + r.below(26))))));
        }
        return d;
    }
    Handle_<DiscountCurve_> curve(int depth) {
        const int n = r.size(1, 6, 100);
        Handle_<DiscountCurve_> base;
        if (depth > 0 && r.coin(0.4))
            base = curve(depth - 1);
        return Handle_<DiscountCurve_>(NewDiscountPWLF(str(), PiecewiseLinear_(dates(n), moderate(n), moderate(n)), base));
    }
    H make(int kind, int depth) {
        switch (kind) {
        case 0:
            return H(new Box_(str(), mat<Cell_>([&] { return cell(); })));
        case 1: {
            std::multimap<String_, H> m;
            const int n = depth > 0 ? r.range(0, 4) : 0;
            for (int i = 0; i < n; ++i)
                m.insert(std::make_pair(str(!blanks), any(depth - 1)));
            return H(new Bag_(str(), m));
        }
        case 2: {
            const int n = r.size(1, 8, 150);
            return H(new Interp1Linear_(str(), ladder(n), nums(n)));
        }
        case 3: {
            const int a = r.size(1, 5, 30), b = r.size(1, 5, 30);
            return H(Interp::NewLinear2(str(), ladder(a), ladder(b), surface(a, b)));
        }
        case 4: {
            const int n = r.size(3, 8, 120);
            return H(Interp::NewCubic(str(), ladder(n), moderate(n), Interp::Boundary_(r.range(1, 3), r.normal()), Interp::Boundary_(r.range(1, 3), r.normal())));
        }
        case 5:
            return handle_cast<Storable_>(curve(depth));
        case 6: {
            const int n = r.size(1, 7, 120);
            return H(new PiecewiseConstant_(dates(n), nums(n), str()));
        }
        case 7:
            return H(new BSModelData_(str(), num(), num(), num(), num()));
        case 8: {
            const int a = r.size(1, 5, 30), b = r.size(1, 5, 30);
            return H(new DupireModelData_(str(), num(), num(), num(), ladder(a), ladder(b), surface(a, b)));
        }
        case 9: {
            const int n = len();
            return H(new Script::ScriptProductData_(str(), vec<Cell_>(n, [&] { return cell(); }), vec<String_>(n, [&] { return str(!blanks); })));
        }
        case 10: {
            std::map<DateTime_, double> m;
            const int n = len();
            for (int i = 0; i < n; ++i)
                m[time()] = num();
            return H(new Fixings_(str(), m));
        }
        case 11:
            return H(new PseudoRSG_(String_(r.coin() ? "MRG32" : "IRN"), r.range(0, 100000), r.range(1, 6), r.coin()));
        case 12: {
            const int n = r.range(1, 3);
            Vector_<Report::Axis_> axes(n);
            int total = 1;
            for (int i = 0; i < n; ++i) {
                axes[i].name_ = dal_(cat("axis", i, text()));
                if (std::string(axes[i].name_.c_str()).empty())
                    axes[i].name_ = "x";
                axes[i].size_ = i == 0 && r.coin(0.1) ? 0 : r.range(1, 4);
                axes[i].labels_ = vec<String_>(r.range(blanks ? 0 : 1, 3), [&] { return str(!blanks); });
                total *= axes[i].size_;
            }
            std::unique_ptr<Report_> rep(new Report_(str(), axes));
            rep->SetAll(nums(total));
            for (int i = 0; i < n; ++i)
                for (int k = 0; k < axes[i].size_; ++k)
                    if (!blanks || r.coin(0.8))
                        rep->AddHeaderRow(axes[i].name_, k, vec<Cell_>(axes[i].labels_.size(), [&] { return cell(); }));
            return H(rep.release());
        }
        default: {
            std::unique_ptr<Every_> e(new Every_(str()));
            e->d_ = num(), e->i_ = integer(), e->b_ = r.coin(), e->s_ = str(), e->dt_ = date(), e->dict_ = dict();
            e->vd_ = nums(len());
            e->vi_ = vec<int>(len(), [&] { return integer(); });
            e->vb_ = vec<bool>(len(), [&] { return r.coin(); });
            e->vs_ = vec<String_>(len(), [&] { return str(!blanks); });
            e->vdt_ = vec<Date_>(len(), [&] { return date(); });
            e->vt_ = vec<DateTime_>(len(), [&] { return time(); });
            e->vc_ = vec<Cell_>(len(), [&] { return cell(); });
            e->md_ = mat<double>([&] { return num(); });
            e->ms_ = mat<String_>([&] { return str(!blanks); });
            e->mc_ = mat<Cell_>([&] { return cell(); });
            const int n = depth > 0 ? r.range(0, 3) : 0;
            for (int i = 0; i < n; ++i)
                e->kids_.push_back(any(depth - 1));
            if (r.coin()) {
                const int k = r.range(1, 4);
                e->curve_ = Handle_<Interp1_>(new Interp1Linear_(str(), ladder(k), nums(k)));
            }
            return H(e.release());
        }
        }
    }
    static const int KINDS = 14;
    H any(int depth) { // also objects that occur elsewhere in the graph
        if (!pool.empty() && r.coin(0.35))
            return pool[r.below(pool.size())];
        H h = make(r.below(KINDS), depth);
        pool.push_back(h);
        return h;
    }
};

struct Scratch { // a directory of this process, removed at the end
    std::string dir;
    Scratch() {
        char t[] = "/tmp/vh_arch_XXXXXX";
        dir = mkdtemp(t);
    }
    ~Scratch() {
        std::error_code ec;
        std::filesystem::remove_all(dir, ec);
    }
    String_ file(const char* n) const { return dal_(dir + "/" + n); }
};
