// P31: the analyses that run over a script before it is evaluated.
// Intervals and domains against plain closed intervals; the domains of variables against the values evaluations end with;
// numbering of variables and nesting of conditions against the generated program.
#include "script.hpp"
using namespace sl;
using Dal::Script::Bound_;
using Dal::Script::Domain_;
using Dal::Script::Interval_;

static const double OO = std::numeric_limits<double>::infinity();
struct Iv {
    double l, r;
    bool has(double x) const { return l <= x && x <= r; }
    bool single() const { return l == r; }
    bool finite() const { return l > -OO && r < OO; }
};
static bool operator==(const Iv& a, const Iv& b) { return a.l == b.l && a.r == b.r; }
using Set = vector<Iv>; // disjoint, not touching, ascending

static Bound_ bound(double x) { return x == OO ? Bound_(Bound_::plusInfinity_) : x == -OO ? Bound_(Bound_::minusInfinity_) : Bound_(x); }
static double value(const Bound_& b) { return b.IsPlusInf() ? OO : b.IsMinusInf() ? -OO : b.Val(); }
static Interval_ lib(const Iv& i) { return Interval_(bound(i.l), bound(i.r)); }
static Iv mine(const Interval_& i) { return {value(i.Left()), value(i.Right())}; }
static string show(const Iv& i) { return cat("[", i.l, ",", i.r, "]"); }
static string show(const Set& s) {
    string o = "{";
    for (auto& i : s)
        o += show(i);
    return o + "}";
}

static double edge(Rng& r) { return r.range(-12, 12) * 0.5; }
static Iv interval(Rng& r) {
    if (r.coin(0.3)) {
        const double x = r.coin(0.25) ? 0.0 : edge(r);
        return {x, x};
    }
    double a = r.coin(0.12) ? -OO : edge(r), b = r.coin(0.12) ? OO : edge(r);
    if (a > b)
        std::swap(a, b);
    return {a, b};
}
static Set normal(Set in) {
    std::sort(in.begin(), in.end(), [](const Iv& a, const Iv& b) { return a.l < b.l || (a.l == b.l && a.r < b.r); });
    Set o;
    for (auto& i : in) {
        if (!o.empty() && i.l <= o.back().r)
            o.back().r = std::max(o.back().r, i.r);
        else
            o.push_back(i);
    }
    return o;
}
static bool has(const Set& s, double x) {
    for (auto& i : s)
        if (i.has(x))
            return true;
    return false;
}
static bool finite(const Set& s) {
    for (auto& i : s)
        if (!i.finite())
            return false;
    return true;
}
static vector<double> points(const Iv& i) {
    vector<double> o;
    for (int k = -26; k <= 26; ++k)
        if (i.has(k * 0.25))
            o.push_back(k * 0.25);
    for (double x : {-1e12, -1e6, -7777.0, 7777.0, 1e6, 1e12, 1e-3, -1e-3, 1e-9, -1e-9, 1e-12, -1e-12})
        if (i.has(x))
            o.push_back(x);
    return o;
}
static vector<double> points(const Set& s) {
    vector<double> o;
    for (auto& i : s)
        for (double x : points(i))
            o.push_back(x);
    return o;
}
template <class D> static bool encloses(const D& d, double x) {
    const double t = 1e-12 * (1 + std::fabs(x));
    return d.Includes(x) || d.Includes(x - t) || d.Includes(x + t);
}
// hull of the products: finite intervals
static Iv product(const Iv& a, const Iv& b) {
    const double p[] = {a.l * b.l, a.l * b.r, a.r * b.l, a.r * b.r};
    return {*std::min_element(p, p + 4) + 0.0, *std::max_element(p, p + 4) + 0.0};
}

static void intervalSection() {
    section("intervals", N(30000, 600000), [](Rng& r) {
        const Iv a = interval(r), b = interval(r);
        desc(cat(show(a), " and ", show(b)));
        Interval_ A = lib(a), B = lib(b);
        auto same = [&](const char* op, const Interval_& got, const Iv& want) {
            checkf(mine(got) == want, op, [&] { return cat(show(mine(got)), ", expected ", show(want)); });
        };
        same("bounds", A, a);
        same("plus", A + B, {a.l + b.l, a.r + b.r});
        same("minus", A - B, {a.l - b.r, a.r - b.l});
        same("negative", -A, {-a.r, -a.l});
        same("min", A.IMin(B), {std::min(a.l, b.l), std::min(a.r, b.r)});
        same("max", A.IMax(B), {std::max(a.l, b.l), std::max(a.r, b.r)});
        {
            Interval_ c = A;
            c += B;
            same("plus-assigned", c, {a.l + b.l, a.r + b.r});
            Interval_ d = A;
            d -= B;
            same("minus-assigned", d, {a.l - b.r, a.r - b.l});
        }
        const Interval_ P = A * B;
        if (a.finite() && b.finite())
            same("product", P, product(a, b));
        if ((a.single() && a.l == 0) || (b.single() && b.l == 0))
            same("product-with-zero", P, {0, 0});
        const auto pa = points(a), pb = points(b);
        for (double x : pa)
            for (double y : pb)
                checkf(P.Includes(x * y), "product-encloses", [&] { return cat(x, " * ", y, " is not in ", show(mine(P))); });
        if (!(b.single() && b.l == 0)) {
            const Interval_ I = B.Inverse(), Q = A / B;
            for (double y : pb)
                if (y != 0) {
                    checkf(encloses(I, 1 / y), "inverse-encloses", [&] { return cat("1 / ", y, " is not in ", show(mine(I))); });
                    for (double x : pa)
                        checkf(encloses(Q, x / y), "quotient-encloses", [&] { return cat(x, " / ", y, " is not in ", show(mine(Q))); });
                }
            if (b.finite() && (b.l > 0 || b.r < 0))
                same("inverse", I, {1 / b.r, 1 / b.l});
            count("inverses");
        } else
            check(throws([&] { (void)B.Inverse(); }), "inverse-of-zero", "one over zero was not refused");
        // predicates
        check(A.IsPositive() == (a.l >= 0) && A.IsPositive(true) == (a.l > 0), "is-positive", "");
        check(A.IsNegative() == (a.r <= 0) && A.IsNegative(true) == (a.r < 0), "is-negative", "");
        check(A.IsPosOrNeg() == (a.l >= 0 || a.r <= 0) && A.IsPosOrNeg(true) == (a.l > 0 || a.r < 0), "is-signed", "");
        check(A.IsInfinite() == !a.finite(), "is-infinite", "");
        double v = 99;
        check(A.IsSingleton() == a.single() && A.IsSingleton(&v) == a.single() && v == (a.single() ? a.l : 99), "is-singleton", "");
        check(A.IsContinuous() == !a.single() && A.IsZero() == (a.single() && a.l == 0), "is-zero", "");
        check((A == B) == (a == b), "equal", "");
        const bool lt = a.l < b.l || (a.l == b.l && a.r < b.r), gt = a.l > b.l || (a.l == b.l && a.r > b.r);
        check((A < B) == lt && (A > B) == gt && (A <= B) == !gt && (A >= B) == !lt, "ordering", "");
        for (int k = -26; k <= 26; ++k)
            checkf(A.Includes(k * 0.25) == a.has(k * 0.25), "includes-value", [&] { return cat(k * 0.25); });
        check(A.Includes(B) == (a.l <= b.l && a.r >= b.r), "includes-interval", "");
        check(A.IsIncludedIn(B) == (b.l <= a.l && b.r >= a.r), "is-included", "");
        check(A.IsAdjacent(B) == (a.r == b.l ? 1u : a.l == b.r ? 2u : 0u), "adjacent", "");
        const bool meet = std::max(a.l, b.l) <= std::min(a.r, b.r);
        Interval_ got(77.0);
        check(Intersect(A, B) == meet && Intersect(A, B, &got) == meet, "intersects", "");
        same("intersection", got, meet ? Iv{std::max(a.l, b.l), std::min(a.r, b.r)} : Iv{77, 77});
        Interval_ m(77.0);
        check(Merge(A, B) == meet && Merge(A, B, &m) == meet, "merges", "");
        same("merged", m, meet ? Iv{std::min(a.l, b.l), std::max(a.r, b.r)} : Iv{77, 77});
        if (meet) {
            Interval_ c = A;
            c.Merge(B);
            same("merged-into", c, {std::min(a.l, b.l), std::max(a.r, b.r)});
            count("meeting");
        }
        // bounds on their own
        for (double x : {a.l, a.r})
            for (double y : {b.l, b.r}) {
                const Bound_ X = bound(x), Y = bound(y);
                check((X == Y) == (x == y) && (X != Y) == (x != y) && (X < Y) == (x < y) && (X > Y) == (x > y) && (X <= Y) == (x <= y) &&
                          (X >= Y) == (x >= y),
                      "bound-order", cat(x, " ", y));
                check(value(-X) == -x, "bound-negative", "");
                if (x != 0 && y != 0)
                    check(value(X * Y) == x * y, "bound-product", cat(x, " * ", y, " = ", value(X * Y)));
                Bound_ z(3.0);
                z = X;
                check(value(z) == x, "bound-assigned", "");
                z = y; // also from a number
                if (std::fabs(y) < 100)
                    check(value(z) == y && !z.IsInfinite(), "bound-assigned-number", "");
                z = Bound_::plusInfinity_;
                check(value(z) == OO && z.IsPositive(true) && !z.IsNegative(), "bound-assigned-infinity", "");
                z = Bound_::minusInfinity_;
                check(value(z) == -OO && z.IsNegative(true) && !z.IsPositive(), "bound-assigned-infinity", "");
            }
        // bounds the wrong way round
        if (a.l < a.r)
            check(throws([&] { Interval_ x(bound(a.r), bound(a.l)); }), "reversed", "bounds in the wrong order were accepted");
        check(throws([&] { Interval_ x(bound(OO), bound(OO)); }) && throws([&] { Interval_ x(bound(-OO), bound(-OO)); }), "reversed", "an interval at infinity");
        // functions
        auto f = [](double x) { return 2 * x + 1; };
        same("function", A.ApplyFunc(f, B), a.single() ? Iv{f(a.l), f(a.l)} : b);
        auto f2 = [](double x, double y) { return x - 3 * y; };
        const Iv all{-OO, 5};
        same("function-of-two", A.ApplyFunc2(f2, B, lib(all)), a.single() && b.single() ? Iv{f2(a.l, b.l), f2(a.l, b.l)} : all);
        count("intervals");
        observed(cat(show(a), show(b)), !(a == b));
        sample(cat(show(a), " ", show(b)));
    });
}

static Set randomSet(Rng& r, Domain_* out) {
    Set in;
    Domain_ d;
    const int n = r.size(1, 5, 24);
    const bool boundedOnly = r.coin(0.6);
    for (int i = 0; i < n; ++i) {
        Iv x = interval(r);
        if (boundedOnly && !x.finite())
            x = {1, 1.5};
        if (n > 5 && r.coin(0.8)) { // spread out, so that they stay apart
            const double s = r.range(-30, 30) * 4.0;
            x = {x.single() ? s : s - 0.5, x.single() ? s : s + 1};
        }
        in.push_back(x);
        d.AddInterval(lib(x));
    }
    *out = d;
    return normal(in);
}
static bool same(const Domain_& d, const Set& s, string* why) {
    if (d.Size() != s.size())
        return *why = cat(d.Write(), " has ", d.Size(), " parts, expected ", show(s)), false;
    for (auto& i : s) {
        if (!d.Includes(lib(i)))
            return *why = cat(d.Write(), " does not include ", show(i), " of ", show(s)), false;
        if (i.l > -OO && d.Includes(lib({i.l - 0.0625, i.r})))
            return *why = cat(d.Write(), " reaches left of ", show(i), " of ", show(s)), false;
        if (i.r < OO && d.Includes(lib({i.l, i.r + 0.0625})))
            return *why = cat(d.Write(), " reaches right of ", show(i), " of ", show(s)), false;
    }
    return true;
}

static void domainSection() {
    section("domains", N(12000, 300000), [](Rng& r) {
        Domain_ A, B;
        const Set a = randomSet(r, &A), b = randomSet(r, &B);
        desc(cat(show(a), " and ", show(b)));
        auto expect = [&](const char* op, const Domain_& d, const Set& s) {
            string why;
            const bool ok = same(d, s, &why);
            check(ok, op, why);
        };
        expect("union", A, a);
        expect("union", B, b);
        {
            Domain_ c = A;
            c.AddDomain(B);
            Set u = a;
            u.insert(u.end(), b.begin(), b.end());
            expect("union-of-two", c, normal(u));
            expect("union-of-two-source", B, b);
            Domain_ e(A);
            const double x = edge(r);
            e.AddSingleton(x);
            Set v = a;
            v.push_back({x, x});
            expect("one-more-value", e, normal(v));
            expect("copy", A, a);
            Domain_ m(std::move(e));
            expect("moved", m, normal(v));
            e = B;
            expect("assigned", e, b);
            m = std::move(e);
            expect("move-assigned", m, b);
        }
        // pair by pair
        auto pairs = [&](auto f) {
            Set o;
            for (auto& i : a)
                for (auto& j : b)
                    o.push_back(f(i, j));
            return normal(o);
        };
        const bool fin = finite(a) && finite(b);
        expect("domain-plus", A + B, pairs([](Iv x, Iv y) { return Iv{x.l + y.l, x.r + y.r}; }));
        expect("domain-minus", A - B, pairs([](Iv x, Iv y) { return Iv{x.l - y.r, x.r - y.l}; }));
        expect("domain-min", A.DMin(B), pairs([](Iv x, Iv y) { return Iv{std::min(x.l, y.l), std::min(x.r, y.r)}; }));
        expect("domain-max", A.DMax(B), pairs([](Iv x, Iv y) { return Iv{std::max(x.l, y.l), std::max(x.r, y.r)}; }));
        Set neg;
        for (auto& i : a)
            neg.push_back({-i.r, -i.l});
        expect("domain-negative", -A, normal(neg));
        const Domain_ P = A * B;
        if (fin) {
            expect("domain-product", P, pairs(product));
            count("finite");
        } else
            count("infinite");
        auto pa = points(a), pb = points(b);
        if (pa.size() > 40) {
            r.shuffle(pa);
            pa.resize(40);
        }
        if (pb.size() > 40) {
            r.shuffle(pb);
            pb.resize(40);
        }
        bool zero = false;
        for (auto& i : b)
            zero = zero || (i.single() && i.l == 0);
        for (double x : pa)
            for (double y : pb)
                checkf(P.Includes(x * y), "domain-product-encloses", [&] { return cat(x, " * ", y, " not in ", P.Write()); });
        if (!zero) {
            const Domain_ Q = A / B, I = B.Inverse();
            for (double y : pb)
                if (y != 0) {
                    checkf(encloses(I, 1 / y), "domain-inverse-encloses", [&] { return cat("1 / ", y, " not in ", I.Write()); });
                    for (double x : pa)
                        checkf(encloses(Q, x / y), "domain-quotient-encloses", [&] { return cat(x, " / ", y, " not in ", Q.Write()); });
                }
            count("quotients");
        } else
            check(throws([&] { (void)(A / B); }), "division-by-zero", "");
        {
            const double x = r.coin(0.2) ? 0.0 : edge(r);
            Domain_ up = A, down = A;
            up += x;
            down -= x;
            Set u, v;
            for (auto& i : a) {
                u.push_back({i.l + x, i.r + x});
                v.push_back({i.l - x, i.r - x});
            }
            expect("shift-up", up, u);
            expect("shift-down", down, v);
        }
        // predicates
        bool pos = true, spos = true, ng = true, sng = true, disc = true, inf = false, zd = false, zc = false;
        Vector_<double> singles;
        Set cont;
        for (auto& i : a) {
            pos = pos && i.l >= 0;
            spos = spos && i.l > 0;
            ng = ng && i.r <= 0;
            sng = sng && i.r < 0;
            disc = disc && i.single();
            inf = inf || !i.finite();
            zd = zd || (i.single() && i.l == 0);
            zc = zc || (!i.single() && i.has(0));
            if (i.single())
                singles.push_back(i.l);
            else
                cont.push_back(i);
        }
        check(A.IsPositive() == pos && A.IsPositive(true) == spos, "domain-is-positive", "");
        check(A.IsNegative() == ng && A.IsNegative(true) == sng, "domain-is-negative", "");
        check(A.IsPosOrNeg() == (pos || ng) && A.IsPosOrNeg(true) == (spos || sng), "domain-is-signed", "");
        check(A.IsInfinite() == inf && A.IsDiscrete() == disc && A.IsContinuous() == !disc, "domain-is-discrete", "");
        check(A.GetSingletons(false) == singles, "domain-values", "all single values");
        check(A.GetSingletons() == (disc ? singles : Vector_<double>()), "domain-values", "single values of a discrete domain");
        expect("domain-continuous-part", A.GetContinuous(), cont);
        std::pair<double, double> two(88, 88);
        const bool boolean = disc && a.size() == 2;
        check(A.IsBoolean() == boolean && A.IsBoolean(&two) == boolean && two.first == (boolean ? a[0].l : 88) && two.second == (boolean ? a[1].l : 88),
              "domain-is-boolean", cat(two.first, " ", two.second));
        double one = 88;
        const bool constant = disc && a.size() == 1;
        check(A.IsConstant() == constant && A.IsConstant(&one) == constant && one == (constant ? a[0].l : 88), "domain-is-constant", cat(one));
        check(value(A.MinBound()) == a.front().l && value(A.MaxBound()) == a.back().r, "domain-bounds", "");
        check(!A.IsEmpty() && Domain_().IsEmpty() && Domain_().Size() == 0, "domain-empty", "");
        check(A.CanBeZero() == has(a, 0) && A.CanBeNonZero() == !(a.size() == 1 && a[0] == Iv{0, 0}), "domain-zero", "");
        check(!Domain_().CanBeZero() && !Domain_().CanBeNonZero() && !Domain_().CanBePositive(false) && !Domain_().CanBeNegative(true), "domain-empty", "");
        check(A.ZeroIsDiscrete() == zd && A.ZeroIsCont() == zc, "domain-zero-kind", "");
        check(A.CanBePositive(true) == (a.back().r > 0) && A.CanBePositive(false) == (a.back().r >= 0), "domain-can-be-positive", "");
        check(A.CanBeNegative(true) == (a.front().l < 0) && A.CanBeNegative(false) == (a.front().l <= 0), "domain-can-be-negative", "");
        for (int k = -26; k <= 26; ++k)
            checkf(A.Includes(k * 0.25) == has(a, k * 0.25), "domain-includes", [&] { return cat(k * 0.25); });
        for (bool strict : {false, true}) {
            double lo = 88, hi = 88, wantLo = 88, wantHi = 88;
            bool anyLo = false, anyHi = false;
            for (auto& i : a)
                if (!anyLo && (strict ? i.l > 0 : i.l >= 0))
                    anyLo = true, wantLo = i.l;
            for (auto i = a.rbegin(); i != a.rend(); ++i)
                if (!anyHi && (strict ? i->r < 0 : i->r <= 0))
                    anyHi = true, wantHi = i->r;
            check(A.SmallestPosLb(lo, strict) == anyLo && lo == wantLo, "domain-next-above-zero", cat(lo, " expected ", wantLo, " strict ", strict));
            check(A.BiggestNegRb(hi, strict) == anyHi && hi == wantHi, "domain-next-below-zero", cat(hi, " expected ", wantHi, " strict ", strict));
        }
        // functions
        auto f = [](double x) { return 0.5 * x * x; };
        const Iv whole{-OO, 64};
        Set image;
        for (double x : singles)
            image.push_back({f(x), f(x)});
        expect("domain-function", A.ApplyFunc(f, lib(whole)), disc ? normal(image) : Set{whole});
        bool discB = true;
        for (auto& i : b)
            discB = discB && i.single();
        auto f2 = [](double x, double y) { return x - 2 * y; };
        Set image2;
        if (disc && discB) {
            for (auto& i : a)
                for (auto& j : b)
                    image2.push_back({f2(i.l, j.l), f2(i.l, j.l)});
            count("functions-of-values");
        }
        expect("domain-function-of-two", A.ApplyFunc2(f2, B, lib(whole)), disc && discB ? normal(image2) : Set{whole});
        count("domains");
        observed(cat(show(a), show(b)), a.size() > 1);
        sample(cat(show(a), " ", show(b)));
    });
}

static int depthOf(const vector<St>& v) {
    int d = 0;
    for (auto& x : v)
        if (x->op == IF)
            d = std::max(d, 1 + std::max(depthOf(x->yes), depthOf(x->no)));
    return d;
}
// is the program's every value a constant known before any path (no spot, no payment)?
static void analysisSection() {
    section("variables", N(8000, 200000), [](Rng& r) {
        const long today = civil::toDays(r.range(2000, 2060), r.range(1, 12), r.range(1, 28));
        setToday(today);
        Gen g = randomScript(r, today);
        const Table t = table(r, g.s);
        desc(t.show());
        ScriptProduct_ p = build(t);
        p.IndexVariables();
        // every variable the text uses has one number
        std::set<string> names, want;
        for (auto& n : p.VarNames())
            names.insert(lower(string(n.c_str())));
        check(names.size() == p.VarNames().size(), "numbered-twice", "a variable has two numbers");
        int depth = 0;
        for (auto& e : g.s.events)
            depth = std::max(depth, depthOf(e.stmts));
        const size_t nested = p.IFProcess();
        check(nested == static_cast<size_t>(depth), "nesting", cat("deepest nesting ", nested, ", expected ", depth));
        if (depth > 1)
            count("nested");
        for (bool fuzzy : {false, true}) {
            Dal::Script::DomainProcessor_ dom(p.VarNames().size(), fuzzy);
            if (!preprocess(g.s, "domain analysis", [&] { p.Visit(dom); }))
                continue;
            const auto& ds = dom.VarDomains();
            check(ds.size() == p.VarNames().size(), "domains-count", "");
            for (int k = 0; k < 3; ++k) {
                const Paths w = paths(r, g.s);
                const Run ref = run(g.s, w.spot, w.num);
                if (!(ref.defined && ref.minDist > 1e-11))
                    continue;
                for (size_t i = 0; i < g.s.vars.size(); ++i)
                    for (size_t j = 0; j < p.VarNames().size(); ++j)
                        if (lower(string(p.VarNames()[j].c_str())) == lower(g.s.vars[i])) {
                            const double x = ref.v[i];
                            const double tol = 1e-9 * (1 + std::fabs(x));
                            bool in = ds[j].Includes(x) || ds[j].Includes(x - tol) || ds[j].Includes(x + tol);
                            for (double v : ds[j].GetSingletons(false)) // rounded differently
                                in = in || std::fabs(v - x) <= tol;
                            checkf(in, "outside-its-domain", [&] { return cat(g.s.vars[i], " = ", x, " is not in ", ds[j].Write(), show(w)); });
                            count("values-in-domains");
                            if (!ds[j].IsInfinite())
                                count("values-in-bounded-domains");
                            double c = 0;
                            if (ds[j].IsConstant(&c)) {
                                check(near(c, x, 1e-9, 1e-9), "not-the-constant", cat(g.s.vars[i], " = ", x, " but was taken as ", c));
                                count("constants");
                            }
                        }
            }
        }
        observed(t.show(), depth > 0);
        sample(t.show());
    });
}

static double cpuSeconds() {
    timespec t;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
// updates under conditions: the number of values a variable may have doubles with every event
static void growthSection() {
    section("growth", N(60, 1500), [](Rng& r) {
        const long today = civil::toDays(r.range(2000, 2050), r.range(1, 12), r.range(1, 28));
        setToday(today);
        const int n = r.range(8, 120), kind = r.range(0, 3);
        struct Step {
            double level, a, b;
        };
        vector<Step> steps;
        Dal::Vector_<Cell_> d;
        Dal::Vector_<String_> ev;
        long day = today;
        for (int i = 0; i < n; ++i) {
            day += r.range(1, 40);
            char lv[40], a[40], b[40], t[300];
            snprintf(lv, sizeof lv, "%.3f", r.uniform(80, 120));
            snprintf(a, sizeof a, "%.5f", kind == 0 ? 1.0 : r.uniform(0.9, 1.08));
            snprintf(b, sizeof b, "%.5f", r.uniform(0.01, 0.9));
            const char* f = kind == 1   ? "IF SPOT() > %s THEN acc = MAX(acc * %s, acc + %s) END"
                            : kind == 2 ? "IF SPOT() > %s THEN acc = acc * %s + %s ELSE acc = acc + 0 END"
                                        : "IF SPOT() > %s THEN acc = acc * %s + %s END";
            snprintf(t, sizeof t, f, lv, a, b);
            steps.push_back({atof(lv), atof(a), atof(b)});
            d.push_back(Cell_(D(day)));
            ev.push_back(String_(t));
        }
        desc(cat(n, " events of kind ", kind, " from ", today, ": ", ev[0].c_str()));
        ScriptProduct_ p(d, ev);
        p.IndexVariables();
        p.IFProcess();
        for (bool fuzzy : {false, true}) {
            Dal::Script::DomainProcessor_ dom(p.VarNames().size(), fuzzy);
            const double t0 = cpuSeconds();
            p.Visit(dom);
            const double used = cpuSeconds() - t0;
            check(used < 30, "analysis-without-end", cat(n, " events took ", used, " seconds"));
            const auto& dm = dom.VarDomains()[0];
            for (int k = 0; k < 10; ++k) {
                double acc = 0;
                const double share = r.unit();
                for (auto& s : steps)
                    if (r.coin(share))
                        acc = kind == 1 ? std::max(acc * s.a, acc + s.b) : acc * s.a + s.b;
                const double tol = 1e-9 * (1 + std::fabs(acc));
                bool in = dm.Includes(acc) || dm.Includes(acc - tol) || dm.Includes(acc + tol);
                for (double v : dm.GetSingletons(false))
                    in = in || std::fabs(v - acc) <= tol;
                check(in, "outside-its-domain", cat("acc = ", acc, " after ", n, " events"));
                count("values-in-domains");
            }
        }
        count(n > 24 ? "long-accumulations" : "short-accumulations");
        observed(S().caseDesc, true);
    });
}

static void body() {
    init();
    growthSection();
    intervalSection();
    domainSection();
    analysisSection();
}
VH_MAIN(body)
