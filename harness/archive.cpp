// P11: archived objects read back as they were written.
#include "archive.hpp"

// observable behaviour beyond what the object writes about itself
static std::string behaviour(const Storable_& o, uint64_t seed) {
    Rng r(seed);
    std::string out = std::string(typeid(o).name()) + " name=" + esc(std_(o.Name())) + " type=" + std_(o.Type()) + ":";
    auto put = [&](double d) { out += Recorder_::A(d) + " "; };
    if (auto p = dynamic_cast<const Box_*>(&o))
        out += Recorder_::M(p->contents_);
    else if (auto p = dynamic_cast<const Bag_*>(&o)) {
        for (const auto& kv : p->contents_)
            out += Recorder_::A(kv.first) + "->" + std::string(typeid(*kv.second).name()) + ";";
    } else if (auto p = dynamic_cast<const Interp1_*>(&o)) {
        double hi = 100;
        if (auto l = dynamic_cast<const Interp1Linear_*>(p))
            out += Recorder_::V(l->x()) + Recorder_::V(l->f()), hi = 200;
        for (int i = 0; i < 20; ++i)
            try {
                put((*p)(r.uniform(-120, hi)));
            } catch (const std::exception&) {
                out += "refused ";
            }
    } else if (auto p = dynamic_cast<const Interp2_*>(&o)) {
        for (int i = 0; i < 20; ++i) {
            const double x = r.uniform(-120, 120);
            put((*p)(x, r.uniform(-120, 120)));
        }
    } else if (auto p = dynamic_cast<const DiscountCurve_*>(&o)) {
        for (int i = 0; i < 20; ++i) {
            const int from = r.range(25600, 50100);
            put((*p)(Date::FromExcel(from), Date::FromExcel(from + r.range(0, 300))));
        }
    } else if (auto p = dynamic_cast<const PiecewiseConstant_*>(&o)) {
        out += Recorder_::V(p->knotDates_) + Recorder_::V(p->fRight_);
        for (int i = 0; i < 10; ++i)
            put(p->IntegralTo(Date::FromExcel(r.range(25600, 50200))));
    } else if (auto p = dynamic_cast<const BSModelData_*>(&o))
        put(p->spot_), put(p->vol_), put(p->rate_), put(p->div_);
    else if (auto p = dynamic_cast<const DupireModelData_*>(&o)) {
        put(p->spot_), put(p->rate_), put(p->repo_);
        out += Recorder_::V(p->spots_) + Recorder_::V(p->times_) + Recorder_::M(p->vols_);
    } else if (auto p = dynamic_cast<const Fixings_*>(&o)) {
        for (const auto& kv : p->vals_)
            out += Recorder_::A(kv.first) + "=" + Recorder_::A(kv.second) + ";";
    } else if (auto p = dynamic_cast<const PseudoRSG_*>(&o)) {
        Vector_<> u(p->NDim());
        out += cat(p->NDim(), " ");
        for (int i = 0; i < 3; ++i) { // consumes the generator: each object is asked once
            p->FillUniform(&u);
            out += Recorder_::V(u);
            p->FillNormal(&u);
            out += Recorder_::V(u);
        }
    } else if (auto p = dynamic_cast<const Report_*>(&o)) {
        auto axes = p->Axes();
        std::vector<int> sizes;
        long total = 1;
        for (const auto& a : axes) {
            sizes.push_back(p->Size(a));
            total *= sizes.back();
            const auto& h = p->Header(a);
            out += Recorder_::A(a) + cat(":", sizes.back()) + Recorder_::V(h.labels_) + Recorder_::M(h.values_);
        }
        for (long k = 0; k < total; ++k) {
            auto at = p->MakeAddress();
            long rest = k;
            for (size_t a = 0; a < sizes.size(); ++a)
                at[axes[a]] = rest % sizes[a], rest /= sizes[a];
            put((*p)[at]);
        }
    }
    return out;
}

static std::string diff(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    const size_t from = i > 60 ? i - 60 : 0;
    return "written ..." + a.substr(from, 160) + "... read ..." + b.substr(from, 160);
}
enum Format { JSON_TEXT, JSON_FILE, TABLE, TABLE_FILE };
static const char* FORMAT_NAMES[] = {"json-text", "json-file", "table", "table-file"};

static H through(const Storable_& o, Format f, const Scratch& dir, std::string* text) {
    switch (f) {
    case JSON_TEXT: {
        const String_ s = JSON::WriteString(o);
        *text = std_(s).substr(0, 400);
        return JSON::ReadString(s, true);
    }
    case JSON_FILE:
        JSON::WriteFile(o, dir.file("o.json"));
        return JSON::ReadFile(dir.file("o.json"), true);
    case TABLE: {
        const auto m = Splat(o);
        return UnSplat(m, true);
    }
    default:
        SplatFile(dir.file("o.csv"), o);
        return UnSplatFile(dir.file("o.csv"), true);
    }
}
// pointers of the graph in the order of the (canonical) walk, to compare sharing
static void walk(const H& h, std::vector<const Storable_*>& out) {
    out.push_back(h.get());
    if (auto p = dynamic_cast<const Bag_*>(h.get()))
        for (const auto& kv : p->contents_)
            walk(kv.second, out);
    else if (auto p = dynamic_cast<const Every_*>(h.get())) {
        for (const auto& k : p->kids_)
            walk(k, out);
        if (p->curve_)
            out.push_back(p->curve_.get());
    }
}

static void body() {
    Scratch dir;
    for (int f = 0; f < 4; ++f)
        section(FORMAT_NAMES[f], N(2500, 40000), [&](Rng& r) {
            Gen g(r, f <= JSON_FILE, f == TABLE_FILE);
            const int kind = r.coin(0.3) ? (r.coin() ? 1 : Gen::KINDS - 1) : r.below(Gen::KINDS);
            const H o = g.make(kind, r.range(0, 3));
            desc(cat(FORMAT_NAMES[f], " of a ", std_(o->Type())));
            const std::string before = account(*o);
            std::string text;
            H back;
            try {
                back = through(*o, static_cast<Format>(f), dir, &text);
            } catch (const std::exception& e) {
                violation("unreadable", cat(FORMAT_NAMES[f], " of a ", std_(o->Type()), " could not be written and read back: ", std::string(e.what()).substr(0, 300),
                                            " | ", esc(before.substr(0, 300))));
                return;
            }
            check(!!back, "no-object", cat(FORMAT_NAMES[f], " gives no object"));
            if (!back)
                return;
            const std::string after = account(*back);
            check(before == after, "changed", cat(FORMAT_NAMES[f], " of a ", std_(o->Type()), " changed: ", esc(diff(before, after))));
            std::vector<const Storable_*> a, b;
            walk(o, a), walk(back, b);
            check(a.size() == b.size(), "graph", "another number of objects was read than written");
            std::map<const Storable_*, const Storable_*> ab, ba;
            for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
                const bool first = !ab.count(a[i]);
                check(first ? !ba.count(b[i]) : ab[a[i]] == b[i], "sharing",
                      cat("object ", i, " of the graph is ", first ? "read as one already read" : "read as a copy of itself", " from ", FORMAT_NAMES[f]));
                if (first) {
                    ab[a[i]] = b[i], ba[b[i]] = a[i];
                    const uint64_t seed = r.next();
                    const std::string x = behaviour(*a[i], seed), y = behaviour(*b[i], seed);
                    check(x == y, "behaviour", cat(FORMAT_NAMES[f], ": a ", std_(a[i]->Type()), " behaves differently: ", esc(diff(x, y))));
                    count("objects");
                } else
                    count("shared-references");
            }
            count(FORMAT_NAMES[f]);
            count(cat("kind-", std_(o->Type())));
            observed(before, before.size() > 40);
            if (r.coin(0.0005))
                sample(cat(FORMAT_NAMES[f], " ", esc(before.substr(0, 200))));
        });

    // an object referenced several times is written once: the text of a bag of n references grows by the reference only
    section("written-once", N(200, 3000), [&](Rng& r) {
        Gen g(r, true, false);
        const int n = r.range(2, 40);
        std::string marker = cat("marker", r.range(0, 1000000), "end");
        const H o(new Box_(dal_(marker), g.mat<Cell_>([&] { return g.cell(); })));
        std::multimap<String_, H> m;
        for (int i = 0; i < n; ++i)
            m.insert(std::make_pair(dal_(cat("k", i)), o));
        const Bag_ bag("bag", m);
        const std::string text = std_(JSON::WriteString(bag));
        size_t times = 0;
        for (size_t at = text.find(marker); at != std::string::npos; at = text.find(marker, at + 1))
            ++times;
        check(times == 1, "written-often", cat("an object referenced ", n, " times is written ", times, " times"));
        const auto table = Splat(bag);
        times = 0;
        for (int i = 0; i < table.Rows(); ++i)
            for (int j = 0; j < table.Cols(); ++j)
                times += table(i, j) == dal_(marker);
        check(times == 1, "written-often", cat("an object referenced ", n, " times is in the table ", times, " times"));
        count("written-once");
        observed(cat(n, marker));
    });

    // deep and long chains
    section("nested", N(60, 600), [&](Rng& r) {
        const int n = r.pick(std::vector<int>{1, 2, 10, 100, 400});
        const bool json = n > 10 || r.coin();
        Gen g(r, json, false);
        H o(new Box_("inner", g.mat<Cell_>([&] { return g.cell(); })));
        for (int i = 0; i < n; ++i) {
            std::multimap<String_, H> m;
            m.insert(std::make_pair(dal_(cat("k", i)), o));
            o = H(new Bag_(dal_(cat("bag", i)), m));
        }
        std::string text;
        const H back = through(*o, json ? JSON_TEXT : TABLE, dir, &text);
        check(account(*o) == account(*back), "changed", cat("a chain of ", n, " bags changed"));
        count("nested");
        observed(cat(n, json, r.next()));
    });
}
VH_MAIN(body)
