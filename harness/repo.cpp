// P12: the object repository against a reference map, alone and from several threads.
#include "vh.hpp"
#include <locale>
#include <regex>
#include <thread>
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/globals.hpp>
#include <dal/storage/storable.hpp>
#include <dal/storage/box.hpp>
#include <dal/math/cell.hpp>
#include <dal/time/date.hpp>
#include <dal/utilities/exceptions.hpp>
#include <public/src/repository.hpp>
using namespace vh;
using namespace Dal;
namespace {
    std::atomic<long> live{0};
    struct Obj_ : Storable_ {
        const long id;
        Obj_(const char* type, const string& name, long i) : Storable_(type, String_(name)), id(i) { ++live; }
        ~Obj_() override { --live; }
        void Write(Archive::Store_&) const override {}
    };
    string fold(string s) {
        for (auto& c : s)
            c = static_cast<char>(tolower(static_cast<unsigned char>(c)));
        return s;
    }
    struct Entry {
        Handle_<Storable_> h; // keeps nothing alive in the lifetime tests, which use ids
        string tag, type, name;
    };
    const char* MODES[] = {"NONE", "NAME_NONEMPTY", "NAME", "TYPE"};
    RepositoryErase_ mode(int k) { return RepositoryErase_(String_(MODES[k])); }

    const vector<const char*> TYPES = {"Alpha", "Beta", "ALPHA", "Alpha~x", "Al", "Alphabet", "", "~", "A.", "Alpha Beta"};
    string randomName(Rng& r) {
        static const vector<string> base = {"", "x", "X", "xy", "x~", "x~y", "~", "~x", "usd curve", "USD Curve", "usd", "##GLOBAL##z", "0x7f", "x~0x", "a.b", "a*b",
                                            "x~y~z", "y", "name", "names", "Name~", "european call on asset one", "european call on asset two",
                                            "European Call On Asset One", string(70, 'q'), string(71, 'q'), string(70, 'q') + "~r"};
        if (r.coin(0.85))
            return r.pick(base);
        string s;
        if (r.coin(0.3))
            s = string(r.range(5, 300), r.pick({'m', 'n', '~', ' '}));
        for (int i = r.range(1, 8); i > 0; --i)
            s += r.pick({'a', 'B', 'b', '~', '0', '#', ' ', '.', 'x', '$', '[', '('});
        return s;
    }
    string quote(const string& s) {
        string o;
        for (char c : s) {
            if (strchr("^$\\.*+?()[]{}|", c) && c)
                o += '\\';
            o += c;
        }
        return o;
    }

    struct Model {
        std::map<const Storable_*, Entry> all;
        void erase(const std::function<bool(const Entry&)>& f) {
            for (auto i = all.begin(); i != all.end();)
                i = f(i->second) ? all.erase(i) : std::next(i);
        }
    };
    long others = 0; // objects in the repository which are not of this test (the global dates, for instance)

    void wipe() {
        (void)ObjectAccess_().Erase(String_(".*"));
        (void)ObjectAccess_().Erase(String_(""));
    }

    void history(Rng& r, int nOps) {
        wipe();
        const ObjectAccess_ repo;
        check(repo.Size() == 0, "erase-everything", cat("left ", repo.Size()));
        Model m;
        vector<Entry> gone; // erased, but still held here
        vector<string> deadTags;
        long id = 0;
        string log;
        u64 h = 0;
        for (int op = 0; op < nOps; ++op) {
            const int k = r.range(0, 99);
            string what;
            if (k < 40 || m.all.empty()) {
                Entry e;
                const bool again = r.coin(0.15) && (!m.all.empty() || !gone.empty());
                if (again) { // an object which is, or has been, in the repository
                    if (!gone.empty() && (m.all.empty() || r.coin()))
                        e = gone[r.below(gone.size())];
                    else
                        e = std::next(m.all.begin(), r.below(m.all.size()))->second;
                } else {
                    const char* t = r.pick(TYPES);
                    e.type = t;
                    e.name = randomName(r);
                    e.h = Handle_<Storable_>(new Obj_(t, e.name, ++id));
                }
                const int em = r.pick({0, 0, 0, 1, 1, 1, 2, 2, 3});
                const auto sameType = [&](const Entry& x) { return fold(x.type) == fold(e.type); };
                const auto sameName = [&](const Entry& x) { return sameType(x) && fold(x.name) == fold(e.name); };
                const auto victims = [&](const Entry& x) {
                    const bool out = em == 3 ? sameType(x) : em == 2 ? sameName(x) : em == 1 ? !e.name.empty() && sameName(x) : false;
                    if (out && x.h != e.h)
                        gone.push_back(x);
                    return out;
                };
                what = cat("add ", e.type, "/", e.name, " ", MODES[em], again ? " again" : "");
                desc(log += what + "; ");
                e.tag = string(repo.Add(e.h, mode(em)).c_str());
                m.erase(victims);
                m.all[e.h.get()] = e;
                count("added");
                if (again)
                    count("added-again");
            } else if (k < 50) {
                auto e = std::next(m.all.begin(), r.below(m.all.size()))->second;
                const bool other = !gone.empty() && r.coin(0.3);
                if (other)
                    e = gone[r.below(gone.size())];
                const bool there = m.all.count(e.h.get()) > 0;
                what = cat("erase ", e.type, "/", e.name, there ? "" : " (not there)");
                desc(log += what + "; ");
                if (r.coin()) {
                    const bool done = repo.Erase(*e.h);
                    check(done == there, "erase-object", cat(what, " said ", done));
                } else {
                    Vector_<Handle_<Storable_>> v;
                    int expect = there;
                    v.push_back(e.h);
                    if (r.coin(0.4)) {
                        v.push_back(e.h);
                    }
                    auto f = std::next(m.all.begin(), r.below(m.all.size()))->second;
                    if (r.coin(0.4)) {
                        v.push_back(f.h);
                        if (f.h != e.h) {
                            ++expect;
                            gone.push_back(f);
                            m.all.erase(f.h.get());
                        }
                    }
                    const int n = EraseRepository(v);
                    check(n == expect, "erase-objects", cat(what, " said ", n, " expected ", expect));
                }
                if (there) {
                    m.all.erase(e.h.get());
                    gone.push_back(e);
                }
                count("erased");
            } else if (k < 78) { // a pattern
                string p;
                const auto& e = std::next(m.all.begin(), r.below(m.all.size()))->second;
                switch (r.range(0, 8)) {
                case 0: p = "^" + quote(e.tag) + "$"; break;
                case 1: p = "^~" + quote(e.type) + "~"; break;
                case 2: p = quote(e.name); break;
                case 3: p = "^~" + quote(e.type) + "~" + quote(e.name) + "~"; break;
                case 4: p = quote(e.tag.substr(r.below(e.tag.size()), r.range(1, 4))); break;
                case 5: p = r.pick({"x|y", "[0-3]$", "^~A.*~[a-z]*~0x", "usd", "USD", "^~alpha", "f$", "##", "~~", "a.b", "no such thing", "[A-Z]{2}", "(x)~.*\\1$"}); break;
                case 6: p = ""; break;
                case 7: p = "^" + quote(e.tag.substr(0, r.range(0, static_cast<int>(e.tag.size())))); break;
                default: p = r.pick({".*", ".", "^$", "~$", "^~"});
                }
                const std::regex re(p);
                std::set<const Storable_*> expect;
                for (auto& x : m.all)
                    if (std::regex_search(x.second.tag, re))
                        expect.insert(x.first);
                if (k < 68) {
                    what = "find " + p;
                    desc(log += what + "; ");
                    auto found = r.coin() ? repo.Find(String_(p)) : FindRepository(String_(p));
                    std::set<const Storable_*> got;
                    for (auto& f : found)
                        got.insert(f.get());
                    check(got == expect && found.size() == got.size(), "find", cat(what, " found ", found.size(), " expected ", expect.size()));
                    count("found", expect.size());
                    count("searches");
                } else {
                    what = "erase like " + p;
                    desc(log += what + "; ");
                    const int n = repo.Erase(String_(p));
                    check(n == static_cast<int>(expect.size()), "erase-pattern", cat(what, " said ", n, " expected ", expect.size()));
                    for (auto* x : expect) {
                        gone.push_back(m.all[x]);
                        m.all.erase(x);
                    }
                    count("pattern-erased", expect.size());
                }
            } else if (k < 84) { // refused
                const int which = r.range(0, 4);
                what = cat("refused ", which);
                desc(log += what + "; ");
                if (which == 0)
                    check(throws([&] { (void)repo.Erase(String_(r.pick({"[", "(", "*", "a{2", "\\"}))); }), "bad-pattern", "erase");
                else if (which == 1)
                    check(throws([&] { (void)repo.Find(String_(r.pick({"[", "(", "*", "a{2", "\\"}))); }), "bad-pattern", "find");
                else if (which == 2)
                    check(throws([&] { (void)repo.Add(Handle_<Storable_>(), mode(r.range(0, 3))); }), "null-added");
                else if (which == 3) {
                    Vector_<Handle_<Storable_>> v;
                    if (!m.all.empty())
                        v.push_back(m.all.begin()->second.h);
                    v.push_back(Handle_<Storable_>());
                    check(throws([&] { EraseRepository(v); }), "null-erased");
                } else {
                    string t = r.pick({"", "~", "no such tag", "~Alpha~x~"});
                    check(throws([&] { (void)repo.Fetch(String_(t)); }), "fetched-nothing", t);
                    check(!repo.Fetch(String_(t), true), "fetched-nothing-quietly", t);
                }
                count("refused");
            } else if (k < 88 && !gone.empty()) { // forget: nothing but the repository may hold objects then
                desc(log += "forget; ");
                for (auto& e : gone)
                    if (!m.all.count(e.h.get()))
                        deadTags.push_back(e.tag);
                gone.clear();
            } else {
                desc(log += "fetch all; ");
            }
            h = mix(h ^ hashStr(what));
            // the whole state, as a user sees it
            check(repo.Size() == static_cast<int>(m.all.size()) && SizeRepository() == repo.Size(), "size", cat("after ", what, ": ", repo.Size(), " expected ", m.all.size()));
            for (auto& x : m.all) {
                const auto f = repo.Fetch(String_(x.second.tag), true);
                if (!checkf(f && f.get() == x.first, "handle-lost", [&] { return cat("after ", what, ": ", x.second.tag, " gives ", f ? "another object" : "nothing"); }))
                    break;
            }
            std::map<string, int> tags;
            for (auto& x : m.all)
                if (++tags[fold(x.second.tag)] > 1)
                    violation("tags-shared", x.second.tag);
            for (auto& e : gone)
                if (!m.all.count(e.h.get()) && repo.Fetch(String_(e.tag), true)) {
                    violation("erased-still-there", cat("after ", what, ": ", e.tag));
                    break;
                }
            std::set<const Storable_*> held;
            for (auto& x : m.all)
                held.insert(x.first);
            for (auto& e : gone)
                held.insert(e.h.get());
            check(live == static_cast<long>(held.size()), "lifetime", cat("after ", what, ": ", live.load(), " alive, ", held.size(), " held"));
            count("states-compared");
        }
        (void)deadTags;
        observed(h, nOps > 3);
        sample(log);
        wipe();
    }

    // only the repository holds the objects: they live exactly as long as they are stored
    void lifetime(Rng& r) {
        wipe();
        const ObjectAccess_ repo;
        std::map<string, long> tagToId;
        long id = 0;
        for (int op = 0; op < 40; ++op) {
            if (tagToId.empty() || r.coin(0.6)) {
                ++id;
                const string nm = cat("n", r.range(0, 5));
                Handle_<Storable_> h(new Obj_("Life", nm, id));
                const bool rep = r.coin();
                const string tag = repo.Add(h, mode(rep ? 2 : 0)).c_str();
                if (rep)
                    for (auto i = tagToId.begin(); i != tagToId.end();)
                        i = i->first.find("~" + nm + "~") != string::npos ? tagToId.erase(i) : std::next(i);
                tagToId[tag] = id;
            } else {
                auto it = std::next(tagToId.begin(), r.below(tagToId.size()));
                check(repo.Erase(String_("^" + quote(it->first) + "$")) == 1, "lifetime:erase", it->first);
                tagToId.erase(it);
            }
            check(live == static_cast<long>(tagToId.size()), "lifetime:count", cat(live.load(), " alive, ", tagToId.size(), " stored"));
            for (auto& x : tagToId) {
                auto f = repo.Fetch(String_(x.first), true);
                auto* o = dynamic_cast<const Obj_*>(f.get());
                check(o && o->id == x.second, "lifetime:fetch", x.first);
            }
            count("lifetime-states");
        }
        wipe();
        check(live == 0, "lifetime:end", cat(live.load()));
        observed(r.next());
    }

    struct Ev {
        long start, end, id;
    };
    // several threads: own entries are never disturbed; one shared name is replaced atomically; every erasure happens once
    void concurrent(Rng& r) {
        wipe();
        const int T = r.range(3, 7), K = r.range(20, 60);
        const u64 seed = r.next();
        const int flavour = r.range(0, 3);
        desc(cat("threads ", T, " rounds ", K, " flavour ", flavour));
        std::atomic<long> clock{0};
        std::atomic<int> go{0};
        vector<vector<Ev>> adds(T), reads(T);
        vector<Handle_<Storable_>> contested;
        for (int i = 0; i < 40; ++i) {
            contested.push_back(Handle_<Storable_>(new Obj_("Contested", cat("c", i), -i)));
            (void)ObjectAccess_().Add(contested.back(), mode(0));
        }
        vector<std::atomic<int>> erased(40);
        std::atomic<int> eraseLike{0};
        for (int i = 0; i < 30; ++i)
            (void)ObjectAccess_().Add(Handle_<Storable_>(new Obj_("Like", cat("l", i), -100 - i)), mode(0));
        { // the shared name is there from the start
            const long s = clock++;
            (void)ObjectAccess_().Add(Handle_<Storable_>(new Obj_("Shared", "one", 1)), mode(2));
            adds[0].push_back({s, clock++, 1});
        }
        vector<std::thread> th;
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                Rng q(seed + t * 7919);
                const ObjectAccess_ repo;
                const string myType = "Own" + std::to_string(t);
                std::map<string, Handle_<Storable_>> mine;
                ++go;
                while (go < T)
                    std::this_thread::yield();
                for (int k = 0; k < K; ++k) {
                    try {
                        const int op = q.range(0, 9);
                        if (op < 2) {
                            Handle_<Storable_> h(new Obj_(myType.c_str(), cat("m", q.range(0, 6)), 1000 + k));
                            const string tag = repo.Add(h, mode(0)).c_str();
                            mine[tag] = h;
                        } else if (op < 5) {
                            const long id = (t + 1) * 100000 + k;
                            Handle_<Storable_> h(new Obj_("Shared", flavour == 1 ? "ONE" : "one", id));
                            const long s = clock++;
                            (void)repo.Add(h, mode(flavour == 2 ? 3 : flavour == 3 ? 1 : 2));
                            adds[t].push_back({s, clock++, id});
                        } else if (op < 8) {
                            const long s = clock++;
                            const auto f = q.coin() ? repo.Find("^~Shared~") : FindRepository("^~Shared~");
                            const long e = clock++;
                            check(f.size() == 1, "concurrent:replacement-not-atomic", cat("found ", f.size()));
                            if (f.size() == 1)
                                reads[t].push_back({s, e, dynamic_cast<const Obj_&>(*f[0]).id});
                        } else if (op == 8) {
                            const int i = q.range(0, 39);
                            if (q.coin() ? repo.Erase(*contested[i]) : EraseRepository(Vector_<Handle_<Storable_>>(1, contested[i])) == 1)
                                ++erased[i];
                        } else {
                            eraseLike += repo.Erase(String_(cat("^~Like~l", q.range(0, 2))));
                            (void)repo.Size();
                        }
                        for (auto& x : mine) {
                            auto f = repo.Fetch(String_(x.first), true);
                            check(f == x.second, "concurrent:own-entry-lost", x.first);
                        }
                        if (!mine.empty() && q.coin(0.2)) {
                            auto it = std::next(mine.begin(), q.below(mine.size()));
                            check(repo.Erase(*it->second), "concurrent:own-entry-erased-by-other", it->first);
                            check(!repo.Fetch(String_(it->first), true), "concurrent:erased-still-there", it->first);
                            mine.erase(it);
                        }
                        const auto own = repo.Find(String_("^~" + myType + "~"));
                        check(own.size() == mine.size(), "concurrent:own-entries", cat(own.size(), " expected ", mine.size()));
                    } catch (const std::exception& e) {
                        violation("concurrent:exception", e.what());
                    }
                }
                for (auto& x : mine)
                    check(repo.Erase(*x.second), "concurrent:own-entry-lost", "at the end");
            });
        for (auto& x : th)
            x.join();
        const ObjectAccess_ repo;
        // a reader saw the latest addition that was over before, or one that overlaps
        std::map<long, Ev> byId;
        vector<Ev> allAdds;
        for (auto& v : adds)
            for (auto& e : v)
                byId[e.id] = e, allAdds.push_back(e);
        long overlaps = 0;
        for (auto& v : reads)
            for (auto& q : v) {
                auto i = byId.find(q.id);
                if (!check(i != byId.end() && i->second.start < q.end, "concurrent:read-from-nowhere", cat(q.id)))
                    continue;
                for (auto& w : allAdds) {
                    check(!(i->second.end < w.start && w.end < q.start), "concurrent:stale-read", cat("saw ", q.id, " after ", w.id));
                    overlaps += w.start < q.end && q.start < w.end;
                }
            }
        int n = 0;
        for (int i = 0; i < 40; ++i) {
            check(erased[i] <= 1, "concurrent:erased-twice", cat(i, " ", erased[i].load()));
            n += erased[i];
        }
        check(static_cast<int>(repo.Find("^~Contested~").size()) == 40 - n, "concurrent:contested", cat(n));
        check(static_cast<int>(repo.Find("^~Like~").size()) == 30 - eraseLike, "concurrent:pattern-erasures-counted", cat(eraseLike.load()));
        check(repo.Find("^~Shared~").size() == 1, "concurrent:shared-left");
        contested.clear();
        wipe();
        check(live == 0, "concurrent:lifetime", cat(live.load()));
        count("concurrent-adds", allAdds.size());
        count("overlapping-operations", overlaps);
        count("contested-erasures", n);
        observed(seed, overlaps > 0);
        sample(cat(T, " threads, ", allAdds.size(), " replacements, ", overlaps, " overlaps"));
    }
} // namespace
static void body() {
    // the standard library fills a cache of its own without synchronisation when a pattern is first built (GCC bug 77704)
    const auto& ct = std::use_facet<std::ctype<char>>(std::locale());
    for (int c = 0; c < 256; ++c)
        (void)ct.narrow(static_cast<char>(c), 0), (void)ct.widen(static_cast<char>(c));
    section("histories", N(1500, 20000), [](Rng& r) { history(r, r.size(5, 45, 400, 0.02)); });
    section("lifetime", N(120,1500), lifetime);
    section("concurrent", N(160, 1500), concurrent);
}
VH_MAIN(body)
