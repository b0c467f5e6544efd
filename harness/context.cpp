// P28: notes carried by errors, environments and auditors against reference stacks.
#include "vh.hpp"
#include <memory>
#include <thread>
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/currency/currency.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/indexparse.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/audit.hpp>
#include <dal/storage/json.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/holidays.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/utilities/environment.hpp>
#include <dal/utilities/exceptions.hpp>
using namespace vh;
using namespace Dal;
namespace {
    // ---- notes
    thread_local vector<string> inForce;
    struct Expect {
        explicit Expect(const string& s) { inForce.push_back(s); }
        ~Expect() { inForce.pop_back(); }
    };
    std::atomic<long> thrown{0}, noteChecks{0};
    void checkMessage(const string& what, const string& msg, const vector<string>& notes) {
        // "... <msg>\nnote\nnote" : the notes are exactly the end of the text
        string tail;
        for (auto& n : notes)
            tail += "\n" + n;
        const string end = msg + tail;
        const bool ok = what.size() >= end.size() && what.compare(what.size() - end.size(), end.size(), end) == 0;
        checkf(ok, "notes-of-error", [&] { return cat("'", what, "' should end with '", end, "'"); });
        ++noteChecks;
    }
    // errors of the library itself, which has notes of its own
    void libraryError(Rng& r) {
        string what;
        bool t = false;
        switch (r.range(0, 8)) {
        case 0: t = throws([] { (void)Date::FromString("2021-02-30"); }, &what); break;
        case 1: t = throws([] { (void)ObjectAccess_().Fetch("no such thing"); }, &what); break;
        case 2: t = throws([] { Holidays_ h("NOWHERE"); }, &what); break;
        case 3: t = throws([] { Ccy_ c(String_("ZZZ")); }, &what); break;
        case 4: t = throws([] { (void)Date::ParseIncrement("7Q"); }, &what); break;
        case 5: t = throws([] { (void)String::ToDouble("1x"); }, &what); break;
        case 6: t = throws([] { std::unique_ptr<Index_> i(Index::Parse("QQ[z]")); }, &what); break;
        case 7: t = throws([] { (void)JSON::ReadString("{\"~type\":\"Nope\"}", false); }, &what); break;
        default: t = throws([] { (void)Dictionary::FromString("a;b"); }, &what);
        }
        check(t && !what.empty(), "library-error", what);
        // the notes in force here come first, whatever the library adds
        size_t pos = 0;
        for (auto& n : inForce) {
            pos = what.find("\n" + n, pos);
            if (!check(pos != string::npos, "notes-lost-in-library", cat(n, " not in ", what)))
                break;
            pos += n.size() + 1;
        }
    }
    void fail(Rng& r) {
        const string msg = cat("failure ", r.range(0, 999));
        ++thrown;
        switch (r.range(0, 4)) {
        case 0: THROW(msg);
        case 1: THROW(String_(msg));
        case 2: THROW(msg.c_str());
        case 3: REQUIRE(false, msg);
        default: THROW2(msg, ScriptError_);
        }
    }
    struct Caught {
        string what;
        vector<string> notes;
    };
    thread_local vector<string> atThrow;
    thread_local string msgThrown;
    // random nesting; an error may leave any number of levels
    void nest(Rng& r, int depth) {
        for (int n = r.range(1, 4); n > 0; --n) {
            const int k = depth > 8 ? r.pick({7, 8, 9}) : r.range(0, 10);
            const int i = r.range(-1000, 1000);
            if (k == 0) {
                NOTE("plain note");
                Expect e("plain note");
                nest(r, depth + 1);
            } else if (k == 1) {
                NOTICE(i);
                Expect e(cat("i = ", i));
                nest(r, depth + 1);
            } else if (k == 2) {
                const string t = cat("text", i) + (i % 10 == 0 ? string(100 + std::abs(i), 'w') + "end" : string());
                const String_ s(t);
                NOTICE2("S", s);
                Expect e("S = " + t);
                nest(r, depth + 1);
            } else if (k == 3) {
                const Date_ d(2000 + std::abs(i) % 50, 3, 7);
                NOTICE(d);
                Expect e(cat("d = ", Date::ToString(d).c_str()));
                nest(r, depth + 1);
            } else if (k == 4) {
                const DateTime_ dt(Date_(2000 + std::abs(i) % 50, 3, 7), 10, 20, 30);
                NOTICE(dt);
                Expect e(cat("dt = ", DateTime::ToString(dt).c_str()));
                nest(r, depth + 1);
            } else if (k == 5) {
                const double x = i * 0.5;
                NOTICE(x);
                Expect e("x = " + std::to_string(x));
                nest(r, depth + 1);
            } else if (k == 6) {
                const char* c = "a literal";
                NOTICE(c);
                Expect e("c = a literal");
                // two notes in one scope, and a change after the note was made: the value at the time of the error counts
                int j = i;
                NOTICE(j);
                j += 5;
                Expect e2(cat("j = ", j));
                nest(r, depth + 1);
            } else if (k == 7 && depth > 0) { // fail, through any number of levels
                try {
                    fail(r);
                } catch (const std::exception& ex) {
                    const string what = ex.what();
                    const auto p = what.find("failure ");
                    string msg;
                    if (check(p != string::npos, "message-lost", what)) {
                        auto q = what.find('\n', p);
                        msg = what.substr(p, q == string::npos ? q : q - p);
                    }
                    checkMessage(what, msg, inForce);
                    if (r.coin(0.4))
                        throw;
                }
            } else if (k == 8)
                libraryError(r);
            else if (k == 9) { // caught a few levels up
                const auto before = inForce;
                try {
                    nest(r, depth + 1);
                } catch (const Exception_&) {
                }
                check(before == inForce, "harness");
                // nothing stays behind
                try {
                    THROW("failure probe");
                } catch (const std::exception& ex) {
                    checkMessage(ex.what(), "failure probe", inForce);
                }
            }
        }
    }
    void notes(Rng& r) {
        desc("notes");
        try {
            nest(r, 0);
        } catch (const Exception_&) {
        }
        try {
            THROW("failure at the end");
        } catch (const std::exception& ex) {
            checkMessage(ex.what(), "failure at the end", {});
        }
        observed(r.next());
    }
    // many notes in force at once, all of them shown
    void deep(Rng& r, int left) {
        if (left == 0) {
            try {
                THROW("failure below");
            } catch (const std::exception& ex) {
                checkMessage(ex.what(), "failure below", inForce);
            }
            return;
        }
        NOTICE(left);
        Expect e(cat("left = ", left));
        deep(r, left - 1);
        if (left % 50 == 0)
            deep(r, 0);
    }
    void deepNotes(Rng& r) {
        const int n = r.range(10, 400);
        desc(cat(n, " notes"));
        deep(r, n);
        deep(r, 0);
        count("deep-notes", n);
        observed(cat(n));
    }
    void noteThreads(Rng& r) {
        const int n = r.range(3, 6);
        const u64 seed = r.next();
        std::atomic<int> go{0};
        vector<std::thread> th;
        for (int t = 0; t < n; ++t)
            th.emplace_back([&, t] {
                Rng q(seed + t);
                ++go;
                while (go < n)
                    std::this_thread::yield();
                for (int k = 0; k < 4; ++k) {
                    try {
                        NOTICE(t);
                        Expect e(cat("t = ", t));
                        nest(q, 1);
                    } catch (const Exception_&) {
                    }
                    try {
                        THROW("failure of a thread");
                    } catch (const std::exception& ex) {
                        checkMessage(ex.what(), "failure of a thread", {});
                    }
                }
            });
        for (auto& x : th)
            x.join();
        count("thread-notes", n);
        observed(seed);
    }

    // ---- environments
    struct A_ : Environment::Entry_ {
        int id;
        explicit A_(int i) : id(i) {}
    };
    struct B_ : Environment::Entry_ {
        int id;
        explicit B_(int i) : id(i) {}
    };
    struct C_ : A_ {
        explicit C_(int i) : A_(i) {}
    };
    struct E {
        char kind;
        int id;
        const Environment::Entry_* p;
    };
    void checkEnv(_ENV, const vector<E>& in) { // innermost first
        vector<const Environment::Entry_*> got;
        Environment::Iterate(_env, [&](const Environment::Entry_& e) { got.push_back(&e); });
        bool ok = got.size() == in.size();
        for (size_t i = 0; ok && i < in.size(); ++i)
            ok = got[i] == in[i].p;
        checkf(ok, "environment-iterate", [&] { return cat(got.size(), " entries, expected ", in.size()); });
        vector<const Environment::Entry_*> as, bs, cs;
        for (auto& e : in) {
            if (e.kind != 'B')
                as.push_back(e.p);
            if (e.kind == 'B')
                bs.push_back(e.p);
            if (e.kind == 'C')
                cs.push_back(e.p);
        }
        auto same = [](const auto& a, const vector<const Environment::Entry_*>& b) {
            bool ok = a.size() == b.size();
            for (size_t i = 0; ok && i < b.size(); ++i)
                ok = a[i] == b[i];
            return ok;
        };
        check(same(Environment::Collect<A_>(_env), as), "environment-collect", "A");
        check(same(Environment::Collect<B_>(_env), bs), "environment-collect", "B");
        check(same(Environment::Collect<C_>(_env), cs), "environment-collect", "C");
        check(Environment::Find<A_>(_env) == (as.empty() ? nullptr : as[0]), "environment-find", "A");
        check(Environment::Find<B_>(_env) == (bs.empty() ? nullptr : bs[0]), "environment-find", "B");
        check(Environment::Find<C_>(_env) == (cs.empty() ? nullptr : cs[0]), "environment-find", "C");
        // by a condition
        for (int want = 0; want < 3; ++want) {
            auto f = [&](const Environment::Entry_& e) { auto a = dynamic_cast<const A_*>(&e); return a && a->id % 3 == want ? a : nullptr; };
            const A_* expect = nullptr;
            for (auto& e : in)
                if (!expect && e.kind != 'B' && e.id % 3 == want)
                    expect = static_cast<const A_*>(e.p);
            check(Environment::Find(_env, f) == expect, "environment-find-if", cat(want));
        }
        count("environments-compared");
    }
    struct Stop {};
    void envNest(Rng& r, _ENV, vector<E> in, int depth, int& next) {
        checkEnv(_env, in);
        for (int n = r.range(1, 3); n > 0; --n) {
            const int k = depth > 6 ? 5 : r.range(0, 6);
            const int id = ++next;
            const Environment_* before = _env;
            auto with = [&](char kind, const Environment::Entry_& e) {
                vector<E> inner = in;
                inner.insert(inner.begin(), E{kind, id, &e});
                return inner;
            };
            try {
                if (k == 0) {
                    const A_ a(id);
                    ENV_ADD(a);
                    envNest(r, _env, with('A', a), depth + 1, next);
                    checkEnv(_env, with('A', a));
                } else if (k == 1) {
                    const B_ a(id);
                    ENV_ADD(a);
                    envNest(r, _env, with('B', a), depth + 1, next);
                } else if (k == 2) {
                    const C_ a(id);
                    ENV_ADD(a);
                    envNest(r, _env, with('C', a), depth + 1, next);
                    checkEnv(_env, with('C', a));
                } else if (k == 3) { // two in one scope
                    const A_ a(id);
                    ENV_ADD(a);
                    const B_ b(id + 1);
                    ENV_ADD(b);
                    auto i1 = with('A', a);
                    i1.insert(i1.begin(), E{'B', id + 1, &b});
                    ++next;
                    envNest(r, _env, i1, depth + 1, next);
                } else if (k == 4 && depth > 0)
                    throw Stop();
                else
                    checkEnv(_env, in);
            } catch (const Stop&) {
                check(_env == before, "environment-not-restored", "by exception");
                checkEnv(_env, in);
                if (r.coin(0.4))
                    throw;
            }
            check(_env == before, "environment-not-restored");
            checkEnv(_env, in);
        }
    }
    void environments(Rng& r) {
        int next = 0;
        vector<E> in;
        Vector_<Handle_<Environment::Entry_>> own;
        const int kind = r.range(0, 2);
        if (kind > 0)
            for (int n = kind == 1 ? 0 : r.range(1, 4); n > 0; --n) {
                const int id = ++next;
                const char k = r.pick({'A', 'B', 'C'});
                own.push_back(Handle_<Environment::Entry_>(k == 'A' ? static_cast<Environment::Entry_*>(new A_(id)) : k == 'B' ? static_cast<Environment::Entry_*>(new B_(id)) : new C_(id)));
                in.push_back(E{k, id, own.back().get()});
            }
        const Environment::Base_ base(own);
        desc(cat("base ", kind, " ", own.size()));
        try {
            envNest(r, kind ? &base : nullptr, in, 0, next);
        } catch (const Stop&) {
        }
        observed(r.next(), next > 2);
    }

    // ---- auditors
    struct Thing_ : Storable_ {
        int id;
        explicit Thing_(int i) : Storable_("Thing", String_(cat("t", i % 3))), id(i) {}
        void Write(Archive::Store_&) const override {}
    };
    struct Other_ : Storable_ {
        explicit Other_(int i) : Storable_("Other", String_(cat("o", i % 3))) {}
        void Write(Archive::Store_&) const override {}
    };
    void audits(Rng& r) {
        const int n = r.range(1, 3);
        vector<std::unique_ptr<AuditorImp_>> au;
        vector<bool> exclusive;
        vector<std::multimap<string, const Storable_*>> seen(n);
        const Environment_* _env = nullptr;
        vector<std::unique_ptr<Environment::XDecorated_>> scopes;
        const A_ noise(1);
        for (int i = 0; i < n; ++i) {
            au.emplace_back(new AuditorImp_);
            exclusive.push_back(r.coin(0.4));
            if (exclusive[i])
                au[i]->mode_ = AuditorImp_::READING_EXCLUSIVE;
            else
                au[i]->mode_ = AuditorImp_::READING;
            scopes.emplace_back(new Environment::XDecorated_(_env, *au[i]));
            scopes.emplace_back(new Environment::XDecorated_(_env, noise));
        }
        const vector<string> keys = {"a", "b", "curve", "Curve x", "", "z", "discount curve of the whole book A", "discount curve of the whole book B"};
        { // before it is told what to do an auditor keeps and shows nothing, whatever was in memory before
            alignas(AuditorImp_) static unsigned char raw[sizeof(AuditorImp_)];
            memset(raw, r.range(0, 3), sizeof raw);
            auto* fresh = new (raw) AuditorImp_;
            const Handle_<Storable_> h(new Thing_(1));
            (void)throws([&] { fresh->Notice("a", h); });
            check(fresh->Find("a").empty() && fresh->Find("b").empty(), "fresh-auditor-shows");
            fresh->mode_ = AuditorImp_::SHOWING;
            check(fresh->Find("a").empty() && fresh->Find("b").empty(), "fresh-auditor-kept");
            fresh->~AuditorImp_();
            count("fresh-auditors");
        }
        vector<Handle_<Storable_>> keep;
        string log;
        for (int k = r.range(0, 14); k > 0; --k) {
            const string key = r.pick(keys);
            Handle_<Storable_> h;
            const int w = r.range(0, 9);
            if (w < 2 && !keep.empty())
                h = r.pick(vector<Handle_<Storable_>>(keep));
            else if (w < 8)
                h = Handle_<Storable_>(new Thing_(k));
            else
                h = Handle_<Storable_>(new Other_(k));
            keep.push_back(h);
            desc(log += cat("audit ", key, " ", h->name_.c_str(), "; "));
            for (int i = 0; i < n; ++i)
                check(au[i]->Find(String_(key)).empty(), "auditor-shows-while-reading");
            if (auto th = handle_cast<Thing_>(h))
                Environment::Audit(_env, String_(key), th);
            else
                Environment::Audit(_env, String_(key), h);
            for (int i = 0; i < n; ++i) {
                if (exclusive[i])
                    seen[i].erase(key);
                seen[i].emplace(key, h.get());
            }
            count("audited");
        }
        for (auto& a : au)
            a->mode_ = AuditorImp_::SHOWING;
        for (auto& key : keys) {
            std::set<const Storable_*> things, others;
            for (int i = 0; i < n; ++i) {
                std::multiset<const Storable_*> e, g;
                for (auto p = seen[i].lower_bound(key); p != seen[i].upper_bound(key); ++p) {
                    e.insert(p->second);
                    (dynamic_cast<const Thing_*>(p->second) ? things : others).insert(p->second);
                }
                for (auto& h : au[i]->Find(String_(key)))
                    g.insert(h.get());
                check(e == g, "auditor-contents", cat(key, " ", g.size(), " expected ", e.size()));
            }
            Handle_<Thing_> got;
            const bool t = throws([&] { Environment::Recall(_env, String_(key), &got); });
            if (things.size() > 1)
                check(t, "auditor-conflict-hidden", key);
            else
                check(!t && got.get() == (things.empty() ? nullptr : *things.begin()), "auditor-recall", key);
            Handle_<Other_> other;
            const bool t2 = throws([&] { Environment::Recall(_env, String_(key), &other); });
            if (others.size() > 1)
                check(t2, "auditor-conflict-hidden", key);
            else
                check(!t2 && static_cast<const Storable_*>(other.get()) == (others.empty() ? nullptr : *others.begin()), "auditor-recall", key);
            if (!got.IsEmpty())
                check(throws([&] { Environment::Recall(_env, String_(key), &got); }), "auditor-recall-onto-value");
            count("recalled");
        }
        while (!scopes.empty())
            scopes.pop_back();
        check(_env == nullptr, "environment-not-restored", "auditors");
        observed(log + cat(n), keep.size() > 1);
        sample(log);
    }
} // namespace
static void body() {
    section("notes", N(3000, 60000), notes);
    section("deep-notes", N(40, 400), deepNotes);
    section("note-threads", N(60, 600), noteThreads);
    section("environments", N(2000, 40000), environments);
    section("audits", N(2000, 40000), audits);
    count("errors-thrown", thrown);
    count("messages-compared", noteChecks);
}
VH_MAIN(body)
