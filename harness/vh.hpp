// Shared runtime of every monitor: seeded case generation, oracle bookkeeping, crash witness, evidence counters.
// Deliberately independent of the code under test.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {
    using u64 = uint64_t;
    using std::string;
    using std::vector;

    inline u64 mix(u64 x) {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    inline u64 hashStr(const string& s, u64 h = 0xcbf29ce484222325ull) {
        for (unsigned char c : s)
            h = (h ^ c) * 0x100000001b3ull;
        return mix(h);
    }

    struct Rng {
        u64 s;
        explicit Rng(u64 seed = 1) : s(mix(seed)) {}
        u64 next() { return s = mix(s + 0x632BE59BD9B4E019ull); }
        // [0, n)
        u64 below(u64 n) { return n ? next() % n : 0; }
        int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<u64>(hi) - lo + 1)); }
        // mostly small, now and then far beyond (up to big)
        int size(int lo, int hi, int big, double p = 0.04) { return coin(p) ? static_cast<int>(logUniform(hi + 1, big + 0.99)) : range(lo, hi); }
        double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
        double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
        bool coin(double p = 0.5) { return unit() < p; }
        double normal() {
            const double u1 = 1.0 - unit(), u2 = unit();
            return std::sqrt(-2.0 * std::log(u1)) * std::cos(6.283185307179586 * u2);
        }
        double logUniform(double lo, double hi) { return lo * std::exp(unit() * std::log(hi / lo)); }
        template <class T> const T& pick(const vector<T>& v) { return v[below(v.size())]; }
        template <class T> const T& pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
        template <class T> void shuffle(vector<T>& v) {
            for (size_t i = v.size(); i > 1; --i)
                std::swap(v[i - 1], v[below(i)]);
        }
    };

    inline string esc(const string& s) {
        string o;
        char b[8];
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += static_cast<char>(c);
            } else if (c < 0x20 || c >= 0x7f) {
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else
                o += static_cast<char>(c);
        }
        return o;
    }
    template <class... A> string cat(const A&... a) {
        std::ostringstream o;
        o.precision(17);
        ((o << a), ...);
        return o.str();
    }

    struct State {
        u64 seed = 1;
        bool thorough = false;
        int shard = 0, shards = 1;
        string out;
        string onlySection;
        long onlyCase = -1;
        char* witness = nullptr;
        size_t witnessSize = 1 << 16;
        std::mutex mu;
        u64 evaluations = 0;
        std::unordered_set<u64> distinct;
        std::map<string, u64> counters;
        std::map<string, u64> sectionCases;
        vector<string> samples;
        std::map<string, int> samplePerSection;
        struct V {
            string key, msg, where;
        };
        std::map<string, V> violations;
        std::chrono::steady_clock::time_point firstViolation;
        std::map<string, u64> violationCounts;
        string section;
        long caseNo = 0;
        string caseDesc;
    };
    inline State& S() {
        static State* s = new State;
        return *s;
    }
    inline bool thorough() { return S().thorough; }
    // number of cases for this tier
    // number of cases; VH_SCALE (from checks.py) makes cheap monitors run more of them, exhaustive sections (equal numbers) stay as they are
    inline long N(long quick, long thoroughN) {
        static const double scale = std::getenv("VH_SCALE") ? std::atof(std::getenv("VH_SCALE")) : 1.0;
        const long n = S().thorough ? thoroughN : quick;
        return quick == thoroughN ? n : std::max(1L, static_cast<long>(n * scale));
    }

    inline void writeWitness() {
        auto& s = S();
        if (!s.witness)
            return;
        string w = s.section + "#" + std::to_string(s.caseNo) + " " + s.caseDesc;
        if (w.size() > s.witnessSize - 1)
            w.resize(s.witnessSize - 1);
        memcpy(s.witness, w.data(), w.size());
        s.witness[w.size()] = 0;
    }
    // what the current case is (human readable); kept in a mapped file so that it survives a crash
    inline void desc(const string& d) {
        S().caseDesc = d;
        writeWitness();
    }
    inline void count(const string& what, u64 n = 1) {
        std::lock_guard<std::mutex> l(S().mu);
        S().counters[what] += n;
    }
    // one evaluated case whose content hashes to h; call with nontrivial=false for a degenerate one
    inline void observed(u64 h, bool nontrivial = true) {
        std::lock_guard<std::mutex> l(S().mu);
        ++S().evaluations;
        if (nontrivial && S().distinct.size() < 4000000)
            S().distinct.insert(h);
    }
    inline void observed(const string& d, bool nontrivial = true) { observed(hashStr(S().section + d), nontrivial); }
    inline void sample(const string& d) {
        std::lock_guard<std::mutex> l(S().mu);
        if (S().samplePerSection[S().section]++ < 2 && S().samples.size() < 40)
            S().samples.push_back(S().section + ": " + (d.size() > 600 ? d.substr(0, 600) + "..." : d));
    }
    inline void violation(const string& key, const string& msg) {
        std::lock_guard<std::mutex> l(S().mu);
        auto& s = S();
        if (s.violations.empty())
            s.firstViolation = std::chrono::steady_clock::now();
        ++s.violationCounts[key];
        if (!s.violations.count(key)) {
            s.violations[key] = {key, msg, s.section + "#" + std::to_string(s.caseNo) + " " + s.caseDesc};
            fprintf(stderr, "violation %s at %s#%ld: %s | %s\n", key.c_str(), s.section.c_str(), s.caseNo, msg.c_str(),
                    s.caseDesc.c_str());
        }
    }
    inline bool check(bool ok, const string& key, const string& msg = "") {
        if (!ok)
            violation(key, msg);
        return ok;
    }
    template <class F> bool checkf(bool ok, const string& key, F msg) {
        if (!ok)
            violation(key, msg());
        return ok;
    }
    inline bool near(double a, double b, double abs, double rel) {
        if (a == b)
            return true;
        if (std::isnan(a) || std::isnan(b))
            return false;
        return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
    }
    inline bool checkNear(double a, double b, double abs, double rel, const string& key, const string& msg = "") {
        if (near(a, b, abs, rel))
            return true;
        violation(key, cat(msg, " got ", a, " expected ", b, " diff ", a - b));
        return false;
    }

    // run n cases of a named section; every case has its own generator, so any one can be replayed alone.
    // Cases are dealt to shards round robin.
    inline void section(const string& name, long n, const std::function<void(Rng&)>& f) {
        auto& s = S();
        if (!s.onlySection.empty() && s.onlySection != name)
            return;
        s.section = name;
        for (long i = 0; i < n; ++i) {
            // once something was found there is no need to be thorough
            if (!s.violations.empty() && s.onlyCase < 0 && std::chrono::steady_clock::now() - s.firstViolation > std::chrono::seconds(20))
                return;
            if (s.onlyCase >= 0 ? i != s.onlyCase : (i % s.shards) != s.shard)
                continue;
            Rng r(hashStr(name, s.seed * 0x9E3779B97F4A7C15ull + 77) ^ mix(i * 2654435761ull + 11));
            s.caseNo = i;
            s.caseDesc.clear();
            writeWitness();
            ++s.sectionCases[name];
            try {
                f(r);
            } catch (const std::exception& e) {
                violation("unexpected-exception:" + name, e.what());
            } catch (...) {
                violation("unexpected-exception:" + name, "unknown exception");
            }
        }
    }

    template <class F> bool throws(F f, string* what = nullptr) {
        try {
            f();
        } catch (const std::exception& e) {
            if (what)
                *what = e.what();
            return true;
        }
        return false;
    }

    inline void finish() {
        auto& s = S();
        s.section = "end-of-run";
        s.caseNo = 0;
        s.caseDesc.clear();
        writeWitness();
        if (s.out.empty()) {
            printf("evaluations=%lu distinct=%zu violations=%zu\n", (unsigned long)s.evaluations, s.distinct.size(),
                   s.violations.size());
            for (auto& c : s.counters)
                printf("  %s = %lu\n", c.first.c_str(), (unsigned long)c.second);
            for (auto& v : s.violations)
                printf("  VIOL %s x%lu : %s @ %s\n", v.first.c_str(), (unsigned long)s.violationCounts[v.first],
                       v.second.msg.c_str(), v.second.where.c_str());
            return;
        }
        FILE* h = fopen((s.out + ".hashes").c_str(), "wb");
        for (u64 x : s.distinct)
            fwrite(&x, 8, 1, h);
        fclose(h);
        FILE* f = fopen(s.out.c_str(), "w");
        fprintf(f, "{\"evaluations\":%lu,\n\"counters\":{", (unsigned long)s.evaluations);
        bool first = true;
        for (auto& c : s.counters) {
            fprintf(f, "%s\"%s\":%lu", first ? "" : ",", esc(c.first).c_str(), (unsigned long)c.second);
            first = false;
        }
        fprintf(f, "},\n\"sections\":{");
        first = true;
        for (auto& c : s.sectionCases) {
            fprintf(f, "%s\"%s\":%lu", first ? "" : ",", esc(c.first).c_str(), (unsigned long)c.second);
            first = false;
        }
        fprintf(f, "},\n\"samples\":[");
        first = true;
        for (auto& c : s.samples) {
            fprintf(f, "%s\"%s\"", first ? "" : ",\n", esc(c).c_str());
            first = false;
        }
        fprintf(f, "],\n\"violations\":[");
        first = true;
        for (auto& v : s.violations) {
            fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"count\":%lu}", first ? "" : ",\n",
                    esc(v.second.key).c_str(), esc(v.second.msg).c_str(), esc(v.second.where.substr(0, 8000)).c_str(),
                    (unsigned long)s.violationCounts[v.first]);
            first = false;
        }
        fprintf(f, "],\n\"done\":true}\n");
        fclose(f);
    }

    inline void init(int argc, char** argv) {
        auto& s = S();
        for (int i = 1; i < argc; ++i) {
            string a = argv[i];
            auto val = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--seed")
                s.seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--tier")
                s.thorough = val() == "thorough";
            else if (a == "--shard")
                s.shard = atoi(val().c_str());
            else if (a == "--shards")
                s.shards = atoi(val().c_str());
            else if (a == "--out")
                s.out = val();
            else if (a == "--section")
                s.onlySection = val();
            else if (a == "--case")
                s.onlyCase = atol(val().c_str());
        }
        if (!s.out.empty()) {
            const string w = s.out + ".case";
            int fd = open(w.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, s.witnessSize) == 0) {
                void* p = mmap(nullptr, s.witnessSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED)
                    s.witness = static_cast<char*>(p);
                close(fd);
            }
        }
    }
} // namespace vh

#define VH_MAIN(body)                                                                                                  \
    int main(int argc, char** argv) {                                                                                  \
        vh::init(argc, argv);                                                                                          \
        body();                                                                                                        \
        vh::finish();                                                                                                  \
        return 0;                                                                                                      \
    }
