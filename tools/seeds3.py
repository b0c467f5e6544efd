"""The planted bugs of the third batch (see seedlib.py)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed

ONLY = sys.argv[1:]


def s(id, *a, **k):
    if not ONLY or id in ONLY:
        seed(id, *a, **k)


s("pool-wait-drops-popped", "P01",
  [("dal/concurrency/threadpool.cpp", "                t();\n                b = true;\n",
    "                if (f.wait_for(std::chrono::seconds(0)) == std::future_status::ready)\n                    break;\n                t();\n                b = true;\n")],
  "the awaited task finishes between the helper's look at it and its taking the next task from the queue",
  "a task the waiting thread took from the queue is dropped: it never runs and its result is a broken promise", r'''
#include <dal/platform/platform.hpp>
#include <dal/concurrency/threadpool.hpp>
#include <atomic>
#include <cstdio>
#include <vector>
using namespace Dal;
int main() {
    ThreadPool_* pool = ThreadPool_::GetInstance();
    pool->Start(4, true);
    std::atomic<long> ran(0);
    long want = 0;
    int broken = 0;
    for (int k = 0; k < 20000 && !broken; ++k) {
        std::vector<TaskHandle_> fs;
        for (int i = 0; i < 24; ++i, ++want)
            fs.push_back(pool->SpawnTask([&]() { ++ran; return true; }));
        for (auto& f : fs)
            pool->ActiveWait(f);
        for (auto& f : fs)
            try { f.get(); } catch (const std::exception& e) { ++broken; }
    }
    printf("ran %ld of %ld, broken %d\n", ran.load(), want, broken);
    return ran != want || broken;
}
''')

s("mrg-skip-24-bits", "P19",
  [("dal/math/random/pseudorandom.cpp", "                while (n_points > 0) {\n",
    "                for (int bit = 0; n_points > 0 && bit < 24; ++bit) {\n")],
  "a skip of more than 2^24 numbers (many paths of many dimensions)",
  "skipping far ahead lands at the wrong place of the sequence", r'''
#include <dal/platform/platform.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/math/vectors.hpp>
#include <cstdio>
#include <memory>
using namespace Dal;
int main() {
    // 2^18 paths of 160 dimensions, drawn or skipped
    const size_t dim = 160, n = (1u << 18) + 3;
    std::unique_ptr<PseudoRandom_> a(New(RNGType_("MRG32"), 5, dim)), b(New(RNGType_("MRG32"), 5, dim));
    Vector_<> x(dim), y(dim);
    for (size_t i = 0; i < n; ++i)
        a->FillUniform(&x);
    b->SkipTo(n);
    a->FillUniform(&x);
    b->FillUniform(&y);
    for (size_t i = 0; i < dim; ++i)
        if (x[i] != y[i])
            return printf("number %zu is %.17g after drawing, %.17g after skipping\n", i, x[i], y[i]), 1;
    return 0;
}
''')

s("fd1d-centre-drift-dropped", "P24",
  [("dal/math/pde/fd1d.cpp", "                A_->Set(i, i, dtTheta * (mu_(i) * (*dx_)(i, i) + 0.5 * var_(i) * (*dxx_)(i, i)) + one - dtTheta * r_(i));\n",
    "                // the central difference of the first derivative has no weight at its centre\n                A_->Set(i, i, dtTheta * 0.5 * var_(i) * (*dxx_)(i, i) + one - dtTheta * r_(i));\n")],
  "drift on a mesh whose spacing is not uniform",
  "the first derivative's weight at the centre of an uneven stencil is dropped, so even a constant value drifts away", r'''
#include <dal/platform/platform.hpp>
#include <dal/math/pde/fd1d.hpp>
#include <dal/math/vectors.hpp>
#include <cstdio>
#include <cmath>
using namespace Dal;
int main() {
    constexpr int n = 21;
    Vector_<> x(n);
    for (int i = 0; i < n; ++i)
        x[i] = std::exp(0.1 * i);
    struct Mesh_ : FDM1DMesher_ {
        explicit Mesh_(const Vector_<>& x) : FDM1DMesher_(static_cast<int>(x.size())) {
            const int n = static_cast<int>(x.size());
            for (int i = 0; i < n; ++i) {
                locations_[i] = x[i];
                dplus_[i] = i + 1 < n ? x[i + 1] - x[i] : NAN;
                dminus_[i] = i > 0 ? x[i] - x[i - 1] : NAN;
            }
        }
    } mesh(x);
    PDE::FD1D_ fd(mesh);
    fd.Init();
    fd.R() = Vector_<>(n, 0.0);
    fd.Mu() = Vector_<>(n, 0.5);
    fd.Var() = Vector_<>(n, 0.1);
    Vector_<> v(n, 1.0);
    for (int k = 0; k < 10; ++k)
        fd.RollBwd(0.01, 0.5, v);
    int bad = 0;
    for (int i = 0; i < n; ++i)
        if (std::fabs(v[i] - 1.0) > 1e-9)
            printf("a constant became %.12g at point %d\n", v[i], i), bad = 1;
    return bad;
}
''')

s("merged-dates-first-wins", "P30",
  [("dal/protocol/underlying.cpp", "                if (base->count(kv.first))\n                    (*base)[kv.first] = std::max((*base)[kv.first], kv.second);\n                else\n                    (*base)[kv.first] = kv.second;\n",
    "                base->insert(kv);\n")],
  "merging the dependencies of two trades that share a currency or index, the later date in the second",
  "merged dependencies keep the earlier of two dates", r'''
#include <dal/platform/platform.hpp>
#include <dal/platform/initall.hpp>
#include <dal/protocol/underlying.hpp>
#include <dal/currency/currency.hpp>
#include <dal/time/date.hpp>
#include <cstdio>
using namespace Dal;
int main() {
    RegisterAll_::Init();
    Underlying_ a, b;
    a.Include(Ccy_("USD"), Date_(2025, 1, 1));
    a.Include(String_("ACME"), Date_(2030, 1, 1));
    b.Include(Ccy_("USD"), Date_(2027, 1, 1));
    b.Include(String_("ACME"), Date_(2029, 1, 1));
    a += b;
    const bool ok = a.payCcys_.at(Ccy_("USD")) == Date_(2027, 1, 1) && a.credits_.at("ACME") == Date_(2030, 1, 1);
    if (!ok)
        printf("last USD payment %s\n", Date::ToString(a.payCcys_.at(Ccy_("USD"))).c_str());
    return !ok;
}
''')

s("notes-repeated-left-out", "P28",
  [("dal/utilities/exceptions.cpp", "                ret_val += \"\\n\" + si.Message();\n",
    "                if (ret_val.find(si.Message()) == std::string::npos)\n                    ret_val += \"\\n\" + si.Message();\n")],
  "two notes in scope of which the later one's text occurs in what was already written (recursion, or 'i = 1' inside 'i = 12')",
  "the error message lacks a note that was in scope when it was raised", r'''
#include <dal/platform/platform.hpp>
#include <dal/utilities/exceptions.hpp>
#include <cstdio>
#include <string>
using namespace Dal;
static int count(const std::string& s, const std::string& what) {
    int n = 0;
    for (size_t i = s.find(what); i != std::string::npos; i = s.find(what, i + 1))
        ++n;
    return n;
}
static void descend(int depth) {
    NOTICE(depth);
    if (depth == 1)
        THROW("bottom");
    descend(depth == 12 ? 1 : depth + 1);
}
int main() {
    try { descend(10); } catch (const std::exception& e) {
        const int n = count(e.what(), "depth = ");
        if (n != 4)
            return printf("%d notes instead of 4:\n%s\n", n, e.what()), 1;
        return 0;
    }
    return 2;
}
''')

s("debug-elides-long-blocks", "P29",
  [("dal/script/visitor/debugger.hpp", "                    str += stack_.Top() + prefix_ + \",\\n\";\n",
    "                    if (i < 6)\n                        str += stack_.Top() + prefix_ + \",\\n\";\n")],
  "a condition with more than six statements in its branches",
  "the debug view leaves out statements of long conditional blocks", r'''
#include <dal/platform/platform.hpp>
#include <dal/platform/initall.hpp>
#include <dal/script/event.hpp>
#include <dal/script/visitor/all.hpp>
#include <dal/storage/globals.hpp>
#include <dal/math/cell.hpp>
#include <dal/time/date.hpp>
#include <cstdio>
#include <sstream>
using namespace Dal;
int main() {
    XGLOBAL::SetEvaluationDate(Date_(2022, 1, 1));
    Vector_<Cell_> d;
    Vector_<String_> e;
    d.push_back(Cell_(Date_(2023, 1, 1)));
    e.push_back(String_("IF spot() > 100 THEN a = 1 b = 2 c = 3 d = 4 ELSE e = 5 f = 6 g = 7 h = 8 END"));
    Script::ScriptProduct_ p(d, e);
    p.PreProcess(false, true);
    std::ostringstream o;
    p.Debug(o);
    const std::string s = o.str();
    int n = 0;
    for (size_t i = s.find("ASSIGN"); i != std::string::npos; i = s.find("ASSIGN", i + 1))
        ++n;
    if (n != 8)
        return printf("%d statements of 8\n%s\n", n, s.c_str()), 1;
    return 0;
}
''')

s("banded-product-wide-above", "P20",
  [("dal/math/matrix/banded.cpp", "                const int jStop = min(n, ii + val.view_.Cols() - val.nBelow_);\n",
    "                const int jStop = min(n, ii + 1 + val.nBelow_);\n")],
  "a band matrix with more diagonals above than below",
  "products leave out the outer diagonals above the main one", r'''
#include <dal/platform/platform.hpp>
#include <dal/math/matrix/sparse.hpp>
#include <dal/math/matrix/banded.hpp>
#include <cstdio>
#include <cmath>
#include <memory>
using namespace Dal;
int main() {
    const int n = 7;
    std::unique_ptr<Sparse::Square_> m(Sparse::NewBandDiagonal(n, 3, 1));
    Vector_<> x(n), b;
    for (int i = 0; i < n; ++i) {
        x[i] = i + 1;
        for (int j = std::max(0, i - 1); j <= std::min(n - 1, i + 3); ++j)
            m->Set(i, j, 10 * i + j + 1);
    }
    m->MultiplyLeft(x, &b);
    int bad = 0;
    for (int i = 0; i < n; ++i) {
        double want = 0;
        for (int j = 0; j < n; ++j)
            want += (*m)(i, j) * x[j];
        if (std::fabs(b[i] - want) > 1e-9)
            printf("row %d: %g expected %g\n", i, b[i], want), bad = 1;
    }
    return bad;
}
''')

s("nearest-below-zero-first", "P31",
  [("dal/script/visitor/domain.hpp", "            auto it = intervals_.rbegin();\n            while (it->Right().IsPositive(!strict))\n                ++it;\n            res = it->Right().Val();\n",
    "            res = intervals_.begin()->Right().Val();\n")],
  "a domain with at least two parts below zero",
  "the nearest possible value below zero is reported as the farthest one, so smoothing interpolates over the wrong range", r'''
#include <dal/platform/platform.hpp>
#include <dal/script/visitor/domain.hpp>
#include <cstdio>
using namespace Dal::Script;
int main() {
    Domain_ d;
    d.AddSingleton(-3);
    d.AddSingleton(-1);
    d.AddSingleton(2);
    double x = 0;
    const bool any = d.BiggestNegRb(x, true);
    if (!any || x != -1)
        return printf("nearest below zero: %g\n", x), 1;
    return 0;
}
''')

s("addmonths-eom-february", "P14",
  [("dal/time/date.cpp", "        const auto to_eom = preserve_eom && dd == DaysInMonth(yy, mm);\n",
    "        const auto to_eom = preserve_eom && (dd == DaysInMonth(yy, mm) || (mm == 2 && dd == 28));\n")],
  "28 February of a leap year, moved by months with month ends preserved",
  "a day that is not the end of its month is moved to the end of the target month", r'''
#include <dal/platform/platform.hpp>
#include <dal/time/date.hpp>
#include <cstdio>
using namespace Dal;
int main() {
    int bad = 0;
    for (int y = 2001; y < 2040; ++y) {
        const bool leap = y % 4 == 0;
        const Date_ got = Date::AddMonths(Date_(y, 2, 28), 1, true), want = leap ? Date_(y, 3, 28) : Date_(y, 3, 31);
        if (got != want)
            printf("%d-02-28 plus a month is %s\n", y, Date::ToString(got).c_str()), bad = 1;
    }
    return bad;
}
''')
