"""The planted bugs of the second batch (see seedlib.py)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed

SCRIPT = r'''
#include <dal/platform/platform.hpp>
#include <dal/platform/initall.hpp>
#include <dal/script/event.hpp>
#include <dal/script/visitor/all.hpp>
#include <dal/storage/globals.hpp>
#include <dal/math/cell.hpp>
#include <dal/time/date.hpp>
#include <cstdio>
#include <cmath>
#include <map>
#include <string>
#include <vector>
using namespace Dal;
using Dal::Script::ScriptProduct_;
struct Row { int day; const char* text; };
enum Mode { PLAIN, FUZZY, COMPILED };
static std::map<std::string, double> run(const std::vector<Row>& rows, const std::vector<double>& spot, const std::vector<double>& num, Mode m, double eps = 1e-6) {
    XGLOBAL::SetEvaluationDate(Date_(2022, 1, 1));
    Vector_<Cell_> d; Vector_<String_> e;
    for (auto& r : rows) { d.push_back(Cell_(Date_(2022, 1, 1).AddDays(r.day))); e.push_back(String_(r.text)); }
    ScriptProduct_ p(d, e);
    const size_t n = p.PreProcess(m == FUZZY, m == PLAIN);
    AAD::Scenario_<double> s(spot.size());
    for (size_t i = 0; i < spot.size(); ++i) s[i].spot_ = spot[i], s[i].numeraire_ = num[i];
    Vector_<> v;
    if (m == COMPILED) { p.Compile(); auto st = p.BuildEvalState<double>(); p.EvaluateCompiled(s, st); v = st.VarVals(); }
    else if (m == FUZZY) { auto ev = p.BuildFuzzyEvaluator<double>(static_cast<int>(n), eps); p.Evaluate(s, ev); v = ev.VarVals(); }
    else { auto ev = p.BuildEvaluator<double>(); p.Evaluate(s, ev); v = ev.VarVals(); }
    std::map<std::string, double> out;
    for (size_t i = 0; i < v.size(); ++i) { std::string k(p.VarNames()[i].c_str()); for (auto& c : k) c = tolower(c); out[k] = v[i]; }
    return out;
}
static int bad = 0;
static void expect(const char* what, double got, double want) {
    if (!(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)))) { printf("%s: %.15g expected %.15g\n", what, got, want); ++bad; }
}
'''

seed("aad-multi-stale-adjoints", "P09",
     [("dal/math/aad/tape.hpp", "                std::fill(node->pAdjoints_, node->pAdjoints_ + TapNode_::numAdj_, 0.0);\n", "")],
     "several results differentiated in one pass, on tape memory that an earlier calculation used before the tape was rewound",
     "adjoints of new nodes start from the values a previous calculation left in the same memory", r'''
#include <dal/platform/platform.hpp>
#include <dal/math/aad/aad.hpp>
#include <cstdio>
#include <cmath>
using namespace Dal;
using namespace Dal::AAD;
int main() {
    Tape_ tape;
    Number_::SetTape(tape);
    int bad = 0;
    auto mode = SetNumResultsForAAD(true, 2);
    for (int k = 0; k < 3; ++k) {
        tape.Rewind();
        Number_ x(2.0 + k);
        auto px = std::prev(tape.End());
        Number_ y(3.0);
        auto py = std::prev(tape.End());
        Number_ a = x * y;
        auto pa = std::prev(tape.End());
        Number_ b = x + y * y;
        auto pb = std::prev(tape.End());
        pa->Adjoint(0) = 1.0;
        pb->Adjoint(1) = 1.0;
        Number_::PropagateAdjointsMulti(std::prev(tape.End()), tape.Begin());
        const double want[4] = {3.0, 2.0 + k, 1.0, 6.0};
        const double got[4] = {px->Adjoint(0), py->Adjoint(0), px->Adjoint(1), py->Adjoint(1)};
        for (int i = 0; i < 4; ++i)
            if (std::fabs(got[i] - want[i]) > 1e-12) { printf("round %d derivative %d: %g expected %g\n", k, i, got[i], want[i]); bad = 1; }
    }
    Number_::SetTape(static_cast<Tape_*>(nullptr));
    return bad;
}''')

seed("repository-erase-first-of-name", "P12",
     [("dal/storage/_repository.cpp", "        auto po = TheObjects().find(BaseTag(object) + Uniquifier(object));\n        if (po == TheObjects().end())",
       "        const String_ tag = BaseTag(object);\n        auto po = TheObjects().lower_bound(tag);\n        if (po == TheObjects().end() || po->first.substr(0, tag.size()) != tag)")],
     "two objects of the same type and name, kept side by side, and the later one (by address) erased through its object",
     "another object of the same type and name is erased instead", r'''
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/box.hpp>
#include <dal/math/cell.hpp>
#include <cstdio>
using namespace Dal;
int main() {
    Handle_<Box_> o[3]; String_ tag[3];
    for (int i = 0; i < 3; ++i) { o[i].reset(new Box_("same", Matrix_<Cell_>(1, 1))); tag[i] = ObjectAccess_().Add(o[i], RepositoryErase_("NONE")); }
    int bad = 0;
    for (int k = 0; k < 3; ++k) {
        for (int i = 0; i < 3; ++i) ObjectAccess_().Add(o[i], RepositoryErase_("NONE"));
        if (!ObjectAccess_().Erase(*o[k])) { printf("not erased\n"); bad = 1; }
        for (int i = 0; i < 3; ++i) {
            const bool there = !ObjectAccess_().Fetch(tag[i], true).IsEmpty();
            if (there != (i != k)) { printf("after erasing %d, object %d is %s\n", k, i, there ? "there" : "gone"); bad = 1; }
        }
    }
    return bad;
}''')

seed("fixings-first-write-wins", "P13",
     [("dal/storage/globals.cpp", "            all[d_f.first] = d_f.second;\n        // write", "            all.insert(d_f);\n        // write")],
     "a fixing stored again for a time that already has one, in append mode",
     "the corrected fixing is dropped and the old one stays", r'''
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/storage/globals.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/date.hpp>
#include <cstdio>
using namespace Dal;
int main() {
    const DateTime_ t0(Date_(2022, 1, 3), 0.5), t1(Date_(2022, 1, 4), 0.5);
    Global::FixHistory_ a, b;
    a.vals_.push_back(std::make_pair(t0, 1.0));
    b.vals_.push_back(std::make_pair(t0, 2.0));
    b.vals_.push_back(std::make_pair(t1, 3.0));
    XGLOBAL::StoreFixings("demo", a, false);
    XGLOBAL::StoreFixings("demo", b, true);
    const auto h = Global::Fixings_().History("demo");
    for (auto& x : h.vals_) printf("%g\n", x.second);
    return !(h.vals_.size() == 2 && h.vals_[0].second == 2.0 && h.vals_[1].second == 3.0);
}''')

seed("queue-peek-before-lock", "P02",
     [("dal/concurrency/concurrentqueue.hpp", """            std::lock_guard<std::mutex> lk(mutex_);
            if (queue_.empty())
                return false;
            t =""", """            if (queue_.empty()) // nothing to do, spare the lock
                return false;
            std::lock_guard<std::mutex> lk(mutex_);
            t =""")],
     "two consumers between the test and the lock when one item is left",
     "an item is taken from an empty queue; the test also races with every other operation", r'''
#include <dal/platform/platform.hpp>
#include <dal/concurrency/concurrentqueue.hpp>
#include <atomic>
#include <thread>
#include <cstdio>
int main() {
    Dal::ConcurrentQueue_<int> q;
    std::atomic<int> got{0};
    auto eat = [&] { int x; for (int i = 0; i < 4000; ++i) if (q.TryPop(x)) ++got; };
    std::thread a(eat), b(eat);
    for (int i = 0; i < 2000; ++i) q.Push(i);
    a.join(); b.join();
    int x, rest = 0;
    while (rest < 4000 && q.TryPop(x)) ++rest;
    return got + rest != 2000; // ThreadSanitizer reports the race besides
}''', "-fsanitize=thread -g")

seed("fuzzy-one-store", "P06",
     [("dal/script/visitor/fuzzy.hpp", "                    varStore0_[nestedIfLvl_ - 1][idx] = variables_[idx];", "                    varStore0_[0][idx] = variables_[idx];"),
      ("dal/script/visitor/fuzzy.hpp", "                    variables_[idx] = varStore0_[nestedIfLvl_ - 1][idx];", "                    variables_[idx] = varStore0_[0][idx];")],
     "a smoothed conditional inside the true branch of another, both inside their smoothing zones, changing a variable that was changed before",
     "the values kept for the outer conditional are overwritten by the inner one", SCRIPT + r'''
int main() {
    RegisterAll_::Init();
    std::vector<Row> r2 = {{10, "x = 1\nif spot() > 100 then x = 5 if spot() > 100 then x = x + 2 end else x = x + 10 end"}};
    // both degrees of truth are 1/2: inner 5 + 0.5 * 2 = 6, outer 0.5 * 6 + 0.5 * 11
    expect("blend", run(r2, {100.0}, {1.0}, FUZZY, 1.0)["x"], 8.5);
    return bad;
}''')

seed("constants-after-nested-if", "P05",
     [("dal/script/visitor/constprocessor.hpp", "            // Reset (unless nested)\n            if (!nested)\n                isInConditional_ = false;",
       "            // Reset\n            isInConditional_ = false;")],
     "a compiled script that assigns a constant after a nested conditional, still inside the outer one",
     "the assignment is taken for unconditional and folded into later uses", SCRIPT + r'''
int main() {
    RegisterAll_::Init();
    const std::vector<Row> rows = {{10, "x = 1\ny = 0\nif spot() > 100 then if spot() > 120 then y = 1 end x = 2 end"}, {20, "z = x * 10"}};
    for (double s : {90.0, 110.0, 130.0}) {
        const double want = run(rows, {s, 100.0}, {1.0, 1.0}, PLAIN)["z"];
        expect("plain", want, s > 100 ? 20 : 10);
        expect("compiled", run(rows, {s, 100.0}, {1.0, 1.0}, COMPILED)["z"], want);
    }
    return bad;
}''')

seed("power-right-associative", "P04",
     [("dal/script/parser.cpp", "            auto rhs = ParseExprL4(cur, end);\n            lhs = MakeBaseBinary<NodePow_>(lhs, rhs);", "            auto rhs = ParseExprL3(cur, end);\n            lhs = MakeBaseBinary<NodePow_>(lhs, rhs);")],
     "two powers in a row without parentheses",
     "a ^ b ^ c is taken for a ^ (b ^ c), unlike every other operator of the language", SCRIPT + r'''
int main() {
    RegisterAll_::Init();
    const std::vector<Row> rows = {{10, "x = spot() ^ 2 ^ 3\ny = 2 ^ 0.5 ^ 2"}};
    auto v = run(rows, {2.0}, {1.0}, PLAIN);
    expect("x", v["x"], 64.0);
    expect("y", v["y"], 2.0);
    return bad;
}''')

seed("spline-right-third-first-gap", "P21",
     [("dal/math/interp/interpcubic.cpp", "fpp_[n - 1] = ((x_[n - 1] - x_[n - 2]) * rhs.value_ + fpp_[n - 2])", "fpp_[n - 1] = ((x_[1] - x_[0]) * rhs.value_ + fpp_[n - 2])")],
     "a cubic spline with a non-zero third derivative requested at its right end and unequal gaps",
     "the spline does not have the requested third derivative at its right end", r'''
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <cstdio>
#include <cmath>
#include <memory>
using namespace Dal;
int main() {
    Vector_<> x = {0.0, 1.0, 1.5, 4.0}, f = {1.0, 2.0, 0.5, 3.0};
    std::unique_ptr<Interp1_> s(Interp::NewCubic("s", x, f, Interp::Boundary_(3, 0.3), Interp::Boundary_(3, -0.7)));
    auto third = [&](double a, double h) { return ((*s)(a + 3 * h) - 3 * (*s)(a + 2 * h) + 3 * (*s)(a + h) - (*s)(a)) / (h * h * h); };
    const double left = third(0.0, 0.3), right = third(1.6, 0.8);
    printf("%g %g\n", left, right);
    return std::fabs(left - 0.3) > 1e-6 || std::fabs(right + 0.7) > 1e-6;
}''')

seed("piecewise-jump-ignored", "P21",
     [("dal/curve/piecewiselinear.cpp", "            return sofar_.back() + fRight_.back() * (date - knotDates_.back());", "            return sofar_.back() + fLeft_.back() * (date - knotDates_.back());")],
     "an integral beyond the last knot of a piecewise linear function that jumps there",
     "the integral and the values disagree beyond the last knot", r'''
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <cstdio>
#include <cmath>
using namespace Dal;
int main() {
    const Date_ d(2022, 1, 1);
    PiecewiseLinear_ p({d, d.AddDays(100)}, {1.0, 2.0}, {1.0, 5.0});
    const double step = p.IntegralTo(d.AddDays(111)) - p.IntegralTo(d.AddDays(110));
    printf("%g %g\n", step, p.ValueAt(d.AddDays(110)));
    return std::fabs(step - p.ValueAt(d.AddDays(110))) > 1e-9;
}''')

