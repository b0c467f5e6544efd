// Concurrent queue: recorded histories (unique values, call/return stamps) checked offline.
#include "vh.hpp"
#include <deque>
#include <dal/platform/platform.hpp>
#include <dal/concurrency/concurrentqueue.hpp>
#include <memory>
#include <thread>

using namespace vh;
using Dal::ConcurrentQueue_;

struct Item {
    std::unique_ptr<long> id; // move-only, heap-held: a lost or duplicated item is visible to the sanitizer too
    string pad;
    Item() = default;
    explicit Item(long i) : id(new long(i)), pad(cat("payload-of-item-number-", i)) {}
    long get() const { return id && pad == cat("payload-of-item-number-", *id) ? *id : -1; }
};
enum Kind { PUSH, POP, TRY, EMPTY };
struct Op {
    Kind k;
    long val;    // pushed or popped id; -1: nothing
    bool ok;     // result
    long call, ret;
};
static std::atomic<long> clk{0};

// exact linearizability of a short history against a FIFO (Wing & Gong with memoisation)
static bool linearizable(const vector<Op>& h) {
    const int n = static_cast<int>(h.size());
    std::set<std::pair<u64, vector<long>>> seen;
    std::function<bool(u64, std::vector<long>)> go = [&](u64 done, vector<long> q) -> bool {
        if (done == (n == 64 ? ~0ull : (1ull << n) - 1))
            return true;
        if (!seen.insert({done, q}).second)
            return false;
        long minRet = std::numeric_limits<long>::max();
        for (int i = 0; i < n; ++i)
            if (!(done >> i & 1))
                minRet = std::min(minRet, h[i].ret);
        for (int i = 0; i < n; ++i) {
            if ((done >> i & 1) || h[i].call > minRet)
                continue;
            vector<long> q2 = q;
            bool ok = false;
            switch (h[i].k) {
            case PUSH:
                q2.push_back(h[i].val);
                ok = true;
                break;
            case POP:
            case TRY:
                if (h[i].ok) {
                    ok = !q2.empty() && q2.front() == h[i].val;
                    if (ok)
                        q2.erase(q2.begin());
                } else
                    ok = h[i].k == TRY && q2.empty();
                break;
            case EMPTY:
                ok = h[i].ok == q2.empty();
                break;
            }
            if (ok && go(done | 1ull << i, q2))
                return true;
        }
        return false;
    };
    return go(0, {});
}
static string show(const vector<Op>& h) {
    string s;
    static const char* N[] = {"push", "pop", "try", "empty"};
    for (auto& o : h)
        s += cat(N[o.k], "(", o.val, ",", o.ok, ")@", o.call, "-", o.ret, " ");
    return s;
}
static void jitter(Rng& r) {
    const int k = r.range(0, 9);
    if (k < 4)
        return;
    if (k < 7)
        std::this_thread::yield();
    else
        for (volatile int i = 0; i < (k - 6) * 150; ++i)
            ;
}

static void body() {
    std::set<u64> interleavings;
    section("linearizability", N(2600, 60000), [&](Rng& r) {
        const int T = r.range(2, 4), K = r.range(3, 6);
        ConcurrentQueue_<Item> q;
        vector<vector<Op>> hist(T);
        vector<vector<Kind>> plan(T);
        int pushes = 0, pops = 0;
        for (int t = 0; t < T; ++t)
            for (int k = 0; k < K; ++k) {
                Kind c = static_cast<Kind>(r.range(0, 3));
                if (c == POP && r.coin(0.5))
                    c = PUSH;
                plan[t].push_back(c);
                pushes += c == PUSH;
                pops += c == POP;
            }
        // enough items for every blocking pop even if every try-pop succeeds first
        int tries = 0;
        for (auto& p : plan)
            for (auto k : p)
                tries += k == TRY;
        const int seedItems = std::max(0, pops + tries - pushes) + (pops ? pushes : 0);
        vector<Op> pre;
        for (int i = 0; i < seedItems && i < 24; ++i) {
            const long c = clk++;
            q.Push(Item(900 + i));
            pre.push_back({PUSH, 900 + i, true, c, clk++});
        }
        if (seedItems > 24)
            return;
        std::atomic<int> ready{0};
        vector<std::thread> th;
        vector<u64> seeds;
        for (int t = 0; t < T; ++t)
            seeds.push_back(r.next());
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                Rng rr(seeds[t]);
                ++ready;
                while (ready < T) {
                }
                long next = (t + 1) * 100;
                for (Kind k : plan[t]) {
                    jitter(rr);
                    Op o{k, -1, false, 0, 0};
                    Item it;
                    switch (k) {
                    case PUSH: {
                        o.val = next++;
                        Item in(o.val);
                        o.call = clk++;
                        q.Push(std::move(in));
                        o.ret = clk++;
                        o.ok = true;
                        break;
                    }
                    case POP:
                        o.call = clk++;
                        o.ok = q.Pop(it);
                        o.ret = clk++;
                        o.val = o.ok ? it.get() : -1;
                        break;
                    case TRY:
                        o.call = clk++;
                        o.ok = q.TryPop(it);
                        o.ret = clk++;
                        o.val = o.ok ? it.get() : -1;
                        break;
                    case EMPTY:
                        o.call = clk++;
                        o.ok = q.Empty();
                        o.ret = clk++;
                        break;
                    }
                    hist[t].push_back(o);
                }
            });
        for (auto& t : th)
            t.join();
        vector<Op> h = pre;
        for (auto& x : hist)
            h.insert(h.end(), x.begin(), x.end());
        // drain and require the rest in order as well
        for (;;) {
            Item it;
            const long c = clk++;
            const bool ok = q.TryPop(it);
            const long e = clk++;
            h.push_back({TRY, ok ? it.get() : -1, ok, c, e});
            if (!ok || h.size() > 63)
                break;
        }
        desc(show(h));
        if (h.size() > 63)
            return;
        check(linearizable(h), "queue:not-linearizable", show(h));
        std::sort(h.begin(), h.end(), [](const Op& a, const Op& b) { return a.call < b.call; });
        string sig;
        for (auto& o : h)
            sig += cat(o.k, ":", o.val, o.ok, ";");
        int overlapping = 0;
        for (size_t i = 0; i + 1 < h.size(); ++i)
            overlapping += h[i].ret > h[i + 1].call;
        count("history-operations", h.size());
        count("overlapping-operations", overlapping);
        observed(sig, overlapping > 0);
        sample(show(h));
    });

    section("stress", N(160, 3000), [&](Rng& r) {
        const int P = r.range(1, 4), C = r.range(1, 4), M = r.range(50, 400);
        ConcurrentQueue_<Item> q;
        struct Ev {
            long call, ret;
        };
        vector<Ev> pushed(P * M), popped(P * M, {-1, -1});
        vector<std::atomic<int>> times(P * M);
        for (auto& t : times)
            t = 0;
        vector<vector<long>> order(C);
        std::atomic<long> left{static_cast<long>(P) * M};
        std::atomic<int> bad{0};
        vector<std::thread> th;
        const u64 sd = r.next();
        std::atomic<int> goneConsumers{0};
        for (int c = 0; c < C; ++c)
            th.emplace_back([&, c] {
                Rng rr(sd + 17 * c);
                for (;;) {
                    Item it;
                    bool ok;
                    const long a = clk++;
                    if (rr.coin(0.7))
                        ok = q.Pop(it);
                    else {
                        ok = q.TryPop(it);
                        if (!ok) {
                            if (left.load() <= 0)
                                break;
                            std::this_thread::yield();
                            continue;
                        }
                    }
                    const long b = clk++;
                    if (!ok)
                        break; // interrupted
                    const long id = it.get();
                    if (id < 0 || id >= P * M)
                        ++bad;
                    else {
                        ++times[id];
                        popped[id] = {a, b};
                        order[c].push_back(id);
                    }
                    if (--left == 0)
                        q.Interrupt();
                    jitter(rr);
                }
                ++goneConsumers;
            });
        for (int p = 0; p < P; ++p)
            th.emplace_back([&, p] {
                Rng rr(sd + 1000 + p);
                for (int i = 0; i < M; ++i) {
                    const long id = static_cast<long>(p) * M + i;
                    Item in(id);
                    pushed[id].call = clk++;
                    q.Push(std::move(in));
                    pushed[id].ret = clk++;
                    jitter(rr);
                }
            });
        for (auto& t : th)
            t.join();
        desc(cat("producers ", P, " consumers ", C, " items ", M));
        check(bad == 0, "queue:corrupt-item", cat(bad.load()));
        for (long i = 0; i < P * M; ++i)
            check(times[i] == 1, times[i] == 0 ? "queue:item-lost" : "queue:item-repeated", cat("item ", i, " delivered ", times[i].load()));
        for (auto& o : order) {
            vector<long> last(P, -1);
            for (long id : o) {
                check(id > last[id / M], "queue:producer-order", cat(id, " after ", last[id / M]));
                last[id / M] = id;
            }
        }
        // real-time order: an insertion finished before another began is delivered first
        vector<long> byCall(P * M);
        std::iota(byCall.begin(), byCall.end(), 0);
        long n = 0;
        for (long a = 0; a < P * M; ++a)
            for (long b = 0; b < P * M; ++b)
                if (pushed[a].ret < pushed[b].call && popped[a].call >= 0 && popped[b].call >= 0) {
                    ++n;
                    if (popped[b].ret < popped[a].call)
                        violation("queue:fifo-order", cat(a, " before ", b));
                }
        check(q.Empty(), "queue:not-empty-at-end");
        count("ordered-pairs-checked", n);
        count("items-delivered", static_cast<u64>(P) * M);
        observed(cat(P, C, M, sd));
    });

    // long histories of one caller against a reference queue: many items, interrupts while they wait
    section("history", N(900, 20000), [&](Rng& r) {
        ConcurrentQueue_<Item> q;
        std::deque<long> ref;
        bool interrupted = false;
        long id = 0;
        u64 h = 0;
        size_t most = 0;
        string log;
        auto pop = [&](bool blocking) {
            Item it;
            const bool want = !ref.empty() && !(blocking && interrupted);
            const bool got = blocking ? q.Pop(it) : q.TryPop(it);
            checkf(got == want, blocking ? "queue:pop-answer" : "queue:try-pop-answer", [&] { return cat(got, " with ", ref.size(), " items", interrupted ? ", interrupted" : ""); });
            if (got && want) {
                checkf(it.get() == ref.front(), "queue:history-order", [&] { return cat(it.get(), " expected ", ref.front()); });
                ref.pop_front();
            }
            return got == want;
        };
        for (int op = r.range(3, 40); op > 0; --op) {
            const int k = r.range(0, 9), n = r.coin(0.3) ? r.pick({63, 64, 65, 128, 200, 513, 1100, 2500}) : r.range(1, 12);
            h = mix(h * 31 + k * 4096 + n);
            if (log.size() < 400)
                log += cat(k, ":", n, " ");
            desc(log);
            if (k <= 3)
                for (int i = 0; i < n; ++i) {
                    q.Push(Item(id));
                    ref.push_back(id++);
                }
            else if (k <= 6)
                for (int i = 0; i < n; ++i) {
                    const bool blocking = k == 4 ? true : k == 5 ? false : r.coin();
                    if (blocking && ref.empty() && !interrupted)
                        break; // would wait
                    if (!pop(blocking))
                        return;
                    if (blocking && interrupted && i > 3)
                        break;
                }
            else if (k == 7) {
                q.Interrupt();
                interrupted = true;
                count("history-interrupts");
            } else if (k == 8) {
                q.ResetInterrupt();
                interrupted = false;
            } else if (r.coin(0.3)) {
                q.Clear();
                ref.clear();
            }
            check(q.Empty() == ref.empty(), "queue:empty-answer", cat(ref.size(), " items"));
            most = std::max(most, ref.size());
        }
        while (!ref.empty())
            if (!pop(false))
                return;
        check(q.Empty(), "queue:not-empty-at-end");
        count("history-most", most);
        observed(h, most > 1);
    });

    // one item per blocked consumer: each of them has to be woken, whatever the others do meanwhile
    std::atomic<bool> stuck{false};
    section("wakeups", N(400, 8000), [&](Rng& r) {
        if (stuck)
            return;
        const int C = r.range(2, 8), P = r.range(1, 3), rounds = r.range(1, 4);
        const int settle = r.range(0, 3);
        ConcurrentQueue_<Item> q;
        desc(cat(C, " consumers of one item each, ", P, " producers, ", rounds, " rounds, settle ", settle));
        for (int k = 0; k < rounds && !stuck; ++k) {
            std::atomic<int> started{0}, got{0}, refused{0}, turn{0};
            vector<std::atomic<int>> times(C);
            for (auto& t : times)
                t = 0;
            vector<std::thread> th;
            for (int c = 0; c < C; ++c)
                th.emplace_back([&] {
                    ++started;
                    Item it;
                    if (q.Pop(it)) {
                        const long x = it.get();
                        if (x >= 0 && x < C)
                            ++times[x];
                        ++got;
                    } else
                        ++refused;
                });
            while (started < C)
                std::this_thread::yield();
            if (settle == 1)
                std::this_thread::sleep_for(std::chrono::microseconds(r.range(0, 200)));
            if (settle >= 2)
                std::this_thread::sleep_for(std::chrono::microseconds(r.range(200, 1500)));
            for (int p = 0; p < P; ++p)
                th.emplace_back([&] {
                    for (int i = turn++; i < C; i = turn++)
                        q.Push(Item(i));
                });
            const auto t0 = std::chrono::steady_clock::now();
            while (got < C && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(30))
                std::this_thread::yield();
            if (got < C)
                stuck = true;
            check(got == C, "queue:blocked-consumer-not-woken", cat(got.load(), " of ", C, " consumers got their item; ", q.Empty() ? "none" : "some", " left in the queue"));
            q.Interrupt();
            for (auto& t : th)
                t.join();
            if (!stuck) {
                check(refused == 0 && q.Empty(), "queue:not-empty-at-end");
                for (int i = 0; i < C; ++i)
                    check(times[i] == 1, times[i] == 0 ? "queue:item-lost" : "queue:item-repeated", cat(i));
            }
            q.ResetInterrupt();
            count("consumers-woken", C);
        }
        observed(cat(C, P, rounds, settle, S().caseNo));
    });

    section("interrupt", N(300, 6000), [&](Rng& r) {
        if (stuck)
            return;
        const int C = r.range(1, 6), rounds = r.range(1, 4);
        ConcurrentQueue_<Item> q;
        desc(cat(C, " blocked consumers, ", rounds, " rounds"));
        long id = 0;
        for (int k = 0; k < rounds; ++k) {
            std::atomic<int> started{0}, got{0}, refused{0};
            vector<std::thread> th;
            for (int c = 0; c < C; ++c)
                th.emplace_back([&] {
                    ++started;
                    Item it;
                    while (q.Pop(it))
                        ++got;
                    ++refused;
                });
            while (started < C)
                std::this_thread::yield();
            if (r.coin())
                std::this_thread::sleep_for(std::chrono::microseconds(r.range(0, 300)));
            const int items = r.range(0, 4);
            for (int i = 0; i < items; ++i)
                q.Push(Item(id++));
            // every item reaches a blocked consumer (bounded wait; a stuck queue is reported, not hung on)
            const auto t0 = std::chrono::steady_clock::now();
            while (got < items && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(30))
                std::this_thread::yield();
            if (got < items)
                stuck = true;
            check(got == items, "queue:blocked-consumer-not-woken", cat(got.load(), " of ", items));
            q.Interrupt();
            for (auto& t : th)
                t.join(); // a consumer that misses the interrupt shows as a hang
            check(refused == C, "queue:interrupt-missed");
            // interrupted: blocking path hands out nothing, the non-blocking one still does
            q.Push(Item(id));
            Item it;
            check(!q.Pop(it), "queue:pop-while-interrupted");
            check(!q.Empty(), "queue:interrupt-drops-items");
            if (r.coin()) {
                check(q.TryPop(it) && it.get() == id, "queue:try-pop-while-interrupted");
                q.ResetInterrupt();
            } else if (r.coin()) {
                q.Clear();
                check(q.Empty() && !q.TryPop(it), "queue:clear");
                q.ResetInterrupt();
            } else {
                q.ResetInterrupt();
                check(q.Pop(it) && it.get() == id, "queue:pop-after-reset");
            }
            ++id;
            check(q.Empty(), "queue:empty-after-round");
            count("interrupt-rounds");
            count("consumers-released", C);
        }
        // clear and refill
        const int m = r.range(1, 50);
        for (int i = 0; i < m; ++i)
            q.Push(Item(i));
        q.Clear();
        check(q.Empty(), "queue:clear");
        for (int i = 0; i < m; ++i)
            q.Push(Item(1000 + i));
        for (int i = 0; i < m; ++i) {
            Item it;
            check((i & 1 ? q.Pop(it) : q.TryPop(it)) && it.get() == 1000 + i, "queue:order-after-clear", cat(i));
        }
        observed(cat(C, rounds, m, S().caseNo));
    });

    section("clear-concurrent", N(120, 2000), [&](Rng& r) {
        // clear/reset concurrent with producers and consumers: no race, nothing delivered twice
        ConcurrentQueue_<Item> q;
        const int M = 200;
        vector<std::atomic<int>> times(M);
        for (auto& t : times)
            t = 0;
        std::atomic<bool> stop{false};
        std::thread prod([&] {
            for (int i = 0; i < M; ++i)
                q.Push(Item(i));
            stop = true;
        });
        std::thread cons([&] {
            Item it;
            while (!stop || !q.Empty())
                if (q.TryPop(it)) {
                    const long x = it.get();
                    if (x >= 0 && x < M)
                        ++times[x];
                    else
                        violation("queue:corrupt-item", "after clear");
                }
        });
        std::thread clr([&] {
            for (int i = 0; i < 20; ++i) {
                q.Clear();
                q.ResetInterrupt();
                std::this_thread::yield();
            }
        });
        prod.join();
        cons.join();
        clr.join();
        for (int i = 0; i < M; ++i)
            check(times[i] <= 1, "queue:item-repeated", cat(i));
        observed(cat(S().caseNo, r.next()));
    });
}
VH_MAIN(body)
