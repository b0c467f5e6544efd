// Thread pool: exactly-once execution, future outcomes, helping waits, identities, stop/start histories.
#include "vh.hpp"
#include <dal/platform/platform.hpp>
#include <dal/concurrency/threadpool.hpp>
#include <dirent.h>
#include <thread>

using namespace vh;
using Dal::TaskHandle_;
using Dal::ThreadPool_;

static int liveThreads() {
    int n = 0;
    DIR* d = opendir("/proc/self/task");
    while (dirent* e = readdir(d))
        n += e->d_name[0] != '.';
    closedir(d);
    return n;
}
struct Boom : std::runtime_error {
    long id;
    explicit Boom(long i) : std::runtime_error(cat("boom-", i)), id(i) {}
};
static void jitter(Rng& r) {
    const int k = r.range(0, 9);
    if (k < 5)
        return;
    if (k < 8)
        std::this_thread::yield();
    else
        for (volatile int i = 0; i < (k - 7) * 300; ++i)
            ;
}
static const bool TSAN =
#ifdef __SANITIZE_THREAD__
    true;
#else
    false;
#endif

static size_t hw() { return std::thread::hardware_concurrency(); }

static void body() {
    ThreadPool_* pool = ThreadPool_::GetInstance();
    section("defaults", 1, [&](Rng&) {
        check(pool->NumThreads() == hw(), "pool:default-size", cat(pool->NumThreads()));
        check(ThreadPool_::ThreadNum() == 0, "pool:caller-identity");
    });

    // all workers take part at once, with distinct stable identities; also proves none died earlier
    auto rendezvous = [&](const string& key) {
        const size_t W = pool->NumThreads() - 1;
        if (W == 0)
            return;
        std::atomic<size_t> in{0};
        std::atomic<bool> giveUp{false};
        std::mutex mu;
        std::set<size_t> ids;
        std::set<std::thread::id> tids;
        vector<TaskHandle_> fs;
        for (size_t i = 0; i < W; ++i)
            fs.push_back(pool->SpawnTask([&] {
                {
                    std::lock_guard<std::mutex> l(mu);
                    ids.insert(ThreadPool_::ThreadNum());
                    tids.insert(std::this_thread::get_id());
                }
                ++in;
                while (in < W && !giveUp)
                    std::this_thread::yield();
                return true;
            }));
        const auto t0 = std::chrono::steady_clock::now();
        while (in < W && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(60))
            std::this_thread::sleep_for(std::chrono::microseconds(50));
        const bool all = in == W;
        giveUp = true;
        for (auto& f : fs)
            pool->ActiveWait(f);
        check(all, key + ":workers-missing", cat(in.load(), " of ", W));
        if (all) {
            check(ids.size() == W && tids.size() == W, key + ":identity-not-distinct", cat(ids.size(), " ", tids.size(), " of ", W));
            for (size_t i : ids)
                check(i >= 1 && i < pool->NumThreads(), key + ":identity-out-of-range", cat(i));
            count("rendezvous");
        }
    };

    struct Rec {
        std::atomic<int> runs{0};
        long plain = 0; // written by the task, read after its future is ready: a missing ordering is a race
        int outcome = 0;
    };
    auto history = [&](Rng& r, const string& tag) {
        const int submitters = r.range(1, 4), M = r.range(1, TSAN ? 60 : 120);
        vector<std::unique_ptr<Rec>> recs;
        const int total = submitters * M;
        // some tasks spawn and wait for a child task
        for (int i = 0; i < 2 * total; ++i)
            recs.emplace_back(new Rec);
        for (int i = 0; i < total; ++i)
            recs[i]->outcome = r.coin(0.15) && !TSAN ? 2 : r.coin(0.3) ? 0 : 1;
        const double pNest = r.coin(0.4) ? 0.3 : 0.0;
        const u64 sd = r.next();
        std::atomic<int> bad{0}, nested{0}, helped{0}, idBad{0};
        const size_t nThreads = pool->NumThreads();
        auto task = [&](int id) {
            return [&, id]() -> bool {
                Rng rr(sd ^ mix(id));
                Rec& x = *recs[id];
                jitter(rr);
                if (ThreadPool_::ThreadNum() >= nThreads)
                    ++idBad;
                if (rr.coin(pNest)) {
                    Rec* child = recs[total + id].get();
                    auto f = pool->SpawnTask([child, id] {
                        child->plain = id + 7;
                        ++child->runs;
                        return true;
                    });
                    pool->ActiveWait(f);
                    if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready || child->plain != id + 7)
                        ++bad;
                    ++nested;
                }
                x.plain = id * 3 + 1;
                ++x.runs;
                if (x.outcome == 2)
                    throw Boom(id);
                return x.outcome == 1;
            };
        };
        auto submitter = [&](int s) {
            Rng rr(sd + 31 * s);
            vector<std::pair<int, TaskHandle_>> fs;
            auto settle = [&](std::pair<int, TaskHandle_>& f) {
                Rec& x = *recs[f.first];
                if (pool->ActiveWait(f.second))
                    ++helped;
                if (f.second.wait_for(std::chrono::seconds(0)) != std::future_status::ready) {
                    ++bad;
                    return;
                }
                if (x.plain != f.first * 3 + 1) // ready before it ran
                    ++bad;
                try {
                    const bool v = f.second.get();
                    if (x.outcome == 2 || v != (x.outcome == 1))
                        ++bad;
                } catch (const Boom& b) {
                    if (x.outcome != 2 || b.id != f.first)
                        ++bad;
                }
            };
            for (int i = 0; i < M; ++i) {
                const int id = s * M + i;
                fs.emplace_back(id, pool->SpawnTask(task(id)));
                jitter(rr);
                if (rr.coin(0.1)) {
                    const size_t k = rr.below(fs.size());
                    settle(fs[k]);
                    fs.erase(fs.begin() + k);
                }
            }
            rr.shuffle(fs);
            for (auto& f : fs)
                settle(f);
        };
        vector<std::thread> th;
        for (int s = 1; s < submitters; ++s)
            th.emplace_back(submitter, s);
        submitter(0);
        for (auto& t : th)
            t.join();
        check(bad == 0, tag + ":wrong-outcome", cat(bad.load(), " futures"));
        check(idBad == 0, tag + ":identity-out-of-range");
        for (int i = 0; i < total; ++i)
            check(recs[i]->runs == 1, tag + (recs[i]->runs == 0 ? ":task-lost" : ":task-repeated"), cat("task ", i, " ran ", recs[i]->runs.load()));
        count("tasks", total);
        count("nested-tasks", nested);
        count("waits-that-helped", helped);
    };

    section("histories", N(1600, 30000), [&](Rng& r) {
        if (r.coin(0.3)) {
            const size_t n = r.coin(0.1) ? 0 : static_cast<size_t>(r.range(1, 12));
            pool->Start(n, true);
            const size_t e = n == 0 || n > hw() ? hw() : n;
            check(pool->NumThreads() == e, "pool:size-after-start", cat("asked ", n, " got ", pool->NumThreads()));
            count("restarts");
        }
        desc(cat("threads ", pool->NumThreads()));
        history(r, "pool");
        observed(cat(pool->NumThreads(), ":", r.next()), pool->NumThreads() > 1);
        if (S().caseNo % 5 == 0)
            rendezvous("pool");
        sample(cat("threads ", pool->NumThreads()));
    });

    // waiting helps: with every worker blocked, the waiting thread alone finishes the queue
    section("helping", N(400, 6000), [&](Rng& r) {
        pool->Start(static_cast<size_t>(r.range(1, 8)), true);
        const size_t W = pool->NumThreads() - 1;
        std::atomic<bool> gate{false};
        std::atomic<size_t> in{0};
        vector<TaskHandle_> blockers;
        for (size_t i = 0; i < W; ++i)
            blockers.push_back(pool->SpawnTask([&] {
                ++in;
                while (!gate)
                    std::this_thread::yield();
                return true;
            }));
        const auto t0 = std::chrono::steady_clock::now();
        while (in < W && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(60))
            std::this_thread::yield();
        check(in == W, "helping:workers-missing", cat(in.load(), " of ", W));
        if (in == W) {
            const int K = r.range(1, 20);
            vector<int> ran(K, 0);
            vector<TaskHandle_> fs;
            for (int i = 0; i < K; ++i)
                fs.push_back(pool->SpawnTask([&ran, i] {
                    ++ran[i];
                    return true;
                }));
            // wait for the last first: everything before it has to be run on the way
            const bool did = pool->ActiveWait(fs.back());
            check(did, "helping:reported-none");
            check(std::accumulate(ran.begin(), ran.end(), 0) == K, "helping:queue-not-drained", cat(std::accumulate(ran.begin(), ran.end(), 0), " of ", K));
            for (auto& f : fs)
                check(!pool->ActiveWait(f) && f.get(), "helping:ready-future");
            for (int x : ran)
                check(x == 1, "helping:not-once");
            count("tasks-run-by-waiter", K);
        }
        gate = true;
        for (auto& f : blockers)
            pool->ActiveWait(f);
        observed(cat(W, ":", S().caseNo));
    });

    section("stop-start", N(500, 8000), [&](Rng& r) {
        pool->Stop();
        // no worker survives a stop
        int live = 0;
        for (int i = 0; i < 2000 && (live = liveThreads()) > 1 + (TSAN ? 1 : 0); ++i)
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        check(live <= 1 + (TSAN ? 1 : 0), "stop:threads-left", cat(live));
        check(pool->NumThreads() == 1, "stop:size", cat(pool->NumThreads()));
        pool->Stop(); // idempotent
        const int n = r.range(1, 8);
        desc(cat("restart with ", n));
        pool->Start(n);
        const size_t e = std::min<size_t>(n, hw());
        check(pool->NumThreads() == e, "start:size", cat("asked ", n, " got ", pool->NumThreads()));
        pool->Start(n == 1 ? 2 : 1); // already active, no restart asked: unchanged
        check(pool->NumThreads() == e, "start:not-idempotent", cat(pool->NumThreads()));
        history(r, "after-restart");
        rendezvous("after-restart");
        // tasks still queued at a stop are run or reported as abandoned, never both or neither
        const int K = r.range(0, 60);
        vector<std::unique_ptr<std::atomic<int>>> runs;
        vector<TaskHandle_> fs;
        for (int i = 0; i < K; ++i) {
            runs.emplace_back(new std::atomic<int>(0));
            auto* p = runs.back().get();
            fs.push_back(pool->SpawnTask([p] {
                for (volatile int k = 0; k < 200; ++k)
                    ;
                ++*p;
                return true;
            }));
        }
        if (r.coin())
            pool->Stop();
        else
            pool->Start(r.range(1, 8), true);
        int abandoned = 0;
        for (int i = 0; i < K; ++i) {
            bool aband = false;
            if (fs[i].wait_for(std::chrono::seconds(60)) != std::future_status::ready) {
                violation("stop:future-never-ready", cat(i));
                continue;
            }
            try {
                fs[i].get();
            } catch (const std::future_error&) {
                aband = true;
                ++abandoned;
            }
            check(*runs[i] == (aband ? 0 : 1), "stop:abandoned-mismatch", cat("task ", i, " ran ", runs[i]->load(), " abandoned ", aband));
        }
        pool->Start(r.range(1, 8), true);
        history(r, "after-stop-with-queue");
        rendezvous("after-stop-with-queue");
        count("stop-start-cycles", 2);
        count("abandoned-at-stop", abandoned);
        observed(cat(n, ":", K, ":", S().caseNo));
    });
}
VH_MAIN(body)
