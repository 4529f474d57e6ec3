// Every task handed to an executor runs exactly once, whatever the timing.
#include <atomic>
#include <chrono>
#include <future>
#include <mutex>
#include <numeric>
#include <set>
#include <thread>

#include "paimon/common/executor/future.h"
#include "paimon/executor.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

// Tasks from several threads, some adding further tasks, then the executor is destroyed at once.
FACET(drains, 6) {
    uint32_t workers = static_cast<uint32_t>(c.Int(1, 5));
    int64_t producers = c.Int(1, 4);
    int64_t each = c.Len(0, 20);
    int64_t children = c.Int(0, 2);
    int64_t nap = c.Chance(1, 8) ? c.Int(1, 100) : 0;
    int64_t total = producers * each;
    std::vector<std::atomic<int>> ran(total * (1 + children) + 1);
    std::atomic<int64_t> nulls{0};
    c.Log() << workers << " workers, " << producers << "x" << each << " tasks with " << children << " children";
    c.NonTrivial(total >= 2);
    std::atomic<int64_t> parents{0};
    Executor* e = nullptr;
    {
        auto ex = CreateDefaultExecutor(workers);
        e = ex.get();
        std::vector<std::thread> ts;
        for (int64_t p = 0; p < producers; p++) {
            ts.emplace_back([&, p] {
                for (int64_t i = 0; i < each; i++) {
                    int64_t id = p * each + i;
                    if (i % 7 == 3) {
                        e->Add(nullptr);  // nothing to run
                    }
                    e->Add([&, id] {
                        if (nap) {
                            std::this_thread::sleep_for(std::chrono::microseconds(nap));
                        }
                        ran[id]++;
                        for (int64_t k = 0; k < children; k++) {
                            e->Add([&, id, k] { ran[total + id * children + k]++; });
                        }
                        parents++;
                    });
                }
            });
        }
        for (auto& t : ts) {
            t.join();
        }
        if (children > 0) {  // only what was handed in before the end must run
            while (parents.load() < total) {
                std::this_thread::yield();
            }
        }
    }
    for (int64_t i = 0; i < total * (1 + children); i++) {
        REQUIRE(ran[i].load() == 1, "ran", "task " << i << " ran " << ran[i].load() << " times");
    }
}

// One worker runs tasks in the order they came.
FACET(one_worker_in_order, 2) {
    int64_t n = c.Len(0, 60);
    std::vector<int64_t> seen;
    {
        auto ex = CreateDefaultExecutor(1);
        for (int64_t i = 0; i < n; i++) {
            ex->Add([&seen, i] { seen.push_back(i); });
        }
    }
    c.NonTrivial(n >= 2);
    REQUIRE(static_cast<int64_t>(seen.size()) == n, "count", seen.size() << " want " << n);
    for (int64_t i = 0; i < n; i++) {
        REQUIRE(seen[i] == i, "order", "place " << i << " has " << seen[i]);
    }
}

// All workers are usable at once: as many tasks as workers can wait for each other.
FACET(workers_all_run, 1) {
    uint32_t workers = static_cast<uint32_t>(c.Int(1, 6));
    bool dflt = c.Chance(1, 5);
    auto ex = dflt ? CreateDefaultExecutor() : CreateDefaultExecutor(workers);
    if (dflt) {
        workers = DEFAULT_EXECUTOR_THREAD_COUNT;
    }
    if (c.Chance(1, 8)) {  // the shared one: the same each time, and it runs tasks
        auto shared = GetGlobalDefaultExecutor();
        REQUIRE(shared && shared == GetGlobalDefaultExecutor(), "shared", "");
        auto f = Via(shared.get(), [] { return 5; });
        REQUIRE(f.get() == 5, "shared-runs", "");
    }
    std::atomic<uint32_t> here{0};
    std::atomic<uint32_t> done{0};
    for (uint32_t i = 0; i < workers; i++) {
        ex->Add([&] {
            here++;
            while (here.load() < workers) {
                std::this_thread::yield();
            }
            done++;
        });
    }
    c.NonTrivial(workers >= 2);
    ex.reset();
    REQUIRE(done.load() == workers, "done", done.load());
}

// Results of tasks come back in the order they were asked for, failures included.
FACET(results, 3) {
    auto ex = CreateDefaultExecutor(static_cast<uint32_t>(c.Int(1, 4)));
    int64_t n = c.Len(0, 20);
    int64_t bad = c.Int(-1, 19);
    c.NonTrivial(n >= 2);
    std::vector<std::future<int64_t>> fs;
    std::atomic<int64_t> ran{0};
    std::vector<std::future<void>> vs;
    for (int64_t i = 0; i < n; i++) {
        fs.push_back(Via(ex.get(), [i, bad]() -> int64_t {
            if (i == bad) {
                throw std::runtime_error("boom");
            }
            return i * i;
        }));
        vs.push_back(Via(ex.get(), [&ran]() { ran++; }));
    }
    bool threw = false;
    if (bad < 0 || bad >= n) {
        auto all = CollectAll(fs);
        REQUIRE(static_cast<int64_t>(all.size()) == n, "count", all.size());
        for (int64_t i = 0; i < n; i++) {
            REQUIRE(all[i] == i * i, "result", i << " gave " << all[i]);
        }
    } else {
        for (int64_t i = 0; i < n; i++) {
            try {
                int64_t v = fs[i].get();
                REQUIRE(i != bad && v == i * i, "result", i << " gave " << v);
            } catch (const std::runtime_error&) {
                threw = true;
                REQUIRE(i == bad, "exception", i);
            }
        }
        REQUIRE(threw, "exception-lost", bad);
    }
    Wait(vs);
    REQUIRE(ran.load() == n, "wait-returned-early", ran.load() << " want " << n);
}
