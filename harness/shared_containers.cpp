// Containers shared between threads next to sequential models, and their thread-by-thread effects.
#include <unistd.h>

#include <atomic>
#include <map>
#include <memory>
#include <queue>
#include <thread>

#include "paimon/common/utils/concurrent_hash_map.h"
#include "paimon/common/utils/long_counter.h"
#include "paimon/common/utils/threadsafe_queue.h"
#include "paimon/factories/factory.h"
#include "paimon/factories/factory_creator.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

FACET(map_program, 3) {
    ConcurrentHashMap<std::string, int64_t> m;
    ConcurrentHashMap<std::vector<std::string>, int64_t, VectorStringHashCompare> lists;
    std::map<std::string, int64_t> model;
    std::map<std::vector<std::string>, int64_t> list_model;
    int64_t n = c.Len(1, 20);
    c.NonTrivial(n >= 4);
    for (int64_t i = 0; i < n; i++) {
        std::string k = c.PickOf<std::string>({"a", "b", "ab", "", "c"});
        std::vector<std::string> lk;
        int64_t parts = c.Int(0, 3);
        for (int64_t p = 0; p < parts; p++) {
            lk.push_back(c.PickOf<std::string>({"a", "b", "ab", "", "longer part"}));
        }
        switch (c.Int(0, 2)) {
            case 0:
                m.Insert(k, i);
                lists.Insert(lk, i);
                model[k] = i;
                list_model[lk] = i;
                break;
            case 1:
                m.Erase(k);
                lists.Erase(lk);
                model.erase(k);
                list_model.erase(lk);
                break;
            default: {
                auto f = m.Find(k);
                REQUIRE(f.has_value() == (model.count(k) != 0) && (!f || *f == model[k]), "find", k);
            }
        }
        auto g = lists.Find(lk);
        REQUIRE(g.has_value() == (list_model.count(lk) != 0) && (!g || *g == list_model[lk]), "find-list", i);
        REQUIRE(m.Size() == model.size() && lists.Size() == list_model.size(), "size", m.Size());
        for (auto& [mk, mv] : model) {
            auto f = m.Find(mk);
            REQUIRE(f && *f == mv, "contents", mk);
        }
    }
}

#if !__has_feature(thread_sanitizer)  // the map's own library is not built for race detection
// Each thread owns some keys and shares others: owned keys behave as if it were alone.
FACET(map_threads, 2) {
    ConcurrentHashMap<int64_t, int64_t> m;
    int64_t threads = c.Int(2, 4), rounds = c.Int(1, 60);
    uint64_t seed = c.Sub().Next();
    std::vector<std::string> errors(threads);
    std::vector<std::map<int64_t, int64_t>> models(threads);
    std::vector<std::thread> ts;
    for (int64_t t = 0; t < threads; t++) {
        ts.emplace_back([&, t] {
            uint64_t x = seed + 77 * t + 1;
            for (int64_t i = 0; i < rounds; i++) {
                x = x * 6364136223846793005ull + 1442695040888963407ull;
                int64_t k = 100 * (t + 1) + static_cast<int64_t>((x >> 40) % 5);
                switch ((x >> 50) % 4) {
                    case 0:
                    case 1:
                        m.Insert(k, i);
                        models[t][k] = i;
                        break;
                    case 2:
                        m.Erase(k);
                        models[t].erase(k);
                        break;
                    default:
                        m.Insert(1, t);
                        auto s = m.Find(1);
                        if (!s || *s < 0 || *s >= threads) {
                            errors[t] = "shared key off";
                        }
                }
                auto f = m.Find(k);
                if (f.has_value() != (models[t].count(k) != 0) || (f && *f != models[t][k])) {
                    errors[t] = "own key off";
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    c.NonTrivial(rounds >= 4);
    size_t want = m.Find(1) ? 1 : 0;
    for (int64_t t = 0; t < threads; t++) {
        REQUIRE(errors[t].empty(), "thread", errors[t]);
        want += models[t].size();
    }
    REQUIRE(m.Size() == want, "size", m.Size() << " want " << want);
}

#endif

FACET(queue_program, 2) {
    ThreadsafeQueue<std::unique_ptr<int64_t>> q;
    ThreadsafeQueue<int64_t> q2;
    std::queue<int64_t> model;
    int64_t n = c.Len(1, 25);
    c.NonTrivial(n >= 4);
    for (int64_t i = 0; i < n; i++) {
        if (c.Bool()) {
            q.push(std::make_unique<int64_t>(i));
            q2.push(i);
            model.push(i);
        } else {
            auto a = q.try_pop();
            auto b = q2.try_pop();
            if (model.empty()) {
                REQUIRE(!a && !b, "pop-empty", "");
            } else {
                REQUIRE(a && **a == model.front() && b && *b == model.front(), "pop", model.front());
                model.pop();
            }
        }
        REQUIRE(q.size() == model.size() && q.empty() == model.empty(), "size", q.size());
        const int64_t* f = q2.try_front();
        REQUIRE(model.empty() ? f == nullptr : f && *f == model.front(), "front", "");
    }
}

// Everything pushed is popped once, and what one thread pushed comes out in its order.
FACET(queue_threads, 2) {
    ThreadsafeQueue<int64_t> q;
    int64_t producers = c.Int(1, 3), consumers = c.Int(1, 3), each = c.Int(1, 60);
    std::vector<std::vector<int64_t>> got(consumers);
    std::atomic<int64_t> left{producers * each};
    std::vector<std::thread> ts;
    for (int64_t p = 0; p < producers; p++) {
        ts.emplace_back([&, p] {
            for (int64_t i = 0; i < each; i++) {
                q.push(p * 1000 + i);
            }
        });
    }
    for (int64_t k = 0; k < consumers; k++) {
        ts.emplace_back([&, k] {
            while (left.load() > 0) {
                auto v = q.try_pop();
                if (v) {
                    got[k].push_back(*v);
                    left--;
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    c.NonTrivial(each >= 2);
    std::map<int64_t, int> count;
    for (auto& g : got) {
        std::map<int64_t, int64_t> last;
        for (int64_t v : g) {
            count[v]++;
            REQUIRE(!last.count(v / 1000) || last[v / 1000] < v, "order", v);
            last[v / 1000] = v;
        }
    }
    REQUIRE(static_cast<int64_t>(count.size()) == producers * each && q.empty(), "lost", count.size());
    for (auto& [v, k] : count) {
        REQUIRE(k == 1, "twice", v);
    }
}

namespace {
struct Thing : public Factory {
    Thing(std::string n, std::atomic<int>* alive) : name(std::move(n)), alive(alive) {
        ++*alive;
    }
    ~Thing() override {
        --*alive;
    }
    const char* Identifier() const override {
        return name.c_str();
    }
    std::string name;
    std::atomic<int>* alive;
};
}  // namespace

FACET(registry, 2) {
    std::atomic<int> alive{0};
    {
        FactoryCreator f;
        std::map<std::string, Thing*> model;
        int64_t threads = c.Int(1, 3), each = c.Int(0, 5);
        std::vector<std::thread> ts;
        for (int64_t t = 0; t < threads; t++) {
            for (int64_t i = 0; i < each; i++) {
                std::string k = "t" + std::to_string(t) + "-" + std::to_string(i);
                model[k] = new Thing(k, &alive);
            }
        }
        std::vector<std::string> errors(threads);
        for (int64_t t = 0; t < threads; t++) {
            ts.emplace_back([&, t] {
                for (int64_t i = 0; i < each; i++) {
                    std::string k = "t" + std::to_string(t) + "-" + std::to_string(i);
                    if (f.Create(k) != nullptr) {
                        errors[t] = "there before it was registered";
                    }
                    f.Register(k, model.at(k));
                    if (f.Create(k) != model.at(k)) {
                        errors[t] = "not found after it was registered";
                    }
                }
            });
        }
        for (auto& t : ts) {
            t.join();
        }
        c.NonTrivial(each >= 2);
        for (auto& e : errors) {
            REQUIRE(e.empty(), "registry", e);
        }
        std::vector<std::string> want;
        for (auto& [k, v] : model) {
            want.push_back(k);
            REQUIRE(f.Create(k) == v, "lookup", k);
        }
        auto types = f.GetRegisteredType();
        std::sort(types.begin(), types.end());
        REQUIRE(types == want, "types", types.size());
        REQUIRE(f.Create("missing") == nullptr && f.Create("") == nullptr, "missing", "");
        REQUIRE(alive.load() == static_cast<int>(model.size()), "alive", alive.load());
#if !__has_feature(thread_sanitizer)
        if (!model.empty() && c.Chance(1, 60)) {  // a name that is taken is not taken over silently
            bool survives = pbt::SurvivesInChild([&] {
                f.Register(model.begin()->first, new Thing(model.begin()->first, &alive));
                if (f.Create(model.begin()->first) != model.begin()->second) {
                    _exit(0);
                }
                abort();
            });
            REQUIRE(!survives, "taken-over", model.begin()->first);
        }
#endif
    }
    REQUIRE(alive.load() == 0, "left-behind", alive.load());
    // one instance for everyone, made once
    static FactoryCreator* shared = FactoryCreator::GetInstance();
    std::vector<FactoryCreator*> seen(3);
    {
        std::vector<std::thread> ts;
        for (size_t t = 0; t < seen.size(); t++) {
            ts.emplace_back([&seen, t] { seen[t] = FactoryCreator::GetInstance(); });
        }
        for (auto& t : ts) {
            t.join();
        }
    }
    for (auto* s : seen) {
        REQUIRE(s == shared && s != nullptr, "one-instance", "");
    }
}
