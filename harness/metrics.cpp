// Counters set, merged and replaced next to a plain map, also from several threads.
#include <map>
#include <memory>
#include <thread>

#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/result.h"
#include "pbt.h"
#include "rapidjson/document.h"

using namespace paimon;
using pbt::Case;

namespace {
using Model = std::map<std::string, uint64_t>;
std::string Name(Case& c) {
    return c.PickOf<std::string>({"a", "b", "read.bytes", "", "quote\"d", "back\\slash", "\xc3\xa9t\xc3\xa9", "new\nline", "zz"});
}
void Same(Case& c, const MetricsImpl& m, const Model& model) {
    REQUIRE(m.GetAllCounters() == model, "counters", m.ToString());
    for (auto& n : {"a", "b", "read.bytes", "", "quote\"d", "zz"}) {
        auto r = m.GetCounter(n);
        if (model.count(n)) {
            REQUIRE(r.ok() && r.value() == model.at(n), "get", n);
        } else {
            REQUIRE(!r.ok() && r.status().IsKeyError(), "missing", n);
        }
    }
    rapidjson::Document d;
    std::string text = m.ToString();
    d.Parse(text.c_str());
    REQUIRE(!d.HasParseError() && d.IsObject() && d.MemberCount() == model.size(), "json", text);
    for (auto& [k, v] : model) {
        REQUIRE(d.HasMember(k.c_str()) && d[k.c_str()].IsUint64() && d[k.c_str()].GetUint64() == v, "json-member", k);
    }
}
}  // namespace

FACET(program, 5) {
    std::vector<std::shared_ptr<MetricsImpl>> ms;
    std::vector<Model> models(3);
    for (int i = 0; i < 3; i++) {
        ms.push_back(std::make_shared<MetricsImpl>());
    }
    int64_t n = c.Len(1, 12);
    c.NonTrivial(n >= 3);
    for (int64_t i = 0; i < n; i++) {
        size_t a = c.Int(0, 2), b = c.Int(0, 2);
        switch (c.Weighted({5, 4, 2, 1})) {
            case 0: {
                std::string k = Name(c);
                uint64_t v = static_cast<uint64_t>(c.I64());
                ms[a]->SetCounter(k, v);
                models[a][k] = v;
                break;
            }
            case 1:
                ms[a]->Merge(ms[b]);
                if (a != b) {
                    for (auto& [k, v] : models[b]) {
                        models[a][k] += v;
                    }
                }
                break;
            case 2:
                ms[a]->Overwrite(ms[b]);
                models[a] = models[b];
                break;
            default:
                ms[a]->Merge(nullptr);
                ms[a]->Overwrite(nullptr);
        }
        for (int k = 0; k < 3; k++) {
            Same(c, *ms[k], models[k]);
        }
    }
}

// Totals of readers that may be missing or carry no metrics.
FACET(threads, 1) {
    auto total = std::make_shared<MetricsImpl>();
    int64_t threads = c.Int(2, 4), each = c.Int(1, 20);
    std::vector<std::thread> ts;
    std::vector<std::string> errors(threads);
    for (int64_t t = 0; t < threads; t++) {
        ts.emplace_back([&, t] {
            uint64_t last = 0;
            for (int64_t i = 0; i < each; i++) {
                auto one = std::make_shared<MetricsImpl>();
                one->SetCounter("shared", 1);
                one->SetCounter("own" + std::to_string(t), 2);
                total->Merge(one);
                auto own = total->GetCounter("own" + std::to_string(t));
                if (!own.ok() || own.value() != static_cast<uint64_t>(2 * (i + 1))) {
                    errors[t] = "own counter off";
                }
                auto all = total->GetAllCounters();
                if (all["shared"] < last) {
                    errors[t] = "shared counter fell";
                }
                last = all["shared"];
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    c.NonTrivial(each >= 2);
    for (auto& e : errors) {
        REQUIRE(e.empty(), "thread", e);
    }
    auto all = total->GetAllCounters();
    REQUIRE(all["shared"] == static_cast<uint64_t>(threads * each), "lost-merge", all["shared"] << " want " << threads * each);
}
