// The insertion-ordered map next to a list of pairs.
#include <algorithm>

#include "paimon/common/utils/linked_hash_map.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
using Map = LinkedHashMap<std::string, int64_t>;
using Model = std::vector<std::pair<std::string, int64_t>>;
Model::iterator At(Model& m, const std::string& k) {
    return std::find_if(m.begin(), m.end(), [&](auto& p) { return p.first == k; });
}
void Same(Case& c, const Map& m, Model& model) {
    REQUIRE(m.size() == model.size() && m.empty() == model.empty(), "size", m.size() << " want " << model.size());
    Model got(m.begin(), m.end());
    REQUIRE(got == model, "order", "");
    std::vector<std::string> keys;
    for (auto& [k, v] : model) {
        keys.push_back(k);
        auto f = m.find(k);
        REQUIRE(f != m.end() && f->first == k && f->second == v, "find", k);
    }
    REQUIRE(m.key_vec() == keys, "key-vec", "");
    REQUIRE(m.key_set() == std::unordered_set<std::string>(keys.begin(), keys.end()), "key-set", "");
    for (auto& k : {"a", "b", "c", "d", "e", "f", "nope"}) {
        REQUIRE((m.find(k) == m.end()) == (At(model, k) == model.end()), "find-missing", k);
    }
}
}  // namespace

FACET(program, 1) {
    std::vector<Map> maps(3);
    std::vector<Model> models(3);
    int64_t n = c.Len(1, 18);
    c.NonTrivial(n >= 4);
    for (int64_t i = 0; i < n; i++) {
        size_t a = c.Int(0, 2), b = c.Int(0, 2);
        Model& mo = models[a];
        std::string k = c.PickOf<std::string>({"a", "b", "c", "d", "e", "f"});
        auto it = At(mo, k);
        int64_t v = c.Int(0, 5);
        switch (c.Weighted({4, 3, 3, 2, 2, 1, 1})) {
            case 0: {
                auto r = maps[a].insert(k, v);
                if (it == mo.end()) {
                    mo.emplace_back(k, v);
                } else {
                    v = it->second;
                }
                REQUIRE(r->first == k && r->second == v, "insert-result", k);
                break;
            }
            case 1: {
                auto r = maps[a].insert_or_assign(k, v);
                if (it == mo.end()) {
                    mo.emplace_back(k, v);
                } else {
                    it->second = v;
                }
                REQUIRE(r->first == k && r->second == v, "assign-result", k);
                break;
            }
            case 2: {
                auto r = maps[a].erase(k);
                if (it == mo.end()) {
                    REQUIRE(r == maps[a].end(), "erase-missing", k);
                } else {
                    auto next = mo.erase(it);
                    REQUIRE((r == maps[a].end()) == (next == mo.end()) && (next == mo.end() || r->first == next->first),
                            "erase-next", k);
                }
                break;
            }
            case 3:
                maps[a][k] = v;
                if (it == mo.end()) {
                    mo.emplace_back(k, v);
                } else {
                    it->second = v;
                }
                break;
            case 4:
                maps[a] = maps[b];  // also from itself
                models[a] = Model(models[b]);
                break;
            case 5: {
                Map copy(maps[b]);
                maps[b].erase(k);
                auto e = At(models[b], k);
                Model before = models[b];
                if (e != models[b].end()) {
                    models[b].erase(e);
                }
                Same(c, copy, before);
                break;
            }
            default: {
                int64_t got = maps[a][k];
                if (it == mo.end()) {
                    mo.emplace_back(k, 0);
                    REQUIRE(got == 0, "default-value", got);
                } else {
                    REQUIRE(got == it->second, "value", got);
                }
            }
        }
        for (int j = 0; j < 3; j++) {
            Same(c, maps[j], models[j]);
            REQUIRE((maps[j] == maps[a]) == (models[j] == models[a]), "equality", j);
            REQUIRE((maps[j] != maps[a]) == (models[j] != models[a]), "inequality", j);
        }
    }
}
