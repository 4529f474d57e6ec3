// Ordered bin packing of files into splits.
#include <memory>

#include "paimon/common/utils/bin_packing.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

FACET(pack, 1) {
    struct Item {
        std::unique_ptr<int64_t> w;  // movable only
        int id;
    };
    std::vector<Item> items;
    std::vector<int64_t> weights;
    int64_t n = c.Len(0, 30);
    int64_t target = c.PickOf<int64_t>({10, 0, 1, 7, 100, 1LL << 40, -1});
    int64_t sum = 0;
    for (int64_t i = 0; i < n; i++) {
        int64_t w = c.Chance(1, 6) ? target + c.Int(-1, 2) : c.Int(0, 12);
        w = std::max<int64_t>(w, 0);
        weights.push_back(w);
        sum += w;
        items.push_back({std::make_unique<int64_t>(w), static_cast<int>(i)});
        c.Log() << w << " ";
    }
    c.Log() << "target " << target;
    std::function<int64_t(const Item&)> weight = [](const Item& x) { return *x.w; };
    auto bins = BinPacking::PackForOrdered<Item>(std::move(items), weight, target);
    int next = 0;
    bool multi = false;
    int64_t prev_weight = -1;
    for (auto& b : bins) {
        REQUIRE(!b.empty(), "empty-bin", "");
        int64_t total = 0;
        for (auto& x : b) {
            REQUIRE(x.w && x.id == next && *x.w == weights[static_cast<size_t>(next)], "order",
                    "item " << x.id << " at position " << next);
            next++;
            total += *x.w;
        }
        REQUIRE(b.size() == 1 || total <= target, "overweight", total << " > " << target);
        // a bin is only closed when its successor would not have fitted
        if (prev_weight >= 0) {
            REQUIRE(prev_weight + *b[0].w > target, "closed-early", prev_weight);
        }
        prev_weight = total;
        multi = multi || b.size() > 1;
    }
    REQUIRE(next == n, "lost", next << " of " << n);
    c.NonTrivial(multi && bins.size() >= 2);
}
