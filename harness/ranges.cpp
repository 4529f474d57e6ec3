// Row-id ranges: set algebra, grouping of overlapping items.
#include <algorithm>
#include <map>
#include <set>

#include "paimon/common/utils/range_helper.h"
#include "paimon/utils/range.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
// A window of 64 consecutive integers somewhere on the axis, so that a set of ids is one word.
struct Window {
    int64_t base;
    int64_t At(int64_t i) const {
        return base + i;
    }
};
using Set = uint64_t;

Window MakeWindow(Case& c) {
    return {c.PickOf<int64_t>({0, 100, -32, (1LL << 32) - 32, INT64_MAX - 63, INT64_MIN, INT64_MAX - 64})};
}

Set Bits(int64_t a, int64_t b) {
    Set s = 0;
    for (int64_t i = a; i <= b; i++) {
        s |= 1ULL << i;
    }
    return s;
}

Set SetOf(Case& c, const Window& w, const std::vector<Range>& v) {
    Set s = 0;
    for (auto& r : v) {
        REQUIRE(r.from <= r.to && r.from >= w.base && r.to <= w.At(63), "range-bounds",
                r.ToString());
        s |= Bits(r.from - w.base, r.to - w.base);
    }
    return s;
}

Range Any(Case& c, const Window& w) {
    int64_t a = c.Int(0, 63), b = std::min<int64_t>(63, a + c.Len(0, 30));
    if (c.Chance(1, 8)) {
        b = 63;
    }
    return Range(w.At(a), w.At(b));
}

std::vector<Range> List(Case& c, const Window& w) {
    std::vector<Range> v;
    int64_t n = c.Len(0, 8);
    for (int64_t i = 0; i < n; i++) {
        v.push_back(Any(c, w));
    }
    return v;
}

std::string Text(const std::vector<Range>& v) {
    std::string s;
    for (auto& r : v) {
        s += r.ToString() + " ";
    }
    return s;
}

void Sorted(Case& c, const std::vector<Range>& v, bool merged, const char* op) {
    for (size_t i = 1; i < v.size(); i++) {
        REQUIRE(v[i].from > v[i - 1].to, "sorted-disjoint", op << " " << Text(v));
        if (merged) {
            REQUIRE(v[i].from > v[i - 1].to + 1, "adjacent-left", op << " " << Text(v));
        }
    }
}
}  // namespace

FACET(set_algebra, 5) {
    Window w = MakeWindow(c);
    std::vector<Range> a = List(c, w), b = List(c, w);
    c.Log() << "a " << Text(a) << " b " << Text(b);
    Set sa = SetOf(c, w, a), sb = SetOf(c, w, b);
    if (!a.empty() && !b.empty()) {  // order by start, then by end
        const Range &x = c.Pick(a), &y = c.Chance(1, 4) ? x : c.Pick(b);
        Range z = x;
        REQUIRE((x < y) == (x.from < y.from || (x.from == y.from && x.to < y.to)), "less", Text({x, y}));
        REQUIRE((x == y) == (x.from == y.from && x.to == y.to), "equal", Text({x, y}));
        REQUIRE(z == x && !(z < x) && !(x < z) && x == *&x, "equal-copy", Text({x}));
    }
    auto ma = Range::SortAndMergeOverlap(a, true), mb = Range::SortAndMergeOverlap(b, true);
    Sorted(c, ma, true, "merge");
    REQUIRE(SetOf(c, w, ma) == sa, "merge-set", Text(ma));
    auto oa = Range::SortAndMergeOverlap(a, false), ob = Range::SortAndMergeOverlap(b, false);
    Sorted(c, oa, false, "merge overlapping");
    REQUIRE(SetOf(c, w, oa) == sa, "merge-set", Text(oa));
    // without "adjacent" every result range starts and ends where some input range does, and ranges
    // that only touch stay apart
    {
        std::set<int64_t> cuts;
        for (auto& x : a) {
            bool split = x.from > w.base;
            for (auto& y : a) {
                split = split && !(y.from < x.from && y.to >= x.from);
            }
            if (split) {
                cuts.insert(x.from);
            }
        }
        std::set<int64_t> got;
        for (auto& r : oa) {
            if (r.from > w.base) {
                got.insert(r.from);
            }
        }
        REQUIRE(got == cuts, "merge-touching", Text(oa));
    }
    auto both = Range::And(oa, mb);
    Sorted(c, both, false, "and");
    REQUIRE(SetOf(c, w, both) == (sa & sb), "and-set", Text(both));
    auto both2 = Range::And(mb, ma);
    Sorted(c, both2, true, "and merged");
    REQUIRE(SetOf(c, w, both2) == (sa & sb), "and-set", Text(both2));
    Range r = Any(c, w);
    Set sr = Bits(r.from - w.base, r.to - w.base);
    auto rest = r.Exclude(a);
    Sorted(c, rest, true, "exclude");
    REQUIRE(SetOf(c, w, rest) == (sr & ~sa), "exclude-set", r.ToString() << " minus a = " << Text(rest));
    REQUIRE(r.Count() == __builtin_popcountll(sr), "count", r.Count());
    Range q = Any(c, w);
    Set sq = Bits(q.from - w.base, q.to - w.base);
    auto i = Range::Intersection(r, q);
    REQUIRE(i.has_value() == ((sr & sq) != 0), "intersection", "");
    REQUIRE(Range::HasIntersection(r, q) == ((sr & sq) != 0), "has-intersection", "");
    if (i) {
        REQUIRE(SetOf(c, w, {*i}) == (sr & sq), "intersection", i->ToString());
    }
    REQUIRE((r == q) == (sr == sq), "equal", "");
    REQUIRE((r < q) == (std::make_pair(r.from, r.to) < std::make_pair(q.from, q.to)), "less", "");
    c.NonTrivial(a.size() >= 2 && !b.empty() && sa != 0);
    c.Label(w.base == INT64_MAX - 63 ? "top" : w.base == INT64_MIN ? "bottom" : "middle");
}

namespace {
struct Item {
    int64_t start, end;
    int id;
    bool broken = false;
};
}  // namespace

FACET(grouping, 3) {
    Window w = MakeWindow(c);
    std::vector<Item> items;
    int64_t n = c.Len(0, 12);
    bool fail = c.Chance(1, 10);
    for (int64_t i = 0; i < n; i++) {
        Range r = (i > 0 && c.Chance(1, 4))
                      ? Range(items[0].start, items[0].end)
                      : Any(c, w);
        items.push_back({r.from, r.to, static_cast<int>(i)});
        c.Log() << r.ToString() << " ";
    }
    int64_t bad = fail && n > 0 ? c.Int(0, n - 1) : -1;
    bool bad_end = c.Bool();
    RangeHelper<Item> h(
        [&](const Item& x) -> Result<int64_t> {
            if (x.id == bad && !bad_end) {
                return Status::Invalid("no row id");
            }
            return x.start;
        },
        [&](const Item& x) -> Result<int64_t> {
            if (x.id == bad && bad_end) {
                return Status::Invalid("no row id");
            }
            return x.end;
        });
    auto same = h.AreAllRangesSame(items);
    bool want_same = true;
    for (auto& x : items) {
        want_same = want_same && x.start == items[0].start && x.end == items[0].end;
    }
    if (bad < 0) {
        REQUIRE(same.ok() && same.value() == want_same, "all-same", "");
    } else if (want_same) {
        REQUIRE(!same.ok(), "all-same-error", "");
    }
    auto copy = items;
    auto g = h.MergeOverlappingRanges(std::move(copy));
    if (bad >= 0) {
        REQUIRE(!g.ok(), "group-error", "unreadable bound ignored");
        return;
    }
    REQUIRE(g.ok(), "group", g.status().ToString());
    // reference: connected components of the overlap relation
    std::vector<int> comp(items.size());
    for (size_t i = 0; i < items.size(); i++) {
        comp[i] = static_cast<int>(i);
    }
    for (size_t round = 0; round < items.size(); round++) {
        for (size_t i = 0; i < items.size(); i++) {
            for (size_t j = 0; j < items.size(); j++) {
                if (items[i].start <= items[j].end && items[j].start <= items[i].end) {
                    comp[i] = comp[j] = std::min(comp[i], comp[j]);
                }
            }
        }
    }
    std::map<int, std::vector<int>> ref;
    for (size_t i = 0; i < items.size(); i++) {
        ref[comp[i]].push_back(static_cast<int>(i));
    }
    std::vector<std::vector<int>> want;
    for (auto& [k, v] : ref) {
        want.push_back(v);
    }
    std::sort(want.begin(), want.end(), [&](auto& x, auto& y) {
        auto low = [&](auto& v) {
            int64_t m = INT64_MAX;
            for (int i : v) {
                m = std::min(m, items[static_cast<size_t>(i)].start);
            }
            return m;
        };
        return low(x) < low(y);
    });
    std::vector<std::vector<int>> got;
    for (auto& grp : g.value()) {
        got.emplace_back();
        for (auto& x : grp) {
            got.back().push_back(x.id);
            REQUIRE(x.start == items[static_cast<size_t>(x.id)].start &&
                        x.end == items[static_cast<size_t>(x.id)].end,
                    "group-item", x.id);
        }
    }
    REQUIRE(got == want, "groups", got.size() << " groups, want " << want.size());
    c.NonTrivial(items.size() >= 3 && want.size() >= 2);
}
