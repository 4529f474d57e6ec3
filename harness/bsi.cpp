// Bit-sliced index: range queries on an indexed column against brute force.
#include <map>
#include <memory>

#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
using Bsi = BitSliceIndexRoaringBitmap;

std::string Rows(const RoaringBitmap32& b) {
    std::string s = b.ToString();
    return s.size() > 200 ? s.substr(0, 200) + "..." : s;
}

template <typename P>
void Compare(Case& c, const Result<RoaringBitmap32>& got, const std::map<int32_t, int64_t>& rows,
             P pred, const char* op, int64_t lit) {
    REQUIRE(got.ok(), "query-status", op << " " << lit << ": " << got.status().ToString());
    RoaringBitmap32 want;
    for (auto& [r, v] : rows) {
        if (pred(v)) {
            want.Add(r);
        }
    }
    REQUIRE(got.value() == want, "query-rows",
            op << " " << lit << ": got " << Rows(got.value()) << " want " << Rows(want));
}

void Queries(Case& c, const Bsi& b, const std::map<int32_t, int64_t>& rows, int64_t min, int64_t max) {
    std::vector<int64_t> lits = {min, max};
    for (int64_t d : {-1, 1}) {
        if (!(min == 0 && d < 0)) {
            lits.push_back(min + d);
        }
        if (!(max == INT64_MAX && d > 0)) {
            lits.push_back(max + d);
        }
    }
    for (int i = 0; i < 6; i++) {
        int64_t v;
        if (!rows.empty() && c.Bool()) {
            auto it = rows.begin();
            std::advance(it, static_cast<long>(c.Draw(rows.size() - 1)));
            v = it->second;
            int64_t d = c.Int(0, 2) - 1;
            if (!(v == INT64_MAX && d > 0)) {
                v += d;
            }
        } else if (c.Bool()) {
            v = min + static_cast<int64_t>(c.Draw(static_cast<uint64_t>(max - min)));
        } else {
            v = c.I64();
        }
        lits.push_back(v);
    }
    for (int64_t l : lits) {
        Compare(c, b.Equal(l), rows, [l](int64_t v) { return v == l; }, "==", l);
        Compare(c, b.LessThan(l), rows, [l](int64_t v) { return v < l; }, "<", l);
        Compare(c, b.LessOrEqual(l), rows, [l](int64_t v) { return v <= l; }, "<=", l);
        Compare(c, b.GreaterThan(l), rows, [l](int64_t v) { return v > l; }, ">", l);
        Compare(c, b.GreaterOrEqual(l), rows, [l](int64_t v) { return v >= l; }, ">=", l);
    }
    Compare(c, Result<RoaringBitmap32>(b.IsNotNull()), rows, [](int64_t) { return true; },
            "not null", 0);
}
}  // namespace

FACET(range_queries, 5) {
    auto pool = GetDefaultPool();
    int64_t min, max;
    switch (c.Draw(3)) {
        case 0:
            min = c.Int(0, 20);
            max = min + c.Int(0, 40);
            break;
        case 1:
            min = c.Int(0, 100000);
            max = min + (1LL << c.Int(0, 40)) - c.Int(0, 1);
            break;
        case 2:
            min = 0;
            max = INT64_MAX - c.Int(0, 3);
            break;
        default: {
            int64_t a = c.I64() & INT64_MAX, b = c.I64() & INT64_MAX;
            min = std::min(a, b);
            max = std::max(a, b);
            break;
        }
    }
    UNWRAP(auto app, Bsi::Appender::Create(min, max), "create");
    REQUIRE(!app->IsNotEmpty(), "empty", "new appender");
    std::map<int32_t, int64_t> rows;
    int64_t n = c.Len(0, 60);
    int32_t rid = 0;
    bool wide = c.Bool();
    for (int64_t i = 0; i < n; i++) {
        if (c.Chance(1, 4)) {
            rid += static_cast<int32_t>(c.Int(1, wide ? 70000 : 5));  // null rows
        }
        int64_t v;
        switch (c.Draw(3)) {
            case 0:
                v = min;
                break;
            case 1:
                v = max;
                break;
            case 2:
                v = min + static_cast<int64_t>(c.Draw(std::min<uint64_t>(16, max - min)));
                break;
            default:
                v = min + static_cast<int64_t>(c.Draw(static_cast<uint64_t>(max - min)));
        }
        REQUIRE_OK(app->Append(rid, v), "append");
        if (c.Chance(1, 8)) {
            // a second value for the same row is refused and changes nothing
            REQUIRE(!app->Append(rid, max).ok(), "append-duplicate", rid);
        }
        if (c.Chance(1, 8) && max < INT64_MAX) {
            REQUIRE(!app->Append(rid + 1, max + 1).ok(), "append-too-large", max + 1);
        }
        rows[rid] = v;
        rid++;
    }
    REQUIRE(app->IsNotEmpty() == !rows.empty(), "is-not-empty", rows.size());
    auto built = app->Build();
    Queries(c, *built, rows, min, max);
    auto bytes = app->Serialize(pool);
    auto in = std::make_shared<ByteArrayInputStream>(bytes->data(), bytes->size());
    UNWRAP(auto back, Bsi::Create(in), "deserialize");
    REQUIRE(*back == *built, "roundtrip", "index differs after reload");
    Queries(c, *back, rows, min, max);
    // Layout: version byte, big-endian min and max.
    REQUIRE(bytes->size() > 17 && bytes->data()[0] == 1, "layout", "version");
    uint64_t lo = 0, hi = 0;
    for (int i = 0; i < 8; i++) {
        lo = (lo << 8) | static_cast<unsigned char>(bytes->data()[1 + i]);
        hi = (hi << 8) | static_cast<unsigned char>(bytes->data()[9 + i]);
    }
    REQUIRE(static_cast<int64_t>(lo) == min && static_cast<int64_t>(hi) == max, "layout", "min/max");
    c.NonTrivial(rows.size() >= 3 && min < max);
    c.Label(max - min < 64 ? "narrow" : max - min < (1LL << 33) ? "medium" : "wide");
    c.Log() << "min " << min << " max " << max << " rows " << rows.size();
}

FACET(rejects_bad_bounds, 1) {
    int64_t a = c.I64(), b = c.I64();
    auto r = Bsi::Appender::Create(a, b);
    REQUIRE(r.ok() == (a >= 0 && a <= b), "create-domain", a << ".." << b);
    if (r.ok()) {
        std::map<int32_t, int64_t> rows;
        Queries(c, *r.value()->Build(), rows, a, b);
    }
    Queries(c, *Bsi::Empty(), {}, 0, 0);
    c.NonTrivial(a != b);
}

// A value below the announced minimum cannot be represented.
FACET(rejects_out_of_range, 1) {
    int64_t min = c.Int(1, 1000), max = min + c.Int(0, 1000);
    UNWRAP(auto app, Bsi::Appender::Create(min, max), "create");
    REQUIRE_OK(app->Append(0, min), "append");
    int64_t bad = c.Bool() ? min - c.Int(1, 5000) : max + c.Int(1, 5000);
    auto st = app->Append(1, bad);
    REQUIRE(!st.ok(), "append-out-of-range", bad << " accepted for [" << min << "," << max << "]");
    Queries(c, *app->Build(), {{0, min}}, min, max);
    c.NonTrivial();
    c.Log() << bad << " for [" << min << "," << max << "]";
}
