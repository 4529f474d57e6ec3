// Column statistics collected value by value next to a pass over all values.
#include <cmath>
#include <limits>

#include "paimon/format/column_stats.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

// the real one needs a library that is not installed
namespace paimon {
std::string Decimal::ToString() const {
    return std::to_string(static_cast<int64_t>(Value())) + "/" + std::to_string(Scale());
}
int32_t Decimal::CompareTo(const Decimal& other) const {
    return Value() < other.Value() ? -1 : Value() > other.Value() ? 1 : 0;
}
}  // namespace paimon

namespace {
template <typename T, typename Stats, typename Draw, typename Create>
void Run(Case& c, FieldType type, Draw draw, Create create) {
    std::optional<T> min, max;
    std::optional<int64_t> nulls;
    if (c.Chance(1, 3)) {  // continues from statistics of something else
        T a = draw(), b = draw();
        min = a < b ? a : b;
        max = a < b ? b : a;
        nulls = c.Int(0, 9);
    }
    auto base = create(min, max, nulls);
    REQUIRE(base->GetFieldType() == type, "type", "");
    auto* stats = dynamic_cast<Stats*>(base.get());
    REQUIRE(stats != nullptr, "type", "");
    int64_t n = c.Len(0, 10);
    c.NonTrivial(n >= 2);
    c.Log() << "type " << static_cast<int>(type) << " x" << n;
    for (int64_t i = 0; i <= n; i++) {
        auto got_min = stats->Min();
        auto got_max = stats->Max();
        REQUIRE(got_min.has_value() == min.has_value() && (!min || (!(*got_min < *min) && !(*min < *got_min))), "min", i);
        REQUIRE(got_max.has_value() == max.has_value() && (!max || (!(*got_max < *max) && !(*max < *got_max))), "max", i);
        REQUIRE(base->NullCount() == nulls, "nulls", i << ": " << base->NullCount().value_or(-1));
        std::string text = base->ToString();
        REQUIRE(text.find("null count " + (nulls ? std::to_string(*nulls) : std::string("null"))) != std::string::npos, "text",
                text);
        if (i == n) {
            break;
        }
        if (c.Chance(1, 4)) {
            stats->Collect(std::nullopt);
            nulls = nulls.value_or(0) + 1;
        } else {
            T v = draw();
            stats->Collect(std::optional<T>(v));
            if (!min || v < *min) {
                min = v;
            }
            if (!max || *max < v) {
                max = v;
            }
            nulls = nulls.value_or(0);
        }
    }
}
}  // namespace

FACET(collect, 1) {
    using S = ColumnStats;
    switch (c.Int(0, 11)) {
        case 0:
            return Run<bool, BooleanColumnStats>(c, FieldType::BOOLEAN, [&] { return c.Bool(); }, S::CreateBooleanColumnStats);
        case 1:
            return Run<int8_t, TinyIntColumnStats>(
                c, FieldType::TINYINT, [&] { return static_cast<int8_t>(c.Bool() ? c.Int(-128, 127) : c.PickOf<int>({-128, 127, 0})); },
                S::CreateTinyIntColumnStats);
        case 2:
            return Run<int16_t, SmallIntColumnStats>(
                c, FieldType::SMALLINT, [&] { return static_cast<int16_t>(c.Int(-32768, 32767)); }, S::CreateSmallIntColumnStats);
        case 3:
            return Run<int32_t, IntColumnStats>(c, FieldType::INT, [&] { return static_cast<int32_t>(c.I32()); },
                                                S::CreateIntColumnStats);
        case 4:
            return Run<int64_t, BigIntColumnStats>(c, FieldType::BIGINT, [&] { return c.I64(); }, S::CreateBigIntColumnStats);
        case 5:
            return Run<float, FloatColumnStats>(
                c, FieldType::FLOAT,
                [&] {
                    return c.Bool() ? static_cast<float>(c.Int(-1000, 1000)) / 7
                                    : c.PickOf<float>({0.0f, -1.5f, INFINITY, -INFINITY, 1e-40f, -3e38f, 3e38f});
                },
                S::CreateFloatColumnStats);
        case 6:
            return Run<double, DoubleColumnStats>(
                c, FieldType::DOUBLE,
                [&] {
                    return c.Bool() ? static_cast<double>(c.Int(-1000, 1000)) / 7
                                    : c.PickOf<double>({0.0, -1.5, INFINITY, -INFINITY, 1e-320, -1e308, 1e308});
                },
                S::CreateDoubleColumnStats);
        case 7:
            return Run<std::string, StringColumnStats>(
                c, FieldType::STRING, [&] { return c.Bytes(c.Len(0, 5)); }, S::CreateStringColumnStats);
        case 8: {
            int32_t p = static_cast<int32_t>(c.Int(0, 9));
            return Run<Timestamp, TimestampColumnStats>(
                c, FieldType::TIMESTAMP,
                [&] { return Timestamp(c.Bool() ? c.Int(-3, 3) : c.Int(-100000000000, 100000000000), c.Bool() ? c.Int(0, 2) : c.Int(0, 999999)); },
                [&](auto a, auto b, auto n) {
                    auto s = S::CreateTimestampColumnStats(a, b, n, p);
                    REQUIRE(dynamic_cast<TimestampColumnStats*>(s.get())->GetPrecision() == p, "precision", p);
                    return s;
                });
        }
        case 9: {
            int32_t p = static_cast<int32_t>(c.Int(5, 38)), sc = static_cast<int32_t>(c.Int(0, 5));
            return Run<Decimal, DecimalColumnStats>(
                c, FieldType::DECIMAL, [&] { return Decimal(p, sc, static_cast<__int128>(c.I64())); },
                [&](auto a, auto b, auto n) {
                    auto s = S::CreateDecimalColumnStats(a, b, n, p, sc);
                    auto* d = dynamic_cast<DecimalColumnStats*>(s.get());
                    REQUIRE(d->GetPrecision() == p && d->GetScale() == sc, "precision", p);
                    return s;
                });
        }
        case 10:
            return Run<int32_t, DateColumnStats>(c, FieldType::DATE, [&] { return static_cast<int32_t>(c.I32()); },
                                                 S::CreateDateColumnStats);
        default: {
            auto type = c.PickOf<FieldType>({FieldType::ARRAY, FieldType::MAP, FieldType::STRUCT});
            std::optional<int64_t> n;
            if (c.Bool()) {
                n = c.Int(0, 1000);
            }
            auto s = S::CreateNestedColumnStats(type, n);
            REQUIRE(s->GetFieldType() == type && s->NullCount() == n, "nested", "");
            REQUIRE(s->ToString() == "min null, max null, null count " + (n ? std::to_string(*n) : std::string("null")), "nested-text",
                    s->ToString());
        }
    }
}
