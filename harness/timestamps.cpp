// Points in time: conversions are exact, order follows time, and text is the UTC calendar.
#include <cstdio>

#include "paimon/data/timestamp.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
constexpr int64_t kMin = -62167219200000LL;  // 0000-01-01
constexpr int64_t kMax = 253402300799999LL;  // 9999-12-31 23:59:59.999

Timestamp Gen(Case& c, int64_t lo = kMin, int64_t hi = kMax) {
    int64_t ms;
    switch (c.Weighted({3, 2, 2, 1})) {
        case 0:
            ms = c.Int(-5000, 5000);
            break;
        case 1:
            ms = c.Int(-40000, 60000) * 86400000LL + c.PickOf<int64_t>({0, -1, 1, 86399999, 43200000});
            break;
        case 2:
            ms = c.Int(lo, hi);
            break;
        default:
            ms = c.PickOf<int64_t>({lo, hi, lo + 1, hi - 1, 0, -1, 951782400000LL, 951868800000LL,
                                    -2203891200000LL, 4107542400000LL});
    }
    ms = std::min(std::max(ms, lo), hi);
    int32_t nano = static_cast<int32_t>(c.Bool() ? c.Int(0, 999999)
                                                 : c.PickOf<int64_t>({0, 1, 999, 1000, 1001, 999000, 999999}));
    return Timestamp(ms, nano);
}

std::string Calendar(int64_t ms, int32_t nano) {
    int64_t days = ms >= 0 ? ms / 86400000 : -((-ms + 86399999) / 86400000);
    int64_t in_day = ms - days * 86400000;
    // walk whole 400-year cycles, then years and months
    int64_t cycle = days >= 0 ? days / 146097 : -((-days + 146096) / 146097);
    int64_t d = days - cycle * 146097;
    int64_t y = 1970 + cycle * 400;
    auto leap = [](int64_t yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
    while (d >= (leap(y) ? 366 : 365)) {
        d -= leap(y) ? 366 : 365;
        y++;
    }
    static const int kDays[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int m = 0;
    while (true) {
        int len = kDays[m] + (m == 1 && leap(y) ? 1 : 0);
        if (d < len) {
            break;
        }
        d -= len;
        m++;
    }
    char buf[80];
    snprintf(buf, sizeof(buf), "%04d-%02d-%02d %02d:%02d:%02d.%09d", static_cast<int>(y), m + 1,
             static_cast<int>(d) + 1, static_cast<int>(in_day / 3600000), static_cast<int>(in_day / 60000 % 60),
             static_cast<int>(in_day / 1000 % 60), static_cast<int>(in_day % 1000 * 1000000 + nano));
    return buf;
}
}  // namespace

FACET(conversions, 3) {
    Timestamp t = Gen(c);
    int64_t ms = t.GetMillisecond();
    int32_t nano = t.GetNanoOfMillisecond();
    c.Log() << ms << "ms+" << nano << " ";
    c.NonTrivial(ms != 0 && nano != 0);
    REQUIRE(t.ToMicrosecond() == ms * 1000 + nano / 1000, "micros", t.ToMicrosecond());
    Timestamp m = t.ToMillisTimestamp();
    REQUIRE(m.GetMillisecond() == ms && m.GetNanoOfMillisecond() == 0, "truncated-to-millis", "");
    REQUIRE(t.ToString() == Calendar(ms, nano), "text", t.ToString() << " want " << Calendar(ms, nano));
    Timestamp near = Gen(c, -9223372036854LL + 1, 9223372036854LL - 1);
    REQUIRE(near.ToNanosecond() == near.GetMillisecond() * 1000000 + near.GetNanoOfMillisecond(), "nanos",
            near.GetMillisecond() << "ms " << near.ToNanosecond());
    Timestamp whole = Timestamp::FromEpochMillis(ms), parts = Timestamp::FromEpochMillis(ms, nano), zero;
    REQUIRE(whole == m && parts == t && zero == Timestamp(0, 0), "made-from", "");
    REQUIRE(t == *&t && !(t < *&t), "self", "");
    REQUIRE(Timestamp::MIN_PRECISION == 0 && Timestamp::MILLIS_PRECISION == 3 && Timestamp::DEFAULT_PRECISION == 6 &&
                Timestamp::MAX_PRECISION == 9 && Timestamp::MAX_COMPACT_PRECISION == 3,
            "precisions", "");
    int32_t p = static_cast<int32_t>(c.Int(0, 9));
    REQUIRE(Timestamp::IsCompact(p) == (p <= 3), "compact", p);
}

FACET(order, 2) {
    Timestamp a = Gen(c), b = Gen(c);
    if (c.Bool()) {
        b = Timestamp(a.GetMillisecond() + c.Int(-1, 1), b.GetNanoOfMillisecond());
    }
    if (c.Chance(1, 4)) {
        b = a;
    }
    c.Log() << a.GetMillisecond() << "ms+" << a.GetNanoOfMillisecond() << " " << b.GetMillisecond() << "ms+"
            << b.GetNanoOfMillisecond();
    __int128 x = static_cast<__int128>(a.GetMillisecond()) * 1000000 + a.GetNanoOfMillisecond();
    __int128 y = static_cast<__int128>(b.GetMillisecond()) * 1000000 + b.GetNanoOfMillisecond();
    c.NonTrivial(a.GetMillisecond() == b.GetMillisecond() || x != y);
    REQUIRE((a == b) == (x == y), "equal", "");
    REQUIRE((a < b) == (x < y), "less", "");
    REQUIRE((b < a) == (y < x), "less-reverse", "");
    if (a.GetMillisecond() / 1000 != b.GetMillisecond() / 1000 && a.GetMillisecond() >= kMin &&
        b.GetMillisecond() >= kMin && a.GetMillisecond() <= kMax && b.GetMillisecond() <= kMax) {
        REQUIRE((a.ToString() < b.ToString()) == (x < y), "text-order", a.ToString() << " " << b.ToString());
    }
}
