// Values changed from one type to another, one at a time and as columns.
#include <cmath>
#include <limits>

#include "core_literal.h"
#include "core_values.h"
#include "paimon/common/utils/arrow/mem_utils.h"
#include "paimon/core/casting/cast_executor.h"
#include "paimon/core/casting/cast_executor_factory.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

namespace {

using cv::K;
using cv::T;
using i128 = __int128;

// A whole number (also of days, of units of a timestamp, of units of a decimal), a real or a text.
struct V {
    bool null = false;
    i128 i = 0;
    double d = 0;
    std::string s;
};

enum class Out { kValue, kRefused, kUnsaid };
struct Want {
    Out out = Out::kValue;
    V v;
};

i128 P10(int n) {
    i128 r = 1;
    while (n-- > 0) r *= 10;
    return r;
}
std::string Digits(i128 v) {
    bool neg = v < 0;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    std::string s;
    do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10))); u /= 10; } while (u);
    return neg ? "-" + s : s;
}
// v * 10^-scale written without an exponent
std::string Plain(i128 v, int scale) {
    bool neg = v < 0;
    std::string s = Digits(neg ? -v : v);
    if (scale > 0) {
        if (static_cast<int>(s.size()) <= scale) s = std::string(static_cast<size_t>(scale) - s.size() + 1, '0') + s;
        s.insert(s.size() - static_cast<size_t>(scale), ".");
    }
    return neg ? "-" + s : s;
}
std::string Show(const T& t, const V& v) {
    if (v.null) return "null";
    if (t.k == K::kStr || t.k == K::kBin) return cv::Text(t, cv::S(v.s));
    if (cv::IsFloat(t.k)) return cv::Text(t, cv::D(v.d));
    return t.k == K::kDec ? Plain(v.i, t.s) : Digits(v.i);
}

bool IsWhole(K k) { return k == K::kI8 || k == K::kI16 || k == K::kI32 || k == K::kI64; }
int BitsOf(K k) { return k == K::kI8 ? 8 : k == K::kI16 ? 16 : k == K::kI32 ? 32 : 64; }
i128 MinOf(K k) { return -(static_cast<i128>(1) << (BitsOf(k) - 1)); }
i128 MaxOf(K k) { return (static_cast<i128>(1) << (BitsOf(k) - 1)) - 1; }
i128 Wrap(i128 v, K k) {
    uint64_t u = static_cast<uint64_t>(static_cast<unsigned __int128>(v));
    switch (k) {
        case K::kI8: return static_cast<int8_t>(u);
        case K::kI16: return static_cast<int16_t>(u);
        case K::kI32: return static_cast<int32_t>(u);
        default: return static_cast<int64_t>(u);
    }
}
i128 FloorDiv(i128 a, i128 b) { i128 q = a / b; return a % b < 0 ? q - 1 : q; }

// days since 1970-01-01 -> year, month, day
void Civil(int64_t z, int64_t* y, int* m, int* d) {
    z += 719468;
    int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    int64_t doe = z - era * 146097;
    int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    int64_t mp = (5 * doy + 2) / 153;
    *d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
    *m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
    *y = yoe + era * 400 + (*m <= 2);
}
std::string DateText(int64_t days) {
    int64_t y;
    int m, d;
    Civil(days, &y, &m, &d);
    char b[40];
    snprintf(b, sizeof(b), "%04lld-%02d-%02d", static_cast<long long>(y), m, d);
    return b;
}
std::string TimeText(i128 v, int unit) {
    i128 per = P10(unit);
    i128 sec = FloorDiv(v, per), frac = v - sec * per;
    i128 day = FloorDiv(sec, 86400);
    int r = static_cast<int>(sec - day * 86400);
    char b[40];
    snprintf(b, sizeof(b), " %02d:%02d:%02d", r / 3600, r / 60 % 60, r % 60);
    std::string s = DateText(static_cast<int64_t>(day)) + b;
    if (unit) {
        std::string f = Digits(frac);
        s += "." + std::string(static_cast<size_t>(unit) - f.size(), '0') + f;
    }
    return s;
}

// number in text, as mantissa * 10^-scale; false when it is not one
bool ParseNumber(const std::string& s, std::string* digits, bool* neg, int64_t* scale) {
    size_t i = 0;
    *neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) *neg = s[i++] == '-';
    digits->clear();
    *scale = 0;
    bool any = false;
    while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) { *digits += s[i++]; any = true; }
    if (i < s.size() && s[i] == '.') {
        i++;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) { *digits += s[i++]; (*scale)++; any = true; }
    }
    if (!any) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        char* end = nullptr;
        const char* b = s.c_str() + i + 1;
        long long e = strtoll(b, &end, 10);
        if (end == b || !isdigit(static_cast<unsigned char>(end[-1])) || isspace(static_cast<unsigned char>(*b))) return false;
        *scale -= e;
        i = static_cast<size_t>(end - s.c_str());
    }
    return i == s.size();
}

// m * 10^-from as units of 10^-to, halves away from zero; false when it needs more than `precision` digits
bool Rescale(i128 m, int64_t from, int precision, int to, i128* out) {
    bool neg = m < 0;
    std::string s = Digits(neg ? -m : m);
    if (to >= from) {
        if (s == "0") { *out = 0; return true; }
        if (static_cast<int64_t>(s.size()) + to - from > 38) return false;
        s += std::string(static_cast<size_t>(to - from), '0');
    } else {
        int64_t cut = from - to;
        if (cut > static_cast<int64_t>(s.size())) {
            s = "0";
        } else {
            bool up = s[s.size() - static_cast<size_t>(cut)] >= '5';
            s = s.substr(0, s.size() - static_cast<size_t>(cut));
            i128 v = 0;
            for (char ch : s) v = v * 10 + (ch - '0');
            s = Digits(v + up);
        }
    }
    i128 v = 0;
    for (char ch : s) v = v * 10 + (ch - '0');
    if (v >= P10(precision)) return false;
    *out = neg ? -v : v;
    return true;
}

Want Value(V v) { return {Out::kValue, std::move(v)}; }
Want Null() { V v; v.null = true; return Value(v); }
Want Whole(i128 i) { V v; v.i = i; return Value(v); }
Want Real(double d) { V v; v.d = d; return Value(v); }
Want Texted(std::string s) { V v; v.s = std::move(s); return Value(v); }
Want Refused() { return {Out::kRefused, {}}; }
Want Unsaid() { return {Out::kUnsaid, {}}; }

Want ToDecimal(i128 m, int64_t from, const T& to) {
    i128 r;
    return Rescale(m, from, to.p, to.s, &r) ? Whole(r) : Null();
}

Want Expect(const T& from, const V& v, const T& to) {
    if (v.null) return Null();
    bool fw = IsWhole(from.k) || from.k == K::kBool;
    if (fw && IsWhole(to.k)) return Whole(Wrap(v.i, to.k));
    if (fw && to.k == K::kF32) return Real(static_cast<double>(static_cast<float>(static_cast<int64_t>(v.i))));
    if (fw && to.k == K::kF64) return Real(static_cast<double>(static_cast<int64_t>(v.i)));
    if (IsWhole(from.k) && to.k == K::kBool) return Whole(v.i != 0);
    if (fw && to.k == K::kDec) return ToDecimal(v.i, 0, to);
    if (from.k == K::kBool && to.k == K::kStr) return Texted(v.i ? "true" : "false");
    if (IsWhole(from.k) && to.k == K::kStr) return Texted(Digits(v.i));
    if (cv::IsFloat(from.k)) {
        if (IsWhole(to.k)) return Whole(static_cast<int64_t>(v.d));
        if (to.k == K::kF32) return Real(static_cast<double>(static_cast<float>(v.d)));
        if (to.k == K::kF64) return Real(v.d);
        if (to.k == K::kDec) return std::isfinite(v.d) ? Unsaid() : Refused();
        return Unsaid();  // text: read back below
    }
    if (from.k == K::kDec) {
        if (to.k == K::kDec) return ToDecimal(v.i, from.s, to);
        if (IsWhole(to.k)) return Whole(Wrap(v.i / P10(from.s), to.k));
        if (cv::IsFloat(to.k)) return Real(static_cast<double>(static_cast<__float128>(v.i) / static_cast<__float128>(P10(from.s))));
        return Unsaid();
    }
    if (from.k == K::kBin && to.k == K::kStr) return Texted(v.s);
    if (from.k == K::kStr) {
        switch (to.k) {
            case K::kBin: return Texted(v.s);
            case K::kBool: {
                std::string l;
                for (char ch : v.s) l += static_cast<char>(tolower(ch));
                for (const char* t : {"t", "true", "y", "yes", "1"}) if (l == t) return Whole(1);
                for (const char* t : {"f", "false", "n", "no", "0"}) if (l == t) return Whole(0);
                return Refused();
            }
            case K::kDec: {
                std::string dg;
                bool neg;
                int64_t scale;
                if (!ParseNumber(v.s, &dg, &neg, &scale)) return Refused();
                size_t z = dg.find_first_not_of('0');
                dg = z == std::string::npos ? "0" : dg.substr(z);
                if (dg.size() > 38) return Null();
                i128 m = 0;
                for (char ch : dg) m = m * 10 + (ch - '0');
                return ToDecimal(neg ? -m : m, scale, to);
            }
            case K::kDate: {
                char* end;
                long long x = strtoll(v.s.c_str(), &end, 10);
                if (!v.s.empty() && !*end) return x >= INT32_MIN && x <= INT32_MAX ? Whole(x) : Unsaid();
                return Refused();  // dates that are ones are dealt with by the caller
            }
            case K::kF32:
            case K::kF64: {
                std::string dg;
                bool neg;
                int64_t scale;
                if (!ParseNumber(v.s, &dg, &neg, &scale)) return Refused();
                return Real(to.k == K::kF32 ? static_cast<double>(strtof(v.s.c_str(), nullptr)) : strtod(v.s.c_str(), nullptr));
            }
            default: {
                if (v.s.empty()) return Refused();
                size_t i = v.s[0] == '-' ? 1 : 0;
                if (i == v.s.size()) return Refused();
                i128 x = 0;
                for (; i < v.s.size(); i++) {
                    if (!isdigit(static_cast<unsigned char>(v.s[i]))) return Refused();
                    if (x < P10(30)) x = x * 10 + (v.s[i] - '0');
                }
                if (v.s[0] == '-') x = -x;
                return x < MinOf(to.k) || x > MaxOf(to.k) ? Refused() : Whole(x);
            }
        }
    }
    if (from.k == K::kDate && to.k == K::kStr) return Texted(DateText(static_cast<int64_t>(v.i)));
    if (from.k == K::kDate && to.k == K::kTs) return Whole(v.i * 86400 * P10(to.p));
    if (from.k == K::kTs) {
        if (to.k == K::kStr) return Texted(TimeText(v.i, from.p));
        if (to.k == K::kDate) return Whole(FloorDiv(v.i, 86400 * P10(from.p)));
        if (to.k == K::kTs) {
            if (to.p >= from.p) return Whole(v.i * P10(to.p - from.p));
            return v.i < 0 && v.i % P10(from.p - to.p) ? Unsaid() : Whole(v.i / P10(from.p - to.p));
        }
        return v.i < 0 && v.i % P10(from.p) ? Unsaid() : Whole(Wrap(v.i / P10(from.p), to.k));
    }
    if (IsWhole(from.k) && to.k == K::kTs) return Whole(v.i * P10(to.p));
    return Unsaid();
}

// ---- between the code under test and V ----
std::shared_ptr<arrow::Array> Column(const T& t, const std::vector<V>& vs) {
    auto made = arrow::MakeBuilder(cv::ToArrow(t));
    CV_OK(made.status());
    auto b = std::move(made).ValueUnsafe();
    for (const V& v : vs) {
        if (!v.null && t.k == K::kDec) {
            arrow::Decimal128 d(static_cast<int64_t>(v.i >> 64), static_cast<uint64_t>(v.i));
            CV_OK(static_cast<arrow::Decimal128Builder*>(b.get())->Append(d));
            continue;
        }
        cv::Cell cell;
        cell.null = v.null;
        cell.i = static_cast<int64_t>(v.i);
        cell.d = v.d;
        cell.s = v.s;
        cv::Append(b.get(), t, cell);
    }
    std::shared_ptr<arrow::Array> out;
    CV_OK(b->Finish(&out));
    return out;
}
V Cell(const arrow::Array& a, const T& t, int64_t i) {
    V v;
    if (a.IsNull(i)) {
        v.null = true;
        return v;
    }
    if (t.k == K::kDec) {
        arrow::Decimal128 d(static_cast<const arrow::Decimal128Array&>(a).GetValue(i));
        v.i = static_cast<i128>(d.high_bits()) << 64 | static_cast<i128>(d.low_bits());
        return v;
    }
    cv::Cell c = cv::Get(a, t, i);
    v.i = c.i;
    v.d = c.d;
    v.s = c.s;
    return v;
}
paimon::Literal Lit(const T& t, const V& v) {
    if (v.null) return paimon::Literal(cv::FieldTypeOf(t));
    if (t.k == K::kDec) return paimon::Literal(paimon::Decimal(t.p, t.s, v.i));
    cv::Cell cell;
    cell.null = false;
    cell.i = static_cast<int64_t>(v.i);
    cell.d = v.d;
    cell.s = v.s;
    return cv::ToLiteral(t, cell);
}
V Unlit(pbt::Case& c, const paimon::Literal& l, const T& t) {
    V v;
    REQUIRE(l.GetType() == cv::FieldTypeOf(t), "type", "a value of another type than the one asked for");
    if (l.IsNull()) {
        v.null = true;
        return v;
    }
    switch (t.k) {
        case K::kBool: v.i = l.GetValue<bool>(); break;
        case K::kI8: v.i = l.GetValue<int8_t>(); break;
        case K::kI16: v.i = l.GetValue<int16_t>(); break;
        case K::kI32: v.i = l.GetValue<int32_t>(); break;
        case K::kI64: v.i = l.GetValue<int64_t>(); break;
        case K::kF32: v.d = static_cast<double>(l.GetValue<float>()); break;
        case K::kF64: v.d = l.GetValue<double>(); break;
        case K::kStr:
        case K::kBin: v.s = l.GetValue<std::string>(); break;
        case K::kDate: v.i = l.GetValue<int32_t>(); break;
        case K::kDec: {
            auto d = l.GetValue<paimon::Decimal>();
            REQUIRE(d.Precision() == t.p && d.Scale() == t.s, "type", "a decimal of " << d.Precision() << "," << d.Scale() << " instead of " << t.p << "," << t.s);
            v.i = d.Value();
            break;
        }
        default: FAIL("harness", "literal kind");
    }
    return v;
}

bool SameReal(double a, double b) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return a == b && std::signbit(a) == std::signbit(b);
}

// what came out of turning `v` into `to`
void Judge(pbt::Case& c, const T& from, const V& v, const T& to, const Want& w, const V& got, const char* how) {
    auto say = [&] { return std::string(how) + ": " + Show(from, v) + " of " + cv::ToArrow(from)->ToString() + " became " + Show(to, got) + " of " + cv::ToArrow(to)->ToString(); };
    if (w.out == Out::kValue) {
        REQUIRE(w.v.null == got.null, "null", say() << " instead of " << Show(to, w.v));
        if (got.null) return;
        bool same;
        if (cv::IsFloat(to.k)) {
            if (from.k == K::kDec) {
                double tol = to.k == K::kF32 ? 1e-6 : 1e-14;
                same = std::fabs(got.d - w.v.d) <= tol * std::fabs(w.v.d);
            } else {
                same = SameReal(got.d, w.v.d);
            }
        } else if (cv::IsText(to.k)) {
            same = got.s == w.v.s;
        } else {
            same = got.i == w.v.i;
        }
        REQUIRE(same, "value", say() << " instead of " << Show(to, w.v));
        return;
    }
    if (w.out != Out::kUnsaid) return;
    if (cv::IsFloat(from.k) && to.k == K::kDec) {
        __float128 x = static_cast<__float128>(v.d) * static_cast<__float128>(P10(to.s));
        __float128 a = x < 0 ? -x : x, lim = static_cast<__float128>(P10(to.p));
        __float128 slack = a * static_cast<__float128>(from.k == K::kF32 ? 1e-6 : 1e-14) + static_cast<__float128>(0.5000001);
        if (got.null) {
            REQUIRE(a + slack >= lim, "value", say());
            return;
        }
        REQUIRE(got.i < P10(to.p) && got.i > -P10(to.p), "value", say() << ", too long");
        __float128 diff = static_cast<__float128>(got.i) - x;
        if (diff < 0) diff = -diff;
        REQUIRE(diff <= slack, "value", say());
    } else if (cv::IsFloat(from.k) && to.k == K::kStr) {
        REQUIRE(!got.null, "null", say());
        if (std::isnan(v.d)) {
            REQUIRE(got.s.find("nan") != std::string::npos, "value", say());
        } else if (std::isinf(v.d)) {
            REQUIRE(got.s.find("inf") != std::string::npos && (got.s[0] == '-') == (v.d < 0), "value", say());
        } else {
            double back = from.k == K::kF32 ? static_cast<double>(strtof(got.s.c_str(), nullptr)) : strtod(got.s.c_str(), nullptr);
            REQUIRE(SameReal(back, v.d), "value", say());
        }
    } else if (from.k == K::kDec && to.k == K::kStr) {
        REQUIRE(!got.null, "null", say());
        std::string dg;
        bool neg;
        int64_t scale;
        REQUIRE(ParseNumber(got.s, &dg, &neg, &scale), "value", say());
        i128 m = 0;
        for (char ch : dg) m = m * 10 + (ch - '0');
        if (neg) m = -m;
        REQUIRE(m == v.i && scale == from.s, "value", say());
    }
}

T Of(K k) {
    T t;
    t.k = k;
    return t;
}
T Dec(pbt::Case& c) {
    T t = Of(K::kDec);
    t.p = static_cast<int>(c.Weighted({1, 1}) ? c.Int(1, 38) : c.Int(1, 12));
    t.s = static_cast<int>(c.Int(0, t.p));
    return t;
}
T Ts(pbt::Case& c) {
    T t = Of(K::kTs);
    t.p = c.PickOf<int>({0, 3, 6, 9});
    return t;
}

i128 WholeIn(pbt::Case& c, i128 lo, i128 hi) {
    switch (c.Weighted({4, 1, 1, 4, 2})) {
        case 0: { i128 v = c.Int(-12, 12); return v < lo ? lo : v > hi ? hi : v; }
        case 1: return lo;
        case 2: return hi;
        case 3: {
            // some number of digits
            int n = static_cast<int>(c.Int(1, 38));
            i128 v = 0;
            uint64_t a = c.Draw(UINT64_MAX), b = c.Draw(UINT64_MAX);
            v = static_cast<i128>((static_cast<unsigned __int128>(a) << 64 | b) >> 2) % P10(n);
            if (c.Chance(1, 4)) v -= v % P10(n / 2);          // trailing zeros
            if (c.Chance(1, 4)) v = v - v % P10(n / 2) + 5 * P10(n / 2) / 10;  // a half
            if (c.Chance(1, 6)) v = P10(n) - 1;
            if (c.Bool()) v = -v;
            return v < lo || v > hi ? lo + (v < 0 ? -v : v) % (hi - lo + 1) : v;
        }
        default: {
            i128 v = static_cast<i128>(1) << c.Int(0, 63);
            v += c.Int(-1, 1);
            if (c.Bool()) v = -v;
            return v < lo || v > hi ? lo : v;
        }
    }
}
double RealIn(pbt::Case& c, bool f32) {
    double d;
    switch (c.Weighted({4, 2, 2, 1, 1, 1})) {
        case 0: d = static_cast<double>(c.Int(-100000, 100000)) / static_cast<double>(1 << c.Int(0, 10)); break;
        case 1: d = static_cast<double>(c.I64()) / 1e6; break;
        case 2: d = std::ldexp(static_cast<double>(c.Int(1, 1 << 24)), static_cast<int>(c.Int(-100, 100))); break;
        case 3: d = c.Bool() ? 0.0 : -0.0; break;
        case 4: d = f32 ? static_cast<double>(std::numeric_limits<float>::max()) : std::numeric_limits<double>::max(); break;
        default: d = c.PickOf<double>({std::nan(""), INFINITY, -INFINITY});
    }
    if (c.Bool()) d = -d;
    return f32 ? static_cast<double>(static_cast<float>(d)) : d;
}

V GenV(pbt::Case& c, const T& t, const T& to) {
    V v;
    if (c.Chance(1, 8)) {
        v.null = true;
        return v;
    }
    switch (t.k) {
        case K::kBool: v.i = c.Bool(); break;
        case K::kI8:
        case K::kI16:
        case K::kI32:
        case K::kI64:
            v.i = WholeIn(c, MinOf(t.k), MaxOf(t.k));
            if (to.k == K::kTs) v.i %= to.p == 9 ? 8000000000LL : to.p == 6 ? 8000000000000LL : 100000000000LL;
            break;
        case K::kF32:
        case K::kF64:
            v.d = RealIn(c, t.k == K::kF32);
            if (IsWhole(to.k)) {
                // a real too large for the target has no defined outcome
                double lim = std::ldexp(1.0, BitsOf(to.k) - 1);
                if (!(v.d > -lim && v.d < lim)) v.d = c.Bool() ? std::nextafter(lim, 0.0) / 2 : -lim;
                if (t.k == K::kF32) v.d = static_cast<double>(static_cast<float>(v.d));
            }
            break;
        case K::kDec: v.i = WholeIn(c, -(P10(t.p) - 1), P10(t.p) - 1); break;
        case K::kBin: v.s = c.Ascii(c.Len(0, 20)); break;
        case K::kDate: v.i = c.Chance(1, 3) ? c.Int(-719162, 2932896) : c.Int(-800, 40000); if (to.k == K::kTs && to.p == 9) v.i %= 90000; break;
        case K::kTs: {
            int64_t sec = c.Chance(1, 3) ? c.Int(-62135596800LL, 253402300799LL) : c.Int(-100000000LL, 4000000000LL);
            if (c.Chance(1, 4)) sec -= sec % 86400;
            if (t.p == 9 || (to.k == K::kTs && to.p == 9)) sec %= 9000000000LL;
            v.i = static_cast<i128>(sec) * P10(t.p);
            if (t.p && c.Bool()) v.i += c.Int(0, static_cast<int64_t>(P10(t.p)) - 1);
            break;
        }
        default:
            break;
    }
    return v;
}
// a text that may be taken for a value of type `to`; `*want` is filled where only the maker knows
V GenText(pbt::Case& c, const T& to, std::optional<Want>* want) {
    V v;
    if (c.Chance(1, 8)) {
        v.null = true;
        return v;
    }
    bool bad = c.Chance(1, 40);
    switch (to.k) {
        case K::kBin: v.s = c.Ascii(c.Len(0, 20)); return v;
        case K::kBool:
            v.s = bad ? c.PickOf<std::string>({"", "tru", "2", "yess", "00"})
                      : c.PickOf<std::string>({"t", "TRUE", "true", "True", "y", "Yes", "1", "F", "false", "fAlse", "N", "no", "0"});
            return v;
        case K::kDec: {
            if (bad) { v.s = c.PickOf<std::string>({"", "abc", "1x", "-", ".", "1e", "--1", "1.2.3"}); return v; }
            int scale = static_cast<int>(c.Int(0, c.Bool() ? to.s + 2 : 38));
            if (scale > 38) scale = 38;
            i128 m = WholeIn(c, -(P10(38) - 1), P10(38) - 1);
            if (c.Bool()) m %= P10(static_cast<int>(c.Int(1, 20)));
            std::string body = Plain(m, scale);
            if (scale && static_cast<int>(Digits(m < 0 ? -m : m).size()) <= scale && c.Chance(1, 3)) body.erase(body.find('0'), 1);  // .5
            if (c.Chance(1, 4)) {
                // the same digits with an exponent
                body = Digits(m) + (c.Bool() ? "E" : "e") + std::to_string(c.Chance(1, 3) ? c.Int(-90, 20) : -scale);
            }
            if (m >= 0 && c.Chance(1, 6)) body = "+" + body;
            if (c.Chance(1, 6)) body.insert(body[0] == '-' || body[0] == '+' ? 1 : 0, "00");
            v.s = body;
            return v;
        }
        case K::kDate: {
            if (bad) { v.s = c.PickOf<std::string>({"", "abc", "x2020-01-01", "2020-13-01", "2020/01/01", "-"}); return v; }
            if (c.Chance(1, 4)) { v.s = Digits(c.I32()); return v; }
            int64_t d = c.Chance(1, 3) ? c.Int(-719162, 2932896) : c.Int(-800, 40000);
            v.s = DateText(d);
            *want = Whole(d);
            return v;
        }
        case K::kTs: {
            T t = to;
            V x = GenV(c, t, Of(K::kStr));
            if (x.null) return x;
            v.s = TimeText(x.i, to.p);
            *want = Whole(x.i);
            return v;
        }
        case K::kF32:
        case K::kF64: {
            if (bad) { v.s = c.PickOf<std::string>({"", "abc", "1x", "-"}); return v; }
            double d = RealIn(c, to.k == K::kF32);
            if (!std::isfinite(d)) d = 1.5;
            char b[64];
            snprintf(b, sizeof(b), c.Bool() ? "%.17g" : "%.6g", d);
            v.s = b;
            return v;
        }
        default: {
            if (bad) { v.s = c.PickOf<std::string>({"", "abc", "1x", "-", "1.5", "--1"}); return v; }
            i128 x = WholeIn(c, MinOf(to.k), MaxOf(to.k));
            if (c.Chance(1, 30)) x = c.Bool() ? MaxOf(to.k) + c.Int(1, 300) : MinOf(to.k) - c.Int(1, 300);
            v.s = Digits(x);
            return v;
        }
    }
}

std::vector<std::pair<K, K>> Pairs() {
    std::vector<std::pair<K, K>> r;
    std::vector<K> num = {K::kI8, K::kI16, K::kI32, K::kI64, K::kF32, K::kF64};
    for (K a : num) {
        for (K b : num) r.push_back({a, b});
        r.push_back({K::kBool, a});
        r.push_back({K::kStr, a});
        r.push_back({a, K::kStr});
        r.push_back({K::kDec, a});
        r.push_back({a, K::kDec});
        if (!cv::IsFloat(a)) r.push_back({a, K::kBool});
    }
    for (auto p : std::vector<std::pair<K, K>>{{K::kBool, K::kDec}, {K::kBool, K::kStr}, {K::kStr, K::kBool}, {K::kDec, K::kStr},
             {K::kStr, K::kBin}, {K::kBin, K::kStr}, {K::kDate, K::kStr}, {K::kDate, K::kTs}, {K::kI32, K::kTs}, {K::kI64, K::kTs},
             {K::kStr, K::kDate}, {K::kTs, K::kStr}, {K::kTs, K::kDate}, {K::kTs, K::kI32}, {K::kTs, K::kI64}, {K::kStr, K::kTs},
             {K::kStr, K::kDec}, {K::kDec, K::kDec}, {K::kTs, K::kTs}})
        r.push_back(p);
    return r;
}
T Complete(pbt::Case& c, K k) { return k == K::kDec ? Dec(c) : k == K::kTs ? Ts(c) : Of(k); }

FACET(casts, 10) {
    static const auto pairs = Pairs();
    size_t at;
    switch (c.Weighted({6, 2, 2, 1})) {
        case 0: at = c.Draw(pairs.size() - 1); break;
        case 1: at = pairs.size() - 2; break;  // decimal to decimal
        case 2: at = pairs.size() - 3; break;  // text to decimal
        default: at = pairs.size() - 1;
    }
    T from = Complete(c, pairs[at].first), to = Complete(c, pairs[at].second);
    auto exec = paimon::CastExecutorFactory::GetCastExecutorFactory()->GetCastExecutor(cv::FieldTypeOf(from), cv::FieldTypeOf(to));
    REQUIRE(exec, "missing", "no way from " << cv::ToArrow(from)->ToString() << " to " << cv::ToArrow(to)->ToString());
    auto target = cv::ToArrow(to);
    size_t n = c.Len(1, 12), lead = c.Chance(1, 3) ? c.Len(1, 5) : 0, tail = lead ? c.Len(0, 3) : 0;
    std::vector<V> vs;
    std::vector<Want> ws;
    size_t asked = 0;
    for (size_t i = 0; i < n; i++) {
        std::optional<Want> known;
        V v = from.k == K::kStr ? GenText(c, to, &known) : GenV(c, from, to);
        Want w = known ? *known : Expect(from, v, to);
        vs.push_back(v);
        ws.push_back(w);
        asked += !v.null;
    }
    c.NonTrivial(asked > 0);
    c.Eval(2 * n);
    c.Label(std::string(cv::IsText(from.k) ? "from text" : from.k == K::kDec ? "from decimal" : from.k == K::kTs ? "from timestamp" : "from other") +
            (cv::IsText(to.k) ? " to text" : to.k == K::kDec ? " to decimal" : to.k == K::kTs ? " to timestamp" : " to other"));
    // one by one
    bool timed = from.k == K::kTs || to.k == K::kTs;
    for (size_t i = 0; i < n; i++) {
        auto r = exec->Cast(Lit(from, vs[i]), target);
        if (timed) {
            REQUIRE(!r.ok(), "refused", "a single timestamp was cast");
            continue;
        }
        if (ws[i].out == Out::kRefused) {
            REQUIRE(!r.ok(), "accepted", Show(from, vs[i]) << " was taken for " << target->ToString() << ": " << Show(to, Unlit(c, r.value(), to)));
            continue;
        }
        REQUIRE(r.ok(), "refused", "one value: " << Show(from, vs[i]) << " of " << cv::ToArrow(from)->ToString() << " to " << target->ToString() << ": " << r.status().ToString());
        Judge(c, from, vs[i], to, ws[i], Unlit(c, r.value(), to), "one value");
    }
    // as a column, perhaps a part of a longer one
    std::vector<V> all(lead);
    for (auto& v : all) v = from.k == K::kStr ? V{false, 0, 0, "@@"} : GenV(c, from, to);
    all.insert(all.end(), vs.begin(), vs.end());
    for (size_t i = 0; i < tail; i++) all.push_back(from.k == K::kStr ? V{false, 0, 0, "@@"} : GenV(c, from, to));
    if (cv::IsFloat(from.k) && to.k == K::kDec)
        for (auto& v : all) if (&v < &all[lead] || &v >= &all[lead] + n) v.d = NAN;
    auto whole = Column(from, all);
    auto array = lead || tail ? whole->Slice(static_cast<int64_t>(lead), static_cast<int64_t>(n)) : whole;
    std::shared_ptr<paimon::MemoryPool> pool = paimon::GetMemoryPool();
    auto arrow_pool = paimon::GetArrowPool(pool);
    auto r = exec->Cast(array, target, arrow_pool.get());
    bool refused = false;
    for (const auto& w : ws) refused |= w.out == Out::kRefused;
    if (refused) {
        c.Label("column refused");
        REQUIRE(!r.ok(), "accepted", "a column with a value that cannot be cast to " << target->ToString() << " was cast");
        return;
    }
    REQUIRE(r.ok(), "refused", "column of " << cv::ToArrow(from)->ToString() << " to " << target->ToString() << ": " << r.status().ToString());
    auto out = r.value();
    REQUIRE(out->length() == static_cast<int64_t>(n), "length", out->length() << " values instead of " << n);
    REQUIRE(out->type()->Equals(*target), "type", out->type()->ToString() << " instead of " << target->ToString());
    int64_t nulls = 0;
    for (size_t i = 0; i < n; i++) {
        V got = Cell(*out, to, static_cast<int64_t>(i));
        nulls += got.null;
        Judge(c, from, vs[i], to, ws[i], got, "column");
        if (vs[i].null) REQUIRE(got.null, "null", "a null became " << Show(to, got));
    }
    REQUIRE(out->null_count() == nulls, "null", "the count of nulls is " << out->null_count() << " instead of " << nulls);
}

FACET(ways, 1) {
    // which types can be cast to which
    static const auto pairs = Pairs();
    static const std::vector<K> all = {K::kBool, K::kI8, K::kI16, K::kI32, K::kI64, K::kF32, K::kF64, K::kStr, K::kBin, K::kDate, K::kTs, K::kDec, K::kList, K::kMap, K::kStruct};
    K a = c.Pick(all), b = c.Pick(all);
    bool can = false;
    for (auto& p : pairs) can |= p.first == a && p.second == b;
    auto exec = paimon::CastExecutorFactory::GetCastExecutorFactory()->GetCastExecutor(cv::FieldTypeOf(Of(a)), cv::FieldTypeOf(Of(b)));
    c.NonTrivial();
    REQUIRE((exec != nullptr) == can, "ways", "kind " << static_cast<int>(a) << " to kind " << static_cast<int>(b) << (can ? " has no" : " has a") << " cast");
}

}  // namespace
