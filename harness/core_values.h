#pragma once
// Typed cells, the Arrow arrays made of them, and what is read back from Arrow arrays.
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "arrow/util/decimal.h"
#include "paimon/common/data/blob_utils.h"
#include "pbt.h"

namespace cv {

enum class K { kBool, kI8, kI16, kI32, kI64, kF32, kF64, kStr, kBin, kDate, kTs, kDec, kList, kStruct, kMap, kBlob };

struct T {
    K k = K::kI32;
    int p = 0;  // decimal precision, or the unit of a timestamp: 0 s, 3 ms, 6 us, 9 ns
    int s = 0;  // decimal scale, or 1 for a timestamp with a zone
    std::vector<T> kids;
    bool operator==(const T& o) const { return k == o.k && p == o.p && s == o.s && kids == o.kids; }
};

struct Cell {
    bool null = true;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<Cell> kids;
};

inline Cell Null() { return Cell{}; }
inline Cell I(int64_t v) { Cell c; c.null = false; c.i = v; return c; }
inline Cell D(double v) { Cell c; c.null = false; c.d = v; return c; }
inline Cell S(std::string v) { Cell c; c.null = false; c.s = std::move(v); return c; }

using Row = std::vector<Cell>;

inline bool IsInt(K k) {
    return k == K::kBool || k == K::kI8 || k == K::kI16 || k == K::kI32 || k == K::kI64 ||
           k == K::kDate || k == K::kTs || k == K::kDec;
}
inline bool IsFloat(K k) { return k == K::kF32 || k == K::kF64; }
inline bool IsText(K k) { return k == K::kStr || k == K::kBin || k == K::kBlob; }

// null first, then by value; -0.0 and 0.0 differ by sign bit, NaN is the largest
inline int Compare(const T& t, const Cell& a, const Cell& b) {
    if (a.null || b.null) return a.null == b.null ? 0 : (a.null ? -1 : 1);
    if (IsInt(t.k)) return a.i < b.i ? -1 : a.i > b.i ? 1 : 0;
    if (IsFloat(t.k)) {
        bool an = std::isnan(a.d), bn = std::isnan(b.d);
        if (an || bn) return an == bn ? 0 : (an ? 1 : -1);
        if (a.d < b.d) return -1;
        if (a.d > b.d) return 1;
        return static_cast<int>(std::signbit(b.d)) - static_cast<int>(std::signbit(a.d));
    }
    if (IsText(t.k)) { int c = a.s.compare(b.s); return c < 0 ? -1 : c > 0 ? 1 : 0; }
    for (size_t i = 0; i < a.kids.size() && i < b.kids.size(); i++) {
        const T& kt = t.k == K::kStruct ? t.kids[i] : t.k == K::kMap ? t.kids[i % 2] : t.kids[0];
        if (int c = Compare(kt, a.kids[i], b.kids[i])) return c;
    }
    return a.kids.size() < b.kids.size() ? -1 : a.kids.size() > b.kids.size() ? 1 : 0;
}

inline std::string Text(const T& t, const Cell& c) {
    if (c.null) return "null";
    if (IsInt(t.k)) return std::to_string(c.i);
    if (IsFloat(t.k)) {
        if (std::isnan(c.d)) return "nan";
        char buf[64];
        snprintf(buf, sizeof(buf), "%.17g", c.d);
        return buf;
    }
    if (IsText(t.k)) {
        std::string out = "'";
        for (unsigned char ch : c.s) {
            if (ch >= 32 && ch < 127 && ch != '\'' && ch != '\\') out += static_cast<char>(ch);
            else { char b[8]; snprintf(b, sizeof(b), "\\x%02x", ch); out += b; }
        }
        return out + "'";
    }
    std::string out = t.k == K::kList ? "[" : t.k == K::kMap ? "{" : "(";
    for (size_t i = 0; i < c.kids.size(); i++) {
        const T& kt = t.k == K::kStruct ? t.kids[i] : t.k == K::kMap ? t.kids[i % 2] : t.kids[0];
        out += (i ? "," : "") + Text(kt, c.kids[i]);
    }
    return out + (t.k == K::kList ? "]" : t.k == K::kMap ? "}" : ")");
}

inline std::string Text(const std::vector<T>& ts, const Row& r) {
    std::string out = "(";
    for (size_t i = 0; i < r.size(); i++) out += (i ? ", " : "") + Text(ts[i], r[i]);
    return out + ")";
}

inline std::shared_ptr<arrow::DataType> ToArrow(const T& t) {
    switch (t.k) {
        case K::kBool: return arrow::boolean();
        case K::kI8: return arrow::int8();
        case K::kI16: return arrow::int16();
        case K::kI32: return arrow::int32();
        case K::kI64: return arrow::int64();
        case K::kF32: return arrow::float32();
        case K::kF64: return arrow::float64();
        case K::kStr: return arrow::utf8();
        case K::kBin: return arrow::binary();
        case K::kBlob: return arrow::large_binary();
        case K::kDate: return arrow::date32();
        case K::kTs: {
            auto u = t.p == 0 ? arrow::TimeUnit::SECOND : t.p == 3 ? arrow::TimeUnit::MILLI
                     : t.p == 6 ? arrow::TimeUnit::MICRO : arrow::TimeUnit::NANO;
            return t.s ? arrow::timestamp(u, "UTC") : arrow::timestamp(u);
        }
        case K::kDec: return arrow::decimal128(t.p, t.s);
        case K::kList: return arrow::list(ToArrow(t.kids[0]));
        case K::kMap: return arrow::map(ToArrow(t.kids[0]), ToArrow(t.kids[1]));
        case K::kStruct: {
            arrow::FieldVector f;
            for (size_t i = 0; i < t.kids.size(); i++) f.push_back(arrow::field("s" + std::to_string(i), ToArrow(t.kids[i])));
            return arrow::struct_(f);
        }
    }
    return nullptr;
}

inline std::shared_ptr<arrow::Field> ToField(const std::string& name, const T& t, bool nullable) {
    if (t.k == K::kBlob) return paimon::BlobUtils::ToArrowField(name, nullable);
    return arrow::field(name, ToArrow(t), nullable);
}

#define CV_OK(expr)                                                         \
    do {                                                                    \
        auto st_ = (expr);                                                  \
        if (!st_.ok()) FAIL("harness", "arrow builder: " << st_.ToString()); \
    } while (0)

inline void Append(arrow::ArrayBuilder* b, const T& t, const Cell& c) {
    if (c.null) {
        CV_OK(b->AppendNull());
        return;
    }
    switch (t.k) {
        case K::kBool: CV_OK(static_cast<arrow::BooleanBuilder*>(b)->Append(c.i != 0)); break;
        case K::kI8: CV_OK(static_cast<arrow::Int8Builder*>(b)->Append(static_cast<int8_t>(c.i))); break;
        case K::kI16: CV_OK(static_cast<arrow::Int16Builder*>(b)->Append(static_cast<int16_t>(c.i))); break;
        case K::kI32: CV_OK(static_cast<arrow::Int32Builder*>(b)->Append(static_cast<int32_t>(c.i))); break;
        case K::kI64: CV_OK(static_cast<arrow::Int64Builder*>(b)->Append(c.i)); break;
        case K::kF32: CV_OK(static_cast<arrow::FloatBuilder*>(b)->Append(static_cast<float>(c.d))); break;
        case K::kF64: CV_OK(static_cast<arrow::DoubleBuilder*>(b)->Append(c.d)); break;
        case K::kStr: CV_OK(static_cast<arrow::StringBuilder*>(b)->Append(c.s)); break;
        case K::kBin: CV_OK(static_cast<arrow::BinaryBuilder*>(b)->Append(c.s)); break;
        case K::kBlob: CV_OK(static_cast<arrow::LargeBinaryBuilder*>(b)->Append(c.s)); break;
        case K::kDate: CV_OK(static_cast<arrow::Date32Builder*>(b)->Append(static_cast<int32_t>(c.i))); break;
        case K::kTs: CV_OK(static_cast<arrow::TimestampBuilder*>(b)->Append(c.i)); break;
        case K::kDec: CV_OK(static_cast<arrow::Decimal128Builder*>(b)->Append(arrow::Decimal128(c.i))); break;
        case K::kList: {
            auto* lb = static_cast<arrow::ListBuilder*>(b);
            CV_OK(lb->Append());
            for (const auto& k : c.kids) Append(lb->value_builder(), t.kids[0], k);
            break;
        }
        case K::kMap: {
            auto* mb = static_cast<arrow::MapBuilder*>(b);
            CV_OK(mb->Append());
            for (size_t i = 0; i + 1 < c.kids.size(); i += 2) {
                Append(mb->key_builder(), t.kids[0], c.kids[i]);
                Append(mb->item_builder(), t.kids[1], c.kids[i + 1]);
            }
            break;
        }
        case K::kStruct: {
            auto* sb = static_cast<arrow::StructBuilder*>(b);
            CV_OK(sb->Append());
            for (size_t i = 0; i < t.kids.size(); i++) Append(sb->field_builder(static_cast<int>(i)), t.kids[i], c.kids[i]);
            break;
        }
    }
}

inline std::shared_ptr<arrow::StructArray> MakeStruct(const std::vector<std::string>& names,
                                                      const std::vector<T>& types,
                                                      const std::vector<Row>& rows) {
    arrow::FieldVector fields;
    for (size_t i = 0; i < types.size(); i++) fields.push_back(arrow::field(names[i], ToArrow(types[i])));
    auto made = arrow::MakeBuilder(arrow::struct_(fields));
    CV_OK(made.status());
    auto b = std::move(made).ValueUnsafe();
    auto* sb = static_cast<arrow::StructBuilder*>(b.get());
    for (const auto& r : rows) {
        CV_OK(sb->Append());
        for (size_t i = 0; i < types.size(); i++) Append(sb->field_builder(static_cast<int>(i)), types[i], r[i]);
    }
    std::shared_ptr<arrow::Array> out;
    CV_OK(b->Finish(&out));
    return std::static_pointer_cast<arrow::StructArray>(out);
}

// The type of an array must be the one asked for, save that text may come as a dictionary.
inline Cell Get(const arrow::Array& a, const T& t, int64_t i) {
    if (a.IsNull(i)) return Null();
    auto want = [&](arrow::Type::type id) {
        if (a.type_id() != id) FAIL("type", "column type " << a.type()->ToString() << " instead of " << ToArrow(t)->ToString());
    };
    Cell c;
    c.null = false;
    switch (t.k) {
        case K::kBool: want(arrow::Type::BOOL); c.i = static_cast<const arrow::BooleanArray&>(a).Value(i); break;
        case K::kI8: want(arrow::Type::INT8); c.i = static_cast<const arrow::Int8Array&>(a).Value(i); break;
        case K::kI16: want(arrow::Type::INT16); c.i = static_cast<const arrow::Int16Array&>(a).Value(i); break;
        case K::kI32: want(arrow::Type::INT32); c.i = static_cast<const arrow::Int32Array&>(a).Value(i); break;
        case K::kI64: want(arrow::Type::INT64); c.i = static_cast<const arrow::Int64Array&>(a).Value(i); break;
        case K::kF32: want(arrow::Type::FLOAT); c.d = static_cast<const arrow::FloatArray&>(a).Value(i); break;
        case K::kF64: want(arrow::Type::DOUBLE); c.d = static_cast<const arrow::DoubleArray&>(a).Value(i); break;
        case K::kStr:
            if (a.type_id() == arrow::Type::DICTIONARY) {
                const auto& da = static_cast<const arrow::DictionaryArray&>(a);
                return Get(*da.dictionary(), t, da.GetValueIndex(i));
            }
            want(arrow::Type::STRING);
            c.s = std::string(static_cast<const arrow::StringArray&>(a).GetView(i));
            break;
        case K::kBlob: want(arrow::Type::LARGE_BINARY); c.s = std::string(static_cast<const arrow::LargeBinaryArray&>(a).GetView(i)); break;
        case K::kBin: want(arrow::Type::BINARY); c.s = std::string(static_cast<const arrow::BinaryArray&>(a).GetView(i)); break;
        case K::kDate: want(arrow::Type::DATE32); c.i = static_cast<const arrow::Date32Array&>(a).Value(i); break;
        case K::kTs: {
            want(arrow::Type::TIMESTAMP);
            if (!a.type()->Equals(*ToArrow(t)) && !t.s) FAIL("type", "column type " << a.type()->ToString() << " instead of " << ToArrow(t)->ToString());
            c.i = static_cast<const arrow::TimestampArray&>(a).Value(i);
            break;
        }
        case K::kDec: {
            want(arrow::Type::DECIMAL);
            if (!a.type()->Equals(*ToArrow(t))) FAIL("type", "column type " << a.type()->ToString() << " instead of " << ToArrow(t)->ToString());
            arrow::Decimal128 v(static_cast<const arrow::Decimal128Array&>(a).GetValue(i));
            c.i = static_cast<int64_t>(v.low_bits());
            break;
        }
        case K::kList: {
            want(arrow::Type::LIST);
            const auto& la = static_cast<const arrow::ListArray&>(a);
            for (int64_t j = la.value_offset(i); j < la.value_offset(i) + la.value_length(i); j++) c.kids.push_back(Get(*la.values(), t.kids[0], j));
            break;
        }
        case K::kMap: {
            want(arrow::Type::MAP);
            const auto& ma = static_cast<const arrow::MapArray&>(a);
            for (int64_t j = ma.value_offset(i); j < ma.value_offset(i) + ma.value_length(i); j++) {
                c.kids.push_back(Get(*ma.keys(), t.kids[0], j));
                c.kids.push_back(Get(*ma.items(), t.kids[1], j));
            }
            break;
        }
        case K::kStruct: {
            want(arrow::Type::STRUCT);
            const auto& sa = static_cast<const arrow::StructArray&>(a);
            for (size_t j = 0; j < t.kids.size(); j++) c.kids.push_back(Get(*sa.field(static_cast<int>(j)), t.kids[j], i));
            break;
        }
    }
    return c;
}

// ---- generators ----
inline int64_t Pow10(int n) { int64_t r = 1; while (n-- > 0) r *= 10; return r; }

inline T GenAtom(pbt::Case& c, bool key = false) {
    T t;
    switch (key ? c.Weighted({1, 1, 1, 4, 3, 0, 0, 4, 0, 1, 1, 1}) : c.Weighted({1, 1, 1, 4, 3, 1, 2, 4, 1, 1, 1, 1})) {
        case 0: t.k = K::kBool; break;
        case 1: t.k = K::kI8; break;
        case 2: t.k = K::kI16; break;
        case 3: t.k = K::kI32; break;
        case 4: t.k = K::kI64; break;
        case 5: t.k = K::kF32; break;
        case 6: t.k = K::kF64; break;
        case 7: t.k = K::kStr; break;
        case 8: t.k = K::kBin; break;
        case 9: t.k = K::kDate; break;
        case 10: t.k = K::kTs; t.p = c.PickOf<int>({0, 3, 6, 9}); break;
        default: t.k = K::kDec; t.p = static_cast<int>(c.Int(1, 18)); t.s = static_cast<int>(c.Int(0, t.p)); break;
    }
    return t;
}

inline T GenType(pbt::Case& c, int depth) {
    if (depth <= 0 || c.Chance(3, 4)) return GenAtom(c);
    T t;
    switch (c.Int(0, 2)) {
        case 0: t.k = K::kList; t.kids = {GenType(c, depth - 1)}; break;
        case 1: t.k = K::kMap; t.kids = {GenAtom(c, true), GenType(c, depth - 1)}; break;
        default:
            t.k = K::kStruct;
            for (int i = 0, n = static_cast<int>(c.Int(1, 3)); i < n; i++) t.kids.push_back(GenType(c, depth - 1));
    }
    return t;
}

// `space` keeps values few so that keys and predicates meet; 0 means the whole range.
inline Cell GenCell(pbt::Case& c, const T& t, int space = 0, int null_in = 6) {
    if (t.k == K::kBlob) return S(c.Bytes(c.Len(0, 60)));  // never null
    if (null_in && c.Chance(1, null_in)) return Null();
    auto num = [&](int64_t lo, int64_t hi) -> int64_t {
        if (space) { int64_t v = c.Int(0, space - 1) - space / 2; return v < lo ? lo : v > hi ? hi : v; }
        switch (c.Weighted({4, 1, 1, 2})) {
            case 0: return c.Int(0, 20) - 10 < lo ? lo : c.Int(0, 9);
            case 1: return lo;
            case 2: return hi;
            default: { int64_t v = c.I64(); return v < lo ? lo : v > hi ? hi : v; }
        }
    };
    switch (t.k) {
        case K::kBool: return I(c.Bool());
        case K::kI8: return I(num(-128, 127));
        case K::kI16: return I(num(-32768, 32767));
        case K::kI32: return I(num(INT32_MIN, INT32_MAX));
        case K::kI64: return I(num(INT64_MIN, INT64_MAX));
        case K::kDate: return I(num(-100000, 100000));
        case K::kTs: return I(num(-4000000000LL, 4000000000LL));
        case K::kDec: return I(num(-(Pow10(t.p) - 1), Pow10(t.p) - 1));
        case K::kF32:
        case K::kF64:
            if (space) return D(static_cast<double>(c.Int(0, space - 1) - space / 2) / 2);
            switch (c.Weighted({6, 1, 1, 1})) {
                case 0: return D(static_cast<double>(static_cast<float>(c.Int(-1000, 1000) / 8.0)));
                case 1: return D(0.0);
                case 2: return D(static_cast<double>(std::numeric_limits<float>::max()));
                default: return D(-std::numeric_limits<double>::infinity());
            }
        case K::kStr:
        case K::kBlob:
        case K::kBin:
            if (space) return S(std::string(1, static_cast<char>('a' + c.Int(0, space - 1) % 26)));
            return S(t.k == K::kStr ? c.Ascii(c.Len(0, 40)) : c.Bytes(c.Len(0, 20)));
        case K::kList: {
            Cell r; r.null = false;
            for (size_t i = 0, n = c.Len(0, 4); i < n; i++) r.kids.push_back(GenCell(c, t.kids[0], space, null_in));
            return r;
        }
        case K::kMap: {
            Cell r; r.null = false;
            for (size_t i = 0, n = c.Len(0, 3); i < n; i++) {
                Cell key = GenCell(c, t.kids[0], space, 0);
                bool dup = false;
                for (size_t j = 0; j < r.kids.size(); j += 2) dup |= Compare(t.kids[0], r.kids[j], key) == 0;
                Cell val = GenCell(c, t.kids[1], space, null_in);
                if (!dup) { r.kids.push_back(key); r.kids.push_back(val); }
            }
            return r;
        }
        case K::kStruct: {
            Cell r; r.null = false;
            for (const auto& k : t.kids) r.kids.push_back(GenCell(c, k, space, null_in));
            return r;
        }
    }
    return Null();
}

}  // namespace cv
