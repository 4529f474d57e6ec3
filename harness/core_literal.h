#pragma once
// Literals made of cells.
#include "core_values.h"
#include "paimon/data/decimal.h"
#include "paimon/data/timestamp.h"
#include "paimon/defs.h"
#include "paimon/predicate/literal.h"

namespace cv {

inline paimon::FieldType FieldTypeOf(const T& t) {
    using paimon::FieldType;
    switch (t.k) {
        case K::kBool: return FieldType::BOOLEAN;
        case K::kI8: return FieldType::TINYINT;
        case K::kI16: return FieldType::SMALLINT;
        case K::kI32: return FieldType::INT;
        case K::kI64: return FieldType::BIGINT;
        case K::kF32: return FieldType::FLOAT;
        case K::kF64: return FieldType::DOUBLE;
        case K::kStr: return FieldType::STRING;
        case K::kBin: return FieldType::BINARY;
        case K::kDate: return FieldType::DATE;
        case K::kTs: return FieldType::TIMESTAMP;
        case K::kDec: return FieldType::DECIMAL;
        case K::kList: return FieldType::ARRAY;
        case K::kMap: return FieldType::MAP;
        default: return FieldType::STRUCT;
    }
}

inline paimon::Timestamp ToTimestamp(const T& t, int64_t v) {
    int64_t per_ms = t.p == 6 ? 1000 : t.p == 9 ? 1000000 : 1;
    int64_t ms = t.p == 0 ? v * 1000 : v / per_ms;
    int64_t rest = t.p == 0 ? 0 : v % per_ms;
    if (rest < 0) {
        rest += per_ms;
        ms--;
    }
    return paimon::Timestamp(ms, static_cast<int32_t>(rest * (1000000 / per_ms)));
}

inline paimon::Literal ToLiteral(const T& t, const Cell& c) {
    using paimon::FieldType;
    using paimon::Literal;
    if (c.null) return Literal(FieldTypeOf(t));
    switch (t.k) {
        case K::kBool: return Literal(c.i != 0);
        case K::kI8: return Literal(static_cast<int8_t>(c.i));
        case K::kI16: return Literal(static_cast<int16_t>(c.i));
        case K::kI32: return Literal(static_cast<int32_t>(c.i));
        case K::kI64: return Literal(static_cast<int64_t>(c.i));
        case K::kF32: return Literal(static_cast<float>(c.d));
        case K::kF64: return Literal(c.d);
        case K::kStr: return Literal(FieldType::STRING, c.s.data(), c.s.size());
        case K::kBin: return Literal(FieldType::BINARY, c.s.data(), c.s.size());
        case K::kDate: return Literal(FieldType::DATE, static_cast<int32_t>(c.i));
        case K::kTs: return Literal(ToTimestamp(t, c.i));
        default: return Literal(paimon::Decimal(t.p, t.s, c.i));
    }
}

}  // namespace cv
