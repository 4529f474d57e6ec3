// C07: rows and arrays give back what was put into them, whatever form holds them.
#include "core_literal.h"
#include "core_values.h"
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/data/columnar/columnar_array.h"
#include "paimon/common/data/columnar/columnar_map.h"
#include "paimon/common/data/columnar/columnar_row.h"
#include "paimon/common/data/generic_row.h"
#include "paimon/common/data/serializer/binary_row_serializer.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/reader/data_evolution_array.h"
#include "paimon/common/reader/data_evolution_row.h"
#include "paimon/common/utils/decimal_utils.h"
#include "paimon/common/utils/internal_row_utils.h"
#include "paimon/common/utils/projected_array.h"
#include "paimon/common/utils/projected_row.h"
#include "paimon/common/utils/serialization_utils.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;  // NOLINT
using cv::Cell;
using cv::K;
using cv::T;
using pbt::Case;

namespace {
std::shared_ptr<MemoryPool> Pool() {
    static std::shared_ptr<MemoryPool> pool = std::shared_ptr<MemoryPool>(GetMemoryPool());
    return pool;
}

// Types a binary row can hold: everything but maps.
T GenBinaryType(Case& c, int depth) {
    if (depth <= 0 || c.Chance(4, 5)) {
        T t = cv::GenAtom(c);
        if (t.k == K::kDec && c.Bool()) t.p = static_cast<int>(c.Int(19, 38));  // stored out of line
        return t;
    }
    T t;
    if (c.Bool()) {
        t.k = K::kList;
        t.kids = {GenBinaryType(c, depth - 1)};
    } else {
        t.k = K::kStruct;
        for (int64_t i = 0, n = c.Int(1, 3); i < n; i++) t.kids.push_back(GenBinaryType(c, depth - 1));
    }
    return t;
}
Cell GenBinaryCell(Case& c, const T& t, int null_in = 5) {
    if (t.k == K::kDec && t.p > 18) {
        if (c.Chance(1, null_in)) return cv::Null();
        return cv::I(c.Bool() ? c.I64() : c.Int(-300, 300));
    }
    if (t.k == K::kStr || t.k == K::kBin) {  // around the seven bytes that fit in the slot
        if (c.Chance(1, null_in)) return cv::Null();
        return cv::S(c.Bytes(c.Bool() ? c.Int(5, 10) : c.Len(0, 40)));
    }
    if (t.k == K::kList || t.k == K::kStruct) {
        if (c.Chance(1, null_in)) return cv::Null();
        Cell r;
        r.null = false;
        if (t.k == K::kList) {
            int64_t n = c.Chance(1, 10) ? c.Int(30, 70) : c.Len(0, 5);
            for (int64_t i = 0; i < n; i++) r.kids.push_back(GenBinaryCell(c, t.kids[0], null_in));
        } else {
            for (auto& k : t.kids) r.kids.push_back(GenBinaryCell(c, k, null_in));
        }
        return r;
    }
    return cv::GenCell(c, t, 0, null_in);
}

int ElementSize(const T& t) {
    switch (t.k) {
        case K::kBool:
        case K::kI8: return 1;
        case K::kI16: return 2;
        case K::kI32:
        case K::kF32:
        case K::kDate: return 4;
        default: return 8;
    }
}

BinaryRow MakeRow(Case& c, const std::vector<T>& ts, const cv::Row& cells);
BinaryArray MakeArray(Case& c, const T& t, const std::vector<Cell>& cells);

// Timestamps are held in milliseconds below four digits, so seconds are only seconds.
void WriteCell(Case& c, BinaryWriter* w, int32_t pos, const T& t, const Cell& v) {
    bool loose = (t.k == K::kTs && !Timestamp::IsCompact(t.p)) || (t.k == K::kDec && !Decimal::IsCompact(t.p));
    if (v.null && loose) {
        if (t.k == K::kTs) w->WriteTimestamp(pos, std::nullopt, t.p);
        else w->WriteDecimal(pos, std::nullopt, t.p);
        return;
    }
    if (v.null) {
        if (auto* a = dynamic_cast<BinaryArrayWriter*>(w)) {
            switch (ElementSize(t)) {
                case 1: a->SetNullValue<int8_t>(pos); return;
                case 2: a->SetNullValue<int16_t>(pos); return;
                case 4: a->SetNullValue<int32_t>(pos); return;
            }
        }
        w->SetNullAt(pos);
        return;
    }
    switch (t.k) {
        case K::kBool: w->WriteBoolean(pos, v.i != 0); break;
        case K::kI8: w->WriteByte(pos, static_cast<int8_t>(v.i)); break;
        case K::kI16: w->WriteShort(pos, static_cast<int16_t>(v.i)); break;
        case K::kI32:
        case K::kDate: w->WriteInt(pos, static_cast<int32_t>(v.i)); break;
        case K::kI64: w->WriteLong(pos, v.i); break;
        case K::kF32: w->WriteFloat(pos, static_cast<float>(v.d)); break;
        case K::kF64: w->WriteDouble(pos, v.d); break;
        case K::kStr:
            if (c.Bool()) w->WriteString(pos, BinaryString::FromString(v.s, Pool().get()));
            else w->WriteStringView(pos, v.s);
            break;
        case K::kBin:
            if (c.Bool()) w->WriteBinary(pos, Bytes(v.s, Pool().get()));
            else w->WriteStringView(pos, v.s);
            break;
        case K::kTs: w->WriteTimestamp(pos, cv::ToTimestamp(t, v.i), t.p); break;
        case K::kDec: w->WriteDecimal(pos, Decimal(t.p, t.s, v.i), t.p); break;
        case K::kList: w->WriteArray(pos, MakeArray(c, t.kids[0], v.kids)); break;
        case K::kStruct: w->WriteRow(pos, MakeRow(c, t.kids, v.kids)); break;
        default: FAIL("harness", "map");
    }
}
BinaryRow MakeRow(Case& c, const std::vector<T>& ts, const cv::Row& cells) {
    BinaryRow row(static_cast<int32_t>(ts.size()));
    BinaryRowWriter w(&row, static_cast<int32_t>(c.PickOf<int64_t>({0, 1, 8, 20, 200})), Pool().get());
    if (c.Chance(1, 3)) {  // written over an older row, as writers are reused
        cv::Row older;
        for (auto& t : ts) older.push_back(GenBinaryCell(c, t));
        w.Reset();
        for (size_t i = 0; i < ts.size(); i++) WriteCell(c, &w, static_cast<int32_t>(i), ts[i], older[i]);
        w.WriteRowKind(RowKind::Delete());
        w.Complete();
    }
    w.Reset();
    for (size_t i = 0; i < ts.size(); i++) WriteCell(c, &w, static_cast<int32_t>(i), ts[i], cells[i]);
    w.Complete();
    return row;
}
BinaryArray MakeArray(Case& c, const T& t, const std::vector<Cell>& cells) {
    BinaryArray array;
    BinaryArrayWriter w(&array, static_cast<int32_t>(cells.size()), ElementSize(t), Pool().get());
    if (c.Chance(1, 3)) {
        w.Reset();
        for (size_t i = 0; i < cells.size(); i++) WriteCell(c, &w, static_cast<int32_t>(i), t, GenBinaryCell(c, t));
        w.Complete();
    }
    w.Reset();
    for (size_t i = 0; i < cells.size(); i++) WriteCell(c, &w, static_cast<int32_t>(i), t, cells[i]);
    w.Complete();
    REQUIRE(w.GetNumElements() == static_cast<int32_t>(cells.size()), "elements", w.GetNumElements());
    return array;
}

enum class Text { kString, kView, kEither };

int64_t FromTimestamp(Case& c, const T& t, const Timestamp& v) {
    int64_t per_ms = t.p == 6 ? 1000 : t.p == 9 ? 1000000 : 1;
    if (t.p == 0) {
        REQUIRE(v.GetMillisecond() % 1000 == 0 && v.GetNanoOfMillisecond() == 0, "timestamp", v.ToString());
        return v.GetMillisecond() / 1000;
    }
    REQUIRE(v.GetNanoOfMillisecond() % (1000000 / per_ms) == 0, "timestamp", v.ToString());
    return v.GetMillisecond() * per_ms + v.GetNanoOfMillisecond() / (1000000 / per_ms);
}

Cell Read(Case& c, const DataGetters& g, int32_t pos, const T& t, Text text) {
    if (g.IsNullAt(pos)) return cv::Null();
    switch (t.k) {
        case K::kBool: return cv::I(g.GetBoolean(pos));
        case K::kI8: return cv::I(static_cast<int8_t>(g.GetByte(pos)));
        case K::kI16: return cv::I(g.GetShort(pos));
        case K::kI32: return cv::I(g.GetInt(pos));
        case K::kDate: return cv::I(g.GetDate(pos));
        case K::kI64: return cv::I(g.GetLong(pos));
        case K::kF32: return cv::D(g.GetFloat(pos));
        case K::kF64: return cv::D(g.GetDouble(pos));
        case K::kStr:
        case K::kBin: {
            if (text == Text::kView) return cv::S(std::string(g.GetStringView(pos)));
            std::string s;
            if (t.k == K::kStr) {
                s = g.GetString(pos).ToString();
            } else {
                auto b = g.GetBinary(pos);
                s.assign(b->data(), b->size());
            }
            if (text == Text::kEither) REQUIRE(s == g.GetStringView(pos), "view", pos);
            return cv::S(s);
        }
        case K::kTs: return cv::I(FromTimestamp(c, t, g.GetTimestamp(pos, t.p)));
        case K::kDec: {
            Decimal d = g.GetDecimal(pos, t.p, t.s);
            REQUIRE(d.Precision() == t.p && d.Scale() == t.s, "decimal-type", d.Precision() << "," << d.Scale());
            REQUIRE(d.Value() == static_cast<__int128>(static_cast<int64_t>(d.Value())), "decimal-wide", "");
            return cv::I(static_cast<int64_t>(d.Value()));
        }
        case K::kList: {
            auto a = g.GetArray(pos);
            Cell r;
            r.null = false;
            for (int32_t i = 0; i < a->Size(); i++) r.kids.push_back(Read(c, *a, i, t.kids[0], text));
            return r;
        }
        case K::kMap: {
            auto m = g.GetMap(pos);
            auto ks = m->KeyArray(), vs = m->ValueArray();
            REQUIRE(ks->Size() == m->Size() && vs->Size() == m->Size(), "map-size", m->Size());
            Cell r;
            r.null = false;
            for (int32_t i = 0; i < m->Size(); i++) {
                r.kids.push_back(Read(c, *ks, i, t.kids[0], text));
                r.kids.push_back(Read(c, *vs, i, t.kids[1], text));
            }
            return r;
        }
        default: {
            auto row = g.GetRow(pos, static_cast<int32_t>(t.kids.size()));
            REQUIRE(row->GetFieldCount() == static_cast<int32_t>(t.kids.size()), "struct-size", row->GetFieldCount());
            Cell r;
            r.null = false;
            for (size_t i = 0; i < t.kids.size(); i++) r.kids.push_back(Read(c, *row, static_cast<int32_t>(i), t.kids[i], text));
            return r;
        }
    }
}
void Same(Case& c, const DataGetters& g, const std::vector<T>& ts, const cv::Row& want, Text text, const char* tag) {
    for (size_t i = 0; i < ts.size(); i++) {
        Cell got = Read(c, g, static_cast<int32_t>(i), ts[i], text);
        REQUIRE(cv::Compare(ts[i], got, want[i]) == 0, tag, "field " << i << ": " << cv::Text(ts[i], got) << " want " << cv::Text(ts[i], want[i]));
    }
}
bool SameCells(const std::vector<T>& ts, const cv::Row& a, const cv::Row& b) {
    for (size_t i = 0; i < ts.size(); i++)
        if (cv::Compare(ts[i], a[i], b[i])) return false;
    return true;
}
bool AnyNullIn(const cv::Row& r) {
    for (auto& v : r)
        if (v.null) return true;
    return false;
}
// The same bytes, cut into pieces of one size, after `skip` other bytes.
std::vector<MemorySegment> Cut(const std::string& bytes, int64_t skip, int64_t size) {
    std::string all = std::string(skip, '\x5a') + bytes;
    while (all.size() % size) all += '\x5a';
    std::vector<MemorySegment> out;
    for (size_t i = 0; i < all.size(); i += size) out.push_back(MemorySegment::Wrap(Bytes::AllocateBytes(all.substr(i, size), Pool().get())));
    return out;
}
std::string BytesOf(const BinarySection& s) {
    auto b = MemorySegmentUtils::CopyToBytes(s.GetSegments(), s.GetOffset(), s.GetSizeInBytes(), Pool().get());
    return std::string(b->data(), b->size());
}
std::vector<T> GenTypes(Case& c) {
    std::vector<T> ts;
    int64_t n = c.Chance(1, 12) ? c.Int(54, 70) : c.Len(1, 6);  // 56 fields fill the first word of null bits
    for (int64_t i = 0; i < n; i++) ts.push_back(GenBinaryType(c, n > 10 ? 0 : 2));
    return ts;
}
VariantType ToVariant(const T& t, const Cell& v, bool view) {
    if (v.null) return NullType();
    switch (t.k) {
        case K::kBool: return v.i != 0;
        case K::kI8: return static_cast<char>(v.i);
        case K::kI16: return static_cast<int16_t>(v.i);
        case K::kI32:
        case K::kDate: return static_cast<int32_t>(v.i);
        case K::kI64: return static_cast<int64_t>(v.i);
        case K::kF32: return static_cast<float>(v.d);
        case K::kF64: return v.d;
        case K::kStr:
            if (view) return std::string_view(v.s);
            return BinaryString::FromString(v.s, Pool().get());
        case K::kBin:
            if (view) return std::string_view(v.s);
            return std::shared_ptr<Bytes>(Bytes::AllocateBytes(v.s, Pool().get()));
        case K::kTs: return cv::ToTimestamp(t, v.i);
        default: return Decimal(t.p, t.s, v.i);
    }
}
}  // namespace

FACET(row, 5) {
    auto ts = GenTypes(c);
    cv::Row cells;
    bool one_null = ts.size() > 50;
    for (auto& t : ts) cells.push_back(GenBinaryCell(c, t, one_null ? 1000000 : 5));
    if (one_null) cells[c.Bool() ? cells.size() - 1 : c.Draw(cells.size() - 1)] = cv::Null();
    c.NonTrivial(ts.size() >= 2);
    c.Log() << cv::Text(ts, cells);
    BinaryRow row = MakeRow(c, ts, cells);
    Same(c, row, ts, cells, Text::kString, "row");
    REQUIRE(row.GetFieldCount() == static_cast<int32_t>(ts.size()), "count", row.GetFieldCount());
    REQUIRE(row.AnyNull() == AnyNullIn(cells), "any-null", "");
    int32_t f = static_cast<int32_t>(c.Draw(ts.size() - 1));
    REQUIRE(row.AnyNull({f}) == cells[f].null && !row.AnyNull({}), "any-null-of", f);
    UNWRAP(const RowKind* kind, row.GetRowKind(), "kind");
    REQUIRE(kind == RowKind::Insert(), "kind-value", "");
    // Equal rows have equal bytes and hashes, however they were written.
    BinaryRow again = MakeRow(c, ts, cells);
    REQUIRE(row == again && row.HashCode() == again.HashCode() && std::hash<BinaryRow>()(row) == std::hash<BinaryRow>()(again), "equal", "");
    BinaryRow copy = row.Copy(Pool().get());
    REQUIRE(copy == row && BytesOf(copy) == BytesOf(row), "copy", "");
    cv::Row other = cells;
    other[f] = GenBinaryCell(c, ts[f]);
    BinaryRow changed = MakeRow(c, ts, other);
    REQUIRE((changed == row) == SameCells(ts, other, cells), "different", cv::Text(ts, other));
    // In pieces.
    int64_t size = c.PickOf<int64_t>({8, 16, 32, 64});
    int64_t skip = c.Int(0, size - 1);
    BinaryRow cut(row.GetFieldCount());
    cut.PointTo(Cut(BytesOf(row), skip, size), static_cast<int32_t>(skip), row.GetSizeInBytes());
    Same(c, cut, ts, cells, Text::kString, "cut");
    REQUIRE(cut == row && row == cut, "cut-equal", size);
    REQUIRE(cut.AnyNull() == AnyNullIn(cells), "cut-any-null", "");
    if (skip % 4 == 0) REQUIRE(cut.HashCode() == row.HashCode(), "cut-hash", size << " " << skip);
    // As a field of another row.
    T st;
    st.k = K::kStruct;
    st.kids = ts;
    BinaryRow outer(2);
    BinaryRowWriter w(&outer, 0, Pool().get());
    w.WriteRow(0, c.Bool() ? cut : row);
    w.WriteInt(1, 7);
    w.Complete();
    Same(c, *outer.GetRow(0, static_cast<int32_t>(ts.size())), ts, cells, Text::kString, "nested");
    REQUIRE(outer.GetInt(1) == 7, "nested-next", "");
    // Written out and read again.
    MemorySegmentOutputStream out(static_cast<int32_t>(c.PickOf<int64_t>({8, 16, 100, 65536})), Pool());
    BinaryRowSerializer ser(row.GetFieldCount(), Pool());
    bool whole = c.Bool();
    const BinaryRow& from = c.Bool() ? row : cut;
    if (whole) REQUIRE_OK(SerializationUtils::SerializeBinaryRow(from, &out), "serialize");
    else REQUIRE_OK(ser.Serialize(from, &out), "serialize");
    out.WriteValue<int32_t>(0x1234567);
    auto bytes = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, static_cast<int32_t>(out.CurrentSize()), Pool().get());
    DataInputStream in(std::make_shared<ByteArrayInputStream>(bytes->data(), bytes->size()));
    UNWRAP(BinaryRow back, whole ? SerializationUtils::DeserializeBinaryRow(&in, Pool().get()) : ser.Deserialize(&in), "deserialize");
    REQUIRE(back == row && back.GetFieldCount() == row.GetFieldCount(), "serialized", "");
    Same(c, back, ts, cells, Text::kString, "serialized");
    UNWRAP(int32_t end, in.ReadValue<int32_t>(), "end");
    REQUIRE(end == 0x1234567, "serialized-length", end);
    auto packed = SerializationUtils::SerializeBinaryRow(from, Pool().get());
    UNWRAP(BinaryRow unpacked, SerializationUtils::DeserializeBinaryRow(packed), "unpack");
    REQUIRE(unpacked == row && unpacked.GetFieldCount() == row.GetFieldCount(), "packed", "");
    Same(c, unpacked, ts, cells, Text::kString, "packed");
}

FACET(setters, 2) {
    std::vector<T> ts;
    for (int64_t i = 0, n = c.Len(1, 6); i < n; i++) {
        T t;
        t.k = c.PickOf<K>({K::kBool, K::kI8, K::kI16, K::kI32, K::kI64, K::kF32, K::kF64});
        ts.push_back(t);
    }
    cv::Row cells;
    for (auto& t : ts) cells.push_back(GenBinaryCell(c, t));
    BinaryRow row = MakeRow(c, ts, cells);
    if (c.Bool()) {
        int64_t size = c.PickOf<int64_t>({8, 16, 32}), skip = c.Int(0, size - 1);
        BinaryRow cut(row.GetFieldCount());
        cut.PointTo(Cut(BytesOf(row), skip, size), static_cast<int32_t>(skip), row.GetSizeInBytes());
        row = cut;
    }
    int64_t n = c.Len(1, 8);
    c.NonTrivial(n >= 3);
    const RowKind* kind = RowKind::Insert();
    for (int64_t i = 0; i < n; i++) {
        int32_t f = static_cast<int32_t>(c.Draw(ts.size() - 1));
        Cell v = GenBinaryCell(c, ts[f], 3);
        if (c.Chance(1, 5)) {
            kind = c.PickOf<const RowKind*>({RowKind::Insert(), RowKind::UpdateBefore(), RowKind::UpdateAfter(), RowKind::Delete()});
            row.SetRowKind(kind);
        }
        c.Log() << f << "=" << cv::Text(ts[f], v) << " ";
        cells[f] = v;
        if (v.null) row.SetNullAt(f);
        else switch (ts[f].k) {
            case K::kBool: row.SetBoolean(f, v.i != 0); break;
            case K::kI8: row.SetByte(f, static_cast<char>(v.i)); break;
            case K::kI16: row.SetShort(f, static_cast<int16_t>(v.i)); break;
            case K::kI32: row.SetInt(f, static_cast<int32_t>(v.i)); break;
            case K::kI64: row.SetLong(f, v.i); break;
            case K::kF32: row.SetFloat(f, static_cast<float>(v.d)); break;
            default: row.SetDouble(f, v.d);
        }
        Same(c, row, ts, cells, Text::kString, "set");
        REQUIRE(row.AnyNull() == AnyNullIn(cells), "set-any-null", "");
        UNWRAP(const RowKind* k, row.GetRowKind(), "kind");
        REQUIRE(k == kind, "set-kind", "");
    }
    BinaryRow fresh = MakeRow(c, ts, cells);
    fresh.SetRowKind(kind);
    REQUIRE(fresh == row, "set-equal", "");
    const BinaryRow& empty = BinaryRow::EmptyRow();
    REQUIRE(empty.GetFieldCount() == 0 && !empty.AnyNull() && empty == BinaryRow::EmptyRow(), "empty", "");
}

FACET(array, 4) {
    T t = GenBinaryType(c, 1);
    std::vector<Cell> cells;
    int64_t n = c.Chance(1, 6) ? c.Int(30, 70) : c.Len(0, 8);
    int null_in = c.Bool() ? 5 : 1000000;
    for (int64_t i = 0; i < n; i++) cells.push_back(GenBinaryCell(c, t, null_in));
    c.NonTrivial(n >= 2);
    T lt;
    lt.k = K::kList;
    lt.kids = {t};
    Cell list;
    list.null = false;
    list.kids = cells;
    c.Log() << cv::Text(lt, list);
    BinaryArray a = MakeArray(c, t, cells);
    std::vector<T> ts(cells.size(), t);
    int64_t size = c.PickOf<int64_t>({8, 16, 32, 64}), skip = c.Int(0, size - 1);
    BinaryArray cut;
    cut.PointTo(Cut(BytesOf(a), skip, size), static_cast<int32_t>(skip), a.GetSizeInBytes());
    BinaryArray copy = cut.Copy(Pool().get());
    BinaryArray again = MakeArray(c, t, cells);
    REQUIRE(BytesOf(again) == BytesOf(a) && again.HashCode() == a.HashCode() && BytesOf(copy) == BytesOf(a), "array-bytes", "");
    for (const BinaryArray* x : std::vector<const BinaryArray*>{&a, &cut, &copy}) {
        REQUIRE(x->Size() == n, "array-size", x->Size());
        Same(c, *x, ts, cells, Text::kString, x == &a ? "array" : "array-cut");
        REQUIRE(x->AnyNull() == AnyNullIn(cells), "array-any-null", "");
        bool no_null = !AnyNullIn(cells);
        auto flat = [&](auto r, auto value) {
            REQUIRE(r.ok() == no_null, "flat", r.status().ToString());
            if (!r.ok()) return;
            REQUIRE(r.value().size() == cells.size(), "flat-size", r.value().size());
            for (size_t i = 0; i < cells.size(); i++) REQUIRE(r.value()[i] == value(cells[i]), "flat-value", i);
        };
        auto num = [](const Cell& v) { return v.i; };
        switch (t.k) {
            case K::kBool: flat(x->ToBooleanArray(), num); break;
            case K::kI8: flat(x->ToByteArray(), [](const Cell& v) { return static_cast<char>(v.i); }); break;
            case K::kI16: flat(x->ToShortArray(), num); break;
            case K::kDate:
            case K::kI32: flat(x->ToIntArray(), num); break;
            case K::kI64: flat(x->ToLongArray(), num); break;
            case K::kF32: flat(x->ToFloatArray(), [](const Cell& v) { return static_cast<float>(v.d); }); break;
            case K::kF64: flat(x->ToDoubleArray(), [](const Cell& v) { return v.d; }); break;
            default: break;
        }
    }
    std::vector<int32_t> ints;
    std::vector<int64_t> longs;
    std::vector<std::optional<std::string>> strs;
    std::vector<std::string> plain;
    for (auto& v : cells) {
        ints.push_back(static_cast<int32_t>(v.i));
        longs.push_back(v.i);
        plain.push_back(v.s);
        if (v.null) strs.push_back(std::nullopt);
        else strs.push_back(v.s);
    }
    auto fi = BinaryArray::FromIntArray(ints, Pool().get());
    auto fl = BinaryArray::FromLongArray(longs, Pool().get());
    UNWRAP(auto ti, fi.ToIntArray(), "from-int");
    UNWRAP(auto tl, fl.ToLongArray(), "from-long");
    REQUIRE(ti == ints && tl == longs, "from-values", "");
    REQUIRE(BytesOf(BinaryArray::FromLongArray(&fl, Pool().get())) == BytesOf(fl), "from-array", "");
    auto sa = InternalRowUtils::ToStringArrayData(strs, Pool());
    REQUIRE(InternalRowUtils::FromStringArrayData(&sa) == strs, "strings", "");
    auto pa = InternalRowUtils::ToNotNullStringArrayData(plain, Pool());
    REQUIRE(InternalRowUtils::FromNotNullStringArrayData(&pa) == plain, "plain-strings", "");
    // Seen through a selection.
    if (n > 0) {
        std::vector<int32_t> pick;
        std::vector<Cell> want;
        for (int64_t i = 0, k = c.Len(0, 6); i < k; i++) {
            int32_t p = static_cast<int32_t>(c.Int(-1, n - 1));
            pick.push_back(p);
            want.push_back(p < 0 ? cv::Null() : cells[p]);
        }
        ProjectedArray p(std::make_shared<BinaryArray>(a), pick);
        REQUIRE(p.Size() == static_cast<int32_t>(pick.size()), "projected-size", p.Size());
        Same(c, p, std::vector<T>(pick.size(), t), want, Text::kString, "projected-array");
    }
}

FACET(views, 4) {
    // The same rows as columns, as values, and as selections of those.
    std::vector<T> ts;
    std::vector<std::string> names;
    for (int64_t i = 0, n = c.Len(1, 5); i < n; i++) {
        ts.push_back(cv::GenType(c, 2));
        names.push_back("f" + std::to_string(i));
    }
    std::vector<cv::Row> rows;
    for (int64_t i = 0, n = c.Len(1, 4); i < n; i++) {
        cv::Row r;
        for (auto& t : ts) r.push_back(cv::GenCell(c, t));
        rows.push_back(r);
    }
    c.NonTrivial(ts.size() >= 2 && rows.size() >= 2);
    for (auto& r : rows) c.Log() << cv::Text(ts, r) << " ";
    auto array = cv::MakeStruct(names, ts, rows);
    int64_t from = 0;
    if (c.Bool() && rows.size() > 1) {  // a slice starts elsewhere
        from = 1;
        array = std::static_pointer_cast<arrow::StructArray>(array->Slice(1));
    }
    size_t at = c.Draw(rows.size() - 1 - from);
    const cv::Row& want = rows[from + at];
    auto fields = array->fields();
    auto row = std::make_shared<ColumnarRow>(array, fields, Pool(), static_cast<int64_t>(at));
    REQUIRE(row->GetFieldCount() == static_cast<int32_t>(ts.size()), "columnar-count", row->GetFieldCount());
    Same(c, *row, ts, want, Text::kEither, "columnar");
    UNWRAP(const RowKind* kind, row->GetRowKind(), "kind");
    REQUIRE(kind == RowKind::Insert(), "columnar-kind", "");
    bool view = c.Bool();
    auto getters_r = InternalRowUtils::CreateFieldGetters(arrow::schema(array->type()->fields()), view);
    UNWRAP(auto getters, std::move(getters_r), "getters");
    GenericRow held(static_cast<int32_t>(ts.size()));
    for (size_t i = 0; i < ts.size(); i++) held.SetField(static_cast<int32_t>(i), getters[i](*row));
    for (size_t i = 0; i < ts.size(); i++) {
        bool inner_text = ts[i].k == K::kList || ts[i].k == K::kMap || ts[i].k == K::kStruct;
        Cell got = Read(c, held, static_cast<int32_t>(i), ts[i], inner_text ? Text::kEither : view ? Text::kView : Text::kString);
        REQUIRE(cv::Compare(ts[i], got, want[i]) == 0, "getter", "field " << i << ": " << cv::Text(ts[i], got) << " want " << cv::Text(ts[i], want[i]));
    }
    // Into a binary row, where its types allow.
    bool flat = true;
    for (auto& t : ts) flat = flat && t.k != K::kList && t.k != K::kMap && t.k != K::kStruct;
    if (flat) {
        BinaryRow b(static_cast<int32_t>(ts.size()));
        BinaryRowWriter w(&b, 0, Pool().get());
        w.Reset();
        for (size_t i = 0; i < ts.size(); i++) {
            UNWRAP(auto setter, BinaryRowWriter::CreateFieldSetter(static_cast<int32_t>(i), cv::ToArrow(ts[i])), "setter");
            setter(held.GetField(static_cast<int32_t>(i)), &w);
        }
        w.Complete();
        Same(c, b, ts, want, Text::kString, "setter");
        REQUIRE(b == MakeRow(c, ts, want), "setter-bytes", "");
        GenericRow made(static_cast<int32_t>(ts.size())), same(static_cast<int32_t>(ts.size()));
        for (size_t i = 0; i < ts.size(); i++) {
            made.SetField(static_cast<int32_t>(i), ToVariant(ts[i], want[i], false));
            same.SetField(static_cast<int32_t>(i), ToVariant(ts[i], want[i], false));
        }
        Same(c, made, ts, want, Text::kString, "generic");
        // The same cells gathered from several rows.
        size_t cut = c.Draw(ts.size());
        std::vector<T> lt(ts.begin(), ts.begin() + cut), rt(ts.begin() + cut, ts.end());
        std::vector<BinaryRow> parts = {MakeRow(c, lt, cv::Row(want.begin(), want.begin() + cut)), MakeRow(c, rt, cv::Row(want.begin() + cut, want.end()))};
        std::vector<int32_t> which, where;
        std::vector<T> gt;
        cv::Row gw;
        for (int64_t i = 0, k = c.Len(1, 6); i < k; i++) {
            int64_t f = c.Int(-1, static_cast<int64_t>(ts.size()) - 1);
            if (f < 0) {
                which.push_back(-1);
                where.push_back(-1);
                gt.push_back(ts[0]);
                gw.push_back(cv::Null());
            } else {
                which.push_back(f >= static_cast<int64_t>(cut));
                where.push_back(static_cast<int32_t>(f >= static_cast<int64_t>(cut) ? f - cut : f));
                gt.push_back(ts[f]);
                gw.push_back(want[f]);
            }
        }
        DataEvolutionRow joined(parts, which, where);
        REQUIRE(joined.GetFieldCount() == static_cast<int32_t>(gt.size()), "joined-count", joined.GetFieldCount());
        Same(c, joined, gt, gw, Text::kString, "joined");
    }
    // Selected and reordered.
    std::vector<int32_t> pick;
    std::vector<T> pt;
    cv::Row pw;
    for (int64_t i = 0, k = c.Len(0, 6); i < k; i++) {
        int32_t p = static_cast<int32_t>(c.Int(-1, static_cast<int64_t>(ts.size()) - 1));
        pick.push_back(p);
        pt.push_back(p < 0 ? ts[0] : ts[p]);
        pw.push_back(p < 0 ? cv::Null() : want[p]);
    }
    ProjectedRow proj(row, pick);
    REQUIRE(proj.GetFieldCount() == static_cast<int32_t>(pick.size()), "projected-count", proj.GetFieldCount());
    Same(c, proj, pt, pw, Text::kEither, "projected");
    proj.SetRowKind(RowKind::Delete());
    UNWRAP(const RowKind* pk, proj.GetRowKind(), "kind");
    REQUIRE(pk == RowKind::Delete(), "projected-kind", "");
    // A column as an array.
    size_t f = c.Draw(ts.size() - 1);
    int32_t total = static_cast<int32_t>(rows.size() - from);
    int32_t off = static_cast<int32_t>(c.Int(0, total)), len = static_cast<int32_t>(c.Int(0, total - off));
    ColumnarArray col(fields[f], Pool(), off, len);
    REQUIRE(col.Size() == len, "column-size", col.Size());
    cv::Row cw;
    for (int32_t i = 0; i < len; i++) cw.push_back(rows[from + off + i][f]);
    Same(c, col, std::vector<T>(len, ts[f]), cw, Text::kEither, "column");
    if (len > 0) {
        std::vector<int32_t> some;
        cv::Row sw;
        for (int64_t i = 0, k = c.Len(0, 4); i < k; i++) {
            some.push_back(static_cast<int32_t>(c.Int(-1, len - 1)));
            sw.push_back(some.back() < 0 ? cv::Null() : cw[some.back()]);
        }
        ProjectedArray pa(std::make_shared<ColumnarArray>(fields[f], Pool(), off, len), some);
        Same(c, pa, std::vector<T>(some.size(), ts[f]), sw, Text::kString, "projected-column");
    }
    bool no_null = !AnyNullIn(cw);
    if (ts[f].k == K::kI64) {
        Same(c, BinaryArray::FromLongArray(&col, Pool().get()), std::vector<T>(len, ts[f]), cw, Text::kString, "long-copy");
    }
    if (no_null && ts[f].k == K::kI64) {
        UNWRAP(auto v, col.ToLongArray(), "column-long");
        for (int32_t i = 0; i < len; i++) REQUIRE(v[i] == cw[i].i, "column-longs", i);
        REQUIRE(v.size() == cw.size(), "column-longs", v.size());
    }
    if (no_null && (ts[f].k == K::kI32)) {
        UNWRAP(auto v, col.ToIntArray(), "column-int");
        for (int32_t i = 0; i < len; i++) REQUIRE(v[i] == cw[i].i, "column-ints", i);
        REQUIRE(v.size() == cw.size(), "column-ints", v.size());
    }
    if (no_null && ts[f].k == K::kF64) {
        UNWRAP(auto v, col.ToDoubleArray(), "column-double");
        for (int32_t i = 0; i < len; i++) REQUIRE(v[i] == cw[i].d, "column-doubles", i);
    }
    if (no_null && ts[f].k == K::kBool) {
        UNWRAP(auto v, col.ToBooleanArray(), "column-bool");
        for (int32_t i = 0; i < len; i++) REQUIRE(v[i] == cw[i].i, "column-bools", i);
    }
    if (no_null && ts[f].k == K::kI8) {
        UNWRAP(auto v, col.ToByteArray(), "column-byte");
        for (int32_t i = 0; i < len; i++) REQUIRE(v[i] == static_cast<char>(cw[i].i), "column-bytes", i);
    }
    if (no_null && ts[f].k == K::kI16) {
        UNWRAP(auto v, col.ToShortArray(), "column-short");
        for (int32_t i = 0; i < len; i++) REQUIRE(v[i] == cw[i].i, "column-shorts", i);
    }
    if (no_null && ts[f].k == K::kF32) {
        UNWRAP(auto v, col.ToFloatArray(), "column-float");
        for (int32_t i = 0; i < len; i++) REQUIRE(v[i] == static_cast<float>(cw[i].d), "column-floats", i);
    }
}

FACET(decimals, 3) {
    using i128 = __int128;
    auto gen = [&](int digits) {
        i128 v = 0;
        int n = static_cast<int>(c.Int(0, digits));
        bool nines = c.Chance(1, 4);
        for (int i = 0; i < n; i++) v = v * 10 + (nines ? 9 : c.Int(0, 9));
        return c.Bool() ? -v : v;
    };
    auto text = [](i128 v) {
        bool neg = v < 0;
        std::string s;
        do {
            int d = static_cast<int>(v % 10);
            s.insert(s.begin(), static_cast<char>('0' + (d < 0 ? -d : d)));
            v /= 10;
        } while (v);
        return (neg ? "-" : "") + s;
    };
    int p1 = static_cast<int>(c.Int(1, 38)), p2 = c.Bool() ? p1 : static_cast<int>(c.Int(1, 38));
    int s1 = static_cast<int>(c.Int(0, p1)), s2 = c.Bool() && s1 <= p2 ? s1 : static_cast<int>(c.Int(0, p2));
    i128 a = gen(p1), b = gen(p2);
    if (c.Chance(1, 3)) {  // close to each other, at another scale
        b = a;
        s2 = s1;
        p2 = p1;
        while (s2 > 0 && b % 10 == 0 && c.Bool()) b /= 10, s2--;
        if (c.Bool()) b += c.Int(-1, 1);
    }
    Decimal x(p1, s1, a), y(p2, s2, b);
    c.NonTrivial(a != 0 && b != 0);
    c.Log() << text(a) << "e-" << s1 << " " << text(b) << "e-" << s2;
    // Compare by writing both with the same number of digits after the point.
    auto aligned = [&](i128 v, int scale) {
        std::string t = text(v < 0 ? -v : v) + std::string(76 - scale, '0');
        return std::string(160 - t.size(), '0') + t;
    };
    std::string ta = aligned(a, s1), tb = aligned(b, s2);
    int mag = ta < tb ? -1 : ta > tb ? 1 : 0;
    int want = (a < 0) != (b < 0) ? (a < 0 ? -1 : 1) : a < 0 ? -mag : mag;
    auto sign = [](int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
    REQUIRE(sign(x.CompareTo(y)) == want && sign(y.CompareTo(x)) == -want, "compare", x.CompareTo(y) << " want " << want);
    REQUIRE((x == y) == (want == 0) && (x < y) == (want < 0) && (x > y) == (want > 0), "operators", "");
    auto bytes = x.ToUnscaledBytes();
    // The shortest two's complement, most significant byte first.
    i128 back = (bytes[0] & 0x80) ? -1 : 0;
    for (char ch : bytes) back = static_cast<i128>((static_cast<unsigned __int128>(back) << 8) | static_cast<uint8_t>(ch));
    REQUIRE(!bytes.empty() && back == a, "unscaled", text(back));
    if (bytes.size() > 1) {
        bool spare = (bytes[0] == 0 && !(bytes[1] & 0x80)) || (bytes[0] == -1 && (bytes[1] & 0x80));
        REQUIRE(!spare, "unscaled-shortest", bytes.size());
    }
    auto held = Bytes::AllocateBytes(std::string(bytes.begin(), bytes.end()), Pool().get());
    Decimal again = Decimal::FromUnscaledBytes(p1, s1, held.get());
    REQUIRE(again.Value() == a && again.Precision() == p1 && again.Scale() == s1, "from-unscaled", text(again.Value()));
    REQUIRE(x.IsCompact() == (p1 <= 18) && Decimal::IsCompact(p1) == (p1 <= 18), "compact", p1);
    if (p1 <= 18) REQUIRE(Decimal::FromUnscaledLong(x.ToUnscaledLong(), p1, s1).Value() == a, "long", "");
    UNWRAP(auto parsed, DecimalUtils::StrToInt128(text(a)), "parse");
    REQUIRE(parsed == a, "parse-value", text(parsed));
    REQUIRE(static_cast<i128>((static_cast<unsigned __int128>(x.HighBits()) << 64) | x.LowBits()) == a, "bits", "");
    // Another scale, rounded half away from zero, or nothing if it does not fit.
    int tp = static_cast<int>(c.Int(1, 38)), tsc = static_cast<int>(c.Int(0, tp));
    auto re = DecimalUtils::RescaleDecimalWithOverflowCheck(arrow::Decimal128(static_cast<int64_t>(x.HighBits()), x.LowBits()), s1, tp, tsc);
    std::string digits = text(a < 0 ? -a : a);
    if (tsc >= s1) digits += std::string(tsc - s1, '0');
    bool up = false;
    if (tsc < s1) {
        size_t drop = s1 - tsc;
        digits = std::string(drop + 1 > digits.size() ? drop + 1 - digits.size() : 0, '0') + digits;
        up = digits[digits.size() - drop] >= '5';
        digits.resize(digits.size() - drop);
    }
    digits.erase(0, std::min(digits.find_first_not_of('0'), digits.size()));
    if (up) {
        size_t i = digits.size();
        while (i > 0 && digits[i - 1] == '9') digits[--i] = '0';
        if (i > 0) digits[i - 1]++;
        else digits = "1" + digits;
    }
    bool fits = static_cast<int>(digits.size()) <= tp;
    REQUIRE(re.has_value() == fits, "rescale", digits << " in " << tp << "," << tsc);
    if (re) {
        i128 got = static_cast<i128>((static_cast<unsigned __int128>(static_cast<uint64_t>(re->high_bits())) << 64) | re->low_bits());
        REQUIRE(text(got < 0 ? -got : got) == (digits.empty() ? "0" : digits) && (got == 0 || (got < 0) == (a < 0)), "rescale-value", text(got) << " want " << digits);
    }
}
