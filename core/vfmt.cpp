// A small columnar file format, registered under the names of the formats whose libraries are not
// installed here ("orc", "parquet", "avro"), so that tables can be written and read in the checks.
// Like the real ones it stores row groups, serves column projections in file order, skips row
// groups that a selection bitmap does not touch, gives column statistics, and can be seeked and
// read by ranges. It never evaluates predicates, which the interface allows.
//
// Layout: "VFM1" block* footer u64(footer offset) "VFM1".
#include <algorithm>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "fmt/format.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/utils/arrow/status_utils.h"
#include "paimon/common/utils/date_time_utils.h"
#include "paimon/data/decimal.h"
#include "paimon/data/timestamp.h"
#include "paimon/format/column_stats.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/format/format_stats_extractor.h"
#include "paimon/format/format_writer.h"
#include "paimon/format/reader_builder.h"
#include "paimon/format/writer_builder.h"
#include "paimon/factories/factory.h"
#include "paimon/fs/file_system.h"
#include "paimon/predicate/predicate.h"
#include "paimon/reader/prefetch_file_batch_reader.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "vfmt.h"

namespace vfmt {
using namespace paimon;  // NOLINT

Knobs& GetKnobs() {
    static Knobs k;
    return k;
}

namespace {

constexpr char kMagic[] = "VFM1";

// ------------------------------------------------------------------ bytes
struct Out {
    std::string s;
    void U64(uint64_t v) {
        s.append(reinterpret_cast<const char*>(&v), 8);
    }
    void Str(const char* p, size_t n) {
        U64(n);
        s.append(p, n);
    }
    void Str(const std::string& v) {
        Str(v.data(), v.size());
    }
};
struct In {
    const std::string& s;
    size_t pos = 0;
    bool bad = false;
    uint64_t U64() {
        uint64_t v = 0;
        if (bad || s.size() - pos < 8) {
            bad = true;
            return 0;
        }
        std::memcpy(&v, s.data() + pos, 8);
        pos += 8;
        return v;
    }
    std::string Str() {
        uint64_t n = U64();
        if (bad || s.size() - pos < n) {
            bad = true;
            return "";
        }
        std::string r = s.substr(pos, n);
        pos += n;
        return r;
    }
};

// ------------------------------------------------------------------ schema
size_t MetadataSize(const char* m) {
    if (!m) return 0;
    int32_t n = 0;
    size_t p = 0;
    std::memcpy(&n, m, 4);
    p = 4;
    for (int32_t i = 0; i < 2 * n; i++) {
        int32_t k = 0;
        std::memcpy(&k, m + p, 4);
        p += 4 + k;
    }
    return p;
}
void PutSchema(const ArrowSchema& s, Out* o) {
    o->Str(s.format ? s.format : "");
    o->Str(s.name ? s.name : "");
    o->Str(s.metadata ? s.metadata : "", MetadataSize(s.metadata));
    o->U64(static_cast<uint64_t>(s.flags));
    o->U64(static_cast<uint64_t>(s.n_children));
    for (int64_t i = 0; i < s.n_children; i++) PutSchema(*s.children[i], o);
    o->U64(s.dictionary ? 1 : 0);
    if (s.dictionary) PutSchema(*s.dictionary, o);
}
struct OwnedSchema {
    std::string format, name, metadata;
    std::vector<std::unique_ptr<ArrowSchema>> children;
    std::vector<ArrowSchema*> ptrs;
    std::unique_ptr<ArrowSchema> dictionary;
};
void ReleaseSchema(ArrowSchema* s) {
    auto* o = static_cast<OwnedSchema*>(s->private_data);
    for (auto& c : o->children) {
        if (c->release) c->release(c.get());
    }
    if (o->dictionary && o->dictionary->release) o->dictionary->release(o->dictionary.get());
    delete o;
    s->release = nullptr;
}
void GetSchema(In* in, ArrowSchema* s) {
    auto* o = new OwnedSchema;
    o->format = in->Str();
    o->name = in->Str();
    o->metadata = in->Str();
    std::memset(s, 0, sizeof(*s));
    s->flags = static_cast<int64_t>(in->U64());
    uint64_t n = in->U64();
    for (uint64_t i = 0; i < n && !in->bad; i++) {
        o->children.push_back(std::make_unique<ArrowSchema>());
        GetSchema(in, o->children.back().get());
    }
    if (in->U64() == 1 && !in->bad) {
        o->dictionary = std::make_unique<ArrowSchema>();
        GetSchema(in, o->dictionary.get());
    }
    for (auto& c : o->children) o->ptrs.push_back(c.get());
    s->format = o->format.c_str();
    s->name = o->name.c_str();
    s->metadata = o->metadata.empty() ? nullptr : o->metadata.data();
    s->n_children = static_cast<int64_t>(o->ptrs.size());
    s->children = o->ptrs.data();
    s->dictionary = o->dictionary.get();
    s->private_data = o;
    s->release = ReleaseSchema;
}

// ------------------------------------------------------------------ data
void PutData(const arrow::ArrayData& d, Out* o) {
    o->U64(static_cast<uint64_t>(d.length));
    o->U64(static_cast<uint64_t>(d.offset));
    o->U64(d.buffers.size());
    for (const auto& b : d.buffers) {
        o->U64(b ? 1 : 0);
        if (b) o->Str(reinterpret_cast<const char*>(b->data()), static_cast<size_t>(b->size()));
    }
    o->U64(d.child_data.size());
    for (const auto& c : d.child_data) PutData(*c, o);
    o->U64(d.dictionary ? 1 : 0);
    if (d.dictionary) PutData(*d.dictionary, o);
}
std::shared_ptr<arrow::ArrayData> GetData(In* in, const std::shared_ptr<arrow::DataType>& type) {
    auto d = std::make_shared<arrow::ArrayData>(type, static_cast<int64_t>(in->U64()));
    d->offset = static_cast<int64_t>(in->U64());
    uint64_t nb = in->U64();
    for (uint64_t i = 0; i < nb && !in->bad; i++) {
        if (in->U64() == 1) {
            d->buffers.push_back(arrow::Buffer::FromString(in->Str()));
        } else {
            d->buffers.push_back(nullptr);
        }
    }
    uint64_t nc = in->U64();
    for (uint64_t i = 0; i < nc && !in->bad; i++) {
        if (i >= static_cast<uint64_t>(type->num_fields())) {
            in->bad = true;
            break;
        }
        d->child_data.push_back(GetData(in, type->field(static_cast<int>(i))->type()));
    }
    if (in->U64() == 1 && !in->bad) {
        if (type->id() != arrow::Type::DICTIONARY) {
            in->bad = true;
        } else {
            d->dictionary =
                GetData(in, static_cast<const arrow::DictionaryType&>(*type).value_type());
        }
    }
    return d;
}
// The same columns under another type of the same shape (names, nullability and metadata differ).
std::shared_ptr<arrow::ArrayData> Retype(const std::shared_ptr<arrow::ArrayData>& d,
                                         const std::shared_ptr<arrow::DataType>& type) {
    auto r = std::make_shared<arrow::ArrayData>(*d);
    r->type = type;
    for (size_t i = 0; i < r->child_data.size(); i++) {
        r->child_data[i] = Retype(d->child_data[i], type->field(static_cast<int>(i))->type());
    }
    return r;
}
// A type's text without nullability and metadata.
std::string Shape(const arrow::DataType& t) {
    if (t.num_fields() == 0) return t.ToString();
    std::string r = std::to_string(static_cast<int>(t.id())) + "<";
    bool named = t.id() == arrow::Type::STRUCT;
    for (const auto& f : t.fields()) r += (named ? f->name() + ":" : "") + Shape(*f->type()) + ",";
    return r + ">";
}

struct Block {
    uint64_t offset, size, first, rows;
};
struct File {
    std::shared_ptr<arrow::Schema> schema;
    std::vector<Block> blocks;
    uint64_t rows = 0;
};

Status ReadAt(InputStream* in, uint64_t off, uint64_t n, std::string* out) {
    out->resize(n);
    uint64_t done = 0;
    while (done < n) {
        uint32_t want = static_cast<uint32_t>(std::min<uint64_t>(n - done, 1u << 30));
        PAIMON_ASSIGN_OR_RAISE(int32_t got, in->Read(out->data() + done, want, off + done));
        if (got <= 0) return Status::Invalid("vfmt: short read");
        done += static_cast<uint64_t>(got);
    }
    return Status::OK();
}
Result<File> OpenFile(InputStream* in) {
    PAIMON_ASSIGN_OR_RAISE(uint64_t len, in->Length());
    if (len < 20) return Status::Invalid("extract file info failed: vfmt: file too short");
    std::string tail;
    PAIMON_RETURN_NOT_OK(ReadAt(in, len - 12, 12, &tail));
    uint64_t at = 0;
    std::memcpy(&at, tail.data(), 8);
    if (tail.substr(8) != kMagic || at > len - 12) {
        return Status::Invalid("extract file info failed: vfmt: bad footer");
    }
    std::string foot;
    PAIMON_RETURN_NOT_OK(ReadAt(in, at, len - 12 - at, &foot));
    In r{foot};
    ArrowSchema cs;
    GetSchema(&r, &cs);
    PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Schema> schema,
                                      arrow::ImportSchema(&cs));
    File f;
    f.schema = schema;
    uint64_t n = r.U64();
    for (uint64_t i = 0; i < n && !r.bad; i++) {
        Block b;
        b.offset = r.U64();
        b.size = r.U64();
        b.first = f.rows;
        b.rows = r.U64();
        f.rows += b.rows;
        f.blocks.push_back(b);
    }
    if (r.bad) return Status::Invalid("extract file info failed: vfmt: bad footer");
    return f;
}
Result<std::shared_ptr<arrow::ArrayData>> ReadBlock(InputStream* in, const File& f,
                                                    const Block& b) {
    std::string bytes;
    PAIMON_RETURN_NOT_OK(ReadAt(in, b.offset, b.size, &bytes));
    In r{bytes};
    auto d = GetData(&r, arrow::struct_(f.schema->fields()));
    if (r.bad) return Status::Invalid("vfmt: bad block");
    return d;
}

// ------------------------------------------------------------------ writer
class Writer : public FormatWriter {
 public:
    Writer(std::shared_ptr<arrow::Schema> schema, std::shared_ptr<OutputStream> out)
        : schema_(std::move(schema)), out_(std::move(out)) {}

    Status AddBatch(::ArrowArray* batch) override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(
            std::shared_ptr<arrow::Array> a,
            arrow::ImportArray(batch, arrow::struct_(schema_->fields())));
        if (a->length() == 0) return Status::OK();
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> own,
                                          arrow::Concatenate({a}));
        pending_.push_back(own);
        pending_rows_ += own->length();
        // the knob is about data files, lists of files are always read whole
        bool meta = schema_->GetFieldIndex("_VERSION") >= 0;
        int64_t group = meta ? 64 : GetKnobs().row_group;
        while (pending_rows_ >= group) {
            PAIMON_RETURN_NOT_OK(Spill(group));
        }
        return Status::OK();
    }
    Status Flush() override {
        return Status::OK();
    }
    Status Finish() override {
        if (pending_rows_ > 0) PAIMON_RETURN_NOT_OK(Spill(pending_rows_));
        PAIMON_RETURN_NOT_OK(Begin());
        Out o;
        ArrowSchema cs;
        PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportSchema(*schema_, &cs));
        PutSchema(cs, &o);
        cs.release(&cs);
        o.U64(blocks_.size());
        for (const auto& b : blocks_) {
            o.U64(b.offset);
            o.U64(b.size);
            o.U64(b.rows);
        }
        o.U64(pos_);
        o.s += kMagic;
        return Put(o.s);
    }
    Result<bool> ReachTargetSize(bool suggested_check, int64_t target_size) const override {
        if (!suggested_check) return false;
        return static_cast<int64_t>(pos_) + pending_rows_ * 16 >= target_size;
    }
    std::shared_ptr<Metrics> GetWriterMetrics() const override {
        return std::make_shared<MetricsImpl>();
    }

 private:
    Status Begin() {
        if (pos_ == 0) return Put(kMagic);
        return Status::OK();
    }
    Status Put(const std::string& s) {
        uint64_t done = 0;
        while (done < s.size()) {
            uint32_t n = static_cast<uint32_t>(std::min<uint64_t>(s.size() - done, 1u << 30));
            PAIMON_ASSIGN_OR_RAISE(int32_t put, out_->Write(s.data() + done, n));
            if (put <= 0) return Status::IOError("vfmt: short write");
            done += static_cast<uint64_t>(put);
        }
        pos_ += s.size();
        return Status::OK();
    }
    Status Spill(int64_t rows) {
        PAIMON_RETURN_NOT_OK(Begin());
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> all,
                                          arrow::Concatenate(pending_));
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> head,
                                          arrow::Concatenate({all->Slice(0, rows)}));
        pending_.clear();
        if (all->length() > rows) pending_.push_back(all->Slice(rows));
        pending_rows_ -= rows;
        Out o;
        PutData(*head->data(), &o);
        blocks_.push_back(Block{pos_, o.s.size(), 0, static_cast<uint64_t>(rows)});
        return Put(o.s);
    }
    std::shared_ptr<arrow::Schema> schema_;
    std::shared_ptr<OutputStream> out_;
    arrow::ArrayVector pending_;
    int64_t pending_rows_ = 0;
    uint64_t pos_ = 0;
    std::vector<Block> blocks_;
};

// ------------------------------------------------------------------ reader
class Reader : public PrefetchFileBatchReader {
 public:
    Reader(std::shared_ptr<InputStream> in, File f, int32_t batch)
        : in_(std::move(in)), file_(std::move(f)), batch_(batch) {
        target_ = arrow::struct_(file_.schema->fields());
        for (int i = 0; i < file_.schema->num_fields(); i++) columns_.push_back(i);
    }
    Result<std::unique_ptr<::ArrowSchema>> GetFileSchema() const override {
        auto c = std::make_unique<::ArrowSchema>();
        PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportSchema(*file_.schema, c.get()));
        return c;
    }
    Status SetReadSchema(::ArrowSchema* read_schema, const std::shared_ptr<Predicate>& predicate,
                         const std::optional<RoaringBitmap32>& selection) override {
        if (!read_schema) {
            return Status::Invalid("SetReadSchema failed: read schema cannot be nullptr");
        }
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Schema> s,
                                          arrow::ImportSchema(read_schema));
        std::vector<int> cols;
        int prev = -1;
        for (const auto& f : s->fields()) {
            int i = file_.schema->GetFieldIndex(f->name());
            if (i < 0) {
                return Status::Invalid(fmt::format("field {} not in file schema {}", f->name(),
                                                   file_.schema->ToString()));
            }
            if (Shape(*f->type()) != Shape(*file_.schema->field(i)->type())) {
                return Status::Invalid(fmt::format(
                    "target_type {} not match src_type {}, mismatch field name {}", s->ToString(),
                    file_.schema->ToString(), f->name()));
            }
            if (i <= prev) {
                return Status::Invalid(
                    "The column id of the target field should be monotonically increasing in "
                    "format reader");
            }
            prev = i;
            cols.push_back(i);
        }
        columns_ = cols;
        target_ = arrow::struct_(s->fields());
        selection_ = selection;
        pos_ = 0;
        previous_ = std::numeric_limits<uint64_t>::max();
        loaded_ = -1;
        return Status::OK();
    }
    Result<ReadBatch> NextBatch() override {
        if (closed_) return Status::Invalid("vfmt: reader is closed");
        while (pos_ < file_.rows) {
            size_t b = 0;
            while (pos_ >= file_.blocks[b].first + file_.blocks[b].rows) b++;
            const Block& block = file_.blocks[b];
            if (selection_ && !Touches(block)) {
                pos_ = block.first + block.rows;
                continue;
            }
            if (!ranges_.empty() && !InRanges(block)) {
                pos_ = block.first + block.rows;
                continue;
            }
            if (loaded_ != static_cast<int64_t>(b)) {
                PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<arrow::ArrayData> d,
                                       ReadBlock(in_.get(), file_, block));
                data_ = d;
                loaded_ = static_cast<int64_t>(b);
            }
            uint64_t n = std::min<uint64_t>(batch_, block.first + block.rows - pos_);
            auto d = std::make_shared<arrow::ArrayData>(target_, static_cast<int64_t>(block.rows));
            d->buffers = data_->buffers;
            for (size_t i = 0; i < columns_.size(); i++) {
                d->child_data.push_back(Retype(data_->child_data[columns_[i]],
                                               target_->field(static_cast<int>(i))->type()));
            }
            auto slice = arrow::MakeArray(d)->Slice(static_cast<int64_t>(pos_ - block.first),
                                                    static_cast<int64_t>(n));
            PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> own,
                                              arrow::Concatenate({slice}));
            auto ca = std::make_unique<ArrowArray>();
            auto cs = std::make_unique<ArrowSchema>();
            PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportArray(*own, ca.get(), cs.get()));
            previous_ = pos_;
            pos_ += n;
            return std::make_pair(std::move(ca), std::move(cs));
        }
        previous_ = file_.rows;
        return BatchReader::MakeEofBatch();
    }
    uint64_t GetPreviousBatchFirstRowNumber() const override {
        return previous_;
    }
    uint64_t GetNumberOfRows() const override {
        return file_.rows;
    }
    bool SupportPreciseBitmapSelection() const override {
        return false;
    }
    Status SeekToRow(uint64_t row) override {
        pos_ = row;
        return Status::OK();
    }
    uint64_t GetNextRowToRead() const override {
        return pos_;
    }
    Result<std::vector<std::pair<uint64_t, uint64_t>>> GenReadRanges(
        bool* need_prefetch) const override {
        std::vector<std::pair<uint64_t, uint64_t>> r;
        for (const auto& b : file_.blocks) {
            if (selection_ && !Touches(b)) continue;
            r.emplace_back(b.first, b.first + b.rows);
        }
        *need_prefetch = GetKnobs().prefetch;
        return r;
    }
    Status SetReadRanges(const std::vector<std::pair<uint64_t, uint64_t>>& r) override {
        ranges_ = r;
        return Status::OK();
    }
    std::shared_ptr<Metrics> GetReaderMetrics() const override {
        return std::make_shared<MetricsImpl>();
    }
    void Close() override {
        closed_ = true;
    }

 private:
    bool Touches(const Block& b) const {
        return selection_->ContainsAny(static_cast<int32_t>(b.first),
                                       static_cast<int32_t>(b.first + b.rows));
    }
    bool InRanges(const Block& b) const {
        for (const auto& r : ranges_) {
            if (r.first < b.first + b.rows && b.first < r.second) return true;
        }
        return false;
    }
    std::shared_ptr<InputStream> in_;
    File file_;
    int32_t batch_;
    std::shared_ptr<arrow::DataType> target_;
    std::vector<int> columns_;
    std::optional<RoaringBitmap32> selection_;
    std::vector<std::pair<uint64_t, uint64_t>> ranges_;
    std::shared_ptr<arrow::ArrayData> data_;
    int64_t loaded_ = -1;
    uint64_t pos_ = 0;
    uint64_t previous_ = std::numeric_limits<uint64_t>::max();
    bool closed_ = false;
};

// ------------------------------------------------------------------ statistics
template <typename A, typename S>
std::unique_ptr<ColumnStats> Collect(std::unique_ptr<ColumnStats> stats,
                                     const arrow::ArrayVector& v) {
    auto* s = dynamic_cast<S*>(stats.get());
    for (const auto& c : v) {
        const auto& a = static_cast<const A&>(*c);
        for (int64_t i = 0; i < a.length(); i++) {
            if (a.IsNull(i)) {
                s->Collect(std::nullopt);
            } else {
                s->Collect(a.Value(i));
            }
        }
    }
    return stats;
}
Result<std::unique_ptr<ColumnStats>> StatsOf(const arrow::DataType& t,
                                             const arrow::ArrayVector& v) {
    const std::nullopt_t none = std::nullopt;
    int64_t nulls = 0;
    for (const auto& c : v) nulls += c->null_count();
    switch (t.id()) {
        case arrow::Type::BOOL:
            return Collect<arrow::BooleanArray, BooleanColumnStats>(
                ColumnStats::CreateBooleanColumnStats(none, none, 0), v);
        case arrow::Type::INT8:
            return Collect<arrow::Int8Array, TinyIntColumnStats>(
                ColumnStats::CreateTinyIntColumnStats(none, none, 0), v);
        case arrow::Type::INT16:
            return Collect<arrow::Int16Array, SmallIntColumnStats>(
                ColumnStats::CreateSmallIntColumnStats(none, none, 0), v);
        case arrow::Type::INT32:
            return Collect<arrow::Int32Array, IntColumnStats>(
                ColumnStats::CreateIntColumnStats(none, none, 0), v);
        case arrow::Type::INT64:
            return Collect<arrow::Int64Array, BigIntColumnStats>(
                ColumnStats::CreateBigIntColumnStats(none, none, 0), v);
        case arrow::Type::FLOAT:
            return Collect<arrow::FloatArray, FloatColumnStats>(
                ColumnStats::CreateFloatColumnStats(none, none, 0), v);
        case arrow::Type::DOUBLE:
            return Collect<arrow::DoubleArray, DoubleColumnStats>(
                ColumnStats::CreateDoubleColumnStats(none, none, 0), v);
        case arrow::Type::DATE32:
            return Collect<arrow::Date32Array, DateColumnStats>(
                ColumnStats::CreateDateColumnStats(none, none, 0), v);
        case arrow::Type::STRING: {
            auto st = ColumnStats::CreateStringColumnStats(none, none, 0);
            auto* s = dynamic_cast<StringColumnStats*>(st.get());
            for (const auto& c : v) {
                const auto& a = static_cast<const arrow::StringArray&>(*c);
                for (int64_t i = 0; i < a.length(); i++) {
                    s->Collect(a.IsNull(i) ? std::optional<std::string>()
                                           : std::optional<std::string>(a.GetString(i)));
                }
            }
            return st;
        }
        case arrow::Type::BINARY:
        case arrow::Type::LARGE_BINARY:
            return ColumnStats::CreateStringColumnStats(none, none, nulls);
        case arrow::Type::TIMESTAMP: {
            const auto& tt = static_cast<const arrow::TimestampType&>(t);
            int64_t k = 1;
            int32_t precision = 9;
            switch (tt.unit()) {
                case arrow::TimeUnit::SECOND:
                    k = 1, precision = 0;
                    break;
                case arrow::TimeUnit::MILLI:
                    k = 1000, precision = 3;
                    break;
                case arrow::TimeUnit::MICRO:
                    k = 1000000, precision = 6;
                    break;
                default:
                    k = 1000000000;
            }
            auto st = ColumnStats::CreateTimestampColumnStats(none, none, 0, precision);
            auto* s = dynamic_cast<TimestampColumnStats*>(st.get());
            for (const auto& c : v) {
                const auto& a = static_cast<const arrow::TimestampArray&>(*c);
                for (int64_t i = 0; i < a.length(); i++) {
                    if (a.IsNull(i)) {
                        s->Collect(none);
                        continue;
                    }
                    // floor division into milliseconds and nanoseconds of the millisecond
                    __int128 ns = static_cast<__int128>(a.Value(i)) * (1000000000 / k);
                    __int128 ms = ns / 1000000;
                    __int128 rest = ns % 1000000;
                    if (rest < 0) rest += 1000000, ms -= 1;
                    s->Collect(Timestamp(static_cast<int64_t>(ms), static_cast<int32_t>(rest)));
                }
            }
            return st;
        }
        case arrow::Type::DECIMAL128: {
            const auto& dt = static_cast<const arrow::Decimal128Type&>(t);
            auto st = ColumnStats::CreateDecimalColumnStats(none, none, 0, dt.precision(),
                                                            dt.scale());
            auto* s = dynamic_cast<DecimalColumnStats*>(st.get());
            for (const auto& c : v) {
                const auto& a = static_cast<const arrow::Decimal128Array&>(*c);
                for (int64_t i = 0; i < a.length(); i++) {
                    if (a.IsNull(i)) {
                        s->Collect(none);
                        continue;
                    }
                    arrow::Decimal128 d(a.GetValue(i));
                    s->Collect(Decimal(dt.precision(), dt.scale(),
                                       static_cast<Decimal::int128_t>(d.high_bits()) << 64 |
                                           d.low_bits()));
                }
            }
            return st;
        }
        case arrow::Type::LIST:
            return ColumnStats::CreateNestedColumnStats(FieldType::ARRAY, nulls);
        case arrow::Type::MAP:
            return ColumnStats::CreateNestedColumnStats(FieldType::MAP, nulls);
        case arrow::Type::STRUCT:
            return ColumnStats::CreateNestedColumnStats(FieldType::STRUCT, nulls);
        default:
            return Status::Invalid(
                fmt::format("cannot fetch statistics, invalid type {}", t.ToString()));
    }
}
class Extractor : public FormatStatsExtractor {
 public:
    Result<ColumnStatsVector> Extract(const std::shared_ptr<FileSystem>& fs,
                                      const std::string& path,
                                      const std::shared_ptr<MemoryPool>& pool) override {
        PAIMON_ASSIGN_OR_RAISE(auto r, ExtractWithFileInfo(fs, path, pool));
        return r.first;
    }
    Result<std::pair<ColumnStatsVector, FileInfo>> ExtractWithFileInfo(
        const std::shared_ptr<FileSystem>& fs, const std::string& path,
        const std::shared_ptr<MemoryPool>& pool) override {
        PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<InputStream> in, fs->Open(path));
        PAIMON_ASSIGN_OR_RAISE(File f, OpenFile(in.get()));
        std::vector<arrow::ArrayVector> cols(f.schema->num_fields());
        for (const auto& b : f.blocks) {
            PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<arrow::ArrayData> d,
                                   ReadBlock(in.get(), f, b));
            auto a = std::static_pointer_cast<arrow::StructArray>(arrow::MakeArray(d));
            for (size_t i = 0; i < cols.size(); i++) {
                cols[i].push_back(a->field(static_cast<int>(i)));
            }
        }
        ColumnStatsVector out;
        for (size_t i = 0; i < cols.size(); i++) {
            PAIMON_ASSIGN_OR_RAISE(
                std::unique_ptr<ColumnStats> s,
                StatsOf(*f.schema->field(static_cast<int>(i))->type(), cols[i]));
            out.push_back(std::move(s));
        }
        PAIMON_RETURN_NOT_OK(in->Close());
        return std::make_pair(out, FileInfo(static_cast<int64_t>(f.rows)));
    }
};

// ------------------------------------------------------------------ format
class RBuilder : public ReaderBuilder {
 public:
    explicit RBuilder(int32_t batch) : batch_(batch) {}
    ReaderBuilder* WithMemoryPool(const std::shared_ptr<MemoryPool>& pool) override {
        return this;
    }
    Result<std::unique_ptr<FileBatchReader>> Build(
        const std::shared_ptr<InputStream>& in) const override {
        PAIMON_ASSIGN_OR_RAISE(File f, OpenFile(in.get()));
        return std::unique_ptr<FileBatchReader>(new Reader(in, std::move(f), batch_));
    }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::string& path) const override {
        return Status::Invalid("vfmt: not supported");
    }

 private:
    int32_t batch_;
};
class WBuilder : public WriterBuilder {
 public:
    explicit WBuilder(std::shared_ptr<arrow::Schema> s) : schema_(std::move(s)) {}
    WriterBuilder* WithMemoryPool(const std::shared_ptr<MemoryPool>& pool) override {
        return this;
    }
    Result<std::unique_ptr<FormatWriter>> Build(const std::shared_ptr<OutputStream>& out,
                                                const std::string& compression) override {
        return std::unique_ptr<FormatWriter>(new Writer(schema_, out));
    }

 private:
    std::shared_ptr<arrow::Schema> schema_;
};
class Format : public FileFormat {
 public:
    explicit Format(std::string id) : id_(std::move(id)) {}
    const std::string& Identifier() const override {
        return id_;
    }
    Result<std::unique_ptr<ReaderBuilder>> CreateReaderBuilder(int32_t batch) const override {
        if (batch <= 0) {
            return Status::Invalid(
                fmt::format("invalid batch size {}, must be larger than 0", batch));
        }
        return std::unique_ptr<ReaderBuilder>(new RBuilder(batch));
    }
    Result<std::unique_ptr<WriterBuilder>> CreateWriterBuilder(::ArrowSchema* schema,
                                                               int32_t batch) const override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Schema> s,
                                          arrow::ImportSchema(schema));
        return std::unique_ptr<WriterBuilder>(new WBuilder(s));
    }
    Result<std::unique_ptr<FormatStatsExtractor>> CreateStatsExtractor(
        ::ArrowSchema* schema) const override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Schema> s,
                                          arrow::ImportSchema(schema));
        return std::unique_ptr<FormatStatsExtractor>(new Extractor);
    }

 private:
    std::string id_;
};

#define VFMT(CLASS, NAME)                                          \
    class CLASS : public FileFormatFactory {                       \
     public:                                                       \
        const char* Identifier() const override {                  \
            return NAME;                                           \
        }                                                          \
        Result<std::unique_ptr<FileFormat>> Create(                \
            const std::map<std::string, std::string>& options)     \
            const override {                                       \
            return std::unique_ptr<FileFormat>(new Format(NAME));  \
        }                                                          \
    };                                                             \
    REGISTER_PAIMON_FACTORY(CLASS)

VFMT(OrcFactory, "orc");
VFMT(ParquetFactory, "parquet");
VFMT(AvroFactory, "avro");

}  // namespace
}  // namespace vfmt
