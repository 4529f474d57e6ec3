// C10: splits and commit messages sent as bytes arrive as they were.
#include "core_table.h"
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/utils/serialization_utils.h"
#include "paimon/core/global_index/indexed_split_impl.h"
#include "paimon/core/index/index_file_meta.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/core/stats/simple_stats.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/core/table/source/fallback_data_split.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;  // NOLINT
using pbt::Case;

namespace {
std::shared_ptr<MemoryPool> P() {
    static std::shared_ptr<MemoryPool> pool = std::shared_ptr<MemoryPool>(GetMemoryPool());
    return pool;
}

// ---- what is sent, in a form of our own ----
struct RowV {  // fields are a number or a text, or nothing
    struct F {
        int kind = 0;  // 0 null, 1 int, 2 long, 3 text
        int64_t n = 0;
        std::string s;
    };
    std::vector<F> f;
};
using OptS = std::optional<std::string>;
using OptN = std::optional<int64_t>;
using OptL = std::optional<std::vector<std::string>>;
struct StatsV {
    RowV lo, hi;
    std::vector<OptN> nulls;
};
struct FileV {
    std::string name;
    int64_t size, rows;
    RowV lo, hi;
    StatsV ks, vs;
    int64_t min_seq, max_seq, schema;
    int level;
    std::vector<OptS> extra;
    int64_t created;
    OptN deleted;
    OptS index;
    std::optional<int> source;
    OptL stats_cols;
    OptS external;
    OptN first_row;
    OptL write_cols;
};
struct DvV {
    std::string name;
    int offset, length;
    OptN cardinality;
};
struct GlobalV {
    int64_t from, to;
    int field;
    std::optional<std::vector<int32_t>> more;
    OptS meta;
};
struct IndexV {
    std::string type, name;
    int64_t size, rows;
    std::optional<std::vector<DvV>> dvs;
    OptS external;
    std::optional<GlobalV> global;
};
struct MessageV {
    RowV part;
    int bucket;
    std::optional<int> total;
    std::vector<FileV> files[6];    // new, deleted, changelog, before, after, changelog
    std::vector<IndexV> index[4];   // new, deleted, new and deleted by compaction
};
struct DeletionV {
    std::string path;
    int64_t offset, length;
    OptN cardinality;
};
struct SplitV {
    int64_t snapshot;
    RowV part;
    int bucket;
    std::string path;
    std::optional<int> total;
    std::vector<FileV> before, data;
    std::vector<std::optional<DeletionV>> before_dv, data_dv;
    bool streaming, raw;
};

std::string GenText(Case& c) {
    switch (c.Weighted({4, 3, 2, 1})) {
        case 0: return c.Ascii(c.Len(0, 9));
        case 1: return c.Ascii(c.Len(6, 40));
        case 2: return c.Bytes(c.Len(0, 12));
        default: return std::string(c.Len(100, 3000), 'x') + c.Ascii(3);
    }
}
OptS GenOptText(Case& c) { return c.Chance(1, 3) ? OptS() : OptS(GenText(c)); }
OptN GenOptN(Case& c) { return c.Chance(1, 3) ? OptN() : OptN(c.I64()); }
OptL GenOptList(Case& c) {
    if (c.Chance(1, 3)) return OptL();
    std::vector<std::string> l;
    for (int64_t i = 0, n = c.Len(0, 4); i < n; i++) l.push_back(GenText(c));
    return l;
}
RowV GenRow(Case& c, int64_t most) {
    RowV r;
    int64_t n = c.Chance(1, 12) ? c.Len(50, 80) : c.Len(0, most);
    for (int64_t i = 0; i < n; i++) {
        RowV::F f;
        f.kind = static_cast<int>(c.Weighted({1, 2, 2, 3}));
        if (f.kind == 1) f.n = c.I32();
        if (f.kind == 2) f.n = c.I64();
        if (f.kind == 3) f.s = n > 10 ? c.Ascii(c.Len(0, 8)) : GenText(c);
        r.f.push_back(f);
    }
    return r;
}
StatsV GenStats(Case& c) {
    StatsV s;
    if (c.Chance(1, 4)) return s;
    s.lo = GenRow(c, 4);
    s.hi = GenRow(c, 4);
    for (size_t i = 0; i < s.lo.f.size(); i++) s.nulls.push_back(GenOptN(c));
    return s;
}
FileV GenFile(Case& c) {
    FileV f;
    f.name = GenText(c);
    f.size = c.I64();
    f.rows = c.I64();
    if (c.Bool()) {
        f.lo = GenRow(c, 3);
        f.hi = GenRow(c, 3);
    }
    f.ks = GenStats(c);
    f.vs = GenStats(c);
    f.min_seq = c.I64();
    f.max_seq = c.I64();
    f.schema = c.I64();
    f.level = c.I32();
    for (int64_t i = 0, n = c.Len(0, 3); i < n; i++) f.extra.push_back(GenOptText(c));
    f.created = c.Bool() ? c.Int(0, 2000000000000) : c.Int(-1000000, 1000000);
    f.deleted = GenOptN(c);
    f.index = GenOptText(c);
    if (f.index && c.Chance(1, 30)) f.index = std::string(c.Len(60000, 140000), 'i');
    if (c.Chance(2, 3)) f.source = c.Bool();
    f.stats_cols = GenOptList(c);
    f.external = GenOptText(c);
    f.first_row = GenOptN(c);
    f.write_cols = GenOptList(c);
    return f;
}
std::vector<FileV> GenFiles(Case& c, int64_t most) {
    std::vector<FileV> v;
    for (int64_t i = 0, n = c.Len(0, most); i < n; i++) v.push_back(GenFile(c));
    return v;
}
IndexV GenIndex(Case& c) {
    IndexV x;
    x.type = c.Bool() ? c.PickOf<std::string>({"HASH", "DELETION_VECTORS", "bitmap", ""}) : GenText(c);
    x.name = GenText(c);
    x.size = c.I64();
    x.rows = c.I64();
    if (c.Chance(2, 3)) {
        std::set<std::string> seen;
        x.dvs.emplace();
        for (int64_t i = 0, n = c.Len(0, 4); i < n; i++) {
            DvV d;
            d.name = GenText(c) + std::to_string(i);
            if (!seen.insert(d.name).second) continue;
            d.offset = c.I32();
            d.length = c.I32();
            d.cardinality = GenOptN(c);
            x.dvs->push_back(d);
        }
    }
    x.external = GenOptText(c);
    if (c.Chance(1, 2)) {
        GlobalV g;
        g.from = c.I64();
        g.to = c.I64();
        g.field = c.I32();
        if (c.Bool()) {
            g.more.emplace();
            for (int64_t i = 0, n = c.Len(0, 4); i < n; i++) g.more->push_back(c.I32());
        }
        g.meta = GenOptText(c);
        x.global = g;
    }
    return x;
}
std::vector<IndexV> GenIndexes(Case& c, int64_t most) {
    std::vector<IndexV> v;
    for (int64_t i = 0, n = c.Len(0, most); i < n; i++) v.push_back(GenIndex(c));
    return v;
}
MessageV GenMessage(Case& c) {
    MessageV m;
    m.part = GenRow(c, 3);
    m.bucket = c.I32();
    if (c.Bool()) m.total = c.I32();
    int64_t most = c.Int(0, 3);
    for (auto& f : m.files) f = c.Chance(1, 2) ? GenFiles(c, most) : std::vector<FileV>();
    for (auto& x : m.index) x = c.Chance(1, 2) ? GenIndexes(c, most) : std::vector<IndexV>();
    return m;
}
std::vector<std::optional<DeletionV>> GenDeletions(Case& c, size_t n) {
    std::vector<std::optional<DeletionV>> out;
    if (c.Bool()) return out;
    for (size_t i = 0; i < n; i++) {
        if (c.Chance(1, 3)) {
            out.emplace_back();
            continue;
        }
        DeletionV d;
        d.path = GenText(c);
        d.offset = c.I64();
        d.length = c.I64();
        if (c.Chance(2, 3)) d.cardinality = c.Int(0, 1000000);
        out.push_back(d);
    }
    return out;
}
SplitV GenSplit(Case& c) {
    SplitV s;
    s.snapshot = c.I64();
    s.part = GenRow(c, 3);
    s.bucket = c.I32();
    if (s.bucket == -1) s.bucket = 0;
    s.path = GenText(c);
    if (c.Bool()) s.total = c.I32();
    s.before = GenFiles(c, 2);
    s.data = GenFiles(c, 4);
    s.before_dv = GenDeletions(c, s.before.size());
    s.data_dv = GenDeletions(c, s.data.size());
    s.streaming = c.Bool();
    s.raw = c.Bool();
    return s;
}

// ---- the objects of the library ----
BinaryRow MakeRow(const RowV& v) {
    BinaryRow row(static_cast<int32_t>(v.f.size()));
    BinaryRowWriter w(&row, 64, P().get());
    for (size_t i = 0; i < v.f.size(); i++) {
        int p = static_cast<int>(i);
        const auto& f = v.f[i];
        if (f.kind == 0) w.SetNullAt(p);
        if (f.kind == 1) w.WriteInt(p, static_cast<int32_t>(f.n));
        if (f.kind == 2) w.WriteLong(p, f.n);
        if (f.kind == 3) w.WriteString(p, BinaryString::FromString(f.s, P().get()));
    }
    w.Complete();
    return row;
}
BinaryArray MakeNulls(const std::vector<OptN>& v) {
    BinaryArray array;
    BinaryArrayWriter w(&array, static_cast<int32_t>(v.size()), 8, P().get());
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i]) {
            w.WriteLong(static_cast<int>(i), *v[i]);
        } else {
            w.SetNullAt(static_cast<int>(i));
        }
    }
    w.Complete();
    return array;
}
SimpleStats MakeStats(const StatsV& v) { return SimpleStats(MakeRow(v.lo), MakeRow(v.hi), MakeNulls(v.nulls)); }
std::shared_ptr<Bytes> MakeBytes(const OptS& s) {
    if (!s) return nullptr;
    return std::make_shared<Bytes>(*s, P().get());
}
std::shared_ptr<DataFileMeta> Make(const FileV& f) {
    std::optional<FileSource> source;
    if (f.source) source = *f.source ? FileSource::Compact() : FileSource::Append();
    return std::make_shared<DataFileMeta>(
        f.name, f.size, f.rows, MakeRow(f.lo), MakeRow(f.hi), MakeStats(f.ks), MakeStats(f.vs), f.min_seq,
        f.max_seq, f.schema, f.level, f.extra, Timestamp::FromEpochMillis(f.created), f.deleted, MakeBytes(f.index),
        source, f.stats_cols, f.external, f.first_row, f.write_cols);
}
std::shared_ptr<IndexFileMeta> Make(const IndexV& x) {
    std::optional<LinkedHashMap<std::string, DeletionVectorMeta>> dvs;
    if (x.dvs) {
        dvs.emplace();
        for (const auto& d : *x.dvs) {
            dvs->insert(d.name, DeletionVectorMeta(d.name, d.offset, d.length, d.cardinality));
        }
    }
    std::optional<GlobalIndexMeta> g;
    if (x.global) {
        g.emplace(x.global->from, x.global->to, x.global->field, x.global->more, MakeBytes(x.global->meta));
    }
    return std::make_shared<IndexFileMeta>(x.type, x.name, x.size, x.rows, dvs, x.external, g);
}
template <typename V>
auto MakeAll(const std::vector<V>& v) {
    std::vector<decltype(Make(v[0]))> out;
    for (const auto& f : v) out.push_back(Make(f));
    return out;
}
std::shared_ptr<CommitMessage> Make(const MessageV& m) {
    return std::make_shared<CommitMessageImpl>(
        MakeRow(m.part), m.bucket, m.total,
        DataIncrement(MakeAll(m.files[0]), MakeAll(m.files[1]), MakeAll(m.files[2]), MakeAll(m.index[0]),
                      MakeAll(m.index[1])),
        CompactIncrement(MakeAll(m.files[3]), MakeAll(m.files[4]), MakeAll(m.files[5]), MakeAll(m.index[2]),
                         MakeAll(m.index[3])));
}
std::vector<std::optional<DeletionFile>> MakeDeletions(const std::vector<std::optional<DeletionV>>& v) {
    std::vector<std::optional<DeletionFile>> out;
    for (const auto& d : v) {
        if (d) {
            out.emplace_back(DeletionFile(d->path, d->offset, d->length, d->cardinality));
        } else {
            out.emplace_back();
        }
    }
    return out;
}
Result<std::shared_ptr<DataSplitImpl>> Make(const SplitV& s) {
    DataSplitImpl::Builder b(MakeRow(s.part), s.bucket, s.path, MakeAll(s.data));
    b.WithTotalBuckets(s.total)
        .WithSnapshot(s.snapshot)
        .WithBeforeFiles(MakeAll(s.before))
        .WithBeforeDeletionFiles(MakeDeletions(s.before_dv))
        .WithDataDeletionFiles(MakeDeletions(s.data_dv))
        .IsStreaming(s.streaming)
        .RawConvertible(s.raw);
    return b.Build();
}

// ---- the bytes, written down independently of the serializers ----
struct Out {
    std::string b;
    void U(uint64_t v, int n) {
        for (int i = n - 1; i >= 0; i--) b.push_back(static_cast<char>(v >> (8 * i)));
    }
    void I32(int32_t v) { U(static_cast<uint32_t>(v), 4); }
    void I64(int64_t v) { U(static_cast<uint64_t>(v), 8); }
    void Bool(bool v) { b.push_back(v ? 1 : 0); }
    void Str(const std::string& s) {
        U(s.size(), 2);
        b += s;
    }
};
// the layout of a row: the null bits, eight bytes for each field, and what does not fit in those
struct RowOut {
    explicit RowOut(int n) : n(n), bits((n + 63 + 8) / 64 * 8), fixed(bits + n * 8, '\0') {}
    int n, bits;
    std::string fixed, rest;
    void Null(int i) {
        int at = i + 8;
        fixed[at / 8] = static_cast<char>(fixed[at / 8] | (1 << (at % 8)));
    }
    void Num(int i, int64_t v, int width) {
        for (int k = 0; k < width; k++) fixed[bits + i * 8 + k] = static_cast<char>(static_cast<uint64_t>(v) >> (8 * k));
    }
    void Var(int i, const std::string& s) {  // arrays and rows
        uint64_t at = fixed.size() + rest.size();
        Num(i, static_cast<int64_t>(at << 32 | s.size()), 8);
        rest += s;
        while (rest.size() % 8) rest.push_back('\0');
    }
    void Text(int i, const std::string& s) {  // texts and bytes
        if (s.size() <= 7) {
            for (size_t k = 0; k < s.size(); k++) fixed[bits + i * 8 + k] = s[k];
            fixed[bits + i * 8 + 7] = static_cast<char>(0x80 | s.size());
        } else {
            Var(i, s);
        }
    }
    std::string Done() const { return fixed + rest; }
};
// the layout of an array: the size, the null bits, the elements, and what does not fit in those
struct ArrayOut {
    ArrayOut(int n, int width) : n(n), width(width), head(4 + (n + 31) / 32 * 4) {
        fixed.assign((head + n * width + 7) / 8 * 8, '\0');
        for (int k = 0; k < 4; k++) fixed[k] = static_cast<char>(n >> (8 * k));
    }
    int n, width, head;
    std::string fixed, rest;
    void Null(int i) { fixed[4 + i / 8] = static_cast<char>(fixed[4 + i / 8] | (1 << (i % 8))); }
    void Num(int i, int64_t v) {
        for (int k = 0; k < width; k++) fixed[head + i * width + k] = static_cast<char>(static_cast<uint64_t>(v) >> (8 * k));
    }
    void Var(int i, const std::string& s) {
        uint64_t at = fixed.size() + rest.size();
        Num(i, static_cast<int64_t>(at << 32 | s.size()));
        rest += s;
        while (rest.size() % 8) rest.push_back('\0');
    }
    void Text(int i, const std::string& s) {
        if (s.size() <= 7) {
            for (size_t k = 0; k < s.size(); k++) fixed[head + i * 8 + k] = s[k];
            fixed[head + i * 8 + 7] = static_cast<char>(0x80 | s.size());
        } else {
            Var(i, s);
        }
    }
    std::string Done() const { return fixed + rest; }
};
std::string Row(const RowV& v) {
    RowOut r(static_cast<int>(v.f.size()));
    for (size_t i = 0; i < v.f.size(); i++) {
        int p = static_cast<int>(i);
        const auto& f = v.f[i];
        if (f.kind == 0) r.Null(p);
        if (f.kind == 1) r.Num(p, f.n, 4);
        if (f.kind == 2) r.Num(p, f.n, 8);
        if (f.kind == 3) r.Text(p, f.s);
    }
    return r.Done();
}
std::string WithArity(const RowV& v) {
    Out o;
    o.I32(static_cast<int32_t>(v.f.size()));
    return o.b + Row(v);
}
std::string Texts(const std::vector<std::string>& v) {
    ArrayOut a(static_cast<int>(v.size()), 8);
    for (size_t i = 0; i < v.size(); i++) a.Text(static_cast<int>(i), v[i]);
    return a.Done();
}
std::string Texts(const std::vector<OptS>& v) {
    ArrayOut a(static_cast<int>(v.size()), 8);
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i]) {
            a.Text(static_cast<int>(i), *v[i]);
        } else {
            a.Null(static_cast<int>(i));
        }
    }
    return a.Done();
}
std::string Stats(const StatsV& v) {
    RowOut r(3);
    r.Text(0, WithArity(v.lo));
    r.Text(1, WithArity(v.hi));
    ArrayOut a(static_cast<int>(v.nulls.size()), 8);
    for (size_t i = 0; i < v.nulls.size(); i++) {
        if (v.nulls[i]) {
            a.Num(static_cast<int>(i), *v.nulls[i]);
        } else {
            a.Null(static_cast<int>(i));
        }
    }
    r.Var(2, a.Done());
    return r.Done();
}
// the file as the given number of fields
std::string File(const FileV& f, int fields) {
    RowOut r(fields);
    r.Text(0, f.name);
    r.Num(1, f.size, 8);
    r.Num(2, f.rows, 8);
    r.Text(3, WithArity(f.lo));
    r.Text(4, WithArity(f.hi));
    r.Var(5, Stats(f.ks));
    r.Var(6, Stats(f.vs));
    r.Num(7, f.min_seq, 8);
    r.Num(8, f.max_seq, 8);
    r.Num(9, f.schema, 8);
    r.Num(10, f.level, 4);
    r.Var(11, Texts(f.extra));
    r.Num(12, f.created, 8);
    f.deleted ? r.Num(13, *f.deleted, 8) : r.Null(13);
    f.index ? r.Text(14, *f.index) : r.Null(14);
    f.source ? r.Num(15, *f.source, 1) : r.Null(15);
    if (fields > 16) f.stats_cols ? r.Var(16, Texts(*f.stats_cols)) : r.Null(16);
    if (fields > 17) f.external ? r.Text(17, *f.external) : r.Null(17);
    if (fields > 18) f.first_row ? r.Num(18, *f.first_row, 8) : r.Null(18);
    if (fields > 19) f.write_cols ? r.Var(19, Texts(*f.write_cols)) : r.Null(19);
    return r.Done();
}
FileV Reduced(FileV f, int fields) {
    if (fields <= 16) f.stats_cols.reset();
    if (fields <= 17) f.external.reset();
    if (fields <= 18) f.first_row.reset();
    if (fields <= 19) f.write_cols.reset();
    return f;
}
// the index file as the given number of fields, with three or four fields for a deletion vector
std::string Index(const IndexV& x, int fields, int dv_fields) {
    RowOut r(fields);
    r.Text(0, x.type);
    r.Text(1, x.name);
    r.Num(2, x.size, 8);
    r.Num(3, x.rows, 8);
    if (x.dvs) {
        ArrayOut a(static_cast<int>(x.dvs->size()), 8);
        for (size_t i = 0; i < x.dvs->size(); i++) {
            const auto& d = (*x.dvs)[i];
            RowOut e(dv_fields);
            e.Text(0, d.name);
            e.Num(1, d.offset, 4);
            e.Num(2, d.length, 4);
            if (dv_fields > 3) d.cardinality ? e.Num(3, *d.cardinality, 8) : e.Null(3);
            a.Var(static_cast<int>(i), e.Done());
        }
        r.Var(4, a.Done());
    } else {
        r.Null(4);
    }
    if (fields > 5) x.external ? r.Text(5, *x.external) : r.Null(5);
    if (fields > 6) {
        if (x.global) {
            RowOut g(5);
            g.Num(0, x.global->from, 8);
            g.Num(1, x.global->to, 8);
            g.Num(2, x.global->field, 4);
            if (x.global->more) {
                ArrayOut a(static_cast<int>(x.global->more->size()), 4);
                for (size_t i = 0; i < x.global->more->size(); i++) a.Num(static_cast<int>(i), (*x.global->more)[i]);
                g.Var(3, a.Done());
            } else {
                g.Null(3);
            }
            x.global->meta ? g.Text(4, *x.global->meta) : g.Null(4);
            r.Var(6, g.Done());
        } else {
            r.Null(6);
        }
    }
    return r.Done();
}
IndexV Reduced(IndexV x, int fields, int dv_fields) {
    if (dv_fields <= 3 && x.dvs) {
        for (auto& d : *x.dvs) d.cardinality.reset();
    }
    if (fields <= 5) x.external.reset();
    if (fields <= 6) x.global.reset();
    return x;
}
void Files(Out* o, const std::vector<FileV>& v, int fields) {
    o->I32(static_cast<int32_t>(v.size()));
    for (const auto& f : v) {
        std::string row = File(f, fields);
        o->I32(static_cast<int32_t>(row.size()));
        o->b += row;
    }
}
void Indexes(Out* o, const std::vector<IndexV>& v, int fields, int dv_fields) {
    o->I32(static_cast<int32_t>(v.size()));
    for (const auto& x : v) {
        std::string row = Index(x, fields, dv_fields);
        o->I32(static_cast<int32_t>(row.size()));
        o->b += row;
    }
}
void Partition(Out* o, const RowV& part) {
    std::string row = WithArity(part);
    o->I32(static_cast<int32_t>(row.size()));
    o->b += row;
}
void Optional(Out* o, const std::optional<int>& v) {
    o->Bool(v.has_value());
    if (v) o->I32(*v);
}
struct Layout {
    int file_fields, index_fields, dv_fields;
};
Layout MessageLayout(int version) {
    if (version >= 11) return {20, 7, 4};
    if (version >= 9) return {20, 6, 4};
    if (version >= 8) return {19, 5, 4};
    if (version >= 6) return {18, 5, 4};
    if (version >= 5) return {17, 5, 4};
    if (version >= 4) return {17, 5, 3};
    return {16, 5, 3};
}
// Returns the message as it can be told from its older form.
MessageV Encode(Out* o, const MessageV& m, int version) {
    Layout l = MessageLayout(version);
    MessageV r;
    r.part = m.part;
    r.bucket = m.bucket;
    Partition(o, m.part);
    o->I32(m.bucket);
    if (version >= 7) {
        Optional(o, m.total);
        r.total = m.total;
    }
    for (int i = 0; i < 6; i++) {
        for (const auto& f : m.files[i]) r.files[i].push_back(Reduced(f, l.file_fields));
    }
    auto index = [&](int from, int to) {
        Indexes(o, m.index[from], l.index_fields, l.dv_fields);
        for (const auto& x : m.index[from]) r.index[to].push_back(Reduced(x, l.index_fields, l.dv_fields));
    };
    for (int i = 0; i < 3; i++) Files(o, m.files[i], l.file_fields);
    if (version >= 10) {
        index(0, 0);
        index(1, 1);
    }
    for (int i = 3; i < 6; i++) Files(o, m.files[i], l.file_fields);
    if (version >= 10) {
        index(2, 2);
        index(3, 3);
    } else {  // one list of index files only
        bool compacted = !m.files[3].empty() || !m.files[4].empty() || !m.files[5].empty();
        index(0, compacted ? 2 : 0);
        index(1, compacted ? 3 : 1);
    }
    return r;
}
int SplitFields(int version) {
    if (version >= 8) return 20;
    if (version >= 7) return 19;
    if (version >= 5) return 18;
    if (version >= 3) return 17;
    return 16;
}
SplitV Encode(Out* o, const SplitV& s, int version) {
    SplitV r = s;
    int fields = SplitFields(version);
    o->I64(-2394839472490812314L);
    o->I32(version);
    o->I64(s.snapshot);
    Partition(o, s.part);
    o->I32(s.bucket);
    o->Str(s.path);
    if (version >= 6) {
        Optional(o, s.total);
    } else {
        r.total.reset();
    }
    for (auto* v : {&r.before, &r.data}) {
        for (auto& f : *v) f = Reduced(f, fields);
    }
    auto deletions = [&](const std::vector<std::optional<DeletionV>>& v, std::vector<std::optional<DeletionV>>* to) {
        o->Bool(!v.empty());
        if (v.empty()) return;
        o->I32(static_cast<int32_t>(v.size()));
        for (size_t i = 0; i < v.size(); i++) {
            const auto& d = v[i];
            o->Bool(d.has_value());
            if (!d) continue;
            o->Str(d->path);
            o->I64(d->offset);
            o->I64(d->length);
            if (version >= 4) {
                o->I64(d->cardinality ? *d->cardinality : -1);
            } else {
                (*to)[i]->cardinality.reset();
            }
        }
    };
    Files(o, s.before, fields);
    deletions(s.before_dv, &r.before_dv);
    Files(o, s.data, fields);
    deletions(s.data_dv, &r.data_dv);
    o->Bool(s.streaming);
    o->Bool(s.raw);
    return r;
}

// ---- what the objects say, piece by piece ----
std::string H(const std::string& s) { return s.size() > 60 ? pbt::Hex(s.substr(0, 30)) + ".." + std::to_string(s.size()) + "#" + std::to_string(std::hash<std::string>()(s)) : pbt::Hex(s); }
std::string H(const OptS& s) { return s ? H(*s) : "null"; }
template <typename N>
std::string N_(const std::optional<N>& n) { return n ? std::to_string(*n) : "null"; }
std::string H(const OptL& l) {
    if (!l) return "null";
    std::string out = "[";
    for (const auto& s : *l) out += H(s) + ",";
    return out + "]";
}
std::string Of(const BinaryRow& r) {
    auto b = SerializationUtils::SerializeBinaryRow(r, P().get());
    return H(std::string(b->data(), b->size()));
}
std::string Of(const RowV& r) { return H(WithArity(r)); }
std::string Of(const SimpleStats& s) {
    std::string out = Of(s.MinValues()) + ";" + Of(s.MaxValues()) + ";";
    for (int i = 0; i < s.NullCounts().Size(); i++) {
        out += (s.NullCounts().IsNullAt(i) ? "null" : std::to_string(s.NullCounts().GetLong(i))) + ",";
    }
    return out;
}
std::string Of(const StatsV& s) {
    std::string out = Of(s.lo) + ";" + Of(s.hi) + ";";
    for (const auto& n : s.nulls) out += N_(n) + ",";
    return out;
}
std::string Of(const std::shared_ptr<Bytes>& b) { return b ? H(std::string(b->data(), b->size())) : "null"; }
using Say = std::vector<std::string>;
void Of(Say* o, const std::string& at, const FileV& f) {
    auto say = [&](const char* what, const std::string& v) { o->push_back(at + "." + what + "=" + v); };
    say("name", H(f.name));
    say("size", std::to_string(f.size));
    say("rows", std::to_string(f.rows));
    say("min", Of(f.lo));
    say("max", Of(f.hi));
    say("key stats", Of(f.ks));
    say("stats", Of(f.vs));
    say("sequence", std::to_string(f.min_seq) + ".." + std::to_string(f.max_seq));
    say("schema", std::to_string(f.schema));
    say("level", std::to_string(f.level));
    std::string extra;
    for (const auto& e : f.extra) extra += H(e) + ",";
    say("extra", extra);
    say("created", std::to_string(f.created) + "+0");
    say("deleted", N_(f.deleted));
    say("index", H(f.index));
    say("source", N_(f.source));
    say("stats columns", H(f.stats_cols));
    say("external", H(f.external));
    say("first row", N_(f.first_row));
    say("written columns", H(f.write_cols));
}
void Of(Say* o, const std::string& at, const DataFileMeta& f) {
    auto say = [&](const char* what, const std::string& v) { o->push_back(at + "." + what + "=" + v); };
    say("name", H(f.file_name));
    say("size", std::to_string(f.file_size));
    say("rows", std::to_string(f.row_count));
    say("min", Of(f.min_key));
    say("max", Of(f.max_key));
    say("key stats", Of(f.key_stats));
    say("stats", Of(f.value_stats));
    say("sequence", std::to_string(f.min_sequence_number) + ".." + std::to_string(f.max_sequence_number));
    say("schema", std::to_string(f.schema_id));
    say("level", std::to_string(f.level));
    std::string extra;
    for (const auto& e : f.extra_files) extra += H(e) + ",";
    say("extra", extra);
    say("created", std::to_string(f.creation_time.GetMillisecond()) + "+" +
                       std::to_string(f.creation_time.GetNanoOfMillisecond()));
    say("deleted", N_(f.delete_row_count));
    say("index", Of(f.embedded_index));
    say("source", f.file_source ? std::to_string(f.file_source->ToByteValue()) : "null");
    say("stats columns", H(f.value_stats_cols));
    say("external", H(f.external_path));
    say("first row", N_(f.first_row_id));
    say("written columns", H(f.write_cols));
}
std::string Of(const GlobalV& g) {
    std::string out = std::to_string(g.from) + ".." + std::to_string(g.to) + " " + std::to_string(g.field) + " ";
    if (!g.more) out += "null";
    if (g.more) {
        for (int f : *g.more) out += std::to_string(f) + ",";
    }
    return out + " " + H(g.meta);
}
std::string Of(const GlobalIndexMeta& m) {
    GlobalV g{m.row_range_start, m.row_range_end, m.index_field_id, m.extra_field_ids, OptS()};
    if (m.index_meta) g.meta = std::string(m.index_meta->data(), m.index_meta->size());
    return Of(g);
}
void Of(Say* o, const std::string& at, const IndexV& x) {
    auto say = [&](const char* what, const std::string& v) { o->push_back(at + "." + what + "=" + v); };
    say("type", H(x.type));
    say("name", H(x.name));
    say("size", std::to_string(x.size));
    say("rows", std::to_string(x.rows));
    std::string dvs = x.dvs ? "" : "null";
    if (x.dvs) {
        for (const auto& d : *x.dvs) {
            dvs += H(d.name) + "@" + std::to_string(d.offset) + "+" + std::to_string(d.length) + ":" + N_(d.cardinality) + ",";
        }
    }
    say("deletion vectors", dvs);
    say("external", H(x.external));
    say("global", x.global ? Of(*x.global) : "null");
}
void Of(Say* o, const std::string& at, const IndexFileMeta& x) {
    auto say = [&](const char* what, const std::string& v) { o->push_back(at + "." + what + "=" + v); };
    say("type", H(x.IndexType()));
    say("name", H(x.FileName()));
    say("size", std::to_string(x.FileSize()));
    say("rows", std::to_string(x.RowCount()));
    std::string dvs = x.DvRanges() ? "" : "null";
    if (x.DvRanges()) {
        for (const auto& [name, d] : *x.DvRanges()) {
            if (name != d.data_file_name) dvs += "(under " + H(name) + ")";
            dvs += H(d.data_file_name) + "@" + std::to_string(d.offset) + "+" + std::to_string(d.length) + ":" + N_(d.cardinality) + ",";
        }
    }
    say("deletion vectors", dvs);
    say("external", H(x.ExternalPath()));
    say("global", x.GetGlobalIndexMeta() ? Of(*x.GetGlobalIndexMeta()) : "null");
}
const char* kFileLists[] = {"new", "deleted", "changelog", "before", "after", "compacted changelog"};
const char* kIndexLists[] = {"new index", "deleted index", "compacted new index", "compacted deleted index"};
template <typename V>
const V& Bare(const V& v) { return v; }
template <typename V>
const V& Bare(const std::shared_ptr<V>& v) { return *v; }
template <typename L>
void Lists(Say* o, const std::string& name, const L& list) {
    o->push_back(name + " holds " + std::to_string(list.size()));
    for (size_t i = 0; i < list.size(); i++) {
        std::string at = name + "[" + std::to_string(i) + "]";
        Of(o, at, Bare(list[i]));
    }
}
Say Of(const MessageV& m) {
    Say o{"partition=" + Of(m.part), "bucket=" + std::to_string(m.bucket), "total=" + N_(m.total)};
    for (int i = 0; i < 6; i++) Lists(&o, kFileLists[i], m.files[i]);
    for (int i = 0; i < 4; i++) Lists(&o, kIndexLists[i], m.index[i]);
    return o;
}
Say Of(const CommitMessageImpl& m) {
    Say o{"partition=" + Of(m.Partition()), "bucket=" + std::to_string(m.Bucket()), "total=" + N_(m.TotalBuckets())};
    const auto& d = m.GetNewFilesIncrement();
    const auto& k = m.GetCompactIncrement();
    Lists(&o, kFileLists[0], d.NewFiles());
    Lists(&o, kFileLists[1], d.DeletedFiles());
    Lists(&o, kFileLists[2], d.ChangelogFiles());
    Lists(&o, kFileLists[3], k.CompactBefore());
    Lists(&o, kFileLists[4], k.CompactAfter());
    Lists(&o, kFileLists[5], k.ChangelogFiles());
    Lists(&o, kIndexLists[0], d.NewIndexFiles());
    Lists(&o, kIndexLists[1], d.DeletedIndexFiles());
    Lists(&o, kIndexLists[2], k.NewIndexFiles());
    Lists(&o, kIndexLists[3], k.DeletedIndexFiles());
    return o;
}
std::string Of(const std::optional<DeletionV>& d) {
    return d ? H(d->path) + "@" + std::to_string(d->offset) + "+" + std::to_string(d->length) + ":" + N_(d->cardinality) : "null";
}
std::string Of(const std::optional<DeletionFile>& d) {
    return d ? H(d->path) + "@" + std::to_string(d->offset) + "+" + std::to_string(d->length) + ":" + N_(d->cardinality) : "null";
}
Say Of(const SplitV& s) {
    Say o{"snapshot=" + std::to_string(s.snapshot), "partition=" + Of(s.part), "bucket=" + std::to_string(s.bucket),
          "path=" + H(s.path), "total=" + N_(s.total), "streaming=" + std::to_string(s.streaming),
          "raw=" + std::to_string(s.raw)};
    Lists(&o, "before", s.before);
    Lists(&o, "data", s.data);
    for (const auto& d : s.before_dv) o.push_back("before deletions " + Of(d));
    for (const auto& d : s.data_dv) o.push_back("deletions " + Of(d));
    return o;
}
Say Of(const DataSplitImpl& s) {
    Say o{"snapshot=" + std::to_string(s.SnapshotId()), "partition=" + Of(s.Partition()),
          "bucket=" + std::to_string(s.Bucket()), "path=" + H(s.BucketPath()), "total=" + N_(s.TotalBuckets()),
          "streaming=" + std::to_string(s.IsStreaming()), "raw=" + std::to_string(s.RawConvertible())};
    Lists(&o, "before", s.BeforeFiles());
    Lists(&o, "data", s.DataFiles());
    for (const auto& d : s.BeforeDeletionFiles()) o.push_back("before deletions " + Of(d));
    for (const auto& d : s.DeletionFiles()) o.push_back("deletions " + Of(d));
    return o;
}
void Same(const Say& want, const Say& got, const char* tag) {
    for (size_t i = 0; i < std::max(want.size(), got.size()); i++) {
        std::string w = i < want.size() ? want[i] : "(nothing)", g = i < got.size() ? got[i] : "(nothing)";
        if (w != g) FAIL(tag, "wanted " << w << "\n      got    " << g);
    }
}
// where the bytes may end early
std::vector<size_t> Cuts(Case& c, size_t n) {
    std::vector<size_t> out;
    if (n <= 300) {
        for (size_t i = 0; i < n; i++) out.push_back(i);
    } else {
        for (int i = 0; i < 60; i++) out.push_back(static_cast<size_t>(c.Draw(n - 1)));
        for (size_t i = 1; i < 20; i++) out.push_back(n - i);
    }
    return out;
}
// the bytes at the very end of an allocation of their own, so that a read past them is seen
std::unique_ptr<char[]> Exact(const std::string& s, size_t n) {
    auto p = std::make_unique<char[]>(n);
    memcpy(p.get(), s.data(), n);
    return p;
}
std::string FirstDiff(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return "first differing byte " + std::to_string(i) + " of " + std::to_string(a.size()) + " and " + std::to_string(b.size());
}
}  // namespace

FACET(messages, 6) {
    MessageV m = GenMessage(c);
    int version = c.Chance(1, 2) ? 11 : static_cast<int>(c.Int(3, 10));
    c.Log() << "version " << version << "\n";
    for (const auto& s : Of(m)) c.Log() << "  " << s << "\n";
    Out o;
    MessageV told = Encode(&o, m, version);
    size_t things = 0;
    for (const auto& f : told.files) things += f.size();
    for (const auto& x : told.index) things += x.size();
    c.NonTrivial(things > 0);
    c.Label(version == 11 ? "current" : "older");
    auto mine = Make(m);
    if (version == 11) {
        UNWRAP(std::string bytes, CommitMessage::Serialize(mine, P()), "serialize");
        REQUIRE(bytes == o.b, "bytes", FirstDiff(o.b, bytes));
        REQUIRE(CommitMessage::CurrentVersion() == 11, "version", "current version is " << CommitMessage::CurrentVersion());
    }
    auto p = Exact(o.b, o.b.size());
    UNWRAP(auto back, CommitMessage::Deserialize(version, p.get(), static_cast<int32_t>(o.b.size()), P()), "deserialize");
    p.reset();
    auto impl = std::dynamic_pointer_cast<CommitMessageImpl>(back);
    REQUIRE(impl, "type", "not a commit message");
    Same(Of(told), Of(*impl), "message");
    REQUIRE(*impl == *std::dynamic_pointer_cast<CommitMessageImpl>(Make(told)), "equal", "unequal to the one sent");
    REQUIRE(impl->IsEmpty() == (things == 0), "empty", "IsEmpty says " << impl->IsEmpty() << " of " << things << " files");
    c.Eval(1);
    for (size_t n : Cuts(c, o.b.size())) {
        auto part = Exact(o.b, n);
        auto r = CommitMessage::Deserialize(version, part.get(), static_cast<int32_t>(n), P());
        REQUIRE(!r.ok(), "cut", "the first " << n << " of " << o.b.size() << " bytes were taken for a message");
    }
}

FACET(lists, 2) {
    std::vector<MessageV> ms;
    int version = c.Chance(1, 2) ? 11 : static_cast<int>(c.Int(3, 10));
    std::vector<MessageV> told;
    std::vector<std::shared_ptr<CommitMessage>> mine;
    Out o;
    int64_t n = c.Len(0, 4);
    o.I32(static_cast<int32_t>(n));
    for (int64_t i = 0; i < n; i++) {
        ms.push_back(GenMessage(c));
        mine.push_back(Make(ms.back()));
        told.push_back(Encode(&o, ms.back(), version));
    }
    c.Log() << n << " messages, version " << version << "\n";
    c.NonTrivial(n > 1);
    if (version == 11) {
        UNWRAP(std::string bytes, CommitMessage::SerializeList(mine, P()), "serialize");
        REQUIRE(bytes == o.b, "bytes", FirstDiff(o.b, bytes));
    }
    auto p = Exact(o.b, o.b.size());
    UNWRAP(auto back, CommitMessage::DeserializeList(version, p.get(), static_cast<int32_t>(o.b.size()), P()), "deserialize");
    REQUIRE(back.size() == told.size(), "count", back.size() << " messages of " << told.size());
    for (size_t i = 0; i < told.size(); i++) {
        Same(Of(told[i]), Of(*std::dynamic_pointer_cast<CommitMessageImpl>(back[i])), "message");
    }
    for (size_t k : Cuts(c, o.b.size())) {
        auto part = Exact(o.b, k);
        auto r = CommitMessage::DeserializeList(version, part.get(), static_cast<int32_t>(k), P());
        REQUIRE(!r.ok(), "cut", "the first " << k << " of " << o.b.size() << " bytes were taken for a list");
    }
}

FACET(splits, 6) {
    SplitV s = GenSplit(c);
    int version = c.Chance(1, 2) ? 8 : static_cast<int>(c.Int(2, 7));
    int form = static_cast<int>(c.Weighted({4, 2, 2}));  // plain, with row ranges, from a fallback branch
    c.Log() << "version " << version << " form " << form << "\n";
    for (const auto& l : Of(s)) c.Log() << "  " << l << "\n";
    c.NonTrivial(!s.data.empty() || !s.before.empty());
    c.Label(form == 0 ? "plain" : form == 1 ? "indexed" : "fallback");
    UNWRAP(auto split, Make(s), "build");
    Out o;
    SplitV told;
    std::vector<Range> ranges;
    std::vector<float> scores;
    if (form == 1) {
        o.I64(-938472394838495695L);
        o.I32(1);
        told = Encode(&o, s, version);
        for (int64_t i = 0, n = c.Len(0, 4); i < n; i++) {
            int64_t from = c.I64(), to = c.I64();
            ranges.emplace_back(std::min(from, to), std::max(from, to));
        }
        o.I32(static_cast<int32_t>(ranges.size()));
        for (const auto& r : ranges) {
            o.I64(r.from);
            o.I64(r.to);
        }
        for (int64_t i = 0, n = c.Len(0, 4); i < n; i++) scores.push_back(static_cast<float>(c.Int(-1000, 1000)) / 7);
        o.Bool(!scores.empty());
        if (!scores.empty()) {
            o.I32(static_cast<int32_t>(scores.size()));
            for (float f : scores) {
                int32_t bits;
                memcpy(&bits, &f, 4);
                o.I32(bits);
            }
        }
    } else {
        told = Encode(&o, s, version);
    }
    std::shared_ptr<Split> mine = split;
    if (form == 1) mine = std::make_shared<IndexedSplitImpl>(split, ranges, scores);
    if (version == 8) {
        UNWRAP(std::string bytes, Split::Serialize(mine, P()), "serialize");
        REQUIRE(bytes == o.b, "bytes", FirstDiff(o.b, bytes));
    }
    bool fallback = c.Bool();
    size_t whole = o.b.size();
    if (form == 2) o.Bool(fallback);
    auto p = Exact(o.b, o.b.size());
    UNWRAP(auto back, Split::Deserialize(p.get(), o.b.size(), P()), "deserialize");
    p.reset();
    std::shared_ptr<DataSplitImpl> inner;
    if (form == 0) {
        inner = std::dynamic_pointer_cast<DataSplitImpl>(back);
        REQUIRE(inner, "type", "not a data split");
    } else if (form == 1) {
        auto x = std::dynamic_pointer_cast<IndexedSplitImpl>(back);
        REQUIRE(x, "type", "not an indexed split");
        REQUIRE(x->RowRanges() == ranges, "ranges", "row ranges differ");
        REQUIRE(x->Scores() == scores, "scores", "scores differ");
        inner = std::dynamic_pointer_cast<DataSplitImpl>(x->GetDataSplit());
    } else {
        auto x = std::dynamic_pointer_cast<FallbackDataSplit>(back);
        REQUIRE(x, "type", "not a fallback split");
        REQUIRE(x->IsFallback() == fallback, "fallback", "sent " << fallback);
        inner = std::dynamic_pointer_cast<DataSplitImpl>(x->GetSplit());
    }
    Same(Of(told), Of(*inner), "split");
    UNWRAP(auto again, Make(told), "build");
    REQUIRE(*inner == *again, "equal", "unequal to the one sent");
    auto list = inner->GetFileList();
    REQUIRE(list.size() == s.data.size(), "files", list.size() << " files of " << s.data.size());
    c.Eval(1);
    for (size_t n : Cuts(c, o.b.size())) {
        if (n == whole) continue;
        auto part = Exact(o.b, n);
        auto r = Split::Deserialize(part.get(), n, P());
        REQUIRE(!r.ok(), "cut", "the first " << n << " of " << o.b.size() << " bytes were taken for a split");
    }
    std::string longer = o.b + std::string(form == 2 ? 1 : 2, '\0');
    auto r = Split::Deserialize(longer.data(), longer.size(), P());
    REQUIRE(!r.ok(), "longer", "a split with bytes after it was taken");
}

// one part of what is sent replaced by that part of another
void Change(Case& c, FileV* f) {
    FileV g = GenFile(c);
    switch (c.Draw(18)) {
        case 0: f->name = g.name; break;
        case 1: f->size = g.size; break;
        case 2: f->rows = g.rows; break;
        case 3: f->lo = g.lo; break;
        case 4: f->hi = g.hi; break;
        case 5: f->ks = g.ks; break;
        case 6: f->vs = g.vs; break;
        case 7: f->min_seq = g.min_seq; break;
        case 8: f->max_seq = g.max_seq; break;
        case 9: f->schema = g.schema; break;
        case 10: f->level = g.level; break;
        case 11: f->extra = g.extra; break;
        case 12: f->created = g.created; break;
        case 13: f->deleted = g.deleted; break;
        case 14: f->index = g.index; break;
        case 15: f->source = g.source; break;
        case 16: f->stats_cols = g.stats_cols; break;
        case 17: c.Bool() ? void(f->external = g.external) : void(f->first_row = g.first_row); break;
        default: f->write_cols = g.write_cols;
    }
}
void Change(Case& c, IndexV* x) {
    IndexV g = GenIndex(c);
    switch (c.Draw(6)) {
        case 0: x->type = g.type; break;
        case 1: x->name = g.name; break;
        case 2: x->size = g.size; break;
        case 3: x->rows = g.rows; break;
        case 4: x->dvs = g.dvs; break;
        case 5: x->external = g.external; break;
        default: x->global = g.global;
    }
}
template <typename V>
void ChangeOne(Case& c, std::vector<V>* list) {
    if (list->empty() || c.Chance(1, 6)) {
        if (!list->empty() && c.Bool()) list->pop_back();
        else if constexpr (std::is_same_v<V, FileV>) list->push_back(GenFile(c));
        else list->push_back(GenIndex(c));
        return;
    }
    Change(c, &(*list)[c.Draw(list->size() - 1)]);
}

FACET(unequal, 2) {
    if (c.Bool()) {
        MessageV m = GenMessage(c), n = m;
        switch (c.Weighted({1, 1, 1, 6, 4, 1})) {
            case 0: n.part = GenRow(c, 3); break;
            case 1: n.bucket = c.I32(); break;
            case 2: n.total = c.Bool() ? std::optional<int>() : std::optional<int>(c.I32()); break;
            case 3: ChangeOne(c, &n.files[c.Draw(5)]); break;
            case 4: ChangeOne(c, &n.index[c.Draw(3)]); break;
            default: break;
        }
        auto was = Of(m), is = Of(n);
        for (const auto& l : was) c.Log() << "  " << l << "\n";
        for (const auto& l : is) c.Log() << "  " << l << "\n";
        bool same = was == is;
        bool told = *std::dynamic_pointer_cast<CommitMessageImpl>(Make(m)) == *std::dynamic_pointer_cast<CommitMessageImpl>(Make(n));
        REQUIRE(same == told, "message-equality", "messages that " << (same ? "are the same" : "differ in one part") << " are told " << (told ? "equal" : "unequal"));
        c.NonTrivial(!same);
        return;
    }
    SplitV s = GenSplit(c), t = s;
    int which = static_cast<int>(c.Draw(11));
    switch (which) {
        case 0: t.snapshot = c.I64(); break;
        case 1: t.part = GenRow(c, 3); break;
        case 2: t.bucket = static_cast<int>(c.Int(0, 1000)); break;
        case 3: t.path = GenText(c); break;
        case 4: t.total = c.Bool() ? std::optional<int>() : std::optional<int>(c.I32()); break;
        case 5:
            if (!t.before.empty()) Change(c, &t.before[c.Draw(t.before.size() - 1)]);
            break;
        case 6: t.before_dv = GenDeletions(c, t.before.size()); break;
        case 7: t.data_dv = GenDeletions(c, t.data.size()); break;
        case 8: t.streaming = !t.streaming; break;
        case 9: t.raw = !t.raw; break;
        default:
            if (!t.data.empty()) Change(c, &t.data[c.Draw(t.data.size() - 1)]);
    }
    auto was = Of(s), is = Of(t);
    for (const auto& l : was) c.Log() << "  " << l << "\n";
    for (const auto& l : is) c.Log() << "  " << l << "\n";
    bool same = was == is;
    UNWRAP(auto a, Make(s), "build");
    UNWRAP(auto b, Make(t), "build");
    REQUIRE(same == (*a == *b), "split-equality", "splits that " << (same ? "are the same" : "differ in one part") << " are told otherwise");
    c.NonTrivial(!same);
}

FACET(table, 2) {
    memfs::Store::Get().Reset();
    ct::Table t;
    bool keyed = c.Bool();
    int buckets = static_cast<int>(c.Int(1, 3));
    cv::T i32;
    i32.k = cv::K::kI32;
    t.names = {"k", "v"};
    t.types = {i32, cv::GenAtom(c)};
    if (c.Bool()) {
        t.names.push_back("p");
        t.types.push_back(i32);
        t.parts = {"p"};
    }
    if (keyed) t.keys = t.parts.empty() ? std::vector<std::string>{"k"} : std::vector<std::string>{"p", "k"};
    t.opts[Options::BUCKET] = keyed ? std::to_string(buckets) : c.Bool() ? "-1" : std::to_string(buckets);
    bool unaware = t.opts[Options::BUCKET] == "-1";
    if (!keyed && !unaware) t.opts[Options::BUCKET_KEY] = "k";
    t.opts[Options::TARGET_FILE_SIZE] = c.PickOf<std::string>({"1kb", "128mb"});
    REQUIRE_OK(t.Create(), "create");
    std::map<std::string, ct::Row> by_key;
    std::vector<ct::Row> all;
    int ident = 0;
    for (int64_t n = c.Len(1, 4); n > 0; n--) {
        UNWRAP(auto writer, t.Writer("u"), "writer");
        for (int64_t b = c.Len(1, 3); b > 0; b--) {
            std::vector<ct::Row> rows;
            int64_t part = c.Int(0, 2);
            int bucket = unaware ? 0 : static_cast<int>(c.Int(0, buckets - 1));
            for (int64_t k = c.Len(1, 6); k > 0; k--) {
                // keys stay within a bucket of their own
                ct::Row row{cv::I(c.Int(0, 5) * buckets + bucket), cv::GenCell(c, t.types[1], 6, 4)};
                if (!t.parts.empty()) row.push_back(cv::I(part));
                rows.push_back(row);
                all.push_back(row);
                by_key[std::to_string(t.parts.empty() ? 0 : part) + "/" + std::to_string(row[0].i)] = row;
            }
            ct::Options_ p;
            if (!t.parts.empty()) p["p"] = std::to_string(part);
            UNWRAP(auto batch, t.Batch(rows, p, bucket), "batch");
            REQUIRE_OK(writer->Write(std::move(batch)), "write");
        }
        UNWRAP(ct::Msgs msgs, writer->PrepareCommit(false, ident), "prepare");
        REQUIRE_OK(writer->Close(), "close");
        ct::Msgs sent;
        if (c.Bool()) {
            for (const auto& m : msgs) {
                UNWRAP(std::string bytes, CommitMessage::Serialize(m, P()), "serialize");
                UNWRAP(auto back, CommitMessage::Deserialize(CommitMessage::CurrentVersion(), bytes.data(), static_cast<int32_t>(bytes.size()), P()), "deserialize");
                sent.push_back(back);
            }
        } else {
            UNWRAP(std::string bytes, CommitMessage::SerializeList(msgs, P()), "serialize");
            UNWRAP(sent, CommitMessage::DeserializeList(CommitMessage::CurrentVersion(), bytes.data(), static_cast<int32_t>(bytes.size()), P()), "deserialize");
        }
        UNWRAP(auto commit, t.Committer("u"), "committer");
        REQUIRE_OK(commit->Commit(sent, ident++), "commit");
    }
    ct::Table::ReadSpec spec;
    UNWRAP(auto scan, t.Scan(spec), "scan");
    UNWRAP(auto plan, scan->CreatePlan(), "plan");
    std::vector<std::shared_ptr<Split>> sent;
    for (const auto& s : plan->Splits()) {
        UNWRAP(std::string bytes, Split::Serialize(s, P()), "serialize");
        UNWRAP(auto back, Split::Deserialize(bytes.data(), bytes.size(), P()), "deserialize");
        sent.push_back(back);
    }
    UNWRAP(auto got, t.Read(spec, sent), "read");
    std::vector<ct::Row> want;
    if (keyed) {
        for (const auto& [_, row] : by_key) want.push_back(row);
    } else {
        want = all;
    }
    c.NonTrivial(sent.size() > 0);
    auto w = ct::Bag(t.types, want), g = ct::Bag(t.types, got);
    REQUIRE(w == g, "rows", "rows read from splits sent as bytes differ" << ct::Diff(w, g));
}
