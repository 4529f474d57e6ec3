#pragma once
// A table whose columns may change over time, next to the rows it should hold.
#include <functional>

#include "core_predicate.h"
#include "paimon/common/types/data_field.h"
#include "paimon/core/schema/table_schema.h"

namespace cw {
using namespace cp;  // NOLINT

struct Field {
    int id = 0;
    std::string name;
    T type;
    std::string role;  // "p" partition, "k" key, "v" value
    bool widened = false;
    bool operator==(const Field& o) const { return id == o.id && name == o.name && type == o.type; }
};

struct Rec {
    bool gone = false;
    std::map<int, std::pair<T, Cell>> cells;  // by field id, as written
};

struct World {
    Table t;
    std::vector<Field> fields;
    int next_id = 0, schema_id = 0, names_made = 0;
    std::vector<DataField> as_stored;  // of the first schema, with the ids of nested fields
    bool keyed = false, deletes = false;
    int buckets = -1;
    int space = 6;                                // how many values a column takes
    std::vector<std::vector<Rec>> commits;
    std::function<std::vector<Row>(int64_t)> rows;  // of a snapshot, when not all that was written
};

inline void Sync(World* w) {
    w->t.names.clear();
    w->t.types.clear();
    for (const auto& f : w->fields) {
        w->t.names.push_back(f.name);
        w->t.types.push_back(f.type);
    }
}

inline T GenFlat(pbt::Case& c) {
    for (int i = 0; i < 20; i++) {
        T t = cv::GenType(c, 0);
        if (t.kids.empty()) return t;
    }
    T t;
    t.k = cv::K::kI32;
    return t;
}

inline Cell GenValue(pbt::Case& c, const World& w, const T& t, int null_in) {
    Cell v = cv::GenCell(c, t, w.space, null_in);
    // values that meet the others once they are cut down
    int room = t.k == cv::K::kI16 ? 8 : t.k == cv::K::kI32 ? 24 : t.k == cv::K::kI64 ? 56 : 0;
    if (room && w.space && !v.null && c.Chance(1, 6)) v.i += static_cast<int64_t>(1) << c.PickOf<int>({8, std::min(room, 16), std::min(room, 32)});
    return v;
}

// What a value written as one type is when read as another.
inline Cell CastCell(const T& from, const T& to, const Cell& v) {
    if (v.null || from == to) return v;
    if (to.k == cv::K::kStr && from.k == cv::K::kBool) return cv::S(v.i ? "true" : "false");
    if (to.k == cv::K::kStr && cv::IsInt(from.k)) return cv::S(std::to_string(v.i));
    if (to.k == cv::K::kF64 && cv::IsInt(from.k)) return cv::D(static_cast<double>(v.i));
    if (to.k == cv::K::kF32 && cv::IsInt(from.k)) return cv::D(static_cast<double>(static_cast<float>(v.i)));
    if (to.k == cv::K::kF32 && from.k == cv::K::kF64) return cv::D(static_cast<double>(static_cast<float>(v.d)));
    if (to.k == cv::K::kI8) return cv::I(static_cast<int8_t>(v.i));
    if (to.k == cv::K::kI16) return cv::I(static_cast<int16_t>(v.i));
    if (to.k == cv::K::kI32) return cv::I(static_cast<int32_t>(v.i));
    if (to.k == cv::K::kDec && from.k != cv::K::kDec) {
        Cell r = v;
        for (int i = 0; i < to.s; i++) r.i *= 10;
        return r;
    }
    if (to.k == cv::K::kDec) {
        // halves go away from zero, and what does not fit is lost
        __int128 x = v.i, m = 1;
        for (int i = from.s; i < to.s; i++) x *= 10;
        for (int i = to.s; i < from.s; i++) m *= 10;
        x = (x + (m > 1 ? (x < 0 ? -m / 2 : m / 2) : 0)) / m;
        __int128 most = cv::Pow10(to.p);
        if (x >= most || x <= -most) return cv::Null();
        return cv::I(static_cast<int64_t>(x));
    }
    return v;
}

// A type the values of the given one can be read as without loss, or the same.
inline T Wider(pbt::Case& c, const T& t) {
    T r = t;
    auto one = [&](cv::K k) { r.k = k; r.p = r.s = 0; };
    switch (t.k) {
        case cv::K::kBool: one(cv::K::kStr); break;
        case cv::K::kI8: one(c.PickOf<cv::K>({cv::K::kI16, cv::K::kI32, cv::K::kI64, cv::K::kStr, cv::K::kF64})); break;
        case cv::K::kI16: one(c.PickOf<cv::K>({cv::K::kI32, cv::K::kI64, cv::K::kStr, cv::K::kF64})); break;
        case cv::K::kI32: one(c.PickOf<cv::K>({cv::K::kI64, cv::K::kI64, cv::K::kStr, cv::K::kF64})); break;
        case cv::K::kI64: one(cv::K::kStr); break;
        case cv::K::kF32: one(cv::K::kF64); break;
        case cv::K::kDec:
            if (t.p < 17) { r.s = t.s + (c.Bool() ? 1 : 0); r.p = 18; }
            break;
        case cv::K::kStr: one(cv::K::kBin); break;
        default: break;
    }
    return r;
}

// A type the values of the given one are cut down to, or the same.
inline T Narrower(pbt::Case& c, const T& t) {
    T r = t;
    switch (t.k) {
        case cv::K::kI16: r.k = cv::K::kI8; break;
        case cv::K::kI32: r.k = c.PickOf<cv::K>({cv::K::kI16, cv::K::kI8}); break;
        case cv::K::kI64: r.k = c.PickOf<cv::K>({cv::K::kI32, cv::K::kI16, cv::K::kI8}); break;
        case cv::K::kF64: r.k = cv::K::kF32; break;
        case cv::K::kDec:
            r.p = static_cast<int>(c.Int(1, t.p));
            r.s = static_cast<int>(c.Int(0, std::min(t.s, r.p)));
            break;
        default: break;
    }
    return r;
}

inline void GenTable(pbt::Case& c, World* w, bool nested, bool may_key = true, bool blob = false) {
    Table& t = w->t;
    w->keyed = may_key && c.Chance(1, 3);
    w->deletes = w->keyed && c.Bool();
    w->space = c.PickOf<int>({6, 6, 40, 0});
    int nparts = static_cast<int>(c.Weighted({4, 2, 1}));
    int nkeys = w->keyed ? static_cast<int>(c.Int(1, 2)) : 0;
    int nvals = static_cast<int>(c.Int(1, 5));
    auto add = [&](const char* role, int i, const T& ty) {
        w->fields.push_back(Field{0, role + std::to_string(i), ty, role});
    };
    for (int i = 0; i < nparts; i++) {
        T pt;
        pt.k = c.PickOf<cv::K>({cv::K::kI32, cv::K::kStr, cv::K::kI64});
        add("p", i, pt);
    }
    for (int i = 0; i < nkeys; i++) {
        T kt;
        kt.k = c.PickOf<cv::K>({cv::K::kI32, cv::K::kStr, cv::K::kI64});
        add("k", i, kt);
    }
    for (int i = 0; i < nvals; i++) add("v", i, nested && c.Chance(1, 5) ? cv::GenType(c, 2) : GenFlat(c));
    if (blob) {
        T bt;
        bt.k = cv::K::kBlob;
        add("v", nvals, bt);
    }
    for (size_t i = w->fields.size(); i > 1; i--) {
        std::swap(w->fields[i - 1], w->fields[c.Int(0, static_cast<int64_t>(i) - 1)]);
    }
    Sync(w);
    for (int i = 0; i < nparts; i++) t.parts.push_back("p" + std::to_string(i));
    if (w->keyed) {
        t.keys = t.parts;
        for (int i = 0; i < nkeys; i++) t.keys.push_back("k" + std::to_string(i));
    }
    w->buckets = w->keyed ? 1 : -1;
    t.opts[Options::BUCKET] = std::to_string(w->buckets);
    t.opts[Options::FILE_FORMAT] = c.PickOf<std::string>({"orc", "parquet"});
    t.opts[Options::TARGET_FILE_SIZE] = c.PickOf<std::string>({"128mb", "1kb", "200b"});
    t.opts[Options::READ_BATCH_SIZE] = std::to_string(c.PickOf<int>({1, 2, 7, 1024}));
    t.opts[Options::WRITE_BATCH_SIZE] = std::to_string(c.PickOf<int>({1, 3, 1024}));
    t.opts[Options::SOURCE_SPLIT_TARGET_SIZE] = c.PickOf<std::string>({"128mb", "1b", "600b"});
    if (c.Chance(1, 6)) {
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS] = "mem://ext1/a,mem://ext2";
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS_STRATEGY] = "round-robin";
    }
    if (c.Chance(1, 6)) t.opts[Options::DATA_FILE_PREFIX] = "x";
    t.opts[Options::SOURCE_SPLIT_OPEN_FILE_COST] = c.PickOf<std::string>({"4mb", "1b"});
    t.opts[Options::MANIFEST_MERGE_MIN_COUNT] = std::to_string(c.PickOf<int>({2, 30}));
    t.opts[Options::MANIFEST_TARGET_FILE_SIZE] = c.PickOf<std::string>({"8mb", "500b"});
    vfmt::GetKnobs().row_group = c.PickOf<int64_t>({1, 2, 5, 64});
    vfmt::GetKnobs().prefetch = c.Bool();
}

inline std::string SchemaPath(const World& w, int id) { return w.t.path + "/schema/schema-" + std::to_string(id); }

inline void Create(pbt::Case& c, World* w) {
    REQUIRE_OK(w->t.Create(), "create");
    std::string text = memfs::Store::Get().Content(SchemaPath(*w, 0));
    UNWRAP(auto schema, TableSchema::CreateFromJson(text), "schema");
    w->as_stored = schema->Fields();
    for (size_t i = 0; i < w->fields.size(); i++) w->fields[i].id = w->as_stored[i].Id();
    w->next_id = schema->HighestFieldId() + 1;
}

// Stores a schema with the present fields.
inline void StoreSchema(pbt::Case& c, World* w) {
    w->schema_id++;
    std::string fields;
    for (const auto& f : w->fields) {
        std::shared_ptr<arrow::DataType> ty = cv::ToArrow(f.type);
        for (const auto& d : w->as_stored) {
            if (d.Id() == f.id && !f.type.kids.empty()) ty = d.Type();
        }
        bool key = std::count(w->t.keys.begin(), w->t.keys.end(), f.name) > 0;
        DataField d(f.id, f.type.k == cv::K::kBlob ? cv::ToField(f.name, f.type, true) : arrow::field(f.name, ty, !key));
        UNWRAP(std::string text, d.ToJsonString(), "field");
        fields += (fields.empty() ? "" : ",") + text;
    }
    auto list = [](const std::vector<std::string>& v) {
        std::string s;
        for (const auto& x : v) s += (s.empty() ? "\"" : ",\"") + x + "\"";
        return "[" + s + "]";
    };
    std::string opts;
    for (const auto& [k, v] : w->t.opts) opts += (opts.empty() ? "\"" : ",\"") + k + "\":\"" + v + "\"";
    std::string text = "{\"version\":3,\"id\":" + std::to_string(w->schema_id) + ",\"fields\":[" + fields +
                       "],\"highestFieldId\":" + std::to_string(w->next_id - 1) + ",\"partitionKeys\":" + list(w->t.parts) +
                       ",\"primaryKeys\":" + list(w->t.keys) + ",\"options\":{" + opts + "},\"timeMillis\":1}";
    memfs::Store::Get().Put(SchemaPath(*w, w->schema_id), text);
    Sync(w);
}

inline void Evolve(pbt::Case& c, World* w) {
    std::vector<size_t> vals;
    for (int step = 0, n = static_cast<int>(c.Int(1, 3)); step < n; step++) {
        vals.clear();
        for (size_t i = 0; i < w->fields.size(); i++) if (w->fields[i].role == "v") vals.push_back(i);
        auto any = [&] { return vals[c.Int(0, static_cast<int64_t>(vals.size()) - 1)]; };
        switch (c.Weighted({3, 2, 2, 2, 4})) {
            case 0: {  // add, sometimes under a name used before
                std::string name = "v" + std::to_string(c.Int(0, 7));
                bool used = false;
                for (const auto& f : w->fields) used |= f.name == name;
                if (used) name = "n" + std::to_string(w->names_made++);
                w->fields.insert(w->fields.begin() + c.Int(0, static_cast<int64_t>(w->fields.size())),
                                 Field{w->next_id++, name, GenFlat(c), "v"});
                break;
            }
            case 1:  // drop
                if (vals.size() > 1) {
                    size_t i = any();
                    size_t left = 0;  // blobs come with other columns
                    for (size_t v : vals) left += v != i && w->fields[v].type.k != cv::K::kBlob;
                    if (left) w->fields.erase(w->fields.begin() + static_cast<int64_t>(i));
                }
                break;
            case 2: {  // rename, sometimes swapping names
                size_t i = any(), j = any();
                if (i != j && c.Bool()) std::swap(w->fields[i].name, w->fields[j].name);
                else w->fields[i].name = "n" + std::to_string(w->names_made++);
                break;
            }
            case 3: {  // move
                size_t i = c.Int(0, static_cast<int64_t>(w->fields.size()) - 1);
                size_t j = c.Int(0, static_cast<int64_t>(w->fields.size()) - 1);
                std::swap(w->fields[i], w->fields[j]);
                break;
            }
            default: {  // another type
                Field& f = w->fields[any()];
                // nothing but texts can be read as bytes
                if (c.Chance(1, 3)) f.type = Narrower(c, f.type);
                else if (!(f.widened && f.type.k == cv::K::kStr)) f.type = Wider(c, f.type);
                f.widened = true;
            }
        }
    }
    StoreSchema(c, w);
}

inline std::string Describe(const World& w) {
    std::string s = "schema " + std::to_string(w.schema_id) + ": ";
    for (const auto& f : w.fields) s += f.name + "#" + std::to_string(f.id) + ":" + cv::ToArrow(f.type)->ToString() + " ";
    for (const auto& k : w.t.keys) s += "key " + k + " ";
    for (const auto& [k, v] : w.t.opts) s += "\n  " + k + "=" + v;
    return s;
}

inline std::string PartText(const T& t, const Cell& c) {
    if (c.null) return "__DEFAULT_PARTITION__";
    return cv::IsText(t.k) ? c.s : std::to_string(c.i);
}

inline void WriteSome(pbt::Case& c, World* w, FileStoreWrite* writer, std::vector<Rec>* now) {
    const Table& t = w->t;
    for (size_t b = 0, n = c.Len(1, 3); b < n; b++) {
        Options_ part;
        Row fixed(w->fields.size());
        for (size_t i = 0; i < w->fields.size(); i++) {
            const Field& f = w->fields[i];
            if (f.role != "p") continue;
            fixed[i] = cv::GenCell(c, f.type, 3, w->keyed ? 0 : 8);
            part[f.name] = PartText(f.type, fixed[i]);
        }
        // in some batches a column is all null, or has one value
        std::vector<int> how(w->fields.size());
        for (auto& h : how) h = static_cast<int>(c.Weighted({6, 1, 1}));
        std::vector<Row> rows;
        std::vector<Kind> kinds;
        for (size_t i = 0, m = c.Len(1, 10); i < m; i++) {
            Row r(w->fields.size());
            Rec rec;
            for (size_t k = 0; k < r.size(); k++) {
                const Field& f = w->fields[k];
                if (f.role == "p") r[k] = fixed[k];
                else if (f.role == "k") r[k] = cv::GenCell(c, f.type, 5, 0);
                else if (how[k] == 1) r[k] = cv::Null();
                else if (how[k] == 2 && i > 0) r[k] = rows[0][k];
                else r[k] = GenValue(c, *w, f.type, 6);
                rec.cells[f.id] = {f.type, r[k]};
            }
            rec.gone = w->deletes && c.Chance(1, 4);
            rows.push_back(r);
            kinds.push_back(rec.gone ? Kind::DELETE : Kind::INSERT);
            now->push_back(rec);
        }
        UNWRAP(auto batch, t.Batch(rows, part, 0, w->keyed ? kinds : std::vector<Kind>()), "batch");
        REQUIRE_OK(writer->Write(std::move(batch)), "write");
    }
}

inline Row RowOf(const World& w, const Rec& r) {
    Row out;
    for (const auto& f : w.fields) {
        auto it = r.cells.find(f.id);
        out.push_back(it == r.cells.end() ? cv::Null() : CastCell(it->second.first, f.type, it->second.second));
    }
    return out;
}

// Rows of the first `upto` commits under the present schema.
inline std::vector<Row> Rows(const World& w, int64_t upto) {
    if (w.rows) return w.rows(upto);
    std::vector<Row> out;
    std::map<std::string, std::optional<Row>> by_key;
    for (int64_t k = 0; k < upto; k++) {
        for (const auto& rec : w.commits[k]) {
            Row r = RowOf(w, rec);
            if (!w.keyed) { out.push_back(r); continue; }
            std::string key;
            for (size_t i = 0; i < w.fields.size(); i++) {
                if (w.fields[i].role != "v") key += cv::Text(w.fields[i].type, r[i]) + "#" + w.fields[i].name + ";";
            }
            if (rec.gone) by_key[key] = std::nullopt;
            else by_key[key] = r;
        }
    }
    for (auto& [k, r] : by_key) if (r) out.push_back(*r);
    return out;
}

// A table with key whose schema changed cannot be planned, but splits planned elsewhere can be read:
// these are planned while only the first schema is there.
inline Result<std::vector<Got>> ReadRows(const World& w, const Table::ReadSpec& s) {
    if (!w.keyed || w.schema_id == 0) return w.t.ReadAll(s);
    auto& store = memfs::Store::Get();
    std::vector<std::string> later;
    for (int i = 1; i <= w.schema_id; i++) {
        later.push_back(store.Content(SchemaPath(w, i)));
        store.Remove(SchemaPath(w, i));
    }
    auto planned = [&]() -> Result<std::vector<std::shared_ptr<Split>>> {
        PAIMON_ASSIGN_OR_RAISE(auto scan, w.t.Scan(s));
        PAIMON_ASSIGN_OR_RAISE(auto plan, scan->CreatePlan());
        return plan->Splits();
    }();
    for (int i = 1; i <= w.schema_id; i++) store.Put(SchemaPath(w, i), later[i - 1]);
    PAIMON_RETURN_NOT_OK(planned.status());
    return w.t.Read(s, planned.value());
}

inline void Check(pbt::Case& c, const World& w, const char* when, bool always_filter) {
    const Table& t = w.t;
    Table::ReadSpec s;
    int64_t latest = static_cast<int64_t>(w.commits.size());
    int64_t id = c.Chance(3, 4) ? latest : c.Int(1, latest);
    if (id != latest) {
        s.snapshot = id;
        s.mode = StartupMode::FromSnapshotFull().ToString();
    }
    if (c.Chance(1, 2)) {
        std::vector<std::string> cols = t.names;
        for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[c.Int(0, static_cast<int64_t>(i) - 1)]);
        cols.resize(c.Int(1, static_cast<int64_t>(cols.size())));
        s.columns = cols;
    }
    s.prefetch = c.Bool();
    std::vector<std::string> names = s.columns.empty() ? t.names : s.columns;
    std::vector<T> types = t.TypesOf(s);
    std::vector<Row> all;
    for (const auto& r : Rows(w, id)) {
        Row p;
        for (const auto& n : names) p.push_back(r[t.Index(n)]);
        all.push_back(p);
    }
    Pred p;
    if (always_filter || c.Chance(2, 3)) {
        auto near = [&](int col) {
            if (!all.empty() && c.Chance(1, 2)) {
                const Cell& v = all[c.Int(0, static_cast<int64_t>(all.size()) - 1)][col];
                if (!v.null) return v;
            }
            return cv::GenCell(c, types[col], w.space ? w.space + 2 : 0, 0);
        };
        p = cp::Gen(c, names, types, near);
        s.predicate = p.p;
        s.filter = c.Bool();
        s.scan_predicate = c.Chance(4, 5) && !(w.keyed && w.schema_id > 0);
        c.Label(s.filter ? "filtered" : "predicate");
    }
    auto res = ReadRows(w, s);
    REQUIRE(res.ok(), "read", when << ": snapshot " << id << " cannot be read: " << res.status().ToString()
                                   << (s.predicate ? " where " + p.text : "") << "\n" << Describe(w));
    auto everything = Bag(types, all);
    auto got = Bag(types, res.value());
    if (!s.predicate) {
        REQUIRE(got == everything, "rows", when << ": snapshot " << id << " of " << latest << " reads wrongly" << Diff(everything, got) << "\n" << Describe(w));
    } else {
        std::vector<Row> some;
        for (const auto& r : all) if (p.holds(r)) some.push_back(r);
        auto want = Bag(types, some);
        if (s.filter) {
            REQUIRE(got == want, "filtered", when << ": rows where " << p.text << Diff(want, got) << "\n" << Describe(w));
        } else {
            std::vector<Got> kept;
            for (const auto& g : res.value()) if (p.holds(g.row)) kept.push_back(g);
            auto have = Bag(types, kept);
            REQUIRE(have == want, "predicate", when << ": rows where " << p.text << Diff(want, have) << "\n" << Describe(w));
            // of a table without key, only rows it holds
            if (!w.keyed) {
                REQUIRE(std::includes(everything.begin(), everything.end(), got.begin(), got.end()), "invented",
                        when << ": rows where " << p.text << Diff(everything, got) << "\n" << Describe(w));
            }
        }
        if (!some.empty() && some.size() < all.size()) c.Label("some rows match");
    }
    c.Eval(1);
}

}  // namespace cw
