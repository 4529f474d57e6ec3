// What a table's schema says: how it is stored when a table is created, what is read back from
// schemas that other writers stored, which tables may be created at all, and what a catalog lists.
#include <algorithm>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "core_values.h"
#include "memfs.h"
#include "paimon/catalog/catalog.h"
#include "paimon/catalog/identifier.h"
#include "paimon/core/schema/schema_manager.h"
#include "paimon/core/schema/table_schema.h"
#include "paimon/defs.h"
#include "paimon/schema/schema.h"
#include "pbt.h"
#include "rapidjson/document.h"

using namespace paimon;
using cv::K;

namespace {

using Names = std::vector<std::string>;
using Opts = std::map<std::string, std::string>;

struct Col;
struct Ty {
    K k = K::kI32;
    int p = 0, s = 0;  // as in cv::T
    std::vector<Col> kids;
    bool foreign = false;  // a type no table can have
};
struct Col {
    std::string name;
    Ty t;
    bool nullable = true;
    std::optional<std::string> desc;
    int id = -1;
    std::optional<std::string> claimed;  // an id given by whoever creates the table
};

struct Def {
    std::vector<Col> cols;
    Names parts, keys;
    Opts opts;
    std::optional<std::string> comment;
};

bool Nested(const Ty& t) { return t.k == K::kList || t.k == K::kMap || t.k == K::kStruct; }

const std::vector<std::string> kNames = {"a", "b", "c", "d", "id", "Name", "x y", "\xe4\xb8\xad", "q\"q", "v1", "dt", "back\\slash", "_k", "KEY_"};

Ty GenTy(pbt::Case& c, int depth, bool key = false) {
    Ty t;
    std::vector<K> atoms = {K::kI32, K::kBool, K::kI8, K::kI16, K::kI64, K::kF32, K::kF64, K::kStr, K::kBin, K::kDate, K::kTs, K::kDec};
    size_t n = key || depth == 0 ? atoms.size() : atoms.size() + 4;
    size_t pick = c.Draw(n - 1);
    if (pick < atoms.size()) {
        t.k = atoms[pick];
        if (t.k == K::kTs) { t.p = static_cast<int>(c.Draw(3)) * 3; t.s = c.Bool(); }
        if (t.k == K::kDec) { t.p = static_cast<int>(c.Int(1, 38)); t.s = static_cast<int>(c.Int(0, t.p)); }
        return t;
    }
    t.k = pick == atoms.size() ? K::kList : pick == atoms.size() + 1 ? K::kMap : K::kStruct;
    if (t.k == K::kList) {
        Col e; e.name = "item"; e.t = GenTy(c, depth - 1); e.nullable = !c.Chance(1, 3);
        t.kids = {e};
    } else if (t.k == K::kMap) {
        Col k, v;
        k.name = "key"; k.t = GenTy(c, c.Chance(1, 3) ? depth - 1 : 0); k.nullable = false;
        v.name = "value"; v.t = GenTy(c, depth - 1); v.nullable = !c.Chance(1, 3);
        t.kids = {k, v};
    } else {
        int m = static_cast<int>(c.Int(1, 3));
        Names pool = kNames;
        for (int i = 0; i < m; i++) {
            Col f;
            size_t at = c.Draw(pool.size() - 1);
            f.name = pool[at];
            pool.erase(pool.begin() + at);
            f.t = GenTy(c, depth - 1);
            f.nullable = !c.Chance(1, 3);
            if (c.Chance(1, 4)) f.desc = c.PickOf<std::string>({"note", "say \"hi\"\n", "\xc3\xa9"});
            t.kids.push_back(f);
        }
    }
    return t;
}

std::vector<Col> GenCols(pbt::Case& c, int lo) {
    std::vector<Col> cols;
    Names pool = kNames;
    int n = static_cast<int>(c.Int(lo, 6));
    for (int i = 0; i < n; i++) {
        Col f;
        size_t at = c.Draw(pool.size() - 1);
        f.name = pool[at];
        pool.erase(pool.begin() + at);
        f.t = GenTy(c, 2);
        f.nullable = !c.Chance(1, 4);
        if (c.Chance(1, 4)) f.desc = c.PickOf<std::string>({"note", "say \"hi\"\n", "\xc3\xa9"});
        cols.push_back(f);
    }
    return cols;
}

void Number(std::vector<Col>& cols, int* next, int gap(pbt::Case&), pbt::Case& c);
void NumberTy(Ty& t, int* next, int gap(pbt::Case&), pbt::Case& c) {
    if (t.k == K::kStruct) Number(t.kids, next, gap, c);
    else for (Col& f : t.kids) NumberTy(f.t, next, gap, c);
}
void Number(std::vector<Col>& cols, int* next, int gap(pbt::Case&), pbt::Case& c) {
    for (Col& f : cols) {
        f.id = *next;
        *next += gap(c);
        NumberTy(f.t, next, gap, c);
    }
}
int One(pbt::Case&) { return 1; }
int Some(pbt::Case& c) { return c.Chance(1, 4) ? static_cast<int>(c.Int(1, 5)) : 1; }

std::shared_ptr<arrow::DataType> ArrowOf(const Ty& t);
std::shared_ptr<arrow::Field> FieldOf(const Col& f) {
    std::shared_ptr<arrow::Field> out;
    if (f.t.k == K::kBlob) out = BlobUtils::ToArrowField(f.name, f.nullable);
    else out = arrow::field(f.name, ArrowOf(f.t), f.nullable);
    Names k, v;
    if (f.desc) { k.push_back("paimon.description"); v.push_back(*f.desc); }
    if (f.claimed) { k.push_back("paimon.id"); v.push_back(*f.claimed); }
    if (!k.empty()) out = out->WithMergedMetadata(arrow::KeyValueMetadata::Make(k, v));
    return out;
}
std::shared_ptr<arrow::DataType> ArrowOf(const Ty& t) {
    if (t.foreign) return arrow::large_binary();
    switch (t.k) {
        case K::kList: return arrow::list(FieldOf(t.kids[0]));
        case K::kMap: return arrow::map(ArrowOf(t.kids[0].t), FieldOf(t.kids[1]));
        case K::kStruct: {
            arrow::FieldVector f;
            for (const Col& k : t.kids) f.push_back(FieldOf(k));
            return arrow::struct_(f);
        }
        default: { cv::T a; a.k = t.k; a.p = t.p; a.s = t.s; return cv::ToArrow(a); }
    }
}

std::string Atom(const Ty& t) {
    switch (t.k) {
        case K::kBool: return "BOOLEAN";
        case K::kI8: return "TINYINT";
        case K::kI16: return "SMALLINT";
        case K::kI32: return "INT";
        case K::kI64: return "BIGINT";
        case K::kF32: return "FLOAT";
        case K::kF64: return "DOUBLE";
        case K::kStr: return "STRING";
        case K::kBin: return "BYTES";
        case K::kDate: return "DATE";
        case K::kBlob: return "BLOB";
        case K::kTs: return "TIMESTAMP(" + std::to_string(t.p) + ")" + (t.s ? " WITH LOCAL TIME ZONE" : "");
        case K::kDec: return "DECIMAL(" + std::to_string(t.p) + ", " + std::to_string(t.s) + ")";
        case K::kList: return "ARRAY";
        case K::kMap: return "MAP";
        case K::kStruct: return "ROW";
    }
    return "";
}

std::string Spell(const std::vector<Col>& cols);
std::string Spell(const Ty& t) {
    std::string s = t.foreign ? "FOREIGN" : Atom(t);
    if (Nested(t)) s += "<" + Spell(t.kids) + ">";
    return s;
}
std::string Spell(const std::vector<Col>& cols) {
    std::string s;
    for (const Col& f : cols) s += (s.empty() ? "" : ", ") + f.name + "#" + std::to_string(f.id) + " " + Spell(f.t) + (f.nullable ? "" : " NOT NULL");
    return s;
}
std::string Spell(const Def& d) {
    std::string s = "(" + Spell(d.cols) + ") partitioned by {";
    for (auto& p : d.parts) s += p + ";";
    s += "} keys {";
    for (auto& p : d.keys) s += p + ";";
    s += "} options {";
    for (auto& [k, v] : d.opts) s += k + "=" + v + ";";
    return s + "}";
}

// ---- reading a stored schema independently ----

void MatchType(pbt::Case& c, const rapidjson::Value& v, const Col& f, const std::string& where);
void MatchFields(pbt::Case& c, const rapidjson::Value& v, const std::vector<Col>& cols, const std::string& where) {
    REQUIRE(v.IsArray() && v.Size() == cols.size(), "stored-fields", where << " has other fields");
    for (size_t i = 0; i < cols.size(); i++) {
        const rapidjson::Value& o = v[static_cast<rapidjson::SizeType>(i)];
        std::string at = where + "." + cols[i].name;
        REQUIRE(o.IsObject() && o.HasMember("id") && o.HasMember("name") && o.HasMember("type"), "stored-field", at);
        REQUIRE(o["id"].IsInt() && o["id"].GetInt() == cols[i].id, "stored-id", at << " has id " << o["id"].GetInt() << ", expected " << cols[i].id);
        REQUIRE(std::string(o["name"].GetString()) == cols[i].name, "stored-name", at << " is called " << o["name"].GetString());
        if (cols[i].desc) REQUIRE(o.HasMember("description") && std::string(o["description"].GetString()) == *cols[i].desc, "stored-description", at);
        else REQUIRE(!o.HasMember("description"), "stored-description", at << " got a description");
        MatchType(c, o["type"], cols[i], at);
    }
}
void MatchType(pbt::Case& c, const rapidjson::Value& v, const Col& f, const std::string& where) {
    std::string want = Atom(f.t) + (f.nullable ? "" : " NOT NULL");
    if (!Nested(f.t)) {
        REQUIRE(v.IsString() && v.GetString() == want, "stored-type", where << " is stored as " << (v.IsString() ? v.GetString() : "an object") << ", expected " << want);
        return;
    }
    REQUIRE(v.IsObject() && v.HasMember("type") && v["type"].GetString() == want, "stored-type", where << " expected " << want);
    if (f.t.k == K::kList) {
        REQUIRE(v.HasMember("element"), "stored-type", where);
        MatchType(c, v["element"], f.t.kids[0], where + ".element");
    } else if (f.t.k == K::kMap) {
        REQUIRE(v.HasMember("key") && v.HasMember("value"), "stored-type", where);
        MatchType(c, v["key"], f.t.kids[0], where + ".key");
        MatchType(c, v["value"], f.t.kids[1], where + ".value");
    } else {
        REQUIRE(v.HasMember("fields"), "stored-type", where);
        MatchFields(c, v["fields"], f.t.kids, where);
    }
}
void MatchNames(pbt::Case& c, const rapidjson::Value& v, const Names& want, const char* what) {
    REQUIRE(v.IsArray() && v.Size() == want.size(), "stored-keys", what << " has another length");
    for (size_t i = 0; i < want.size(); i++) REQUIRE(want[i] == v[static_cast<rapidjson::SizeType>(i)].GetString(), "stored-keys", what);
}

void MatchArrow(pbt::Case& c, const std::shared_ptr<arrow::Field>& got, const Col& f, bool identified, const std::string& where) {
    REQUIRE(got->nullable() == f.nullable, "read-nullable", where << " is " << (got->nullable() ? "" : "not ") << "nullable");
    if (identified) {
        REQUIRE(got->name() == f.name, "read-name", where << " is called " << got->name());
        REQUIRE(got->HasMetadata(), "read-id", where << " has no id");
        auto id = got->metadata()->Get("paimon.id");
        REQUIRE(id.ok() && id.ValueUnsafe() == std::to_string(f.id), "read-id", where << " has id " << (id.ok() ? id.ValueUnsafe() : "none") << ", expected " << f.id);
        auto desc = got->metadata()->Get("paimon.description");
        REQUIRE(desc.ok() == f.desc.has_value() && (!f.desc || desc.ValueUnsafe() == *f.desc), "read-description", where);
    }
    const auto& type = got->type();
    switch (f.t.k) {
        case K::kList: {
            REQUIRE(type->id() == arrow::Type::LIST, "read-type", where << " is " << type->ToString());
            MatchArrow(c, static_cast<const arrow::ListType&>(*type).value_field(), f.t.kids[0], false, where + ".element");
            return;
        }
        case K::kMap: {
            REQUIRE(type->id() == arrow::Type::MAP, "read-type", where << " is " << type->ToString());
            const auto& m = static_cast<const arrow::MapType&>(*type);
            MatchArrow(c, m.key_field(), f.t.kids[0], false, where + ".key");
            MatchArrow(c, m.item_field(), f.t.kids[1], false, where + ".value");
            return;
        }
        case K::kStruct: {
            REQUIRE(type->id() == arrow::Type::STRUCT && type->num_fields() == static_cast<int>(f.t.kids.size()), "read-type", where << " is " << type->ToString());
            for (size_t i = 0; i < f.t.kids.size(); i++) MatchArrow(c, type->field(static_cast<int>(i)), f.t.kids[i], true, where + "." + f.t.kids[i].name);
            return;
        }
        case K::kTs: {
            REQUIRE(type->id() == arrow::Type::TIMESTAMP, "read-type", where << " is " << type->ToString());
            const auto& ts = static_cast<const arrow::TimestampType&>(*type);
            auto u = f.t.p == 0 ? arrow::TimeUnit::SECOND : f.t.p == 3 ? arrow::TimeUnit::MILLI : f.t.p == 6 ? arrow::TimeUnit::MICRO : arrow::TimeUnit::NANO;
            REQUIRE(ts.unit() == u && ts.timezone().empty() == (f.t.s == 0), "read-type", where << " is " << type->ToString());
            return;
        }
        default:
            REQUIRE(type->Equals(*ArrowOf(f.t)), "read-type", where << " is " << type->ToString() << ", expected " << Spell(f.t));
            if (f.t.k == K::kBlob) REQUIRE(BlobUtils::IsBlobField(got), "read-type", where << " is no blob");
    }
}

Names BucketKeys(const Def& d);
Names Trimmed(const Def& d);

void MatchSchema(pbt::Case& c, const Schema& s, const Def& d, int64_t id, int highest) {
    Names names;
    for (const Col& f : d.cols) names.push_back(f.name);
    REQUIRE(s.FieldNames() == names, "schema-names", "field names differ");
    REQUIRE(s.Id() == id, "schema-id", "id " << s.Id() << ", expected " << id);
    REQUIRE(s.PartitionKeys() == d.parts, "schema-parts", "partition keys differ");
    REQUIRE(s.PrimaryKeys() == d.keys, "schema-keys", "primary keys differ");
    REQUIRE(s.Options() == d.opts, "schema-options", "options differ");
    REQUIRE(s.HighestFieldId() == highest, "schema-highest", "highest field id " << s.HighestFieldId() << ", expected " << highest);
    REQUIRE(s.BucketKeys() == BucketKeys(d), "schema-bucket-keys", "bucket keys differ");
    int buckets = d.opts.count("bucket") ? std::stoi(d.opts.at("bucket")) : -1;
    REQUIRE(s.NumBuckets() == buckets, "schema-buckets", s.NumBuckets() << " buckets, expected " << buckets);
    REQUIRE(s.Comment() == d.comment, "schema-comment", "comment is " << s.Comment().value_or("(none)") << ", expected " << d.comment.value_or("(none)"));
    UNWRAP(std::unique_ptr<::ArrowSchema> cs, s.GetArrowSchema(), "schema-arrow");
    auto back = arrow::ImportSchema(cs.get());
    REQUIRE(back.ok(), "schema-arrow", back.status().ToString());
    auto schema = back.ValueUnsafe();
    REQUIRE(schema->num_fields() == static_cast<int>(d.cols.size()), "schema-arrow", "number of columns");
    for (size_t i = 0; i < d.cols.size(); i++) MatchArrow(c, schema->field(static_cast<int>(i)), d.cols[i], true, d.cols[i].name);
    c.Eval(1);
}

// ---- which tables may be created ----

Names SplitAt(const std::string& s, bool skip_empty) {
    Names out;
    std::string cur;
    for (char ch : s + ",") {
        if (ch != ',') { cur += ch; continue; }
        if (!skip_empty || !cur.empty()) out.push_back(cur);
        cur.clear();
    }
    return out;
}
bool Blank(const std::string& s) { return s.find_first_not_of(" \t\n\r\v\f") == std::string::npos; }
bool Has(const Names& v, const std::string& s) { return std::count(v.begin(), v.end(), s) > 0; }
bool All(const Names& of, const Names& in) {
    return std::all_of(of.begin(), of.end(), [&](const std::string& s) { return Has(in, s); });
}
bool Twice(const Names& v) { return std::set<std::string>(v.begin(), v.end()).size() != v.size(); }
Names Trimmed(const Def& d) {
    Names out;
    for (const auto& k : d.keys) if (!Has(d.parts, k)) out.push_back(k);
    return out;
}
Names GivenBucketKeys(const Def& d) {
    auto it = d.opts.find("bucket-key");
    if (it == d.opts.end() || Blank(it->second)) return {};
    return SplitAt(it->second, false);
}
Names BucketKeys(const Def& d) {
    Names given = GivenBucketKeys(d);
    return given.empty() ? Trimmed(d) : given;
}
bool IsOn(const Opts& o, const std::string& k) {
    auto it = o.find(k);
    return it != o.end() && it->second == "true";
}
std::string Str(const Opts& o, const std::string& k, const std::string& dflt) {
    auto it = o.find(k);
    return it == o.end() ? dflt : it->second;
}

std::string BadColumns(const std::vector<Col>& cols, bool names) {
    std::set<std::string> seen;
    for (const Col& f : cols) {
        if (names && !seen.insert(f.name).second) return "two fields of one name";
        if (names && Blank(f.name)) return "a field without a name";
        if (f.t.foreign) return "a type no table can have";
        if (Nested(f.t)) {
            std::string bad = BadColumns(f.t.kids, f.t.k == K::kStruct);
            if (!bad.empty()) return bad;
        }
    }
    return "";
}
std::string BadClaim(const std::vector<Col>& cols, bool own) {
    for (const Col& f : cols) {
        if (own && f.claimed && *f.claimed != std::to_string(f.id)) return "a field id other than the one it gets";
        std::string bad = BadClaim(f.t.kids, f.t.k == K::kStruct);
        if (!bad.empty()) return bad;
    }
    return "";
}

// Why a table may not be created; empty if it may be.
std::string Refused(const Def& d) {
    Names names;
    for (const Col& f : d.cols) names.push_back(f.name);
    auto col = [&](const std::string& n) -> const Col& {
        for (const Col& f : d.cols) if (f.name == n) return f;
        static Col none;
        return none;
    };
    std::string bad = BadColumns(d.cols, true);
    if (!bad.empty()) return bad;
    bad = BadClaim(d.cols, true);
    if (!bad.empty()) return bad;
    if (!d.keys.empty() && Trimmed(d).empty()) return "the primary key is the partition";
    Names given = GivenBucketKeys(d), bk = BucketKeys(d);
    if (!All(given, names)) return "a bucket key that is no column";
    for (const auto& g : given) if (Has(d.parts, g)) return "a bucket key among the partition keys";
    if (!d.keys.empty() && !All(given, d.keys)) return "a bucket key outside the primary key";
    if (Twice(bk)) return "a bucket key twice";
    if (Twice(d.keys)) return "a primary key column twice";
    if (Twice(d.parts)) return "a partition key twice";
    if (!All(d.parts, names) || !All(d.keys, names)) return "a key that is no column";
    for (const auto& n : d.keys) if (Nested(col(n).t)) return "a nested primary key";
    for (const auto& n : d.parts) {
        const Ty& t = col(n).t;
        if (Nested(t) || t.k == K::kTs || t.k == K::kDec || t.k == K::kBlob) return "a partition key of such a type";
    }
    int bucket = std::stoi(Str(d.opts, "bucket", "-1"));
    bool cross = !d.keys.empty() && !d.parts.empty() && !All(d.parts, d.keys);
    if (bucket == -1) {
        if (d.opts.count("bucket-key")) return "a bucket key without buckets";
        if (d.keys.empty() && d.opts.count("full-compaction.delta-commits")) return "full compactions without buckets";
    } else {
        if (bucket < 1 && !(bucket == -2 && !d.keys.empty())) return "no such number of buckets";
        if (cross) return "buckets for keys that move between partitions";
        if (d.keys.empty() && bk.empty()) return "buckets without a bucket key";
        for (const auto& n : bk) if (Nested(col(n).t)) return "a nested bucket key";
    }
    for (const auto& [k, v] : d.opts) {
        if (k.rfind("fields.", 0) != 0 || k == "fields.default-aggregate-function") continue;
        std::string middle = k.substr(7, k.find('.', 7) - 7);
        if (!All(SplitAt(middle, true), names)) return "an option for a field that is not there";
    }
    std::string engine = Str(d.opts, "merge-engine", "deduplicate");
    std::string changelog = Str(d.opts, "changelog-producer", "none");
    auto aggregated = [&](const std::string& n) { return !Str(d.opts, "fields." + n + ".aggregate-function", "").empty(); };
    Names seq = SplitAt(Str(d.opts, "sequence.field", ""), true);
    if (!seq.empty()) {
        if (!All(seq, names)) return "a sequence field that is no column";
        for (const auto& n : seq) if (aggregated(n)) return "an aggregated sequence field";
        if (Twice(seq)) return "a sequence field twice";
        if (engine == "first-row") return "a sequence field for the first row";
        if (cross) return "a sequence field for keys that move between partitions";
    }
    std::set<std::string> grouped, heads;
    for (const auto& [k, v] : d.opts) {
        const std::string tail = ".sequence-group";
        if (k.rfind("fields.", 0) != 0 || k.size() < 7 + tail.size() || k.substr(k.size() - tail.size()) != tail) continue;
        Names head = SplitAt(k.substr(7, k.size() - 7 - tail.size()), true);
        Names members = SplitAt(v, true);
        for (const auto& m : members) {
            if (!Has(names, m)) return "a group of fields that are not there";
            if (!grouped.insert(m).second) return "a field in two groups";
        }
        if (!members.empty()) heads.insert(head.begin(), head.end());
    }
    for (const auto& h : heads) if (aggregated(h)) return "an aggregated group sequence";
    if (d.keys.empty() && changelog != "none") return "a changelog without keys";
    int lo = std::stoi(Str(d.opts, "snapshot.num-retained.min", "10"));
    int hi = std::stoi(Str(d.opts, "snapshot.num-retained.max", "2147483647"));
    if (lo < 1 || lo > hi) return "no such number of snapshots";
    for (const auto& n : names) {
        if (n == "_SEQUENCE_NUMBER" || n == "_VALUE_KIND" || n == "_ROW_ID" || n == "_INDEX_SCORE" || n.rfind("_KEY_", 0) == 0) return "a reserved name";
    }
    if (engine == "first-row" && changelog != "none" && changelog != "lookup") return "that changelog for the first row";
    bool dv = IsOn(d.opts, "deletion-vectors.enabled");
    if (dv && changelog == "full-compaction") return "deletion vectors with full compactions";
    if (dv && engine == "first-row") return "deletion vectors for the first row";
    bool tracked = IsOn(d.opts, "row-tracking.enabled"), evolves = IsOn(d.opts, "data-evolution.enabled");
    if (tracked && (bucket != -1 || !d.keys.empty())) return "row tracking with buckets or keys";
    if (evolves && (!tracked || dv)) return "data evolution without tracked rows or with deletion vectors";
    int blobs = 0;
    for (const Col& f : d.cols) blobs += f.t.k == K::kBlob;
    if (blobs > 0 && (!evolves || blobs > 1 || d.cols.size() < 2)) return "blobs in such a table";
    return "";
}

std::string Option(pbt::Case& c, const Names& names) {
    Names v = names;
    v.push_back("nosuch");
    return v[c.Draw(c.Chance(1, 6) ? v.size() - 1 : names.size() - 1)];
}

// A definition that usually is allowed, or nearly is.
Def GenDef(pbt::Case& c, bool wild) {
    Def d;
    d.cols = GenCols(c, 1);
    int mode = c.Weighted({4, 5, 2});  // without keys, with keys, with rows that have an id
    std::vector<size_t> atoms;
    for (size_t i = 0; i < d.cols.size(); i++) {
        const Ty& t = d.cols[i].t;
        if (Nested(t)) continue;
        atoms.push_back(i);
    }
    auto plain = [&](size_t i) { return d.cols[i].t.k != K::kTs && d.cols[i].t.k != K::kDec; };
    auto name = [&](size_t i) { return d.cols[i].name; };
    for (size_t i : atoms) {
        if (plain(i) && atoms.size() > d.parts.size() + 1 && c.Chance(1, 4)) d.parts.push_back(name(i));
    }
    int bucket = -1;
    if (mode == 1) {
        bool all_parts = !c.Chance(1, 5);
        for (size_t i : atoms) {
            bool part = Has(d.parts, name(i));
            if ((part && all_parts) || (!part && c.Chance(1, 2))) d.keys.push_back(name(i));
        }
        if (c.Chance(1, 3)) std::reverse(d.keys.begin(), d.keys.end());
        bucket = c.PickOf<int>({-1, 1, 1, 4, -2});
    } else if (mode == 0) {
        bucket = c.PickOf<int>({-1, -1, 2});
    } else {
        d.opts["row-tracking.enabled"] = "true";
        if (c.Bool()) d.opts["data-evolution.enabled"] = "true";
        if (IsOn(d.opts, "data-evolution.enabled") && c.Bool()) {
            Col b;
            b.name = "pic";
            b.t.k = K::kBlob;
            b.nullable = c.Bool();
            d.cols.push_back(b);
        }
    }
    if (bucket != -1 || c.Chance(1, 3)) d.opts["bucket"] = std::to_string(bucket);
    if (bucket > 0 && (mode == 0 || c.Chance(1, 3))) {
        Names from = mode == 0 ? Names() : Trimmed(d);
        if (mode == 0) for (size_t i : atoms) if (!Has(d.parts, name(i))) from.push_back(name(i));
        std::string list;
        for (const auto& n : from) if (list.empty() || c.Bool()) list += (list.empty() ? "" : ",") + n;
        if (!list.empty()) d.opts["bucket-key"] = list;
    }
    if (c.Chance(1, 4)) d.opts["any.option"] = c.PickOf<std::string>({"", "v", "two words", "\"quoted\"\n"});
    if (!wild) return d;

    int tweaks = static_cast<int>(c.Int(0, 3));
    Names names;
    for (const Col& f : d.cols) names.push_back(f.name);
    for (int i = 0; i < tweaks; i++) {
        switch (c.Draw(23)) {
            case 0: d.opts["merge-engine"] = c.PickOf<std::string>({"deduplicate", "partial-update", "aggregation", "first-row"}); break;
            case 1: d.opts["changelog-producer"] = c.PickOf<std::string>({"none", "input", "full-compaction", "lookup"}); break;
            case 2: d.opts["deletion-vectors.enabled"] = c.Bool() ? "true" : "false"; break;
            case 3: d.opts["sequence.field"] = Option(c, names) + (c.Chance(1, 3) ? "," + Option(c, names) : ""); break;
            case 4: d.opts["fields." + Option(c, names) + ".aggregate-function"] = c.PickOf<std::string>({"sum", "max", ""}); break;
            case 5: d.opts["fields." + Option(c, names) + (c.Chance(1, 3) ? "," + Option(c, names) : "") + ".sequence-group"] = Option(c, names) + (c.Bool() ? "," + Option(c, names) : ""); break;
            case 6: d.opts["snapshot.num-retained.min"] = std::to_string(c.Int(0, 3)); break;
            case 7: d.opts["snapshot.num-retained.max"] = std::to_string(c.Int(0, 12)); break;
            case 8: d.keys.push_back(Option(c, names)); break;
            case 9: d.parts.push_back(Option(c, names)); break;
            case 10: d.opts["bucket-key"] = Option(c, names) + (c.Chance(1, 3) ? "," + Option(c, names) : ""); break;
            case 11: d.opts["bucket"] = std::to_string(c.Int(-3, 2)); break;
            case 12: d.opts["row-tracking.enabled"] = c.Bool() ? "true" : "false"; break;
            case 13: d.opts["data-evolution.enabled"] = c.Bool() ? "true" : "false"; break;
            case 14: d.cols[c.Draw(d.cols.size() - 1)].name = c.PickOf<std::string>({"_ROW_ID", "_KEY_a", "_SEQUENCE_NUMBER", "_VALUE_KIND", "_INDEX_SCORE", " ", "", "_KEYS", "row_id", "a", "b"}); break;
            case 15: {
                Col b;
                b.name = "pic2";
                b.t.k = K::kBlob;
                if (c.Bool()) b.t.foreign = true, b.t.k = K::kBin;
                d.cols.push_back(b);
                break;
            }
            case 16: {
                std::vector<Col*> all;
                std::vector<std::vector<Col>*> todo = {&d.cols};
                while (!todo.empty()) {
                    auto* v = todo.back();
                    todo.pop_back();
                    for (Col& f : *v) { all.push_back(&f); if (Nested(f.t)) todo.push_back(&f.t.kids); }
                }
                Col* f = all[c.Draw(all.size() - 1)];
                f->claimed = std::to_string(c.Int(0, 8));
                break;
            }
            case 17: {
                for (Col& f : d.cols) if (f.t.k == K::kStruct && f.t.kids.size() > 1) { f.t.kids[1].name = c.PickOf<std::string>({f.t.kids[0].name, " ", "_ROW_ID", "fine"}); break; }
                break;
            }
            case 18: d.opts["bucket-key"] = c.PickOf<std::string>({"", " ", ","}); break;
            case 19: d.opts["full-compaction.delta-commits"] = "5"; break;
            case 20: if (!d.keys.empty()) d.keys.erase(d.keys.begin() + c.Draw(d.keys.size() - 1)); break;
            case 21: if (!d.cols.empty()) std::swap(d.cols[0], d.cols[c.Draw(d.cols.size() - 1)]); break;
            case 22: d.opts["fields.default-aggregate-function"] = "sum"; break;
            case 23: d.opts["fields." + Option(c, names) + ".ignore-retract"] = c.Bool() ? "true" : "false"; break;
        }
    }
    return d;
}

std::shared_ptr<arrow::Schema> SchemaOf(const Def& d) {
    arrow::FieldVector f;
    for (const Col& col : d.cols) f.push_back(FieldOf(col));
    return arrow::schema(f);
}

Opts Basic(Opts o = {}) {
    o["file-system"] = "mem";
    o["file.format"] = "orc";
    o["manifest.format"] = "orc";
    return o;
}

Status CreateIn(Catalog& cat, const std::string& db, const std::string& table, const Def& d, bool ignore) {
    ::ArrowSchema cs;
    auto st = arrow::ExportSchema(*SchemaOf(d), &cs);
    if (!st.ok()) return Status::Invalid(st.ToString());
    Status out = cat.CreateTable(Identifier(db, table), &cs, d.parts, d.keys, d.opts, ignore);
    if (cs.release) cs.release(&cs);
    return out;
}

// What a created table's schema is: ids in order, keys that are never null.
int Settle(pbt::Case& c, Def* d) {
    int next = 0;
    Number(d->cols, &next, One, c);
    for (Col& f : d->cols) if (Has(d->keys, f.name)) f.nullable = false;
    return next - 1;
}

void CheckStored(pbt::Case& c, const std::string& text, const Def& d, int highest) {
    rapidjson::Document doc;
    doc.Parse(text.c_str());
    REQUIRE(!doc.HasParseError() && doc.IsObject(), "stored-json", "the stored schema is no JSON object");
    for (const char* k : {"version", "id", "fields", "highestFieldId", "partitionKeys", "primaryKeys", "options", "timeMillis"})
        REQUIRE(doc.HasMember(k), "stored-json", "no " << k);
    REQUIRE(doc["version"].GetInt() == 3 && doc["id"].GetInt64() == 0, "stored-head", "version or id");
    REQUIRE(doc["timeMillis"].IsInt64() && doc["timeMillis"].GetInt64() > 0, "stored-head", "time");
    REQUIRE(doc["highestFieldId"].GetInt() == highest, "stored-highest", doc["highestFieldId"].GetInt() << ", expected " << highest);
    MatchFields(c, doc["fields"], d.cols, "table");
    MatchNames(c, doc["partitionKeys"], d.parts, "partition keys");
    MatchNames(c, doc["primaryKeys"], d.keys, "primary keys");
    Opts got;
    for (auto it = doc["options"].MemberBegin(); it != doc["options"].MemberEnd(); ++it) got[it->name.GetString()] = it->value.GetString();
    REQUIRE(got == d.opts, "stored-options", "options differ");
}

FACET(created, 10) {
    memfs::Store::Get().Reset();
    UNWRAP(auto cat, Catalog::Create("/w", Basic()), "catalog");
    REQUIRE_OK(cat->CreateDatabase("db", {}, false), "create-db");
    Def d = GenDef(c, true);
    for (auto& [k, v] : Basic()) d.opts[k] = v;
    int next = 0;
    Number(d.cols, &next, One, c);
    std::string why = Refused(d);
    c.Log() << Spell(d) << "\nexpected: " << (why.empty() ? "created" : why) << "\n";
    Status st = CreateIn(*cat, "db", "t", d, false);
    auto loaded = cat->LoadTableSchema(Identifier("db", "t"));
    UNWRAP(auto tables, cat->ListTables("db"), "list");
    if (!why.empty()) {
        REQUIRE(!st.ok(), "created-wrong", "a table was created that has " << why);
        REQUIRE(!loaded.ok() && loaded.status().IsNotExist(), "refused-exists", "a refused table can be loaded");
        REQUIRE(tables.empty(), "refused-exists", "a refused table is listed");
        REQUIRE(memfs::Store::Get().Files("/w").empty(), "refused-exists", "a refused table left files behind");
        c.Label("refused: " + why);
        c.NonTrivial();
        return;
    }
    REQUIRE(st.ok(), "refused-wrong", "a proper table was refused: " << st.ToString());
    int highest = Settle(c, &d);
    auto files = memfs::Store::Get().Files("/w");
    REQUIRE(files.size() == 1 && *files.begin() == "/w/db.db/t/schema/schema-0", "created-files", files.size() << " files");
    CheckStored(c, memfs::Store::Get().Content("/w/db.db/t/schema/schema-0"), d, highest);
    REQUIRE(tables == Names{"t"}, "created-list", "the table is not listed");
    REQUIRE_OK(loaded.status(), "created-load");
    MatchSchema(c, *loaded.value(), d, 0, highest);
    REQUIRE(!CreateIn(*cat, "db", "t", d, false).ok(), "created-twice", "the same table twice");
    c.Label("created");
    c.NonTrivial(d.cols.size() > 1);
}

// ---- schemas stored by other writers ----

std::string Quote(pbt::Case& c, const std::string& s) {
    std::string out = "\"";
    for (char ch : s) {
        if (ch == '"' || ch == '\\') { out += '\\'; out += ch; }
        else if (ch == '\n') out += "\\n";
        else if (ch > 32 && ch < 127 && c.Chance(1, 24)) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", ch); out += b; }
        else out += ch;
    }
    return out + "\"";
}
std::string Gap(pbt::Case& c) { return c.PickOf<std::string>({"", "", " ", "\n", "  \t"}); }

std::string Space(pbt::Case& c) { return c.PickOf<std::string>({" ", " ", "  ", "\t"}); }
std::string Loose(pbt::Case& c) { return c.PickOf<std::string>({"", "", "", " "}); }

// a type's text in one of the ways it may be written
std::string TypeText(pbt::Case& c, const Ty& t, bool nullable) {
    bool plain = c.Chance(1, 3);
    std::string s;
    if (plain) s = Atom(t);
    else switch (t.k) {
        case K::kI32: s = c.Bool() ? "INT" : "INTEGER"; break;
        case K::kF64: s = c.Bool() ? "DOUBLE" : "DOUBLE" + Space(c) + "PRECISION"; break;
        case K::kDec: {
            s = c.PickOf<std::string>({"DECIMAL", "NUMERIC", "DEC"});
            if (!(t.p == 10 && t.s == 0 && c.Bool())) {
                s += Loose(c) + "(" + Loose(c) + std::to_string(t.p) + Loose(c);
                if (t.s != 0 || c.Bool()) s += "," + Loose(c) + std::to_string(t.s) + Loose(c);
                s += ")";
            }
            break;
        }
        case K::kTs: {
            std::string digits = t.p == 6 && c.Bool() ? "" : Loose(c) + "(" + Loose(c) + std::to_string(t.p) + Loose(c) + ")";
            if (t.s) s = c.Bool() ? "TIMESTAMP_LTZ" + digits : "TIMESTAMP" + digits + Space(c) + "WITH" + Space(c) + "LOCAL" + Space(c) + "TIME" + Space(c) + "ZONE";
            else s = "TIMESTAMP" + digits + (c.Bool() ? "" : Space(c) + "WITHOUT" + Space(c) + "TIME" + Space(c) + "ZONE");
            break;
        }
        default: s = Atom(t);
    }
    if (!nullable) s += Space(c) + "NOT" + Space(c) + "NULL";
    else if (!plain && c.Chance(1, 4)) s += Space(c) + "NULL";
    if (!plain && c.Chance(1, 3)) for (char& ch : s) if (c.Bool()) ch = static_cast<char>(tolower(ch));
    if (!plain) s = Loose(c) + s + Loose(c);
    return s;
}

std::string FieldsJson(pbt::Case& c, const std::vector<Col>& cols);
std::string TypeJson(pbt::Case& c, const Col& f) {
    if (!Nested(f.t)) {
        std::string out = "\"";
        for (char ch : TypeText(c, f.t, f.nullable)) { if (ch == '\t') out += "\\t"; else out += ch; }
        return out + "\"";
    }
    std::vector<std::string> parts = {"\"type\":" + Gap(c) + "\"" + Atom(f.t) + (f.nullable ? "" : " NOT NULL") + "\""};
    if (f.t.k == K::kList) parts.push_back("\"element\":" + TypeJson(c, f.t.kids[0]));
    if (f.t.k == K::kMap) {
        Col k = f.t.kids[0];
        if (c.Chance(1, 4)) k.nullable = true;  // read as never null all the same
        parts.push_back("\"key\":" + TypeJson(c, k));
        parts.push_back("\"value\":" + TypeJson(c, f.t.kids[1]));
    }
    if (f.t.k == K::kStruct) parts.push_back("\"fields\":" + FieldsJson(c, f.t.kids));
    if (c.Chance(1, 4)) std::reverse(parts.begin(), parts.end());
    std::string out = "{";
    for (size_t i = 0; i < parts.size(); i++) out += (i ? "," : "") + Gap(c) + parts[i];
    return out + Gap(c) + "}";
}
std::string FieldsJson(pbt::Case& c, const std::vector<Col>& cols) {
    std::string out = "[";
    for (size_t i = 0; i < cols.size(); i++) {
        std::vector<std::string> parts = {"\"id\":" + Gap(c) + std::to_string(cols[i].id), "\"name\":" + Quote(c, cols[i].name), "\"type\":" + Gap(c) + TypeJson(c, cols[i])};
        if (cols[i].desc) parts.push_back("\"description\":" + Quote(c, *cols[i].desc));
        else if (c.Chance(1, 8)) parts.push_back("\"description\":null");
        if (c.Chance(1, 4)) std::rotate(parts.begin(), parts.begin() + c.Draw(parts.size() - 1), parts.end());
        if (c.Chance(1, 12)) parts.push_back("\"defaultValue\":\"x\"");
        out += i ? "," : "";
        out += Gap(c) + "{";
        for (size_t j = 0; j < parts.size(); j++) out += (j ? "," : "") + Gap(c) + parts[j];
        out += "}";
    }
    return out + Gap(c) + "]";
}
std::string NamesJson(pbt::Case& c, const Names& v) {
    std::string out = "[";
    for (size_t i = 0; i < v.size(); i++) out += (i ? "," : "") + Gap(c) + Quote(c, v[i]);
    return out + "]";
}

std::string WriteJson(pbt::Case& c, const Def& d, int64_t id, int highest, int version, bool with_time) {
    std::vector<std::string> parts;
    if (version > 1 || c.Bool()) parts.push_back("\"version\":" + Gap(c) + std::to_string(version));
    parts.push_back("\"id\":" + std::to_string(id));
    parts.push_back("\"fields\":" + FieldsJson(c, d.cols));
    parts.push_back("\"highestFieldId\":" + std::to_string(highest));
    parts.push_back("\"partitionKeys\":" + NamesJson(c, d.parts));
    parts.push_back("\"primaryKeys\":" + NamesJson(c, d.keys));
    std::string o;
    for (auto& [k, v] : d.opts) o += (o.empty() ? "" : ",") + Gap(c) + Quote(c, k) + ":" + Quote(c, v);
    parts.push_back("\"options\":{" + o + "}");
    if (d.comment) parts.push_back("\"comment\":" + Quote(c, *d.comment));
    else if (c.Chance(1, 6)) parts.push_back("\"comment\":null");
    if (with_time) parts.push_back("\"timeMillis\":1700000000123");
    if (c.Chance(1, 3)) std::rotate(parts.begin(), parts.begin() + c.Draw(parts.size() - 1), parts.end());
    std::string out = "{";
    for (size_t i = 0; i < parts.size(); i++) out += (i ? "," : "") + Gap(c) + parts[i];
    return out + Gap(c) + "}";
}

FACET(read, 10) {
    auto& store = memfs::Store::Get();
    store.Reset();
    UNWRAP(auto cat, Catalog::Create("/w", Basic()), "catalog");
    REQUIRE_OK(cat->CreateDatabase("db", {}, false), "create-db");
    // several versions of one table, of which the newest counts
    int n = static_cast<int>(c.Int(1, 3));
    int64_t id = c.Chance(1, 3) ? c.Int(7, 12) : c.Int(0, 1);
    Def last;
    int highest = 0;
    std::vector<int64_t> ids;
    for (int i = 0; i < n; i++) {
        Def d = GenDef(c, false);
        int next = static_cast<int>(c.Int(0, 3));
        Number(d.cols, &next, Some, c);
        for (Col& f : d.cols) if (Has(d.keys, f.name)) f.nullable = false;
        highest = next + static_cast<int>(c.Int(0, 4));
        if (!Refused(d).empty()) throw pbt::Discard{};
        if (c.Chance(1, 3)) d.comment = c.PickOf<std::string>({"a table", "with \"quotes\"\n", ""});
        int version = static_cast<int>(c.Int(1, 3));
        std::string text = WriteJson(c, d, id, highest, version, c.Bool());
        c.Log() << "schema-" << id << ": " << text << "\n";
        store.Put("/w/db.db/t/schema/schema-" + std::to_string(id), text);
        if (version <= 1 && !d.opts.count("bucket")) d.opts["bucket"] = "1";
        if (version <= 2 && !d.opts.count("file.format")) d.opts["file.format"] = "orc";
        last = d;
        ids.push_back(id);
        if (i + 1 < n) id += c.Chance(1, 4) ? c.Int(1, 4) : 1;
    }
    if (c.Chance(1, 4)) store.Put("/w/db.db/t/schema/.hidden", "not a schema");
    UNWRAP(auto loaded, cat->LoadTableSchema(Identifier("db", "t")), "read-load");
    MatchSchema(c, *loaded, last, id, highest);
    // written again it says the same
    SchemaManager manager(std::shared_ptr<FileSystem>(memfs::New("c").release()), "/w/db.db/t");
    UNWRAP(auto listed, manager.ListAllIds(), "read-list");
    std::sort(listed.begin(), listed.end());
    REQUIRE(listed == ids, "read-ids", "other schemas are listed");
    UNWRAP(auto one, manager.ReadSchema(id), "read-one");
    UNWRAP(std::string again, one->ToJsonString(), "read-write");
    UNWRAP(auto two, TableSchema::CreateFromJson(again), "read-again");
    REQUIRE(*two == *one && two->Id() == id && two->HighestFieldId() == highest && two->BucketKeys() == one->BucketKeys(), "read-again", "a schema written again differs");
    REQUIRE(two->Comment() == last.comment, "read-again", "the comment got lost");
    for (const Col& f : last.cols) {
        UNWRAP(auto by_name, one->GetField(f.name), "get-field");
        UNWRAP(auto by_id, one->GetField(f.id), "get-field");
        REQUIRE(by_name.Id() == f.id && by_id.Name() == f.name && by_name.Nullable() == f.nullable, "get-field", f.name);
    }
    REQUIRE(!one->GetField("nosuch").ok() && !one->GetField(highest + 1).ok(), "get-field", "a field that is not there");
    UNWRAP(auto trimmed, one->TrimmedPrimaryKeys(), "trimmed");
    REQUIRE(trimmed == Trimmed(last), "trimmed", "key columns outside the partition");
    c.Label(n > 1 ? "several versions" : "one version");
    c.NonTrivial();
}

// ---- texts and bytes that are no schema ----

FACET(types, 4) {
    static const std::vector<std::string> words = {"INT", "INTEGER", "NOT", "NULL", "DECIMAL", "DEC", "NUMERIC", "TIMESTAMP", "TIMESTAMP_LTZ", "WITH", "WITHOUT", "LOCAL", "TIME", "ZONE",
                                                   "DOUBLE", "PRECISION", "STRING", "BYTES", "BOOLEAN", "ARRAY", "(", ")", ",", "1", "3", "5", "39", "99999999999", "0", "<", ">", "'it''s'", "`x`", "'open", "CHAR", "."};
    int n = static_cast<int>(c.Int(0, 6));
    std::vector<std::string> toks;
    bool good = false;
    if (c.Chance(1, 2)) {
        for (int i = 0; i < n; i++) toks.push_back(words[c.Draw(words.size() - 1)]);
    } else {
        // a proper type, perhaps with one word more or less
        toks = c.PickOf<std::vector<std::string>>({{"DECIMAL", "(", "9", ",", "2", ")", "NOT", "NULL"}, {"TIMESTAMP", "(", "3", ")", "WITH", "LOCAL", "TIME", "ZONE", "NOT", "NULL"},
                                                   {"TIMESTAMP_LTZ", "(", "9", ")"}, {"DOUBLE", "PRECISION", "NOT", "NULL"}, {"TIMESTAMP", "WITHOUT", "TIME", "ZONE"}, {"DEC", "(", "38", ")"}});
        int how = c.Weighted({1, 1, 1});
        if (how == 1) toks.erase(toks.begin() + c.Draw(toks.size() - 1));
        if (how == 2) toks.insert(toks.begin() + c.Draw(toks.size()), words[c.Draw(words.size() - 1)]);
    }
    std::string text;
    for (const auto& t : toks) text += t + " ";
    // the grammar, once more
    size_t at = 0;
    auto next = [&](const std::string& w) { if (at < toks.size() && toks[at] == w) { at++; return true; } return false; };
    auto number = [&](long long* v) {
        if (at >= toks.size() || toks[at].find_first_not_of("0123456789") != std::string::npos) return false;
        *v = std::stoll(toks[at++]);
        return true;
    };
    Col f;
    f.name = "f";
    auto precision = [&](long long* v) {
        if (!next("(")) return true;
        return number(v) && next(")");
    };
    auto zone = [&] { return next("TIME") && next("ZONE"); };
    good = [&] {
        if (next("INT") || next("INTEGER")) f.t.k = K::kI32;
        else if (next("STRING")) f.t.k = K::kStr;
        else if (next("BYTES")) f.t.k = K::kBin;
        else if (next("BOOLEAN")) f.t.k = K::kBool;
        else if (next("DOUBLE")) { f.t.k = K::kF64; next("PRECISION"); }
        else if (next("DECIMAL") || next("DEC") || next("NUMERIC")) {
            long long p = 10, s = 0;
            if (next("(")) {
                if (!number(&p)) return false;
                if (next(",") && !number(&s)) return false;
                if (!next(")")) return false;
            }
            if (p < 1 || p > 38 || s > p) return false;
            f.t.k = K::kDec; f.t.p = static_cast<int>(p); f.t.s = static_cast<int>(s);
        } else if (next("TIMESTAMP") || next("TIMESTAMP_LTZ")) {
            bool ltz = toks[at - 1] == "TIMESTAMP_LTZ";
            long long p = 6;
            if (!precision(&p)) return false;
            f.t.k = K::kTs; f.t.s = ltz;
            if (!ltz) {
                if (next("WITHOUT")) { if (!zone()) return false; }
                else if (next("WITH")) { if (next("LOCAL")) { if (!zone()) return false; f.t.s = 1; } else return false; }
            }
            if (p != 0 && p != 3 && p != 6 && p != 9) return false;
            f.t.p = static_cast<int>(p);
        } else return false;
        if (next("NOT")) { if (!next("NULL")) return false; f.nullable = false; }
        else next("NULL");
        return at == toks.size();
    }();
    std::string escaped;
    for (char ch : text) escaped += ch;
    std::string json = "{\"version\":3,\"id\":0,\"fields\":[{\"id\":4,\"name\":\"f\",\"type\":\"" + escaped + "\"}],\"highestFieldId\":4,\"partitionKeys\":[],\"primaryKeys\":[],\"options\":{}}";
    c.Log() << text << (good ? " (good)" : " (bad)") << "\n";
    auto got = TableSchema::CreateFromJson(json);
    f.id = 4;
    if (good) {
        REQUIRE(got.ok(), "type-refused", text << ": " << got.status().ToString());
        MatchArrow(c, DataField::ConvertDataFieldToArrowField(got.value()->Fields()[0]), f, true, "f");
    } else {
        // "TIMESTAMP WITH" without a zone is taken for a plain timestamp
        bool lenient = std::find(toks.begin(), toks.end(), "WITH") != toks.end();
        REQUIRE(!got.ok() || lenient, "type-taken", text << " is taken for " << got.value()->Fields()[0].Type()->ToString());
    }
    c.Label(good ? "good" : "bad");
    c.NonTrivial(!toks.empty());
}

FACET(damaged, 6) {
    Def d = GenDef(c, false);
    int next = 0;
    Number(d.cols, &next, One, c);
    std::string text = WriteJson(c, d, 3, next, static_cast<int>(c.Int(1, 3)), true);
    int hits = static_cast<int>(c.Int(1, 3));
    static const std::vector<std::string> bits = {"null", "1", "-1", "1.5", "true", "\"x\"", "[]", "{}", "[1]", "{\"type\":1}", "99999999999", "\"INT\"", "[null]", "{\"type\":\"ARRAY\"}", "{\"type\":\"ROW\"}", "{\"type\":\"MAP\",\"key\":\"INT\"}", "{\"a\":1}", "\"DECIMAL(40, 2)\"", "\"DECIMAL(5, 9)\"", "\"\""};
    for (int i = 0; i < hits; i++) {
        if (c.Chance(2, 3)) {
            // a value replaced by one of another shape
            std::vector<std::pair<size_t, size_t>> spans;
            for (size_t p = 0; p < text.size(); p++) {
                if (text[p] != ':' && text[p] != '[' && text[p] != ',') continue;
                size_t b = p + 1, depth = 0;
                bool str = false;
                size_t e = b;
                for (; e < text.size(); e++) {
                    char ch = text[e];
                    if (str) { if (ch == '\\') e++; else if (ch == '"') str = false; continue; }
                    if (ch == '"') str = true;
                    else if (ch == '{' || ch == '[') depth++;
                    else if (ch == '}' || ch == ']') { if (depth == 0) break; depth--; }
                    else if (ch == ',' && depth == 0) break;
                }
                if (e > b && e <= text.size()) spans.push_back({b, e});
            }
            if (spans.empty()) continue;
            auto [b, e] = spans[c.Draw(spans.size() - 1)];
            text.replace(b, e - b, bits[c.Draw(bits.size() - 1)]);
        } else {
            size_t at = c.Draw(text.size() - 1);
            switch (c.Draw(2)) {
                case 0: text[at] = static_cast<char>(c.Draw(255)); break;
                case 1: text.erase(at, c.Int(1, 4)); break;
                case 2: text.insert(at, c.PickOf<std::string>({"\"", "{", "}", "[", "]", ",", ":", "0", "\\", "e9"})); break;
            }
        }
        if (text.empty()) text = " ";
    }
    c.Log() << text << "\n";
    auto got = TableSchema::CreateFromJson(text);
    if (got.ok()) {
        // what is taken can be stored and taken again
        auto again = got.value()->ToJsonString();
        REQUIRE_OK(again.status(), "damaged-write");
        auto two = TableSchema::CreateFromJson(again.value());
        REQUIRE_OK(two.status(), "damaged-again");
        c.Label("taken");
    } else {
        c.Label("refused");
    }
    c.NonTrivial();
}

}  // namespace

// ---- a catalog and what happens around it ----

namespace {

Def Small(pbt::Case& c, int mark) {
    Def d;
    Col a;
    a.name = "f" + std::to_string(mark);
    d.cols = {a};
    if (c.Bool()) { Col b; b.name = "k"; b.t.k = K::kStr; d.cols.push_back(b); d.keys = {"k"}; d.opts["bucket"] = "1"; }
    d.opts["mark"] = std::to_string(mark);
    d.opts = Basic(d.opts);
    return d;
}

struct Shelf {
    std::map<std::string, std::map<std::string, Def>> dbs;
};

void Look(pbt::Case& c, Catalog& cat, const Shelf& want) {
    UNWRAP(Names dbs, cat.ListDatabases(), "list-dbs");
    std::sort(dbs.begin(), dbs.end());
    Names expected;
    for (auto& [db, t] : want.dbs) expected.push_back(db);
    auto show = [](const Names& v) { std::string s; for (auto& n : v) s += n + ";"; return s; };
    REQUIRE(dbs == expected, "list-dbs", "listed " << show(dbs) << " expected " << show(expected));
    for (auto& [db, tables] : want.dbs) {
        auto listed = cat.ListTables(db);
        REQUIRE_OK(listed.status(), "list-tables");
        Names got = listed.value(), names;
        std::sort(got.begin(), got.end());
        for (auto& [t, d] : tables) names.push_back(t);
        REQUIRE(got == names, "list-tables", "in " << db << " listed " << show(got) << " expected " << show(names));
        for (auto& [t, d] : tables) {
            auto s = cat.LoadTableSchema(Identifier(db, t));
            REQUIRE_OK(s.status(), "load");
            Def settled = d;
            int highest = Settle(c, &settled);
            MatchSchema(c, *s.value(), settled, 0, highest);
        }
    }
}

}  // namespace

FACET(catalog, 6) {
    auto& store = memfs::Store::Get();
    store.Reset();
    UNWRAP(auto cat, Catalog::Create("/w", Basic()), "catalog");
    Opts second = Basic();
    second["mem.owner"] = "other";
    UNWRAP(auto other, Catalog::Create("/w", second), "catalog");
    Shelf shelf;
    REQUIRE_OK(cat->CreateDatabase("a", {}, false), "create-db");
    shelf.dbs["a"];
    int steps = static_cast<int>(c.Len(2, 14));
    int mark = 0;
    bool troubled = false;
    const Names db_names = {"a", "b", "a.db", "sys", "x y"};
    const Names table_names = {"t", "u", "t$snapshots", "schema", "v.w"};
    for (int i = 0; i < steps; i++) {
        std::string db = db_names[c.Draw(db_names.size() - 1)], table = table_names[c.Draw(table_names.size() - 1)];
        if (!shelf.dbs.empty() && c.Chance(2, 3)) { auto it = shelf.dbs.begin(); std::advance(it, c.Draw(shelf.dbs.size() - 1)); db = it->first; }
        bool ignore = c.Bool();
        int what = c.Weighted({4, 7, 3, 3, 2});
        if (what == 0) {
            Opts o;
            if (c.Chance(1, 5)) o["location"] = "/elsewhere";
            if (c.Chance(1, 5)) o["note"] = "x";
            Status st = cat->CreateDatabase(db, o, ignore);
            bool there = shelf.dbs.count(db) > 0;
            bool ok = db != "sys" && (there ? ignore : !o.count("location"));
            c.Log() << "database " << db << (ignore ? " unless there" : "") << (o.count("location") ? " elsewhere" : "") << ": " << st.ToString() << "\n";
            REQUIRE(st.ok() == ok, "create-db", db << ": " << st.ToString());
            if (ok) shelf.dbs[db];
        } else if (what == 1) {
            Def d = Small(c, ++mark);
            bool there = shelf.dbs.count(db) && shelf.dbs[db].count(table);
            bool ok = db != "sys" && table.find('$') == std::string::npos && shelf.dbs.count(db) && (!there || ignore);
            Status st = CreateIn(*cat, db, table, d, ignore);
            c.Log() << "table " << db << "." << table << (ignore ? " unless there" : "") << ": " << st.ToString() << "\n";
            REQUIRE(st.ok() == ok, "create-table", db << "." << table << ": " << st.ToString());
            if (ok && !there) shelf.dbs[db][table] = d;
        } else if (what == 2) {
            // what does not belong to the catalog
            switch (c.Draw(4)) {
                case 0: store.Put("/w/plain.db", "a file"); break;
                case 1: store.Put("/w/nodb/file", "x"); break;
                case 2: if (shelf.dbs.count(db)) store.Put("/w/" + db + ".db/junk/data", "x"); break;
                case 3: if (shelf.dbs.count(db)) store.Put("/w/" + db + ".db/loose", "x"); break;
                case 4: if (shelf.dbs.count(db)) store.Put("/w/" + db + ".db/half/schema/.schema-0.tmp", "x"); break;
            }
            c.Log() << "stray\n";
        } else if (what == 3 && !shelf.dbs.empty() && shelf.dbs.count(db)) {
            // creating a table while storage fails
            bool there = shelf.dbs[db].count(table) > 0;
            if (table.find('$') != std::string::npos || there) continue;
            Def d = Small(c, ++mark);
            int kind = c.Weighted({2, 1, 1, 1});  // anything, or only one kind of operation
            int64_t at = kind == 0 ? c.Int(0, 14) : c.Int(0, 1);
            int64_t until = c.Chance(1, 3) ? 1 << 30 : at + c.Int(1, 3);
            auto how = c.Bool() ? memfs::Verdict::kFail : memfs::Verdict::kFailAfter;
            int64_t seen = 0;
            bool endless = false;
            store.SetHook([&](const memfs::Event& e) {
                using memfs::Op;
                if (kind != 0 && e.op != (kind == 1 ? Op::kRename : kind == 2 ? Op::kWrite : Op::kCreate)) return memfs::Verdict::kGo;
                int64_t n = seen++;
                if (n > 4000) { endless = true; return memfs::Verdict::kGo; }
                return n >= at && n < until ? how : memfs::Verdict::kGo;
            });
            Status st = CreateIn(*cat, db, table, d, ignore);
            store.ClearHook();
            c.Log() << "table " << db << "." << table << " with operations " << at << " to " << until << (how == memfs::Verdict::kFail ? " failing" : " failing late") << ": " << st.ToString() << "\n";
            REQUIRE(!endless, "create-endless", "creating a table goes on for ever while storage fails");
            auto now = cat->LoadTableSchema(Identifier(db, table));
            REQUIRE(now.ok() || now.status().IsNotExist(), "create-torn", "a table that can neither be loaded nor is absent: " << now.status().ToString());
            if (st.ok()) REQUIRE_OK(now.status(), "create-lost");
            if (now.ok()) shelf.dbs[db][table] = d;
            troubled = troubled || seen > at;
        } else if (what == 4 && shelf.dbs.count(db) && !shelf.dbs[db].count(table) && table.find('$') == std::string::npos) {
            // another creator comes in between
            Def mine = Small(c, ++mark), theirs = Small(c, ++mark);
            int64_t at = c.Int(0, 12);
            int64_t seen = 0;
            bool done = false;
            Status second_st;
            store.SetHook([&](const memfs::Event& e) {
                if (e.owner == "other" || done) return memfs::Verdict::kGo;
                if (seen++ == at) { done = true; second_st = CreateIn(*other, db, table, theirs, false); }
                return memfs::Verdict::kGo;
            });
            Status st = CreateIn(*cat, db, table, mine, false);
            store.ClearHook();
            c.Log() << "table " << db << "." << table << " by two, the other at " << at << (done ? "" : " (never)") << ": " << st.ToString() << " / " << second_st.ToString() << "\n";
            if (!done) {
                REQUIRE_OK(st, "create-table");
                shelf.dbs[db][table] = mine;
            } else {
                REQUIRE(st.ok() != second_st.ok(), "create-race", "two creators of one table: " << st.ToString() << " and " << second_st.ToString());
                shelf.dbs[db][table] = st.ok() ? mine : theirs;
                troubled = true;
            }
        }
        if (c.Chance(1, 3)) Look(c, *cat, shelf);
        REQUIRE(!cat->LoadTableSchema(Identifier("sys", "t")).ok() && !cat->ListTables("sys").ok(), "system", "a system table");
        auto missing = cat->LoadTableSchema(Identifier("nosuch", "t"));
        REQUIRE(!missing.ok() && missing.status().IsNotExist(), "missing", missing.status().ToString());
    }
    Look(c, *cat, shelf);
    c.Label(troubled ? "troubled" : "plain");
    c.NonTrivial(!shelf.dbs.empty() && mark > 0);
}
