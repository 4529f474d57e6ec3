// C25: what is recorded of a table's files is kept, summed up and merged exactly.
#include <set>

#include "core_table.h"
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/utils/binary_row_partition_computer.h"
#include "paimon/common/utils/serialization_utils.h"
#include "paimon/core/catalog/commit_table_request.h"
#include "paimon/core/core_options.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/manifest/file_kind.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/core/manifest/manifest_entry.h"
#include "paimon/core/manifest/manifest_file.h"
#include "paimon/core/manifest/manifest_file_meta.h"
#include "paimon/core/manifest/manifest_list.h"
#include "paimon/core/manifest/partition_entry.h"
#include "paimon/core/operation/manifest_file_merger.h"
#include "paimon/core/partition/partition_statistics.h"
#include "paimon/core/snapshot.h"
#include "paimon/core/stats/simple_stats.h"
#include "paimon/core/utils/file_store_path_factory.h"
#include "paimon/core/utils/snapshot_manager.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;  // NOLINT
using pbt::Case;

namespace {
using OptS = std::optional<std::string>;
using OptN = std::optional<int64_t>;
std::shared_ptr<MemoryPool> P() {
    static std::shared_ptr<MemoryPool> pool = std::shared_ptr<MemoryPool>(GetMemoryPool());
    return pool;
}
std::string Say(const OptN& v) { return v ? std::to_string(*v) : "-"; }
std::string Say(const OptS& v) { return v ? "'" + *v + "'" : "-"; }

// ---- snapshots ----
struct SnapV {
    std::optional<int> version;
    int64_t id, schema, ident, time, total, delta;
    std::string base, deltas, user, kind;
    OptN base_size, delta_size, changes_size, changes, watermark, next_row;
    OptS changelog, index, stats;
    std::optional<std::map<int32_t, int64_t>> offsets;
    std::optional<std::map<std::string, std::string>> props;
};
const std::vector<std::string> kKinds = {"APPEND", "COMPACT", "OVERWRITE", "ANALYZE"};

std::string Name(Case& c) {
    static const std::vector<std::string> odd = {"\"", "\\", "\n", "\t", "/", "\xc3\xa9", "\xe4\xb8\xad", "\x01", "{}", ","};
    std::string s = c.Ascii(c.Len(0, 10));
    if (c.Chance(1, 4)) s += c.Pick(odd) + c.Ascii(c.Len(0, 3));
    return s;
}
OptN MaybeN(Case& c) { return c.Chance(1, 3) ? OptN() : OptN(c.I64()); }
OptS MaybeS(Case& c) { return c.Chance(1, 3) ? OptS() : OptS(Name(c)); }

SnapV GenSnap(Case& c) {
    SnapV s;
    if (c.Chance(5, 6)) s.version = static_cast<int>(c.Int(1, 4));
    s.id = c.I64();
    s.schema = c.I64();
    s.ident = c.I64();
    s.time = c.I64();
    s.total = c.I64();
    s.delta = c.I64();
    s.base = Name(c);
    s.deltas = Name(c);
    s.user = Name(c);
    s.kind = c.Pick(kKinds);
    s.base_size = MaybeN(c);
    s.delta_size = MaybeN(c);
    s.changes_size = MaybeN(c);
    s.changes = MaybeN(c);
    s.watermark = MaybeN(c);
    s.next_row = MaybeN(c);
    s.changelog = MaybeS(c);
    s.index = MaybeS(c);
    s.stats = MaybeS(c);
    if (c.Bool()) {
        s.offsets.emplace();
        for (int64_t i = 0, n = c.Len(0, 4); i < n; i++) (*s.offsets)[c.I32()] = c.I64();
    }
    if (c.Bool()) {
        s.props.emplace();
        for (int64_t i = 0, n = c.Len(0, 4); i < n; i++) (*s.props)[Name(c)] = Name(c);
    }
    return s;
}
std::string Quote(const std::string& s) {
    std::string o = "\"";
    for (char ch : s) {
        unsigned char u = static_cast<unsigned char>(ch);
        char b[8];
        if (ch == '"' || ch == '\\') {
            o += std::string("\\") + ch;
        } else if (u < 0x20) {
            snprintf(b, sizeof(b), "\\u%04x", u);
            o += b;
        } else {
            o += ch;
        }
    }
    return o + "\"";
}
// The fields of a stored snapshot, by their names in the file.
std::vector<std::pair<std::string, OptS>> Fields(const SnapV& s) {
    auto n = [](const OptN& v) { return v ? OptS(std::to_string(*v)) : OptS(); };
    auto q = [](const OptS& v) { return v ? OptS(Quote(*v)) : OptS(); };
    OptS offsets, props;
    if (s.offsets) {
        std::string t;
        for (const auto& [k, v] : *s.offsets) t += (t.empty() ? "" : ",") + Quote(std::to_string(k)) + ":" + std::to_string(v);
        offsets = "{" + t + "}";
    }
    if (s.props) {
        std::string t;
        for (const auto& [k, v] : *s.props) t += (t.empty() ? "" : ",") + Quote(k) + ":" + Quote(v);
        props = "{" + t + "}";
    }
    OptN version;
    if (s.version) version = *s.version;
    return {{"version", n(version)}, {"id", n(s.id)}, {"schemaId", n(s.schema)},
            {"baseManifestList", q(s.base)}, {"baseManifestListSize", n(s.base_size)},
            {"deltaManifestList", q(s.deltas)}, {"deltaManifestListSize", n(s.delta_size)},
            {"changelogManifestList", q(s.changelog)}, {"changelogManifestListSize", n(s.changes_size)},
            {"indexManifest", q(s.index)}, {"commitUser", q(s.user)}, {"commitIdentifier", n(s.ident)},
            {"commitKind", q(s.kind)}, {"timeMillis", n(s.time)}, {"logOffsets", offsets},
            {"totalRecordCount", n(s.total)}, {"deltaRecordCount", n(s.delta)},
            {"changelogRecordCount", n(s.changes)}, {"watermark", n(s.watermark)}, {"statistics", q(s.stats)},
            {"properties", props}, {"nextRowId", n(s.next_row)}};
}
std::string Json(const std::vector<std::pair<std::string, OptS>>& fields, bool say_null) {
    std::string o;
    for (const auto& [k, v] : fields) {
        if (!v && !say_null) continue;
        o += (o.empty() ? "" : ", ") + Quote(k) + " : " + (v ? *v : "null");
    }
    return "{" + o + "}";
}
Snapshot Make(const SnapV& s) {
    return Snapshot(s.version, s.id, s.schema, s.base, s.base_size, s.deltas, s.delta_size, s.changelog, s.changes_size,
                    s.index, s.user, s.ident, Snapshot::CommitKind::FromString(s.kind), s.time, s.offsets, s.total,
                    s.delta, s.changes, s.watermark, s.stats, s.props, s.next_row);
}
void Same(Case& c, const SnapV& s, const Snapshot& g, const std::string& tag, const std::string& text) {
#define SAME(what, got, want) REQUIRE((got) == (want), tag, "the " what " is not the one stored in " << text)
    SAME("version", g.Version(), s.version.value_or(1));
    SAME("number", g.Id(), s.id);
    SAME("schema", g.SchemaId(), s.schema);
    SAME("base list", g.BaseManifestList(), s.base);
    SAME("size of the base list", g.BaseManifestListSize(), s.base_size);
    SAME("delta list", g.DeltaManifestList(), s.deltas);
    SAME("size of the delta list", g.DeltaManifestListSize(), s.delta_size);
    SAME("changelog list", g.ChangelogManifestList(), s.changelog);
    SAME("size of the changelog list", g.ChangelogManifestListSize(), s.changes_size);
    SAME("index manifest", g.IndexManifest(), s.index);
    SAME("user", g.CommitUser(), s.user);
    SAME("identifier", g.CommitIdentifier(), s.ident);
    SAME("kind", Snapshot::CommitKind::ToString(g.GetCommitKind()), s.kind);
    SAME("time", g.TimeMillis(), s.time);
    SAME("offsets", g.LogOffsets(), s.offsets);
    SAME("total count", g.TotalRecordCount(), OptN(s.total));
    SAME("delta count", g.DeltaRecordCount(), OptN(s.delta));
    SAME("changelog count", g.ChangelogRecordCount(), s.changes);
    SAME("watermark", g.Watermark(), s.watermark);
    SAME("statistics", g.Statistics(), s.stats);
    SAME("properties", g.Properties(), s.props);
    SAME("next row", g.NextRowId(), s.next_row);
#undef SAME
}

FACET(snapshot, 8) {
    SnapV s = GenSnap(c);
    c.NonTrivial();
    auto fields = Fields(s);
    std::string ours = Json(fields, c.Bool());
    c.Log() << ours << "\n";
    c.Eval();
    UNWRAP(Snapshot read, Snapshot::FromJsonString(ours), "read-ours");
    Same(c, s, read, "field", ours);

    Snapshot made = Make(s);
    UNWRAP(std::string text, made.ToJsonString(), "written");
    UNWRAP(Snapshot back, Snapshot::FromJsonString(text), "read-back");
    SnapV t = s;
    if (!t.version) t.version = 1;
    Same(c, t, back, "round-trip", text);
    REQUIRE(Make(t) == back, "equal", "a snapshot read back is not equal to the one written: " << text);
    UNWRAP(std::string again, back.ToJsonString(), "written");
    REQUIRE(again == text, "stable", "written again as " << again << " instead of " << text);

    // one field told apart
    SnapV other = GenSnap(c);
    auto theirs = Fields(other);
    size_t at = c.Draw(fields.size() - 1);
    if (theirs[at].second != fields[at].second && at > 0) {
        auto mixed = fields;
        mixed[at].second = theirs[at].second;
        UNWRAP(Snapshot m, Snapshot::FromJsonString(Json(mixed, false)), "read-mixed");
        REQUIRE(!(m == read), "unequal", "snapshots that differ in " << fields[at].first << " are said to be equal");
    }
    // what cannot be done without
    static const std::set<std::string> needed = {"id", "schemaId", "baseManifestList", "deltaManifestList", "commitUser",
                                                 "commitIdentifier", "commitKind", "timeMillis"};
    auto less = fields;
    size_t gone = c.Draw(fields.size() - 1);
    std::string how;
    if (needed.count(less[gone].first)) {
        switch (c.Draw(2)) {
            case 0: less[gone].second.reset(); how = "missing"; break;
            case 1: less[gone].second = "[]"; how = "a list"; break;
            default:
                less[gone].second = less[gone].second->at(0) == '"' ? "7" : "\"seven\"";
                how = "of another type";
        }
        auto r = Snapshot::FromJsonString(Json(less, c.Bool()));
        REQUIRE(!r.ok(), "needed", "a snapshot is read with " << less[gone].first << " " << how);
    }
    auto odd = fields;
    for (auto& [k, v] : odd) {
        if (k == "commitKind") v = Quote(c.PickOf<std::string>({"", "append", "APPENDED", "UNKNOWN", "0"}));
    }
    auto r = Snapshot::FromJsonString(Json(odd, false));
    REQUIRE(!r.ok(), "kind", "a snapshot of no known kind is read");
    std::string cut = ours.substr(0, c.Draw(ours.size() - 1));
    auto h = Snapshot::FromJsonString(cut);
    REQUIRE(!h.ok(), "cut", "a snapshot is read of " << cut);

    // the request a catalog is sent
    std::vector<PartitionStatistics> stats;
    for (int64_t i = 0, n = c.Len(0, 3); i < n; i++) {
        std::map<std::string, std::string> spec;
        for (int64_t k = 0, m = c.Len(0, 2); k < m; k++) spec[Name(c)] = Name(c);
        int64_t a = c.I64(), b = c.I64(), d = c.I64(), e = c.I64();
        stats.emplace_back(spec, a, b, d, e);
        UNWRAP(std::string one, stats.back().ToJsonString(), "statistics");
        UNWRAP(auto g, PartitionStatistics::FromJsonString(one), "statistics");
        REQUIRE(g.Spec() == spec && g.RecordCount() == a && g.FileSizeInBytes() == b && g.FileCount() == d &&
                    g.LastFileCreationTime() == e,
                "statistics", "statistics come back as " << g.ToString() << " of " << one);
    }
    CommitTableRequest req(Make(t), stats);
    UNWRAP(std::string sent, req.ToJsonString(), "request");
    rapidjson::Document doc;
    doc.Parse(sent.c_str());
    REQUIRE(!doc.HasParseError() && doc.HasMember("snapshot") && doc.HasMember("statistics") &&
                doc["statistics"].IsArray() && doc["statistics"].Size() == stats.size() &&
                doc["snapshot"].IsObject() && doc["snapshot"]["id"].GetInt64() == s.id,
            "request", "the request is " << sent);
    c.Label(s.version ? "versioned" : "no-version");
}

// ---- finding snapshots ----
FACET(found, 3) {
    auto& store = memfs::Store::Get();
    store.Reset();
    auto fs = std::shared_ptr<FileSystem>(memfs::New("c25"));
    std::string branch = c.Chance(1, 4) ? "b1" : "main";
    std::string root = "mem://w/t", dir = (branch == "main" ? "/w/t" : "/w/t/branch/branch-b1") + std::string("/snapshot/");
    SnapshotManager m(fs, root, branch);
    int64_t n = c.Len(0, 12), first = c.PickOf<int64_t>({1, 2, 8, 9, 95, 998}), last = first + n - 1;
    std::map<int64_t, SnapV> all;
    for (int64_t i = first; i <= last; i++) {
        SnapV s = GenSnap(c);
        s.id = i;
        s.user = c.PickOf<std::string>({"u", "v", "uv", ""});
        all[i] = s;
        store.Put(dir + "snapshot-" + std::to_string(i), Json(Fields(s), false));
    }
    if (n > 1) {
        c.NonTrivial();
        c.Label("several");
    }
    auto hint = [&](const std::string& name, int64_t lo, int64_t hi) {
        switch (c.Weighted({2, 1, 3})) {
            case 0: return;
            case 1:
                store.Put(dir + name, c.PickOf<std::string>({"", "x", "1x", "-1", "0", "99999999999999999999", "3 "}));
                c.Label("odd-hint");
                return;
            default:
                if (lo > hi) return;
                store.Put(dir + name, std::to_string(c.Int(lo, hi)));
                c.Label("hint");
        }
    };
    bool committed = n > 0 && c.Chance(1, 4);
    if (committed) {
        REQUIRE_OK(m.CommitLatestHint(last), "hint");
        REQUIRE_OK(m.CommitEarliestHint(first), "hint");
        REQUIRE(store.Content(dir + "LATEST") == std::to_string(last), "hint", "LATEST holds " << store.Content(dir + "LATEST"));
        REQUIRE(store.Content(dir + "EARLIEST") == std::to_string(first), "hint",
                "EARLIEST holds " << store.Content(dir + "EARLIEST"));
    } else {
        // a hint may be behind: the latest one older, the earliest one expired
        if (n > 0) hint("LATEST", first, last);
        hint("EARLIEST", 1, n > 0 ? first : 5);
    }
    std::set<std::string> junk;
    for (const char* name : {"tmp.x", ".snapshot-3", "SNAPSHOT-1", "changelog-1"}) {
        if (c.Chance(1, 4)) {
            int64_t when = c.Int(100, 104);
            store.Put(dir + name, "j");
            store.Touch(dir + name, when);
            if (when < 102) junk.insert(name);
        }
    }
    c.Log() << "snapshots " + std::to_string(first) + ".." + std::to_string(last) << "\n";
    c.Eval();
    UNWRAP(auto latest, m.LatestSnapshotId(), "latest");
    REQUIRE(latest == (n ? OptN(last) : OptN()), "latest", "the latest of " << first << ".." << last << " is said to be " << Say(latest));
    UNWRAP(auto earliest, m.EarliestSnapshotId(), "earliest");
    REQUIRE(earliest == (n ? OptN(first) : OptN()), "earliest",
            "the earliest of " << first << ".." << last << " is said to be " << Say(earliest));
    UNWRAP(auto snap, m.LatestSnapshot(), "latest");
    REQUIRE(snap.has_value() == (n > 0), "latest", "whether there is a latest snapshot");
    if (snap) Same(c, all[last], *snap, "latest", "snapshot-" + std::to_string(last));
    for (int64_t i : {first - 1, first, last, last + 1}) {
        UNWRAP(bool is, m.SnapshotExists(i), "exists");
        REQUIRE(is == (all.count(i) > 0), "exists", i << " of " << first << ".." << last << (is ? " exists" : " does not exist"));
        auto load = m.LoadSnapshot(i);
        REQUIRE(load.ok() == (all.count(i) > 0), "load", "loading " << i << " of " << first << ".." << last);
    }
    for (std::string user : {"u", "v", "uv", "", "w"}) {
        UNWRAP(auto of, m.LatestSnapshotOfUser(user), "user");
        OptN want;
        for (const auto& [i, s] : all) {
            if (s.user == user) want = i;
        }
        REQUIRE((of ? OptN(of->Id()) : OptN()) == want, "user",
                "the latest of user '" << user << "' is " << (of ? of->Id() : -1) << " instead of " << Say(want));
    }
    if (n > 0 || !junk.empty()) {
        UNWRAP(auto got, m.GetAllSnapshots(), "all");
        std::map<int64_t, int> ids;
        for (const auto& s : got) ids[s.Id()]++;
        REQUIRE(got.size() == all.size() && ids.size() == all.size(), "all", got.size() << " snapshots instead of " << all.size());
        for (const auto& s : got) {
            REQUIRE(all.count(s.Id()), "all", "no snapshot " << s.Id());
            Same(c, all[s.Id()], s, "all", "snapshot-" + std::to_string(s.Id()));
        }
        UNWRAP(auto none, m.TryGetNonSnapshotFiles(102), "others");
        std::set<std::string> names;
        for (const auto& p : none) names.insert(p.substr(p.rfind('/') + 1));
        REQUIRE(names == junk, "others", names.size() << " old files beside the snapshots instead of " << junk.size());
    }
}

// ---- manifests ----
struct PartV {
    OptN a;
    OptS b;
    bool operator<(const PartV& o) const { return std::tie(a, b) < std::tie(o.a, o.b); }
    bool operator==(const PartV& o) const { return a == o.a && b == o.b; }
};
BinaryRow MakePart(const PartV& p, int keys) {
    BinaryRow row(keys);
    BinaryRowWriter w(&row, 16, P().get());
    if (keys > 0) {
        if (p.a) w.WriteInt(0, static_cast<int32_t>(*p.a));
        else w.SetNullAt(0);
    }
    if (keys > 1) {
        if (p.b) w.WriteString(1, BinaryString::FromString(*p.b, P().get()));
        else w.SetNullAt(1);
    }
    w.Complete();
    return row;
}
PartV ReadPart(const BinaryRow& r, int keys) {
    PartV p;
    if (keys > 0 && !r.IsNullAt(0)) p.a = r.GetInt(0);
    if (keys > 1 && !r.IsNullAt(1)) p.b = r.GetString(1).ToString();
    return p;
}
std::string Say(const PartV& p) { return "(" + Say(p.a) + "," + Say(p.b) + ")"; }

BinaryRow SmallRow(Case& c) {
    int n = static_cast<int>(c.Len(0, 3));
    BinaryRow row(n);
    BinaryRowWriter w(&row, 16, P().get());
    for (int i = 0; i < n; i++) {
        if (c.Chance(1, 4)) w.SetNullAt(i);
        else if (c.Bool()) w.WriteLong(i, c.I64());
        else w.WriteString(i, BinaryString::FromString(Name(c), P().get()));
    }
    w.Complete();
    return row;
}
SimpleStats SmallStats(Case& c) {
    BinaryRow lo = SmallRow(c), hi = SmallRow(c);
    int n = static_cast<int>(c.Len(0, 3));
    BinaryArray nulls;
    BinaryArrayWriter w(&nulls, n, 8, P().get());
    for (int i = 0; i < n; i++) {
        if (c.Chance(1, 4)) w.SetNullAt(i);
        else w.WriteLong(i, c.I64());
    }
    w.Complete();
    return SimpleStats(lo, hi, nulls);
}
std::string Raw(const BinaryRow& r) {
    auto b = SerializationUtils::SerializeBinaryRow(r, P().get());
    return std::string(b->data(), b->size());
}
std::string Raw(const BinaryArray& a) {
    std::string s = std::to_string(a.Size()) + ":";
    for (int i = 0; i < a.Size(); i++) s += a.IsNullAt(i) ? "-," : std::to_string(a.GetLong(i)) + ",";
    return s;
}
std::string Raw(const SimpleStats& s) { return Raw(s.MinValues()) + "|" + Raw(s.MaxValues()) + "|" + Raw(s.NullCounts()); }
std::string Raw(const std::optional<std::vector<std::string>>& l) {
    if (!l) return "-";
    std::string s = std::to_string(l->size()) + ":";
    for (const auto& x : *l) s += "'" + x + "'";
    return s;
}
std::string Hex(const std::string& s) {
    std::string o;
    for (char ch : s) {
        unsigned char u = static_cast<unsigned char>(ch);
        if (u >= 32 && u < 127) o += ch;
        else o += "\\" + std::to_string(u);
    }
    return o;
}
// Everything an entry says, in our own words.
std::string Tell(const ManifestEntry& e) {
    const DataFileMeta& f = *e.File();
    std::string s = (e.Kind() == FileKind::Add() ? "+" : "-");
    s += Raw(e.Partition()) + ";" + std::to_string(e.Bucket()) + ";" + std::to_string(e.TotalBuckets()) + ";" +
         f.file_name + ";" + std::to_string(f.file_size) + ";" + std::to_string(f.row_count) + ";" + Raw(f.min_key) +
         ";" + Raw(f.max_key) + ";" + Raw(f.key_stats) + ";" + Raw(f.value_stats) + ";" +
         std::to_string(f.min_sequence_number) + ";" + std::to_string(f.max_sequence_number) + ";" +
         std::to_string(f.schema_id) + ";" + std::to_string(f.level) + ";";
    for (const auto& x : f.extra_files) s += Say(x);
    s += ";" + std::to_string(f.creation_time.GetMillisecond()) + ";" + Say(f.delete_row_count) + ";";
    s += f.embedded_index ? "'" + std::string(f.embedded_index->data(), f.embedded_index->size()) + "'" : "-";
    s += ";" + (f.file_source ? std::to_string(static_cast<int>(f.file_source->ToByteValue())) : std::string("-")) + ";" +
         Raw(f.value_stats_cols) + ";" + Say(f.external_path) + ";" + Say(f.first_row_id) + ";" + Raw(f.write_cols);
    return Hex(s);
}
struct Entry {
    PartV part;
    std::shared_ptr<ManifestEntry> e;
    bool add;
};
struct Desk {  // where manifests are written
    std::shared_ptr<FileSystem> fs;
    int keys;
    std::vector<std::string> names;
    std::shared_ptr<arrow::Schema> parts;
    CoreOptions options;
    std::shared_ptr<FileStorePathFactory> paths;
    std::unique_ptr<ManifestFile> file;
    std::unique_ptr<ManifestList> list;
};
void Open(Case& c, Desk* d, int64_t target) {
    auto& store = memfs::Store::Get();
    store.Reset();
    d->keys = static_cast<int>(c.Draw(2));
    arrow::FieldVector fields, parts;
    fields.push_back(arrow::field("v", arrow::utf8()));
    if (d->keys > 0) parts.push_back(arrow::field("a", arrow::int32()));
    if (d->keys > 1) parts.push_back(arrow::field("b", arrow::utf8()));
    for (const auto& f : parts) {
        fields.push_back(f);
        d->names.push_back(f->name());
    }
    d->parts = arrow::schema(parts);
    UNWRAP(d->options, CoreOptions::FromMap({{Options::FILE_FORMAT, "orc"}, {Options::MANIFEST_FORMAT, "orc"}, {Options::FILE_SYSTEM, "mem"}}), "options");
    d->fs = d->options.GetFileSystem();
    UNWRAP(d->paths, FileStorePathFactory::Create("mem://w/t", arrow::schema(fields), d->names, "__NONE__", "orc", "data-", true, {}, false, P()), "paths");
    UNWRAP(d->file, ManifestFile::Create(d->fs, d->options.GetManifestFormat(), "zstd", d->paths, target, P(), d->options, d->parts), "manifest");
    UNWRAP(d->list, ManifestList::Create(d->fs, d->options.GetManifestFormat(), "zstd", d->paths, P()), "list");
}
std::shared_ptr<DataFileMeta> GenFile(Case& c, int64_t number, bool rows_numbered) {
    std::optional<FileSource> source;
    if (c.Bool()) source = c.Bool() ? FileSource::Compact() : FileSource::Append();
    std::shared_ptr<Bytes> index;
    if (c.Chance(1, 3)) index = std::make_shared<Bytes>(c.Bytes(c.Len(0, 9)), P().get());
    std::vector<OptS> extra;
    for (int64_t i = 0, n = c.Len(0, 2); i < n; i++) extra.push_back(Name(c));
    std::optional<std::vector<std::string>> cols[2];
    for (auto& l : cols) {
        if (c.Bool()) continue;
        l.emplace();
        for (int64_t i = 0, n = c.Len(0, 3); i < n; i++) l->push_back(Name(c));
    }
    int64_t rows = c.Int(1, 1000), size = c.Int(0, 1000000);
    OptN first;
    if (rows_numbered || c.Chance(1, 5)) first = c.Int(0, 1000000);
    return std::make_shared<DataFileMeta>(
        "data-" + std::to_string(number) + ".orc", size, rows, SmallRow(c), SmallRow(c), SmallStats(c), SmallStats(c),
        c.I64(), c.I64(), c.Int(0, 9), static_cast<int>(c.Int(0, 6)), extra,
        Timestamp::FromEpochMillis(c.Int(0, 2000000000000)), c.Chance(1, 3) ? OptN() : OptN(c.Int(0, rows)), index, source, cols[0],
        c.Chance(1, 5) ? OptS("mem://ext/" + Name(c)) : OptS(), first, cols[1]);
}
Entry GenAdd(Case& c, const Desk& d, const std::vector<PartV>& parts, int64_t number, bool numbered) {
    Entry x;
    x.part = c.Pick(parts);
    x.add = true;
    x.e = std::make_shared<ManifestEntry>(FileKind::Add(), MakePart(x.part, d.keys), static_cast<int32_t>(c.Int(-2, 9)),
                                          static_cast<int32_t>(c.Int(-2, 12)), GenFile(c, number, numbered));
    return x;
}
Entry Undo(const Entry& a) {
    Entry x = a;
    x.add = false;
    x.e = std::make_shared<ManifestEntry>(FileKind::Delete(), a.e->Partition(), a.e->Bucket(), a.e->TotalBuckets(), a.e->File());
    return x;
}
std::vector<ManifestEntry> Plain(const std::vector<Entry>& v) {
    std::vector<ManifestEntry> out;
    for (const auto& x : v) out.push_back(*x.e);
    return out;
}
std::vector<PartV> GenParts(Case& c, const Desk& d) {
    std::vector<PartV> parts;
    for (int64_t i = 0, n = c.Len(1, 4); i < n; i++) {
        PartV p;
        if (d.keys > 0 && c.Chance(7, 8)) p.a = c.Int(-3, 200);
        if (d.keys > 1 && c.Chance(7, 8)) p.b = c.PickOf<std::string>({"", "a", "ab", "b", "a longer name of a partition"});
        parts.push_back(p);
    }
    return parts;
}
// Checks what one manifest says of the entries it holds.
void CheckMeta(Case& c, const Desk& d, const ManifestFileMeta& m, const std::vector<ManifestEntry>& held) {
    auto& store = memfs::Store::Get();
    std::string at = "/w/t/manifest/" + m.FileName();
    REQUIRE(store.Has(at), "file", "no file " << m.FileName());
    REQUIRE(m.FileSize() == static_cast<int64_t>(store.Content(at).size()), "size",
            m.FileName() << " is said to have " << m.FileSize() << " bytes, it has " << store.Content(at).size());
    int64_t added = 0, deleted = 0, schema = INT64_MIN;
    int32_t lo_b = INT32_MAX, hi_b = INT32_MIN, lo_l = INT32_MAX, hi_l = INT32_MIN;
    OptN lo_r, hi_r;
    bool all_numbered = true;
    PartV lo, hi;
    int64_t no_a = 0, no_b = 0;
    for (const auto& e : held) {
        (e.Kind() == FileKind::Add() ? added : deleted)++;
        schema = std::max(schema, e.File()->schema_id);
        lo_b = std::min(lo_b, e.Bucket());
        hi_b = std::max(hi_b, e.Bucket());
        lo_l = std::min(lo_l, e.Level());
        hi_l = std::max(hi_l, e.Level());
        if (auto r = e.File()->first_row_id) {
            lo_r = lo_r ? std::min(*lo_r, *r) : *r;
            int64_t end = *r + e.File()->row_count - 1;
            hi_r = hi_r ? std::max(*hi_r, end) : end;
        } else {
            all_numbered = false;
        }
        PartV p = ReadPart(e.Partition(), d.keys);
        if (p.a) {
            lo.a = lo.a ? std::min(*lo.a, *p.a) : *p.a;
            hi.a = hi.a ? std::max(*hi.a, *p.a) : *p.a;
        } else {
            no_a++;
        }
        if (p.b) {
            lo.b = lo.b ? std::min(*lo.b, *p.b) : *p.b;
            hi.b = hi.b ? std::max(*hi.b, *p.b) : *p.b;
        } else {
            no_b++;
        }
    }
    if (!all_numbered) lo_r.reset(), hi_r.reset();
#define SAME(what, got, want) REQUIRE((got) == (want), "meta", "the " what " of " << m.ToString() << " over " << held.size() << " entries")
    SAME("number of added files", m.NumAddedFiles(), added);
    SAME("number of deleted files", m.NumDeletedFiles(), deleted);
    SAME("schema", m.SchemaId(), schema);
    SAME("lowest bucket", m.MinBucket(), std::optional<int32_t>(lo_b));
    SAME("highest bucket", m.MaxBucket(), std::optional<int32_t>(hi_b));
    SAME("lowest level", m.MinLevel(), std::optional<int32_t>(lo_l));
    SAME("highest level", m.MaxLevel(), std::optional<int32_t>(hi_l));
    SAME("first row", m.MinRowId(), lo_r);
    SAME("last row", m.MaxRowId(), hi_r);
    if (d.keys > 0) {
        auto st = m.PartitionStats();
        PartV l = ReadPart(st.MinValues(), d.keys), h = ReadPart(st.MaxValues(), d.keys);
        SAME("lowest partition", l, lo);
        SAME("highest partition", h, hi);
        SAME("count of nulls", st.NullCounts().GetLong(0), no_a);
        if (d.keys > 1) SAME("count of nulls", st.NullCounts().GetLong(1), no_b);
    }
#undef SAME
}
std::vector<ManifestEntry> ReadAll(Case& c, const Desk& d, const std::vector<ManifestFileMeta>& metas) {
    std::vector<ManifestEntry> out;
    for (const auto& m : metas) {
        std::vector<ManifestEntry> held;
        REQUIRE_OK(d.file->Read(m.FileName(), nullptr, &held), "read");
        CheckMeta(c, d, m, held);
        for (auto& e : held) out.push_back(e);
    }
    return out;
}
void SameEntries(Case& c, const std::vector<ManifestEntry>& got, const std::vector<ManifestEntry>& want, const char* tag) {
    REQUIRE(got.size() == want.size(), tag, got.size() << " entries instead of " << want.size());
    for (size_t i = 0; i < got.size(); i++) {
        std::string g = Tell(got[i]), w = Tell(want[i]);
        REQUIRE(g == w, tag, "entry " << i << " is\n  " << g << "\ninstead of\n  " << w);
        REQUIRE(got[i] == want[i], tag, "entry " << i << " is not equal to the one written: " << w);
    }
}

FACET(manifest, 3) {
    Desk d;
    Open(c, &d, c.PickOf<int64_t>({1, 300, 1500, 1 << 20}));
    auto parts = GenParts(c, d);
    bool numbered = c.Bool();
    std::vector<Entry> entries, live;
    int64_t number = 0;
    for (int64_t i = 0, n = c.Len(1, 25); i < n; i++) {
        if (!live.empty() && c.Chance(1, 4)) {
            size_t k = c.Draw(live.size() - 1);
            entries.push_back(Undo(live[k]));
            live.erase(live.begin() + static_cast<int64_t>(k));
        } else {
            entries.push_back(GenAdd(c, d, parts, number++, numbered));
            live.push_back(entries.back());
        }
    }
    if (c.Chance(1, 150)) {  // so many that a manifest may come to its size
        size_t kinds = entries.size();
        for (size_t i = 0, n = static_cast<size_t>(c.Int(980, 1700)); i < n; i++) {
            Entry x = entries[i % kinds];
            auto f = std::make_shared<DataFileMeta>(*x.e->File());
            f->file_name = "more-" + std::to_string(i);
            x.e = std::make_shared<ManifestEntry>(x.e->Kind(), x.e->Partition(), x.e->Bucket(), x.e->TotalBuckets(), f);
            entries.push_back(x);
        }
        c.Label("many");
    }
    if (entries.size() > 1) c.NonTrivial();
    auto plain = Plain(entries);
    for (size_t i = 0; i < std::min<size_t>(plain.size(), 30); i++) c.Log() << Tell(plain[i]) << "\n";
    c.Eval();
    UNWRAP(auto metas, d.file->Write(plain), "write");
    REQUIRE(!metas.empty(), "write", "no manifest was written");
    if (metas.size() > 1) c.Label("rolled");
    SameEntries(c, ReadAll(c, d, metas), plain, "entries");
    // only what is asked for
    {
        int32_t b = plain[c.Draw(plain.size() - 1)].Bucket();
        std::vector<ManifestEntry> some, want;
        for (const auto& m : metas) {
            REQUIRE_OK(d.file->Read(m.FileName(), [&](const ManifestEntry& e) -> Result<bool> { return e.Bucket() == b; }, &some), "read");
        }
        for (const auto& e : plain) {
            if (e.Bucket() == b) want.push_back(e);
        }
        SameEntries(c, some, want, "filtered");
    }
    // through a list
    UNWRAP(auto listed, d.list->Write(metas), "list");
    REQUIRE(listed.second == static_cast<int64_t>(memfs::Store::Get().Content("/w/t/manifest/" + listed.first).size()),
            "list", "the list is said to have " << listed.second << " bytes");
    std::vector<ManifestFileMeta> back;
    REQUIRE_OK(d.list->Read(listed.first, nullptr, &back), "list");
    REQUIRE(back.size() == metas.size(), "list", back.size() << " manifests listed instead of " << metas.size());
    for (size_t i = 0; i < back.size(); i++) {
        REQUIRE(back[i] == metas[i], "list", "listed as " << back[i].ToString() << " instead of " << metas[i].ToString());
    }
    SameEntries(c, ReadAll(c, d, back), plain, "listed");
    // sums by partition
    struct Sum {
        int64_t rows = 0, bytes = 0, files = 0, last = INT64_MIN;
    };
    std::map<PartV, Sum> sums;
    for (const auto& x : entries) {
        Sum& s = sums[x.part];
        const auto& f = *x.e->File();
        int64_t sign = x.add ? 1 : -1;
        s.rows += sign * f.row_count;
        s.bytes += sign * f.file_size;
        s.files += sign;
        UNWRAP(int64_t when, f.CreationTimeEpochMillis(), "time");
        s.last = std::max(s.last, when);
    }
    std::unordered_map<BinaryRow, PartitionEntry> by;
    size_t half = c.Draw(plain.size());
    REQUIRE_OK(PartitionEntry::Merge(std::vector<ManifestEntry>(plain.begin(), plain.begin() + static_cast<int64_t>(half)), &by), "sum");
    REQUIRE_OK(PartitionEntry::Merge(std::vector<ManifestEntry>(plain.begin() + static_cast<int64_t>(half), plain.end()), &by), "sum");
    REQUIRE(by.size() == sums.size(), "sum", by.size() << " partitions summed up instead of " << sums.size());
    UNWRAP(auto computer, BinaryRowPartitionComputer::Create(d.names, d.parts, "__NONE__", true, P()), "computer");
    for (const auto& [row, e] : by) {
        PartV p = ReadPart(row, d.keys);
        REQUIRE(sums.count(p), "sum", "no partition " << Say(p));
        const Sum& s = sums[p];
        REQUIRE(e.RecordCount() == s.rows && e.FileSizeInBytes() == s.bytes && e.FileCount() == s.files && e.LastFileCreationTime() == s.last,
                "sum", "partition " << Say(p) << ": " << e.RecordCount() << " rows, " << e.FileSizeInBytes() << " bytes, "
                                    << e.FileCount() << " files, last " << e.LastFileCreationTime() << " instead of "
                                    << s.rows << ", " << s.bytes << ", " << s.files << ", " << s.last);
        UNWRAP(auto st, e.ToPartitionStatistics(computer.get()), "statistics");
        REQUIRE(st.Spec().size() == static_cast<size_t>(d.keys) && st.RecordCount() == s.rows && st.FileSizeInBytes() == s.bytes &&
                    st.FileCount() == s.files && st.LastFileCreationTime() == s.last,
                "statistics", "partition " << Say(p) << ": " << st.ToString());
        if (d.keys > 0) {
            std::string want = p.a ? std::to_string(*p.a) : "__NONE__";
            REQUIRE(st.Spec().at("a") == want, "statistics", "partition " << Say(p) << ": " << st.ToString());
        }
    }
    int64_t a = 0, b = 0;
    for (const auto& x : entries) (x.add ? a : b) += x.e->File()->row_count;
    REQUIRE(ManifestEntry::RecordCountAdd(plain) == a && ManifestEntry::RecordCountDelete(plain) == b, "rows",
            "rows added " << ManifestEntry::RecordCountAdd(plain) << ", deleted " << ManifestEntry::RecordCountDelete(plain)
                          << " instead of " << a << ", " << b);
}

// ---- merging ----
FACET(merged, 3) {
    auto& store = memfs::Store::Get();
    Desk d;
    Open(c, &d, c.PickOf<int64_t>({300, 1500, 4000, 1 << 20}));
    auto parts = GenParts(c, d);
    std::vector<Entry> live;
    std::vector<ManifestFileMeta> all;
    std::vector<ManifestEntry> said;
    int64_t number = 0;
    for (int64_t i = 0, n = c.Len(1, 8); i < n; i++) {
        std::vector<Entry> step;
        std::vector<Entry> born;
        for (int64_t k = 0, m = c.Len(1, 6); k < m; k++) {
            if (!live.empty() && c.Chance(2, 5)) {
                size_t at = c.Draw(live.size() - 1);
                step.push_back(Undo(live[at]));
                live.erase(live.begin() + static_cast<int64_t>(at));
            } else {
                step.push_back(GenAdd(c, d, parts, number++, false));
                born.push_back(step.back());
            }
        }
        live.insert(live.end(), born.begin(), born.end());
        auto plain = Plain(step);
        for (const auto& e : plain) c.Log() << std::to_string(i) + " " + Tell(e) << "\n";
        UNWRAP(auto metas, d.file->Write(plain), "write");
        all.insert(all.end(), metas.begin(), metas.end());
        said.insert(said.end(), plain.begin(), plain.end());
    }
    // manifests long merged away may have held the files these delete
    bool headless = c.Chance(1, 4);
    if (headless) {
        int64_t cut = c.Int(0, static_cast<int64_t>(all.size()) - 1), skip = 0;
        for (int64_t i = 0; i < cut; i++) skip += all[static_cast<size_t>(i)].NumAddedFiles() + all[static_cast<size_t>(i)].NumDeletedFiles();
        all.erase(all.begin(), all.begin() + cut);
        said.erase(said.begin(), said.begin() + skip);
    }
    int64_t total = 0;
    for (const auto& m : all) total += m.FileSize();
    int64_t target = c.PickOf<int64_t>({1, all[0].FileSize(), total / 2 + 1, total, total + 1});
    int64_t full = c.PickOf<int64_t>({1, total / 2, total, total + 1});
    int32_t count = static_cast<int32_t>(c.Int(1, 10));
    auto before = store.Snapshot();
    auto untouched = [&](const char* tag) {
        for (const auto& [path, node] : before) {
            if (node.dir) continue;
            REQUIRE(store.Has(path) && store.Content(path) == *node.data, tag, path << " was changed or deleted");
        }
    };
    bool fault = c.Chance(1, 3);
    int64_t when = c.Int(0, 60);
    bool after = c.Bool();
    if (fault) {
        store.SetHook([when, after](const memfs::Event& e) {
            if (e.op == memfs::Op::kDelete || e.number != when) return memfs::Verdict::kGo;
            return after ? memfs::Verdict::kFailAfter : memfs::Verdict::kFail;
        });
    }
    c.Eval();
    auto r = ManifestFileMerger::Merge(all, target, count, full, d.file.get());
    store.ClearHook();
    untouched("inputs");
    if (!r.ok()) {
        REQUIRE(fault, "merge", "merging failed: " << r.status().ToString());
        c.Label("failed");
        SameEntries(c, ReadAll(c, d, all), said, "after-failure");
        UNWRAP(auto retried, ManifestFileMerger::Merge(all, target, count, full, d.file.get()), "retry");
        r = retried;
    }
    auto result = r.value();
    std::set<std::string> names, old;
    for (const auto& m : all) old.insert(m.FileName());
    int64_t fresh = 0;
    for (const auto& m : result) {
        REQUIRE(names.insert(m.FileName()).second, "twice", m.FileName() << " is there twice");
        if (!old.count(m.FileName())) fresh++;
    }
    if (fresh) {
        c.NonTrivial();
        c.Label("merged");
    }
    auto got = ReadAll(c, d, result);
    // adds and deletes that meet may both go; all else is to be there, once, in the order it was said
    std::map<std::string, std::pair<int, int>> in, out;
    for (const auto& e : said) {
        auto& p = in[Tell(e).substr(1)];
        (e.Kind() == FileKind::Add() ? p.first : p.second)++;
    }
    for (const auto& e : got) {
        std::string t = Tell(e).substr(1);
        auto& p = out[t];
        REQUIRE(in.count(t), "made-up", "an entry nobody wrote: " << t);
        if (e.Kind() == FileKind::Add()) {
            REQUIRE(p.first == 0 && p.second == 0, "order", "added twice, or after it was deleted: " << t);
            p.first++;
        } else {
            REQUIRE(p.second == 0, "order", "deleted twice: " << t);
            p.second++;
        }
    }
    for (const auto& [t, p] : in) {
        auto o = out.count(t) ? out[t] : std::pair<int, int>(0, 0);
        REQUIRE(p.first - p.second == o.first - o.second, "net",
                t << "\nwas added " << p.first << " and deleted " << p.second << " times, after merging " << o.first << " and " << o.second);
    }
    std::vector<std::string> lives_in, lives_out;
    for (const auto& e : said) {
        std::string t = Tell(e).substr(1);
        if (in[t].first == 1 && in[t].second == 0) lives_in.push_back(t);
    }
    for (const auto& e : got) {
        std::string t = Tell(e).substr(1);
        if (out[t].first == 1 && out[t].second == 0) lives_out.push_back(t);
    }
    REQUIRE(lives_in == lives_out, "sequence", "the files that are left come in another order");
    // All but the leading full manifests without deletes are rewritten once they reach the threshold together.
    size_t kept = 0;
    while (kept < all.size() && all[kept].NumDeletedFiles() == 0 && all[kept].FileSize() >= target) kept++;
    int64_t rest = 0;
    for (size_t i = kept; i < all.size(); i++) rest += all[i].FileSize();
    if (all.size() - kept > 1 && rest >= full) {
        c.Label("full");
        for (size_t i = 0; i < result.size(); i++) {
            bool same = i < kept && result[i] == all[i];
            REQUIRE(same || (i >= kept && !old.count(result[i].FileName())), "full",
                    result[i].FileName() << " at " << i << " of a full merge that keeps " << kept);
        }
        if (kept == 0) {
            for (const auto& [t, o] : out) REQUIRE(o.first + o.second == 1, "full", "add and delete both stay: " << t);
        }
    }
}
}  // namespace
