// What a table's options are taken to mean, next to a list of every option with its kind and
// default.
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "paimon/core/core_options.h"
#include "paimon/core/options/changelog_producer.h"
#include "paimon/core/options/expire_config.h"
#include "paimon/core/options/external_path_strategy.h"
#include "paimon/core/options/merge_engine.h"
#include "paimon/core/options/sort_engine.h"
#include "paimon/format/file_format.h"
#include "pbt.h"

using namespace paimon;

namespace {

using Opts = std::map<std::string, std::string>;
using Get = std::function<std::string(const CoreOptions&)>;

std::string S(int64_t v) { return std::to_string(v); }
std::string B(bool v) { return v ? "true" : "false"; }
std::string L(const std::vector<std::string>& v) {
    std::string s = "[";
    for (const auto& x : v) s += x + "|";
    return s + "]";
}
std::string O(const std::optional<std::string>& v) { return v ? "=" + *v : "none"; }

enum class Kind { kInt, kLong, kBool, kSize, kTime, kText, kOptText, kList, kChoice };
struct Option {
    std::string key;
    Kind kind;
    std::string dflt;
    Get get;
    std::vector<std::pair<std::string, std::string>> choices = {};  // text and meaning
};

const std::string kMax = S(std::numeric_limits<int64_t>::max());

const std::vector<Option>& All() {
    static const std::vector<Option> all = {
        {"bucket", Kind::kInt, "-1", [](auto& o) { return S(o.GetBucket()); }},
        {"manifest.merge-min-count", Kind::kInt, "30", [](auto& o) { return S(o.GetManifestMergeMinCount()); }},
        {"scan.snapshot-id", Kind::kLong, "none", [](auto& o) { return o.GetScanSnapshotId() ? S(*o.GetScanSnapshotId()) : "none"; }},
        {"read.batch-size", Kind::kInt, "1024", [](auto& o) { return S(o.GetReadBatchSize()); }},
        {"write.batch-size", Kind::kInt, "1024", [](auto& o) { return S(o.GetWriteBatchSize()); }},
        {"write-buffer-size", Kind::kSize, S(256ll << 20), [](auto& o) { return S(o.GetWriteBufferSize()); }},
        {"commit.max-retries", Kind::kInt, "10", [](auto& o) { return S(o.GetCommitMaxRetries()); }},
        {"commit.timeout", Kind::kTime, kMax, [](auto& o) { return S(o.GetCommitTimeout()); }},
        {"file.compression", Kind::kText, "zstd", [](auto& o) { return o.GetFileCompression(); }},
        {"file.compression.zstd-level", Kind::kInt, "1", [](auto& o) { return S(o.GetFileCompressionZstdLevel()); }},
        {"manifest.compression", Kind::kText, "zstd", [](auto& o) { return o.GetManifestCompression(); }},
        {"partition.default-name", Kind::kText, "__DEFAULT_PARTITION__", [](auto& o) { return o.GetPartitionDefaultName(); }},
        {"page-size", Kind::kSize, S(64 << 10), [](auto& o) { return S(o.GetPageSize()); }},
        {"target-file-size", Kind::kSize, S(256ll << 20), [](auto& o) { return S(o.GetTargetFileSize()); }},
        {"blob.target-file-size", Kind::kSize, "", [](auto& o) { return S(o.GetBlobTargetFileSize()); }},
        {"manifest.target-file-size", Kind::kSize, S(8 << 20), [](auto& o) { return S(o.GetManifestTargetFileSize()); }},
        {"source.split.target-size", Kind::kSize, S(128 << 20), [](auto& o) { return S(o.GetSourceSplitTargetSize()); }},
        {"source.split.open-file-cost", Kind::kSize, S(4 << 20), [](auto& o) { return S(o.GetSourceSplitOpenFileCost()); }},
        {"manifest.full-compaction-threshold-size", Kind::kSize, S(16 << 20), [](auto& o) { return S(o.GetManifestFullCompactionThresholdSize()); }},
        {"file.format", Kind::kChoice, "parquet", [](auto& o) { return o.GetWriteFileFormat()->Identifier(); }, {{"orc", "orc"}, {"parquet", "parquet"}, {"ORC", "orc"}, {"Parquet", "parquet"}}},
        {"manifest.format", Kind::kChoice, "orc", [](auto& o) { return o.GetManifestFormat()->Identifier(); }, {{"orc", "orc"}, {"parquet", "parquet"}, {"Orc", "orc"}, {"avro", "avro"}}},
        {"scan.mode", Kind::kChoice, "", [](auto& o) { return o.GetStartupMode().ToString(); },
         {{"default", "default"}, {"latest-full", "latest-full"}, {"latest", "latest"}, {"from-snapshot", "from-snapshot"}, {"from-snapshot-full", "from-snapshot-full"}}},
        {"snapshot.num-retained.min", Kind::kInt, "10", [](auto& o) { return S(o.GetExpireConfig().GetSnapshotRetainMin()); }},
        {"snapshot.num-retained.max", Kind::kInt, "2147483647", [](auto& o) { return S(o.GetExpireConfig().GetSnapshotRetainMax()); }},
        {"snapshot.expire.limit", Kind::kInt, "10", [](auto& o) { return S(o.GetExpireConfig().GetSnapshotMaxDeletes()); }},
        {"snapshot.time-retained", Kind::kTime, "3600000", [](auto& o) { return S(o.GetExpireConfig().GetSnapshotTimeRetainMs()); }},
        {"snapshot.clean-empty-directories", Kind::kBool, "false", [](auto& o) { return B(o.GetExpireConfig().CleanEmptyDirectories()); }},
        {"sequence.field", Kind::kList, "[]", [](auto& o) { return L(o.GetSequenceField()); }},
        {"sequence.field.sort-order", Kind::kChoice, "true", [](auto& o) { return B(o.SequenceFieldSortOrderIsAscending()); }, {{"ascending", "true"}, {"descending", "false"}}},
        {"sort-engine", Kind::kChoice, "loser-tree", [](auto& o) { return o.GetSortEngine() == SortEngine::LOSER_TREE ? "loser-tree" : o.GetSortEngine() == SortEngine::MIN_HEAP ? "min-heap" : "?"; },
         {{"loser-tree", "loser-tree"}, {"min-heap", "min-heap"}}},
        {"merge-engine", Kind::kChoice, "1", [](auto& o) { return S(static_cast<int>(o.GetMergeEngine())); },
         {{"deduplicate", "1"}, {"partial-update", "2"}, {"aggregation", "3"}, {"first-row", "4"}}},
        {"changelog-producer", Kind::kChoice, "1", [](auto& o) { return S(static_cast<int>(o.GetChangelogProducer())); },
         {{"none", "1"}, {"input", "2"}, {"full-compaction", "3"}, {"lookup", "4"}}},
        {"data-file.external-paths.strategy", Kind::kChoice, "1", [](auto& o) { return S(static_cast<int>(o.GetExternalPathStrategy())); },
         {{"none", "1"}, {"specific-fs", "2"}, {"round-robin", "3"}}},
        {"ignore-delete", Kind::kBool, "false", [](auto& o) { return B(o.IgnoreDelete()); }},
        {"fields.default-aggregate-function", Kind::kOptText, "none", [](auto& o) { return O(o.GetFieldsDefaultFunc()); }},
        {"deletion-vectors.enabled", Kind::kBool, "false", [](auto& o) { return B(o.DeletionVectorsEnabled()); }},
        {"force-lookup", Kind::kBool, "", [](auto& o) { return B(o.NeedLookup()); }},
        {"partial-update.remove-record-on-delete", Kind::kBool, "false", [](auto& o) { return B(o.PartialUpdateRemoveRecordOnDelete()); }},
        {"partial-update.remove-record-on-sequence-group", Kind::kList, "[]", [](auto& o) { return L(o.GetPartialUpdateRemoveRecordOnSequenceGroup()); }},
        {"scan.fallback-branch", Kind::kOptText, "none", [](auto& o) { return O(o.GetScanFallbackBranch()); }},
        {"branch", Kind::kText, "main", [](auto& o) { return o.GetBranch(); }},
        {"file-index.read.enabled", Kind::kBool, "true", [](auto& o) { return B(o.FileIndexReadEnabled()); }},
        {"data-file.external-paths", Kind::kOptText, "none", [](auto& o) { return O(o.GetDataFileExternalPaths()); }},
        {"data-file.prefix", Kind::kText, "data-", [](auto& o) { return o.DataFilePrefix(); }},
        {"index-file-in-data-file-dir", Kind::kBool, "false", [](auto& o) { return B(o.IndexFileInDataFileDir()); }},
        {"row-tracking.enabled", Kind::kBool, "false", [](auto& o) { return B(o.RowTrackingEnabled()); }},
        {"data-evolution.enabled", Kind::kBool, "false", [](auto& o) { return B(o.DataEvolutionEnabled()); }},
        {"partition.legacy-name", Kind::kBool, "true", [](auto& o) { return B(o.LegacyPartitionNameEnabled()); }},
        {"global-index.enabled", Kind::kBool, "true", [](auto& o) { return B(o.GlobalIndexEnabled()); }},
    };
    return all;
}

std::string Mixed(pbt::Case& c, std::string s) {
    if (c.Chance(1, 3)) for (char& ch : s) if (c.Bool()) ch = static_cast<char>(toupper(ch));
    return s;
}

// a text for the option and what it means; nothing if it means nothing
std::pair<std::string, std::optional<std::string>> Value(pbt::Case& c, const Option& o) {
    bool bad = c.Chance(1, 40);
    using R = std::pair<std::string, std::optional<std::string>>;
    switch (o.kind) {
        case Kind::kInt:
        case Kind::kLong: {
            if (bad) return R{c.PickOf<std::string>({"", "x", "1x", " 1", "1.0", "0x10", "99999999999999999999", "--1", "+1"}), std::nullopt};
            int64_t v = o.kind == Kind::kLong ? (c.Chance(1, 4) ? c.I64() : c.Int(0, 1000)) : (c.Chance(1, 4) ? static_cast<int64_t>(c.I32()) : c.Int(-2, 5000));
            if (o.kind == Kind::kInt && c.Chance(1, 40)) return R{S((1ll << 31) + c.Int(0, 5)), std::nullopt};
            return R{(c.Chance(1, 10) && v >= 0 ? "00" : "") + S(v), S(v)};
        }
        case Kind::kBool: {
            if (bad) return R{c.PickOf<std::string>({"", "on", "2", "truee", " true", "null"}), std::nullopt};
            bool v = c.Bool();
            std::string s = v ? c.PickOf<std::string>({"true", "t", "y", "yes", "1"}) : c.PickOf<std::string>({"false", "f", "n", "no", "0"});
            return R{Mixed(c, s), B(v)};
        }
        case Kind::kSize: {
            if (bad) return R{c.PickOf<std::string>({"", " ", "kb", "1 pb", "1kbb", "-1 kb", "1.5 mb", "9999999999 tb", "1 k b"}), std::nullopt};
            static const std::vector<std::pair<std::string, int>> units = {{"", 0}, {"b", 0}, {"bytes", 0}, {"k", 10}, {"kb", 10}, {"kibibytes", 10}, {"m", 20}, {"mb", 20}, {"mebibytes", 20}, {"g", 30}, {"gb", 30}, {"gibibytes", 30}, {"t", 40}, {"tb", 40}, {"tebibytes", 40}};
            auto u = units[c.Draw(units.size() - 1)];
            int64_t v = c.Int(0, 4000);
            return R{c.PickOf<std::string>({"", " "}) + S(v) + c.PickOf<std::string>({"", " ", "  "}) + Mixed(c, u.first) + c.PickOf<std::string>({"", " "}), S(v << u.second)};
        }
        case Kind::kTime: {
            if (bad) return R{c.PickOf<std::string>({" ", "min", "1 week", "-1 s", "1.5 h", "99999999999999999 d"}), std::nullopt};
            static const std::vector<std::pair<std::string, int64_t>> units = {{"ms", 1}, {"millis", 1}, {"milliseconds", 1}, {"s", 1000}, {"sec", 1000}, {"seconds", 1000}, {"min", 60000}, {"m", 60000}, {"minutes", 60000}, {"h", 3600000}, {"hour", 3600000}, {"d", 86400000}, {"days", 86400000}};
            auto u = units[c.Draw(units.size() - 1)];
            int64_t v = c.Int(0, 4000);
            return R{S(v) + c.PickOf<std::string>({"", " "}) + Mixed(c, u.first), S(v * u.second)};
        }
        case Kind::kText: { std::string s = c.PickOf<std::string>({"", "x", "two words", "lz4", "None"}); return R{s, s}; }
        case Kind::kOptText: {
            std::string s = c.PickOf<std::string>({"", "x", "FILE:///tmp/a,FILE:///b", "sum"});
            return R{s, s.empty() ? "none" : "=" + s};
        }
        case Kind::kList: {
            std::string s, m = "[";
            int n = static_cast<int>(c.Int(0, 4));
            for (int i = 0; i < n; i++) {
                std::string x = c.PickOf<std::string>({"", "a", "b", "c d", " e"});
                s += (i ? "," : "") + x;
                if (!x.empty()) m += x + "|";
            }
            return R{s, m + "]"};
        }
        case Kind::kChoice: {
            if (bad) return R{c.PickOf<std::string>({"", "nosuch", o.choices[0].first + "x", " " + o.choices[0].first, o.key == "file.format" ? "avro" : "x"}), std::nullopt};
            auto v = o.choices[c.Draw(o.choices.size() - 1)];
            return R{v.first, v.second};
        }
    }
    return R{"", std::nullopt};
}

FACET(options, 10) {
    const auto& all = All();
    Opts map;
    std::map<std::string, std::string> meant;
    int n = static_cast<int>(c.Chance(1, 5) ? c.Int(10, static_cast<int>(all.size())) : c.Int(1, 8));
    bool refused = false;
    std::string culprit;
    for (int i = 0; i < n; i++) {
        const Option& o = all[c.Draw(all.size() - 1)];
        if (map.count(o.key)) continue;
        auto [text, meaning] = Value(c, o);
        if (o.key == "commit.timeout" && text.empty()) continue;
        map[o.key] = text;
        if (meaning) meant[o.key] = *meaning;
        else { refused = true; culprit = o.key; }
    }
    if (c.Chance(1, 4)) map["unknown.option"] = "anything";
    std::map<std::string, std::string> agg, ignore, groups;
    for (const char* f : {"a", "b.c", "d"}) {
        if (c.Chance(1, 6)) map["fields." + std::string(f) + ".aggregate-function"] = agg[f] = c.PickOf<std::string>({"sum", "max", ""});
        if (c.Chance(1, 6)) map["fields." + std::string(f) + ".ignore-retract"] = ignore[f] = c.PickOf<std::string>({"true", "false", "no"});
        if (c.Chance(1, 6)) map["fields." + std::string(f) + ",z.sequence-group"] = groups[std::string(f) + ",z"] = c.PickOf<std::string>({"x", "x,y", ""});
    }
    for (const auto& [k, v] : map) c.Log() << k << "=" << pbt::Show(v) << "\n";
    auto got = CoreOptions::FromMap(map);
    if (refused) {
        REQUIRE(!got.ok(), "taken", "a value that means nothing is taken for " << culprit);
        c.Label("refused");
        c.NonTrivial();
        return;
    }
    REQUIRE(got.ok(), "refused", "proper options are refused: " << got.status().ToString());
    CoreOptions copy;
    if (c.Chance(1, 4)) { copy = got.value(); copy = *&copy; } else { CoreOptions third(got.value()); copy = third; }
    auto is = [&](const std::string& k, const std::string& v) { auto it = meant.find(k); return it != meant.end() && it->second == v; };
    for (const Option& o : all) {
        std::string want = meant.count(o.key) ? meant[o.key] : o.dflt;
        if (o.key == "blob.target-file-size" && !meant.count(o.key)) want = meant.count("target-file-size") ? meant["target-file-size"] : S(256ll << 20);
        if (o.key == "scan.mode" && (!meant.count(o.key) || want == "default")) want = meant.count("scan.snapshot-id") ? "from-snapshot" : "latest-full";
        if (o.key == "force-lookup") want = B(is("force-lookup", "true") || is("merge-engine", "4") || is("changelog-producer", "4") || is("deletion-vectors.enabled", "true"));
        std::string have = o.get(copy);
        REQUIRE(have == want, "meaning", o.key << (map.count(o.key) ? " given as " + map[o.key] : " not given") << " means " << have << ", expected " << want);
        c.Eval(1);
    }
    REQUIRE(copy.ToMap() == map, "map", "the options given are not kept");
    for (const char* f : {"a", "b.c", "d"}) {
        UNWRAP(auto fn, copy.GetFieldAggFunc(f), "field");
        REQUIRE(fn.value_or("") == (agg.count(f) ? agg[f] : "") && fn.has_value() == (agg.count(f) && !agg[f].empty()), "field", f << " is aggregated by " << fn.value_or("nothing"));
        UNWRAP(bool ig, copy.FieldAggIgnoreRetract(f), "field");
        REQUIRE(ig == (ignore.count(f) && ignore[f] == "true"), "field", f << " ignores retractions");
    }
    REQUIRE(copy.GetFieldsSequenceGroups() == groups, "groups", "other sequence groups");
    c.Label("taken");
    c.NonTrivial(!meant.empty());
}

}  // namespace
