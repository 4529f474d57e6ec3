// Where the files of a table are put: directories of partitions and buckets, names of new files,
// external places, and where recorded files are looked for.
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "core_values.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/core/core_options.h"
#include "paimon/core/index/index_file_meta.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/io/data_file_path_factory.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/core/stats/simple_stats.h"
#include "paimon/core/utils/file_store_path_factory.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;

namespace {

std::string Escape(const std::string& s) {
    static const std::string special = "\"#%'*/:=?\\{}[]^\x7f";
    std::string out;
    for (char ch : s) {
        auto u = static_cast<unsigned char>(ch);
        if (u < 32 || (u < 128 && special.find(ch) != std::string::npos)) {
            char buf[8];
            snprintf(buf, sizeof(buf), "%%%02X", u);
            out += buf;
        } else {
            out += ch;
        }
    }
    return out;
}

std::string DateText(int64_t days) {
    // proleptic Gregorian calendar counted by hand
    int y = 1970;
    auto leap = [](int v) { return (v % 4 == 0 && v % 100 != 0) || v % 400 == 0; };
    while (days < 0) days += leap(--y) ? 366 : 365;
    while (days >= (leap(y) ? 366 : 365)) days -= leap(y++) ? 366 : 365;
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int m = 0;
    while (days >= len[m] + (m == 1 && leap(y))) days -= len[m] + (m == 1 && leap(y)), m++;
    char buf[32];
    snprintf(buf, sizeof(buf), "%04d-%02d-%02d", y, m + 1, static_cast<int>(days) + 1);
    return buf;
}

enum class P { kBool, kI8, kI16, kI32, kI64, kString, kDate, kFloat, kDouble };
struct Val {
    std::string given;             // what the caller writes
    std::optional<std::string> text;  // what stands in the path; nothing if the value is refused
    bool null = false;
    int64_t whole = 0;
    double real = 0;
    std::string bytes;
};

std::shared_ptr<arrow::DataType> TypeOf(P p) {
    switch (p) {
        case P::kBool: return arrow::boolean();
        case P::kI8: return arrow::int8();
        case P::kI16: return arrow::int16();
        case P::kI32: return arrow::int32();
        case P::kI64: return arrow::int64();
        case P::kString: return arrow::utf8();
        case P::kDate: return arrow::date32();
        case P::kFloat: return arrow::float32();
        default: return arrow::float64();
    }
}

Val MakeVal(pbt::Case& c, P p, const std::string& dflt, bool legacy) {
    Val v;
    if (c.Chance(1, 8)) {
        v.given = dflt;
        v.text = dflt;
        v.null = true;
        return v;
    }
    bool bad = p != P::kString && c.Chance(1, 40);
    if (bad) {
        v.given = p == P::kI8 ? c.PickOf<std::string>({"128", "-129", "x", "1 "}) : p == P::kI16 ? c.PickOf<std::string>({"32768", "", "-32769"})
                : p == P::kI32 ? c.PickOf<std::string>({"2147483648", "1.0"}) : p == P::kI64 ? c.PickOf<std::string>({"9223372036854775808", "--1"})
                : p == P::kBool ? "maybe" : p == P::kDate ? "yesterday" : "abc";
        return v;
    }
    auto whole = [&](int64_t lo, int64_t hi) {
        v.whole = c.Chance(1, 5) ? (c.Bool() ? lo : hi) : c.Chance(1, 3) ? c.Int(-3, 12) : std::max(lo, std::min(hi, c.I64() % 100000));
        v.given = v.text.emplace(std::to_string(v.whole));
        if (v.whole >= 0 && c.Chance(1, 10)) v.given = "0" + v.given;
    };
    switch (p) {
        case P::kBool:
            v.whole = c.Bool();
            v.given = v.whole ? c.PickOf<std::string>({"true", "TRUE", "1", "y"}) : c.PickOf<std::string>({"false", "f", "0", "No"});
            v.text = v.whole ? "true" : "false";
            break;
        case P::kI8: whole(-128, 127); break;
        case P::kI16: whole(-32768, 32767); break;
        case P::kI32: whole(INT32_MIN, INT32_MAX); break;
        case P::kI64: whole(INT64_MIN, INT64_MAX); break;
        case P::kDate:
            v.whole = c.Int(-25000, 47000);
            v.given = c.Chance(1, 4) ? std::to_string(v.whole) : DateText(v.whole);
            v.text = legacy ? std::to_string(v.whole) : DateText(v.whole);
            break;
        case P::kString: {
            int n = static_cast<int>(c.Int(0, 12));
            for (int i = 0; i < n; i++)
                v.bytes += c.Chance(1, 3) ? c.PickOf<std::string>({"/", "=", "%", ":", " ", "\n", "\x7f", "\xc3\xa9", ".", "~", "|", "\"", "'", "^", "{", "}", "[", "]", "*", "?", "#", "\\", "\x01"})
                                          : std::string(1, static_cast<char>('a' + c.Draw(3)));
            v.given = v.bytes;
            bool blank = v.bytes.find_first_not_of(" \t\n\v\f\r") == std::string::npos;
            v.text = blank ? dflt : v.bytes;
            break;
        }
        default: {
            int64_t k = c.Int(1, 8000);
            v.real = static_cast<double>(k) / 8;
            char buf[32];
            snprintf(buf, sizeof(buf), "%.3f", v.real);
            std::string s = buf;
            while (s.back() == '0' && s[s.size() - 2] != '.') s.pop_back();
            v.given = v.text.emplace(s);
        }
    }
    return v;
}

std::string ParentOf(const std::string& p) { return p.substr(0, p.rfind('/')); }
std::string NameOf(const std::string& p) { return p.substr(p.rfind('/') + 1); }

FACET(places, 10) {
    std::shared_ptr<MemoryPool> pool = GetDefaultPool();
    int nkeys = static_cast<int>(c.Weighted({2, 5, 4, 2, 1}));
    std::string dflt = c.Chance(1, 3) ? c.PickOf<std::string>({"none", "p=q", "0x", "d/f"}) : "__DEFAULT_PARTITION__";
    bool legacy = c.Bool(), index_there = c.Bool();
    std::string root = c.PickOf<std::string>({"/tmp/t", "mem://host/db.db/t", "/w/x y/t", "/w/t/"});
    std::vector<std::string> keys;
    std::vector<P> types;
    arrow::FieldVector fields;
    int extra = static_cast<int>(c.Int(0, 2));
    for (int i = 0; i < extra; i++) fields.push_back(arrow::field("x" + std::to_string(i), arrow::list(arrow::int32())));
    for (int i = 0; i < nkeys; i++) {
        keys.push_back(c.PickOf<std::string>({"p", "dt", "a b", "k=v", "q/r"}) + std::to_string(i));
        types.push_back(static_cast<P>(c.Draw(8)));
    }
    for (int i = nkeys - 1; i >= 0; i--) fields.push_back(arrow::field(keys[i], TypeOf(types[i])));
    std::vector<std::string> outside;
    int nout = static_cast<int>(c.Weighted({4, 2, 2, 1}));
    for (int i = 0; i < nout; i++) outside.push_back(c.PickOf<std::string>({"mem://ext", "file:///e", "oss://b/c"}) + std::to_string(i));
    std::string format = c.PickOf<std::string>({"orc", "parquet"}), prefix = c.PickOf<std::string>({"data-", "d", ""});
    UNWRAP(auto made, FileStorePathFactory::Create(root, arrow::schema(fields), keys, dflt, format, prefix, legacy, outside, index_there, pool), "create");
    std::shared_ptr<FileStorePathFactory> factory = std::move(made);
    std::string base = root.back() == '/' ? root : root + "/";

    struct Part {
        std::map<std::string, std::string> spec;
        std::vector<Val> vals;
        std::string path;
        std::vector<std::string> levels;
        std::optional<BinaryRow> row;
    };
    std::vector<Part> parts(c.Int(1, 4));
    for (auto& p : parts) {
        std::string path;
        bool good = true;
        for (int i = 0; i < nkeys; i++) {
            p.vals.push_back(MakeVal(c, types[i], dflt, legacy));
            const Val& v = p.vals.back();
            p.spec[keys[i]] = v.given;
            if (!v.null && v.given == dflt) { p.vals.back().null = true; p.vals.back().text = dflt; }
            if (!p.vals.back().text) { good = false; continue; }
            path += Escape(keys[i]) + "=" + Escape(*p.vals.back().text) + "/";
            p.levels.push_back(base + path);
        }
        p.path = path;
        c.Log() << "partition " << pbt::Show(path) << (good ? "" : " with a bad value") << "\n";
        if (nkeys > 0 && c.Chance(1, 20)) {
            auto less = p.spec;
            less.erase(keys[c.Draw(nkeys - 1)]);
            REQUIRE(!factory->ToBinaryRow(less).ok(), "missing", "a partition with a key left out is taken");
        }
        auto row = factory->ToBinaryRow(p.spec);
        if (!good) {
            REQUIRE(!row.ok(), "taken", "a partition value that does not fit its column is taken");
            c.Label("refused");
            continue;
        }
        REQUIRE(row.ok(), "refused", row.status().ToString());
        p.row = row.value();
        REQUIRE(p.row->GetFieldCount() == nkeys, "fields", p.row->GetFieldCount() << " fields");
        for (int i = 0; i < nkeys; i++) {
            const Val& v = p.vals[i];
            REQUIRE(p.row->IsNullAt(i) == v.null, "null", keys[i] << " is null: " << p.row->IsNullAt(i));
            if (v.null) continue;
            bool same = true;
            switch (types[i]) {
                case P::kBool: same = p.row->GetBoolean(i) == (v.whole != 0); break;
                case P::kI8: same = static_cast<int8_t>(p.row->GetByte(i)) == v.whole; break;
                case P::kI16: same = p.row->GetShort(i) == v.whole; break;
                case P::kI32: same = p.row->GetInt(i) == v.whole; break;
                case P::kI64: same = p.row->GetLong(i) == v.whole; break;
                case P::kDate: same = p.row->GetDate(i) == v.whole; break;
                case P::kString: same = p.row->GetString(i).ToString() == v.bytes; break;
                case P::kFloat: same = p.row->GetFloat(i) == static_cast<float>(v.real); break;
                case P::kDouble: same = p.row->GetDouble(i) == v.real; break;
            }
            REQUIRE(same, "value", keys[i] << " given as " << pbt::Show(v.given) << " has another value");
        }
        c.Eval(1);
    }

    std::set<std::string> names;  // of all new files, which never meet
    auto fresh = [&](const std::string& path) {
        REQUIRE(names.insert(NameOf(path)).second, "same-name", path << " is given out twice");
    };
    struct Factory {
        size_t part;
        int bucket;
        std::shared_ptr<DataFilePathFactory> data;
        std::shared_ptr<IndexPathFactory> index;
        std::vector<std::string> order;  // external places in the order of use
        std::vector<std::string> index_order;
    };
    std::vector<Factory> made_factories;
    int steps = static_cast<int>(c.Int(5, 40));
    for (int s = 0; s < steps; s++) {
        size_t pi = c.Draw(parts.size() - 1);
        const Part& p = parts[pi];
        int bucket = c.PickOf<int>({0, 1, 7, 123456, -2, -1});
        std::string dir = p.path + "bucket-" + (bucket == -2 ? "postpone" : std::to_string(bucket));
        switch (c.Draw(6)) {
            case 0: {
                if (!p.row) break;
                UNWRAP(std::string got, factory->BucketPath(*p.row, bucket), "bucket");
                REQUIRE(got == base + dir, "bucket", "bucket at " << got << ", expected " << base + dir);
                UNWRAP(std::string rel, factory->RelativeBucketPath(*p.row, bucket), "bucket");
                REQUIRE(rel == dir, "bucket", "bucket at " << rel << ", expected " << dir);
                break;
            }
            case 1: {
                if (!p.row) break;
                UNWRAP(auto got, factory->GetHierarchicalPartitionPath(*p.row), "levels");
                REQUIRE(got == p.levels, "levels", got.size() << " levels, expected " << p.levels.size() << " up to " << p.path);
                UNWRAP(auto vec, factory->GeneratePartitionVector(*p.row), "texts");
                REQUIRE(vec.size() == keys.size(), "texts", "other parts");
                for (int i = 0; i < nkeys; i++) REQUIRE(vec[i].first == keys[i] && vec[i].second == *p.vals[i].text, "texts", keys[i] << " is shown as " << pbt::Show(vec[i].second) << ", expected " << pbt::Show(*p.vals[i].text));
                UNWRAP(std::string text, factory->GetPartitionString(*p.row), "texts");
                REQUIRE(text == p.path, "texts", text);
                UNWRAP(BinaryRow again, factory->ToBinaryRow(p.spec), "again");
                REQUIRE(again == *p.row, "again", "the same partition gives another row");
                break;
            }
            case 2: {
                if (!p.row) break;
                Factory f{pi, bucket, nullptr, nullptr, {}, {}};
                UNWRAP(auto data, factory->CreateDataFilePathFactory(*p.row, bucket), "factory");
                UNWRAP(auto index, factory->CreateIndexFileFactory(*p.row, bucket), "factory");
                f.data = data;
                f.index = std::move(index);
                REQUIRE(f.data->Parent() == base + dir, "parent", f.data->Parent());
                REQUIRE(f.data->IsExternalPath() == !outside.empty(), "external", "external or not");
                REQUIRE(f.index->IsExternalPath() == (index_there && !outside.empty()), "external", "index external or not");
                made_factories.push_back(std::move(f));
                break;
            }
            case 3:
            case 4: {
                if (made_factories.empty()) break;
                Factory& f = made_factories[c.Draw(made_factories.size() - 1)];
                std::string fdir = parts[f.part].path + "bucket-" + (f.bucket == -2 ? "postpone" : std::to_string(f.bucket));
                int kind = static_cast<int>(c.Draw(3));
                std::string got = kind == 0 ? f.data->NewPath() : kind == 1 ? f.data->NewChangelogPath() : kind == 2 ? f.data->NewBlobPath() : f.index->NewPath();
                c.Log() << "new " << got << "\n";
                fresh(got);
                std::string name = NameOf(got);
                std::string want_prefix = kind == 1 ? "changelog-" : kind == 3 ? "index-" : prefix;
                REQUIRE(name.rfind(want_prefix, 0) == 0, "prefix", name);
                std::string want_suffix = kind == 2 ? ".blob" : kind == 3 ? "" : "." + format;
                REQUIRE(name.size() >= want_suffix.size() && name.substr(name.size() - want_suffix.size()) == want_suffix, "suffix", name);
                std::string at = ParentOf(got);
                if (kind == 3 && !index_there) {
                    REQUIRE(at == base + "index", "index-dir", at);
                } else if (outside.empty()) {
                    REQUIRE(at == base + fdir, "dir", at << ", expected " << base + fdir);
                } else {
                    bool found = false;
                    auto& order = kind == 3 ? f.index_order : f.order;
                    for (const auto& o : outside)
                        if (at == o + "/" + fdir) { order.push_back(o); found = true; }
                    REQUIRE(found, "outside", "new file at " << at);
                    size_t n = order.size();
                    if (n > 1) {
                        size_t before = std::find(outside.begin(), outside.end(), order[n - 2]) - outside.begin();
                        REQUIRE(order[n - 1] == outside[(before + 1) % outside.size()], "turns", "the external places are not used in turn");
                    }
                    c.Label("outside");
                }
                c.NonTrivial(nkeys > 0 || !outside.empty());
                break;
            }
            case 5: {
                std::string got;
                std::string want, dirname = "manifest";
                switch (c.Draw(4)) {
                    case 0: got = factory->CreateManifestFileFactory()->NewPath(); want = "manifest-"; break;
                    case 1: got = factory->CreateManifestListFactory()->NewPath(); want = "manifest-list-"; break;
                    case 2: got = factory->CreateIndexManifestFileFactory()->NewPath(); want = "index-manifest-"; break;
                    case 3: got = factory->NewStatsFile(); want = "stats-"; dirname = "statistics"; break;
                    default: got = factory->CreateGlobalIndexFileFactory()->NewPath(); want = "index-"; dirname = "index";
                }
                fresh(got);
                REQUIRE(ParentOf(got) == base + dirname && NameOf(got).rfind(want, 0) == 0, "meta", got);
                std::string name = NameOf(got);
                std::string back = dirname == "index" ? factory->ToIndexFilePath(name) : dirname == "statistics" ? factory->ToStatsFilePath(name)
                                 : want == "manifest-list-" ? factory->CreateManifestListFactory()->ToPath(name) : want == "index-manifest-" ? factory->CreateIndexManifestFileFactory()->ToPath(name) : factory->CreateManifestFileFactory()->ToPath(name);
                REQUIRE(back == got, "meta", name << " is looked for at " << back);
                break;
            }
            default: {
                if (made_factories.empty()) break;
                Factory& f = made_factories[c.Draw(made_factories.size() - 1)];
                std::string fdir = base + parts[f.part].path + "bucket-" + (f.bucket == -2 ? "postpone" : std::to_string(f.bucket));
                std::string name = "f" + std::to_string(s) + ".orc";
                std::optional<std::string> ext;
                if (c.Bool()) ext = c.PickOf<std::string>({"mem://old/place/", "file:///other/"}) + name;
                std::vector<std::optional<std::string>> extras;
                int ne = static_cast<int>(c.Int(0, 3));
                for (int i = 0; i < ne; i++) extras.push_back(c.Chance(1, 5) ? std::optional<std::string>() : "e" + std::to_string(i));
                UNWRAP(auto meta, DataFileMeta::ForAppend(name, 1, 1, SimpleStats::EmptyStats(), 0, 0, 0, extras, nullptr, FileSource::Append(), std::nullopt, ext, std::nullopt, std::nullopt), "meta");
                std::string want = ext ? *ext : fdir + "/" + name;
                REQUIRE(f.data->ToPath(meta) == want, "recorded", f.data->ToPath(meta) << ", expected " << want);
                REQUIRE(f.data->ToPath(name) == fdir + "/" + name, "recorded", f.data->ToPath(name));
                std::vector<std::string> wants = {want};
                for (const auto& e : extras) if (e) wants.push_back(ParentOf(want) + "/" + *e);
                REQUIRE(f.data->CollectFiles(meta) == wants, "collect", "the files of " << want << " are looked for elsewhere");
                REQUIRE(f.data->ToFileIndexPath(want) == want + ".index", "side", f.data->ToFileIndexPath(want));
                auto imeta = std::make_shared<IndexFileMeta>("DELETION_VECTORS", name, 1, 1, std::nullopt, ext);
                std::string iwant = !index_there ? base + "index/" + name : want;
                REQUIRE(f.index->ToPath(imeta) == iwant, "index-recorded", f.index->ToPath(imeta) << ", expected " << iwant);
            }
        }
    }
    // different partitions never share a directory unless their texts are the same
    c.Label(outside.empty() ? "inside" : "outside-given");
}

FACET(external, 2) {
    int n = static_cast<int>(c.Int(0, 4));
    std::string text;
    std::vector<std::string> want;
    bool bad = false;
    for (int i = 0; i < n; i++) {
        std::string p = c.PickOf<std::string>({"mem://a/b", "file:/x//y", "oss://bucket/p/", "FILE:///q", "hdfs://h:90/z"});
        std::string norm = p == "file:/x//y" ? "file:/x/y" : p == "oss://bucket/p/" ? "oss://bucket/p" : p == "FILE:///q" ? "FILE:/q" : p;
        if (c.Chance(1, 15)) { p = c.PickOf<std::string>({"/plain", " ", "rel/x"}); bad = true; norm = ""; }
        text += (i ? "," : "") + c.PickOf<std::string>({"", " "}) + p + c.PickOf<std::string>({"", " "});
        want.push_back(norm);
    }
    std::string strategy = c.PickOf<std::string>({"round-robin", "round-robin", "round-robin", "none", "specific-fs", ""});
    std::map<std::string, std::string> opts;
    if (n > 0) opts["data-file.external-paths"] = text;
    if (!strategy.empty()) opts["data-file.external-paths.strategy"] = strategy;
    c.Log() << pbt::Show(text) << " " << strategy << "\n";
    UNWRAP(auto options, CoreOptions::FromMap(opts), "options");
    auto got = options.CreateExternalPaths();
    if (strategy == "specific-fs") { REQUIRE(!got.ok(), "strategy", "taken"); return; }
    if (strategy != "round-robin" || n == 0) {
        REQUIRE(got.ok() && got.value().empty(), "none", "external places without being asked for");
        return;
    }
    c.NonTrivial();
    if (bad) {
        REQUIRE(!got.ok(), "bad", "a place without a file system is taken");
        return;
    }
    REQUIRE(got.ok(), "good", got.status().ToString());
    std::string list;
    for (const auto& g : got.value()) list += g + " ";
    REQUIRE(got.value() == want, "list", list);
}

}  // namespace
