#pragma once
// A table in the in-memory file system, driven through the public interface.
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "core_values.h"
#include "memfs.h"
#include "paimon/catalog/catalog.h"
#include "paimon/catalog/identifier.h"
#include "paimon/commit_context.h"
#include "paimon/commit_message.h"
#include "paimon/defs.h"
#include "paimon/executor.h"
#include "paimon/file_store_commit.h"
#include "paimon/file_store_write.h"
#include "paimon/global_index/global_index_result.h"
#include "paimon/predicate/predicate.h"
#include "paimon/read_context.h"
#include "paimon/record_batch.h"
#include "paimon/scan_context.h"
#include "paimon/table/source/data_split.h"
#include "paimon/table/source/plan.h"
#include "paimon/table/source/startup_mode.h"
#include "paimon/table/source/table_read.h"
#include "paimon/table/source/table_scan.h"
#include "paimon/write_context.h"
#include "vfmt.h"

namespace ct {
using namespace paimon;  // NOLINT
using cv::Cell;
using cv::Row;
using cv::T;
using Options_ = std::map<std::string, std::string>;
using Kind = RecordBatch::RowKind;
using Msgs = std::vector<std::shared_ptr<CommitMessage>>;

struct Got {
    int kind = 0;
    Row row;
};

// Shared by all contexts, which are built directly: the builders start threads of their own, and
// that would cost more than the cases themselves.
inline int& PoolThreads() {
    static int n = 2;
    return n;
}

inline std::shared_ptr<Executor> Pool() {
    static std::shared_ptr<Executor>* pool = new std::shared_ptr<Executor>(CreateDefaultExecutor(PoolThreads()));
    return *pool;
}

struct Table {
    std::string root = "/w";
    std::string path = "/w/foo.db/bar";
    std::vector<std::string> names;
    std::vector<T> types;
    std::vector<std::string> parts;
    std::vector<std::string> keys;
    Options_ opts;
    std::string branch = "main";
    std::vector<std::string> write_columns;

    int Index(const std::string& name) const {
        return static_cast<int>(std::find(names.begin(), names.end(), name) - names.begin());
    }

    std::shared_ptr<arrow::Schema> ArrowSchema() const {
        arrow::FieldVector f;
        for (size_t i = 0; i < names.size(); i++) {
            bool key = std::count(keys.begin(), keys.end(), names[i]) > 0;
            f.push_back(cv::ToField(names[i], types[i], !key));
        }
        return arrow::schema(f);
    }

    Status Create() {
        opts[Options::FILE_SYSTEM] = "mem";
        if (!opts.count(Options::FILE_FORMAT)) opts[Options::FILE_FORMAT] = "orc";
        if (!opts.count(Options::MANIFEST_FORMAT)) opts[Options::MANIFEST_FORMAT] = "orc";
        PAIMON_ASSIGN_OR_RAISE(auto catalog, Catalog::Create(root, opts));
        PAIMON_RETURN_NOT_OK(catalog->CreateDatabase("foo", opts, true));
        ::ArrowSchema c_schema;
        auto st = arrow::ExportSchema(*ArrowSchema(), &c_schema);
        if (!st.ok()) return Status::Invalid(st.ToString());
        return catalog->CreateTable(Identifier("foo", "bar"), &c_schema, parts, keys, opts, false);
    }

    Options_ With(const Options_& more) const {
        Options_ o = opts;
        for (const auto& [k, v] : more) o[k] = v;
        return o;
    }

    Result<std::unique_ptr<FileStoreWrite>> Writer(const std::string& user, const Options_& more = {},
                                                   bool streaming = true) const {
        auto ctx = std::make_unique<WriteContext>(
            path, user, streaming, /*ignore_num_bucket_check=*/false, /*ignore_previous_files=*/false,
            std::nullopt, branch, write_columns, GetDefaultPool(), Pool(), Options_(), With(more));
        return FileStoreWrite::Create(std::move(ctx));
    }

    Result<std::unique_ptr<FileStoreCommit>> Committer(const std::string& user, const Options_& more = {},
                                                       bool ignore_empty = false) const {
        Options_ o = With(more);
        o["enable-pk-commit-in-inte-test"] = "";
        auto ctx = std::make_unique<CommitContext>(path, user, ignore_empty, false, GetDefaultPool(), Pool(), o);
        return FileStoreCommit::Create(std::move(ctx));
    }

    Result<std::unique_ptr<RecordBatch>> Batch(const std::vector<Row>& rows, const Options_& part, int bucket,
                                               const std::vector<Kind>& kinds = {}) const {
        auto array = cv::MakeStruct(names, types, rows);
        ::ArrowArray c_array;
        auto st = arrow::ExportArray(*array, &c_array);
        if (!st.ok()) return Status::Invalid(st.ToString());
        RecordBatchBuilder b(&c_array);
        return b.SetPartition(part).SetBucket(bucket).SetRowKinds(kinds).Finish();
    }

    struct ReadSpec {
        Options_ more;
        std::optional<std::string> mode;
        std::optional<int64_t> snapshot;
        bool streaming = false;
        std::vector<std::string> columns;  // empty: all
        std::shared_ptr<Predicate> predicate;
        bool scan_predicate = true;
        bool filter = false;
        bool prefetch = false;
        bool threads = false;
        std::vector<Options_> part_filters;
        std::optional<int> bucket;
        std::optional<int> limit;
        std::shared_ptr<GlobalIndexResult> picked;
    };

    Result<std::unique_ptr<TableScan>> Scan(const ReadSpec& s) const {
        Options_ o = With(s.more);
        if (s.mode) o[Options::SCAN_MODE] = *s.mode;
        if (s.snapshot) o[Options::SCAN_SNAPSHOT_ID] = std::to_string(*s.snapshot);
        auto filter = std::make_shared<ScanFilter>(s.scan_predicate ? s.predicate : nullptr, s.part_filters,
                                                   s.bucket, nullptr);
        auto ctx = std::make_unique<ScanContext>(path, s.streaming, s.limit, filter, s.picked, GetDefaultPool(),
                                                 Pool(), o);
        return TableScan::Create(std::move(ctx));
    }

    T TypeOf(const std::string& name) const {
        T t;
        if (name == "_ROW_ID" || name == "_SEQUENCE_NUMBER") t.k = cv::K::kI64;
        else if (name == "_INDEX_SCORE") t.k = cv::K::kF32;
        else t = types[Index(name)];
        return t;
    }

    std::vector<T> TypesOf(const ReadSpec& s) const {
        if (s.columns.empty()) return types;
        std::vector<T> out;
        for (const auto& n : s.columns) out.push_back(TypeOf(n));
        return out;
    }

    Result<std::vector<Got>> Read(const ReadSpec& s, const std::vector<std::shared_ptr<Split>>& splits) const {
        ReadContextBuilder b(path);
        b.SetOptions(With(s.more)).WithExecutor(Pool());
        if (!s.columns.empty()) b.SetReadSchema(s.columns);
        if (s.predicate) b.SetPredicate(s.predicate).EnablePredicateFilter(s.filter);
        b.EnablePrefetch(s.prefetch);
        if (s.threads) b.EnableMultiThreadRowToBatch(true).SetRowToBatchThreadNumber(2);
        PAIMON_ASSIGN_OR_RAISE(auto ctx, b.Finish());
        PAIMON_ASSIGN_OR_RAISE(auto read, TableRead::Create(std::move(ctx)));
        PAIMON_ASSIGN_OR_RAISE(auto reader, read->CreateReader(splits));
        return Drain(reader.get(), TypesOf(s), s.columns.empty() ? names : s.columns);
    }

    static Result<std::vector<Got>> Drain(BatchReader* reader, const std::vector<T>& types,
                                          const std::vector<std::string>& names = {}) {
        std::vector<Got> out;
        while (true) {
            PAIMON_ASSIGN_OR_RAISE(BatchReader::ReadBatch batch, reader->NextBatch());
            if (BatchReader::IsEofBatch(batch)) break;
            auto imported = arrow::ImportArray(batch.first.get(), batch.second.get());
            if (!imported.ok()) FAIL("batch", "batch cannot be imported: " << imported.status().ToString());
            auto array = std::static_pointer_cast<arrow::StructArray>(imported.ValueUnsafe());
            if (array->num_fields() != static_cast<int>(types.size()) + 1) {
                FAIL("columns", "got " << array->num_fields() << " columns, wanted " << types.size() + 1);
            }
            for (size_t j = 0; j < names.size(); j++) {
                const std::string& name = array->type()->field(static_cast<int>(j) + 1)->name();
                if (name != names[j]) FAIL("names", "got column " << name << ", wanted " << names[j]);
            }
            if (array->length() == 0) FAIL("empty_batch", "reader returned an empty batch");
            for (int64_t i = 0; i < array->length(); i++) {
                Got g;
                g.kind = static_cast<const arrow::Int8Array&>(*array->field(0)).Value(i);
                for (size_t j = 0; j < types.size(); j++) {
                    g.row.push_back(cv::Get(*array->field(static_cast<int>(j) + 1), types[j], i));
                }
                out.push_back(std::move(g));
            }
        }
        reader->Close();
        return out;
    }

    Result<std::vector<Got>> ReadAll(const ReadSpec& s) const {
        PAIMON_ASSIGN_OR_RAISE(auto scan, Scan(s));
        PAIMON_ASSIGN_OR_RAISE(auto plan, scan->CreatePlan());
        return Read(s, plan->Splits());
    }
};

inline std::multiset<std::string> Bag(const std::vector<T>& types, const std::vector<Got>& rows) {
    std::multiset<std::string> out;
    for (const auto& g : rows) out.insert(std::to_string(g.kind) + cv::Text(types, g.row));
    return out;
}

inline std::multiset<std::string> Bag(const std::vector<T>& types, const std::vector<Row>& rows) {
    std::multiset<std::string> out;
    for (const auto& r : rows) out.insert("0" + cv::Text(types, r));
    return out;
}

inline std::string Show(const std::multiset<std::string>& a) {
    std::string out;
    for (const auto& s : a) out += "\n    " + s;
    return out.empty() ? "\n    (none)" : out;
}

// what is in only one of the two
inline std::string Diff(const std::multiset<std::string>& want, const std::multiset<std::string>& got) {
    std::vector<std::string> miss, extra;
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
    std::string out;
    for (const auto& m : miss) out += "\n    missing " + m;
    for (const auto& m : extra) out += "\n    extra   " + m;
    return out;
}

}  // namespace ct
