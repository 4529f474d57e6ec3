// B29: a context holds what its builder was told, and a builder starts over after each context.
#include "paimon/commit_context.h"
#include "paimon/core/table/source/plan_impl.h"
#include "paimon/executor.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/literal.h"
#include "paimon/predicate/predicate_builder.h"
#include "paimon/predicate/vector_search.h"
#include "paimon/read_context.h"
#include "paimon/scan_context.h"
#include "paimon/write_context.h"
#include "pbt.h"

using namespace paimon;  // NOLINT
using pbt::Case;

namespace {
using Options = std::map<std::string, std::string>;

// Runs nothing; there is nothing to run.
struct Idle : Executor {
    void Add(std::function<void()>) override {}
};

std::string Tag(const std::optional<int64_t>& v) { return v ? std::to_string(*v) : "-"; }

struct Paths {
    std::string given, normal;
};
Paths GenPath(Case& c) {
    static const std::vector<Paths> all = {{"/t", "/t"},           {"/t/", "/t"},           {"//a//b///c", "//a/b/c"},
                                           {"oss://b//x/", "oss://b/x"}, {"file:///w/t", "file:/w/t"}, {"w//t/", "w/t"},
                                           {"/", "/"},             {"hdfs://h:1/", "hdfs://h:1/"}, {"", ""}};
    return all[c.Draw(all.size() - 1)];
}
Options GenOptions(Case& c) {
    Options o;
    for (int64_t i = 0, n = c.Len(0, 3); i < n; i++) o["k" + std::to_string(c.Draw(3))] = c.Ascii(2);
    return o;
}
std::vector<std::string> GenNames(Case& c) {
    std::vector<std::string> v;
    for (int64_t i = 0, n = c.Len(0, 3); i < n; i++) v.push_back("f" + std::to_string(c.Draw(3)));
    return v;
}

// What the context under construction should hold, by name.
struct Model {
    Options options;
    std::shared_ptr<MemoryPool> pool;
    std::shared_ptr<Executor> executor;
    std::map<std::string, int64_t> numbers;  // flags and numbers that were set
    std::shared_ptr<void> objects[3];
    std::vector<Options> filters;
    std::vector<std::string> names;
    Options schemes;
    std::optional<std::string> branch, schema;
    int64_t Get(const std::string& k, int64_t otherwise) const {
        auto it = numbers.find(k);
        return it == numbers.end() ? otherwise : it->second;
    }
};

template <typename B>
bool Common(Case& c, int64_t what, B& b, Model& m) {
    switch (what) {
        case 0: {
            std::string k = "k" + std::to_string(c.Draw(3)), v = c.Ascii(2);
            b.AddOption(k, v);
            m.options[k] = v;
            return true;
        }
        case 1: m.options = GenOptions(c); b.SetOptions(m.options); return true;
        case 2: {
            m.pool = std::shared_ptr<MemoryPool>(GetMemoryPool());
            b.WithMemoryPool(m.pool);
            return true;
        }
        case 3: m.executor = std::make_shared<Idle>(); b.WithExecutor(m.executor); return true;
        default: return false;
    }
}

template <typename X>
void CheckCommon(Case& c, const X& x, const Model& m) {
    REQUIRE(x.GetOptions() == m.options, "options", x.GetOptions().size());
    REQUIRE(m.pool ? x.GetMemoryPool() == m.pool : x.GetMemoryPool() == GetDefaultPool(), "pool", "");
    REQUIRE(m.executor ? x.GetExecutor() == m.executor : x.GetExecutor() != nullptr, "executor", "");
    REQUIRE(m.executor || !std::dynamic_pointer_cast<Idle>(x.GetExecutor()), "executor-kept", "");
}

std::shared_ptr<Predicate> APredicate(Case& c) {
    return PredicateBuilder::Equal(0, "f0", FieldType::INT, Literal(static_cast<int32_t>(c.Draw(9))));
}
}  // namespace

FACET(scan, 3) {
    Paths p = GenPath(c);
    ScanContextBuilder b(p.given);
    Model m;
    int64_t n = c.Len(1, 12);
    c.NonTrivial(n >= 3);
    std::vector<std::pair<std::unique_ptr<ScanContext>, Model>> done;
    for (int64_t i = 0; i <= n; i++) {
        int64_t what = i == n ? 99 : c.Draw(11);
        c.Log() << what << " ";
        if (Common(c, what, b, m)) continue;
        switch (what) {
            case 4: b.WithStreamingMode((m.numbers["stream"] = c.Draw(1))); break;
            case 5: b.SetLimit(static_cast<int32_t>(m.numbers["limit"] = c.I32())); break;
            case 6: b.SetBucketFilter(static_cast<int32_t>(m.numbers["bucket"] = c.Draw(5))); break;
            case 7: {
                m.filters.clear();
                for (int64_t k = 0, z = c.Len(0, 3); k < z; k++) m.filters.push_back(GenOptions(c));
                b.SetPartitionFilter(m.filters);
                break;
            }
            case 8: {
                auto x = APredicate(c);
                m.objects[0] = x;
                b.SetPredicate(x);
                break;
            }
            case 9: {
                auto x = std::make_shared<VectorSearch>("f", 3, std::vector<float>{1, 2}, nullptr, nullptr);
                m.objects[1] = x;
                b.SetVectorSearch(x);
                break;
            }
            case 10: {
                std::shared_ptr<GlobalIndexResult> x = BitmapGlobalIndexResult::FromRanges({});
                m.objects[2] = x;
                b.SetGlobalIndexResult(x);
                break;
            }
            default: {
                auto made = b.Finish();
                REQUIRE(made.ok() == !p.given.empty(), "finish", made.status().ToString());
                if (!made.ok()) return;
                done.emplace_back(std::move(made).value(), m);
                m = Model();
            }
        }
    }
    for (auto& [x, want] : done) {
        CheckCommon(c, *x, want);
        REQUIRE(x->GetPath() == p.normal, "path", x->GetPath() << " want " << p.normal);
        REQUIRE(x->IsStreamingMode() == want.Get("stream", 0), "stream", "");
        REQUIRE(x->GetLimit().has_value() == want.numbers.count("limit") && (!x->GetLimit() || *x->GetLimit() == want.Get("limit", 0)), "limit", "");
        auto f = x->GetScanFilters();
        REQUIRE(f->GetBucketFilter().has_value() == want.numbers.count("bucket") && (!f->GetBucketFilter() || *f->GetBucketFilter() == want.Get("bucket", 0)), "bucket", "");
        REQUIRE(f->GetPartitionFilters() == want.filters, "filters", f->GetPartitionFilters().size());
        REQUIRE(f->GetPredicate() == want.objects[0], "predicate", "");
        REQUIRE(f->GetVectorSearch() == want.objects[1], "vector", "");
        REQUIRE(x->GetGlobalIndexResult() == want.objects[2], "index", "");
    }
}

FACET(commit, 2) {
    Paths p = GenPath(c);
    std::string user = c.Ascii(c.Int(0, 3));
    CommitContextBuilder b(p.given, user);
    Model m;
    int64_t n = c.Len(1, 8);
    c.NonTrivial(n >= 3);
    std::vector<std::pair<std::unique_ptr<CommitContext>, Model>> done;
    for (int64_t i = 0; i <= n; i++) {
        int64_t what = i == n ? 99 : c.Draw(6);
        c.Log() << what << " ";
        if (Common(c, what, b, m)) continue;
        if (what == 4) b.IgnoreEmptyCommit((m.numbers["ignore"] = c.Draw(1)));
        else if (what == 5) b.UseRESTCatalogCommit((m.numbers["rest"] = c.Draw(1)));
        else {
            auto made = b.Finish();
            REQUIRE(made.ok() == !p.given.empty(), "finish", made.status().ToString());
            if (!made.ok()) return;
            done.emplace_back(std::move(made).value(), m);
            m = Model();
        }
    }
    for (auto& [x, want] : done) {
        CheckCommon(c, *x, want);
        REQUIRE(x->GetRootPath() == p.normal && x->GetCommitUser() == user, "path", x->GetRootPath() << " " << x->GetCommitUser());
        REQUIRE(x->IgnoreEmptyCommit() == want.Get("ignore", 1), "ignore", "");
        REQUIRE(x->UseRESTCatalogCommit() == want.Get("rest", 0), "rest", "");
    }
}

FACET(write, 2) {
    Paths p = GenPath(c);
    std::string user = c.Ascii(c.Int(0, 3));
    WriteContextBuilder b(p.given, user);
    Model m;
    int64_t n = c.Len(1, 10);
    c.NonTrivial(n >= 3);
    std::vector<std::pair<std::unique_ptr<WriteContext>, Model>> done;
    for (int64_t i = 0; i <= n; i++) {
        int64_t what = i == n ? 99 : c.Draw(10);
        c.Log() << what << " ";
        if (Common(c, what, b, m)) continue;
        switch (what) {
            case 4: b.WithStreamingMode((m.numbers["stream"] = c.Draw(1))); break;
            case 5: b.WithIgnorePreviousFiles((m.numbers["ignore"] = c.Draw(1))); break;
            case 6: b.WithWriteId(static_cast<int32_t>(m.numbers["id"] = c.I32())); break;
            case 7: b.WithBranch(*(m.branch = c.Ascii(2))); break;
            case 8: b.WithWriteSchema((m.names = GenNames(c))); break;
            case 9: b.WithFileSystemSchemeToIdentifierMap((m.schemes = GenOptions(c))); break;
            default: {
                auto made = b.Finish();
                REQUIRE(made.ok() == !p.given.empty(), "finish", made.status().ToString());
                if (!made.ok()) return;
                done.emplace_back(std::move(made).value(), m);
                m = Model();
            }
        }
    }
    for (auto& [x, want] : done) {
        CheckCommon(c, *x, want);
        REQUIRE(x->GetRootPath() == p.normal && x->GetCommitUser() == user, "path", x->GetRootPath());
        REQUIRE(x->IsStreamingMode() == want.Get("stream", 0), "stream", "");
        REQUIRE(x->IgnorePreviousFiles() == want.Get("ignore", 0), "ignore", "");
        REQUIRE(!x->IgnoreNumBucketCheck(), "bucket-check", "");
        auto id = x->GetWriteId();
        REQUIRE(id.has_value() == want.numbers.count("id") && (!id || *id == want.Get("id", 0)), "id", "");
        REQUIRE(x->GetBranch() == want.branch.value_or("main"), "branch", x->GetBranch());
        REQUIRE(x->GetWriteSchema() == want.names, "names", x->GetWriteSchema().size());
        REQUIRE(x->GetFileSystemSchemeToIdentifierMap() == want.schemes, "schemes", "");
    }
}

FACET(read, 3) {
    Paths p = GenPath(c);
    ReadContextBuilder b(p.given);
    Model m;
    int64_t n = c.Len(1, 12);
    c.NonTrivial(n >= 3);
    std::vector<std::pair<std::unique_ptr<ReadContext>, Model>> done;
    for (int64_t i = 0; i <= n; i++) {
        int64_t what = i == n ? 99 : c.Draw(15);
        c.Log() << what << " ";
        if (Common(c, what, b, m)) continue;
        switch (what) {
            case 4: b.SetReadSchema((m.names = GenNames(c))); break;
            case 5: {
                auto x = APredicate(c);
                m.objects[0] = x;
                b.SetPredicate(x);
                break;
            }
            case 6: b.EnablePredicateFilter((m.numbers["filter"] = c.Draw(1))); break;
            case 7: b.EnablePrefetch((m.numbers["prefetch"] = c.Draw(1))); break;
            case 8: b.SetPrefetchBatchCount((m.numbers["batches"] = c.Draw(6))); break;
            case 9: b.SetPrefetchMaxParallelNum((m.numbers["parallel"] = c.Draw(6))); break;
            case 10: b.EnableMultiThreadRowToBatch((m.numbers["multi"] = c.Draw(1))); break;
            case 11: b.SetRowToBatchThreadNumber((m.numbers["threads"] = c.Draw(2))); break;
            case 12: b.SetTableSchema(*(m.schema = c.Ascii(3))); break;
            case 13: b.WithBranch(*(m.branch = c.Ascii(2))); break;
            case 14: b.WithFileSystemSchemeToIdentifierMap((m.schemes = GenOptions(c))); break;
            default: {
                bool prefetch = m.Get("prefetch", 0);
                bool bad = p.given.empty() ||
                           (prefetch && (m.Get("batches", 600) == 0 || m.Get("batches", 600) < m.Get("parallel", 3))) ||
                           (m.Get("multi", 0) && m.Get("threads", 1) == 0);
                auto made = b.Finish();
                REQUIRE(made.ok() == !bad, "finish", made.status().ToString());
                if (!made.ok()) return;
                done.emplace_back(std::move(made).value(), m);
                m = Model();
            }
        }
    }
    for (auto& [x, want] : done) {
        CheckCommon(c, *x, want);
        REQUIRE(x->GetPath() == p.normal, "path", x->GetPath());
        REQUIRE(x->GetReadSchema() == want.names, "names", "");
        REQUIRE(x->GetPredicate() == want.objects[0], "predicate", "");
        REQUIRE(x->EnablePredicateFilter() == want.Get("filter", 0), "filter", "");
        REQUIRE(x->EnablePrefetch() == want.Get("prefetch", 0), "prefetch", "");
        REQUIRE(x->GetPrefetchBatchCount() == want.Get("batches", 600), "batches", x->GetPrefetchBatchCount());
        REQUIRE(x->GetPrefetchMaxParallelNum() == want.Get("parallel", 3), "parallel", x->GetPrefetchMaxParallelNum());
        REQUIRE(x->EnableMultiThreadRowToBatch() == want.Get("multi", 0), "multi", "");
        REQUIRE(x->GetRowToBatchThreadNumber() == want.Get("threads", 1), "threads", "");
        REQUIRE(x->GetSpecificTableSchema() == want.schema, "schema", "");
        REQUIRE(x->GetBranch() == want.branch.value_or("main"), "branch", x->GetBranch());
        REQUIRE(x->GetFileSystemSchemeToIdentifierMap() == want.schemes, "schemes", "");
    }
}

FACET(plan, 1) {
    c.NonTrivial();
    std::optional<int64_t> id;
    if (c.Bool()) id = c.I64();
    std::vector<std::shared_ptr<Split>> splits(c.Draw(3));
    PlanImpl p(id, splits);
    REQUIRE(p.SnapshotId() == id && p.Splits().size() == splits.size(), "plan", "");
    auto e = PlanImpl::EmptyPlan();
    REQUIRE(e && !e->SnapshotId() && e->Splits().empty() && PlanImpl::EmptyPlan() == e, "empty", "");
}
