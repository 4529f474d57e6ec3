// C01: what was committed to an append table is what every later read of that snapshot returns.
#include "core_table.h"

using namespace ct;  // NOLINT

namespace {

struct World {
    Table t;
    std::vector<int> part_cols;
    int buckets = -1;
    std::vector<std::vector<Row>> snaps;                 // rows of each snapshot
    std::vector<std::vector<int>> snap_bucket;           // bucket of each row
};

std::string PartText(const T& t, const Cell& c) {
    if (c.null) return "__DEFAULT_PARTITION__";
    return cv::IsText(t.k) ? c.s : std::to_string(c.i);
}

void GenTable(pbt::Case& c, World* w) {
    Table& t = w->t;
    int nparts = static_cast<int>(c.Weighted({4, 3, 1}));
    int nvals = static_cast<int>(c.Int(1, 4));
    for (int i = 0; i < nparts; i++) {
        t.names.push_back("p" + std::to_string(i));
        T pt;
        pt.k = c.PickOf<cv::K>({cv::K::kI32, cv::K::kStr, cv::K::kI64});
        t.types.push_back(pt);
    }
    for (int i = 0; i < nvals; i++) {
        t.names.push_back("f" + std::to_string(i));
        t.types.push_back(cv::GenType(c, 2));
    }
    // partition columns anywhere in the schema
    for (size_t i = t.names.size(); i > 1; i--) {
        size_t j = c.Int(0, static_cast<int64_t>(i) - 1);
        std::swap(t.names[i - 1], t.names[j]);
        std::swap(t.types[i - 1], t.types[j]);
    }
    for (int i = 0; i < nparts; i++) t.parts.push_back("p" + std::to_string(i));
    for (const auto& p : t.parts) w->part_cols.push_back(t.Index(p));
    w->buckets = c.Chance(2, 3) ? -1 : static_cast<int>(c.Int(1, 3));
    t.opts[Options::BUCKET] = std::to_string(w->buckets);
    if (w->buckets > 0) {
        int at = -1;
        for (size_t i = 0; i < t.names.size(); i++) {
            if (t.names[i][0] == 'f' && t.types[i].kids.empty()) at = static_cast<int>(i);
        }
        if (at < 0) {
            w->buckets = -1;
            t.opts[Options::BUCKET] = "-1";
        } else {
            t.opts[Options::BUCKET_KEY] = t.names[at];
        }
    }
    t.opts[Options::FILE_FORMAT] = c.PickOf<std::string>({"orc", "parquet"});
    t.opts[Options::TARGET_FILE_SIZE] = c.PickOf<std::string>({"128mb", "1kb", "200b"});
    t.opts[Options::READ_BATCH_SIZE] = std::to_string(c.PickOf<int>({1, 2, 7, 1024}));
    t.opts[Options::WRITE_BATCH_SIZE] = std::to_string(c.PickOf<int>({1, 3, 1024}));
    t.opts[Options::SOURCE_SPLIT_TARGET_SIZE] = c.PickOf<std::string>({"128mb", "1b", "600b"});
    if (c.Chance(1, 6)) {
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS] = "mem://ext1/a,mem://ext2";
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS_STRATEGY] = "round-robin";
    }
    if (c.Chance(1, 6)) t.opts[Options::DATA_FILE_PREFIX] = "x";
    t.opts[Options::SOURCE_SPLIT_OPEN_FILE_COST] = c.PickOf<std::string>({"4mb", "1b"});
    t.opts[Options::MANIFEST_MERGE_MIN_COUNT] = std::to_string(c.PickOf<int>({2, 3, 30}));
    t.opts[Options::MANIFEST_TARGET_FILE_SIZE] = c.PickOf<std::string>({"8mb", "500b"});
    t.opts[Options::MANIFEST_FULL_COMPACTION_FILE_SIZE] = c.PickOf<std::string>({"16mb", "1b"});
    vfmt::GetKnobs().row_group = c.PickOf<int64_t>({1, 2, 5, 64});
    vfmt::GetKnobs().prefetch = c.Bool();
}

std::string Describe(const World& w) {
    std::string s;
    for (size_t i = 0; i < w.t.names.size(); i++) s += w.t.names[i] + ":" + cv::ToArrow(w.t.types[i])->ToString() + " ";
    for (const auto& [k, v] : w.t.opts) s += "\n  " + k + "=" + v;
    return s;
}

using Key = std::pair<std::map<std::string, std::string>, int>;

void WriteSome(pbt::Case& c, World* w, FileStoreWrite* writer, std::vector<Row>* now, std::vector<int>* now_bucket) {
    Table& t = w->t;
    size_t nbatch = c.Len(1, 4);
    for (size_t b = 0; b < nbatch; b++) {
        Options_ part;
        Row fixed(t.names.size());
        for (size_t i = 0; i < w->part_cols.size(); i++) {
            int col = w->part_cols[i];
            Cell v = cv::GenCell(c, t.types[col], 3, 8);
            fixed[col] = v;
            part[t.parts[i]] = PartText(t.types[col], v);
        }
        int bucket = w->buckets > 0 ? static_cast<int>(c.Int(0, w->buckets - 1)) : 0;
        std::vector<Row> rows;
        for (size_t i = 0, n = c.Len(1, 12); i < n; i++) {
            Row r(t.names.size());
            for (size_t col = 0; col < r.size(); col++) {
                bool is_part = std::count(w->part_cols.begin(), w->part_cols.end(), static_cast<int>(col));
                r[col] = is_part ? fixed[col] : cv::GenCell(c, t.types[col]);
            }
            rows.push_back(r);
            now->push_back(r);
            now_bucket->push_back(bucket);
        }
        UNWRAP(auto batch, t.Batch(rows, part, bucket), "batch");
        REQUIRE_OK(writer->Write(std::move(batch)), "write");
    }
}

void Check(pbt::Case& c, const World& w, const char* when) {
    const Table& t = w.t;
    Table::ReadSpec s;
    int64_t latest = static_cast<int64_t>(w.snaps.size());
    int64_t id = c.Chance(1, 2) ? latest : c.Int(1, latest);
    if (id != latest || c.Chance(1, 4)) {
        s.snapshot = id;
        s.mode = StartupMode::FromSnapshotFull().ToString();
        if (c.Bool()) s.mode = StartupMode::FromSnapshot().ToString();
    }
    if (c.Chance(1, 2)) {
        std::vector<std::string> cols = t.names;
        for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[c.Int(0, static_cast<int64_t>(i) - 1)]);
        cols.resize(c.Int(1, static_cast<int64_t>(cols.size())));
        s.columns = cols;
    }
    s.prefetch = c.Bool();
    const auto& rows = w.snaps[id - 1];
    const auto& row_bucket = w.snap_bucket[id - 1];
    std::vector<bool> keep(rows.size(), true);
    if (w.buckets > 0 && c.Chance(1, 3)) {
        s.bucket = static_cast<int>(c.Int(0, w.buckets - 1));
        for (size_t i = 0; i < rows.size(); i++) keep[i] = row_bucket[i] == *s.bucket;
    }
    if (!t.parts.empty() && c.Chance(1, 3)) {
        std::vector<bool> any(rows.size(), false);
        for (size_t k = 0, n = c.Len(1, 2); k < n; k++) {
            Options_ f;
            std::vector<std::pair<int, std::string>> want;
            for (size_t i = 0; i < t.parts.size(); i++) {
                if (i + 1 < t.parts.size() && c.Chance(1, 3)) continue;
                int col = w.part_cols[i];
                std::string text = PartText(t.types[col], cv::GenCell(c, t.types[col], 3, 8));
                f[t.parts[i]] = text;
                want.emplace_back(col, text);
            }
            s.part_filters.push_back(f);
            for (size_t i = 0; i < rows.size(); i++) {
                bool ok = true;
                for (auto& [col, text] : want) ok &= PartText(t.types[col], rows[i][col]) == text;
                if (ok) any[i] = true;
            }
        }
        for (size_t i = 0; i < rows.size(); i++) keep[i] = keep[i] && any[i];
        c.Label("partition filter");
    }
    std::vector<T> types = t.TypesOf(s);
    std::vector<Row> want;
    for (size_t i = 0; i < rows.size(); i++) {
        if (!keep[i]) continue;
        if (s.columns.empty()) { want.push_back(rows[i]); continue; }
        Row r;
        for (const auto& n : s.columns) r.push_back(rows[i][t.Index(n)]);
        want.push_back(r);
    }
    UNWRAP(auto got, t.ReadAll(s), "read");
    auto a = Bag(types, want), b = Bag(types, got);
    REQUIRE(a == b, "rows", when << ": snapshot " << id << " of " << latest << " reads wrongly" << Diff(a, b) << "\n" << Describe(w));
    c.Eval(1);
}

}  // namespace

FACET(append_table, 10) {
    memfs::Store::Get().Reset();
    World w;
    GenTable(c, &w);
    c.Log() << Describe(w);
    REQUIRE_OK(w.t.Create(), "create");
    bool streaming = c.Bool();
    std::unique_ptr<FileStoreWrite> writer;
    UNWRAP(auto commit, w.t.Committer("u"), "committer");
    size_t commits = c.Len(1, 6);
    std::vector<Row> all;
    std::vector<int> all_bucket;
    for (size_t k = 0; k < commits; k++) {
        if (!writer || !streaming || c.Chance(1, 3)) {
            UNWRAP(auto fresh, w.t.Writer("u", {}, streaming), "writer");
            writer = std::move(fresh);
        }
        std::vector<Row> now;
        std::vector<int> now_bucket;
        WriteSome(c, &w, writer.get(), &now, &now_bucket);
        UNWRAP(auto msgs, writer->PrepareCommit(c.Bool(), static_cast<int64_t>(k)), "prepare");
        REQUIRE_OK(commit->Commit(msgs, static_cast<int64_t>(k)), "commit");
        all.insert(all.end(), now.begin(), now.end());
        all_bucket.insert(all_bucket.end(), now_bucket.begin(), now_bucket.end());
        w.snaps.push_back(all);
        w.snap_bucket.push_back(all_bucket);
        if (c.Chance(1, 2)) Check(c, w, "between commits");
    }
    c.NonTrivial(commits > 1 && all.size() > 3);
    Check(c, w, "at the end");
    Check(c, w, "again");
    REQUIRE_OK(writer->Close(), "close");
    writer.reset();
    REQUIRE(memfs::Store::Get().OpenOutputs() == 0, "leak", "output streams left open");
}
