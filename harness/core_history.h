#pragma once
// The history of a table without a primary key: what was committed, in which order, next to what
// each snapshot should hold.
#include <atomic>
#include <regex>
#include <thread>

#include "core_table.h"
#include "paimon/common/utils/rapidjson_util.h"
#include "paimon/core/snapshot.h"

namespace ch {
using namespace ct;  // NOLINT

enum class What { kAppend, kOverwrite, kDrop };

struct Op {
    What what = What::kAppend;
    std::string user;
    int64_t ident = 0;
    Msgs msgs;
    std::vector<Row> rows;
    std::vector<Options_> parts;  // overwritten or dropped; none means all
    std::optional<int64_t> watermark;
    bool seen = false;  // in some snapshot
};

struct State {
    std::vector<Row> rows;
    int op = -1;
    int64_t total = 0, delta = 0;
    std::optional<int64_t> watermark;
};

struct History {
    bool outside = false;  // data files are elsewhere
    Table t;
    std::vector<Op> ops;
    std::map<std::string, int64_t> next_ident;
    std::vector<State> states{State{}};  // by snapshot id
    int64_t earliest = 1;                // of the snapshots that should be there
    Options_ more;                       // options of committers
};

inline void GenTable(pbt::Case& c, History* h) {
    Table& t = h->t;
    for (int i = 0, n = static_cast<int>(c.Weighted({3, 3, 2})); i < n; i++) {
        T pt;
        pt.k = c.PickOf<cv::K>({cv::K::kI32, cv::K::kStr});
        t.parts.push_back("p" + std::to_string(i));
        t.names.push_back(t.parts.back());
        t.types.push_back(pt);
    }
    for (int i = 0, n = static_cast<int>(c.Int(1, 2)); i < n; i++) {
        T vt;
        vt.k = c.PickOf<cv::K>({cv::K::kI64, cv::K::kStr});
        t.names.push_back("v" + std::to_string(i));
        t.types.push_back(vt);
    }
    t.opts[Options::BUCKET] = "-1";
    t.opts[Options::FILE_FORMAT] = c.PickOf<std::string>({"orc", "parquet"});
    t.opts[Options::MANIFEST_MERGE_MIN_COUNT] = std::to_string(c.PickOf<int>({2, 3, 30}));
    t.opts[Options::MANIFEST_TARGET_FILE_SIZE] = c.PickOf<std::string>({"8mb", "500b", "2kb"});
    t.opts[Options::MANIFEST_FULL_COMPACTION_FILE_SIZE] = c.PickOf<std::string>({"16mb", "1kb"});
    t.opts[Options::TARGET_FILE_SIZE] = c.PickOf<std::string>({"128mb", "200b"});
    h->outside = c.Chance(1, 5);
    if (h->outside) {
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS] = "mem://ext1/a,mem://ext2";
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS_STRATEGY] = "round-robin";
    }
    t.opts["row-tracking.enabled"] = c.Chance(1, 4) ? "true" : "false";
    vfmt::GetKnobs().row_group = 64;
    vfmt::GetKnobs().prefetch = false;
}

inline std::string PartText(const T& t, const Cell& c) {
    if (c.null) return "__DEFAULT_PARTITION__";
    return cv::IsText(t.k) ? c.s : std::to_string(c.i);
}

inline std::string Describe(const History& h) {
    std::string s;
    for (const auto& [k, v] : h.t.opts) s += " " + k + "=" + v;
    for (size_t i = 1; i < h.states.size(); i++) {
        const Op& op = h.ops[h.states[i].op];
        s += "\n  snapshot " + std::to_string(i) + ": " + op.user + "/" + std::to_string(op.ident) +
             (op.what == What::kAppend ? " append" : op.what == What::kOverwrite ? " overwrite" : " drop") + " +" +
             std::to_string(op.rows.size()) + " -> " + std::to_string(h.states[i].rows.size()) + " rows";
    }
    return s;
}

// Writes rows for an operation. Returns the error of a writer that met a fault.
inline Status Write(pbt::Case& c, History* h, Op* op, const std::string& owner, bool empty_ok = true) {
    const Table& t = h->t;
    Options_ more{{"mem.owner", owner}};
    PAIMON_ASSIGN_OR_RAISE(auto writer, t.Writer(op->user, more));
    for (size_t b = 0, n = c.Len(empty_ok ? 0 : 1, 3); b < n; b++) {
        Options_ part;
        Row fixed;
        for (size_t i = 0; i < t.parts.size(); i++) {
            fixed.push_back(cv::GenCell(c, t.types[i], 3, 8));
            part[t.parts[i]] = PartText(t.types[i], fixed.back());
        }
        std::vector<Row> rows;
        for (size_t i = 0, m = c.Len(1, 4); i < m; i++) {
            Row r = fixed;
            for (size_t k = t.parts.size(); k < t.types.size(); k++) r.push_back(cv::GenCell(c, t.types[k], 0, 6));
            rows.push_back(r);
            op->rows.push_back(r);
        }
        PAIMON_ASSIGN_OR_RAISE(auto batch, t.Batch(rows, part, 0));
        PAIMON_RETURN_NOT_OK(writer->Write(std::move(batch)));
    }
    PAIMON_ASSIGN_OR_RAISE(op->msgs, writer->PrepareCommit(/*wait_compaction=*/false, op->ident));
    return writer->Close();
}

inline Op GenOp(pbt::Case& c, History* h, const std::string& user) {
    Op op;
    op.user = user;
    op.ident = ++h->next_ident[user];
    if (c.Chance(1, 6)) op.ident = h->next_ident[user] += 3;
    op.what = static_cast<What>(c.Weighted({6, 2, h->t.parts.empty() ? 0 : 2}));
    if (op.what != What::kAppend && !h->t.parts.empty()) {
        bool all = op.what == What::kOverwrite && c.Chance(1, 4);
        for (size_t i = 0, n = all ? 0 : c.Int(1, 2); i < n; i++) {
            Options_ p;
            int keep = static_cast<int>(c.Int(1, static_cast<int64_t>(h->t.parts.size())));
            for (int k = 0; k < keep; k++) {
                int at = keep == 1 ? static_cast<int>(c.Int(0, static_cast<int64_t>(h->t.parts.size()) - 1)) : k;
                p[h->t.parts[at]] = PartText(h->t.types[at], cv::GenCell(c, h->t.types[at], 3, 8));
            }
            op.parts.push_back(p);
        }
    }
    if (op.what != What::kDrop && c.Chance(1, 3)) op.watermark = c.Int(1, 100);
    return op;
}

inline bool Hit(const Table& t, const std::vector<Options_>& parts, const Row& r) {
    if (parts.empty()) return true;
    for (const auto& p : parts) {
        bool all = true;
        for (size_t i = 0; i < t.parts.size(); i++) {
            auto it = p.find(t.parts[i]);
            all = all && (it == p.end() || it->second == PartText(t.types[i], r[i]));
        }
        if (all) return true;
    }
    return false;
}

// A committer of its own runs the operation.
inline Status Run(const History& h, const Op& op, const std::string& owner) {
    Options_ more = h.more;
    more["mem.owner"] = owner;
    PAIMON_ASSIGN_OR_RAISE(auto committer, h.t.Committer(op.user, more));
    switch (op.what) {
        case What::kAppend: return committer->Commit(op.msgs, op.ident, op.watermark);
        case What::kOverwrite: return committer->Overwrite(op.parts, op.msgs, op.ident, op.watermark);
        default: return committer->DropPartition(op.parts, op.ident);
    }
}

// Repeats an operation unless it was carried out; returns how many were.
inline Result<int32_t> Again(const History& h, const Op& op, const std::string& owner) {
    Options_ more = h.more;
    more["mem.owner"] = owner;
    PAIMON_ASSIGN_OR_RAISE(auto committer, h.t.Committer(op.user, more));
    if (op.what == What::kAppend) return committer->FilterAndCommit({{op.ident, op.msgs}}, op.watermark);
    return committer->FilterAndOverwrite(op.parts, op.msgs, op.ident, op.watermark);
}

inline std::string SnapshotPath(const History& h, int64_t id) {
    return h.t.path + "/snapshot/snapshot-" + std::to_string(id);
}

// Takes up the snapshots that appeared: each must follow the one before, belong to an operation
// that was asked for, and no operation may appear twice.
inline void Notice(pbt::Case& c, History* h, const char* when) {
    auto& store = memfs::Store::Get();
    while (true) {
        auto id = static_cast<int64_t>(h->states.size());
        if (!store.Has(SnapshotPath(*h, id))) break;
        auto text = store.Content(SnapshotPath(*h, id));
        Snapshot s;
        REQUIRE_OK(RapidJsonUtil::FromJsonString(text, &s), "snapshot_text");
        int found = -1;
        for (size_t i = 0; i < h->ops.size(); i++) {
            if (h->ops[i].user == s.CommitUser() && h->ops[i].ident == s.CommitIdentifier()) found = static_cast<int>(i);
        }
        REQUIRE(found >= 0, "unknown_commit", when << ": snapshot " << id << " is of an operation nobody asked for: " << text);
        Op& op = h->ops[found];
        REQUIRE(!op.seen, "twice", when << ": " << op.user << "/" << op.ident << " was committed twice, again as " << id << Describe(*h));
        op.seen = true;
        State next = h->states.back();
        int64_t before = next.total;
        next.op = found;
        if (op.what != What::kAppend) {
            std::vector<Row> left;
            for (const auto& r : next.rows) if (!Hit(h->t, op.parts, r)) left.push_back(r);
            next.rows = left;
        }
        next.rows.insert(next.rows.end(), op.rows.begin(), op.rows.end());
        next.total = static_cast<int64_t>(next.rows.size());
        next.delta = next.total - before;
        if (op.watermark) next.watermark = std::max(next.watermark.value_or(*op.watermark), *op.watermark);
        h->states.push_back(next);
        bool kind = op.what == What::kAppend ? s.GetCommitKind() == Snapshot::CommitKind::Append()
                                             : s.GetCommitKind() == Snapshot::CommitKind::Overwrite();
        REQUIRE(s.Id() == id && kind && s.SchemaId() == 0, "snapshot_fields", when << ": " << text);
        REQUIRE(s.TotalRecordCount() == std::optional<int64_t>(next.total) &&
                    s.DeltaRecordCount() == std::optional<int64_t>(next.delta),
                "record_count", when << ": snapshot " << id << " should count " << next.total << " rows, " << next.delta
                                     << " of them new: " << text << Describe(*h));
        REQUIRE(s.Watermark() == next.watermark, "watermark", when << ": snapshot " << id << " " << text);
    }
    for (const auto& f : store.Files(h->t.path + "/snapshot")) {
        std::string name = f.substr(f.rfind('/') + 1);
        if (name.rfind("snapshot-", 0) != 0) continue;
        int64_t id = std::stoll(name.substr(9));
        REQUIRE(id < static_cast<int64_t>(h->states.size()), "gap", when << ": snapshot " << id << " does not follow " << h->states.size() - 1);
    }
}

inline void CheckSnapshot(pbt::Case& c, const History& h, int64_t id, bool by_id, const char* when) {
    Table::ReadSpec s;
    if (by_id) {
        s.snapshot = id;
        s.mode = StartupMode::FromSnapshotFull().ToString();
    }
    auto res = h.t.ReadAll(s);
    REQUIRE(res.ok(), "read", when << ": snapshot " << id << (by_id ? "" : " (the latest)") << " cannot be read: "
                                   << res.status().ToString() << Describe(h));
    auto want = Bag(h.t.types, h.states[id].rows);
    auto got = Bag(h.t.types, res.value());
    REQUIRE(got == want, "rows", when << ": snapshot " << id << (by_id ? "" : " (the latest)") << Diff(want, got) << Describe(h));
    c.Eval(1);
}

// The latest snapshot and some of the others.
inline void CheckSome(pbt::Case& c, History* h, const char* when, int others) {
    Notice(c, h, when);
    auto latest = static_cast<int64_t>(h->states.size()) - 1;
    CheckSnapshot(c, *h, latest, false, when);
    for (int i = 0; i < others && latest > h->earliest; i++) {
        CheckSnapshot(c, *h, c.Int(h->earliest, latest), true, when);
    }
}

}  // namespace ch
