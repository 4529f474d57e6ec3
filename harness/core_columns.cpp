// C16: rows keep their numbers, and columns written later for rows already there replace theirs.
#include "core_world.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/core/global_index/indexed_split_impl.h"
#include "paimon/data/blob.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/fs/file_system_factory.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/global_index/global_index_write_task.h"

using namespace cw;  // NOLINT

namespace {

struct Numbered {
    Rec rec;
    int64_t seq = 0;
};

// the rows of files written together, the same rows in every file of the group
struct Group {
    int64_t first = 0, count = 0;
    Options_ part;
};

struct State {
    std::map<int64_t, Numbered> rows;
    std::vector<Group> groups;
    int64_t next = 0;
};

struct Store {
    World w;
    bool columns = true;  // whether columns can be written later
    bool blob = false;
    int copies = 0;  // files holding blobs to be written
    std::set<int> indexed;  // fields not to be written again
    std::set<int64_t> covered;  // groups with an index
    std::vector<State> snaps{State{}};
    const State& Now() const { return snaps.back(); }
};

std::map<std::string, std::shared_ptr<DataFileMeta>> FilesNow(pbt::Case& c, const Store& s) {
    std::map<std::string, std::shared_ptr<DataFileMeta>> out;
    UNWRAP(auto scan, s.w.t.Scan({}), "plan");
    UNWRAP(auto plan, scan->CreatePlan(), "plan");
    for (const auto& split : plan->Splits()) {
        auto d = std::dynamic_pointer_cast<DataSplitImpl>(split);
        REQUIRE(d, "plan", "a split of another kind");
        for (const auto& f : d->DataFiles()) {
            REQUIRE(out.emplace(f->file_name, f).second, "twice", f->file_name << " is planned twice");
        }
    }
    return out;
}

std::shared_ptr<CommitMessageImpl> Impl(const std::shared_ptr<CommitMessage>& m) {
    return std::dynamic_pointer_cast<CommitMessageImpl>(m);
}

bool IsBlob(const DataFileMeta& f) { return BlobUtils::IsBlobFile(f.file_name); }

// Rows in which blobs are replaced by descriptors of places holding them.
std::vector<Row> Described(pbt::Case& c, Store* s, const std::vector<T>& types, const std::vector<Row>& rows) {
    std::vector<Row> out = rows;
    for (auto& r : out) {
        for (size_t k = 0; k < types.size(); k++) {
            if (types[k].k != cv::K::kBlob) continue;
            std::string path = "/blobs/" + std::to_string(s->copies++);
            std::string before = c.Bytes(c.Len(0, 3)), after = c.Bytes(c.Len(0, 3));
            memfs::Store::Get().Put(path, before + r[k].s + after);
            bool rest = c.Bool() && after.empty();
            UNWRAP(auto blob, Blob::FromPath(path, static_cast<int64_t>(before.size()), rest ? -1 : static_cast<int64_t>(r[k].s.size())), "blob");
            auto bytes = blob->ToDescriptor(GetDefaultPool());
            r[k].s = std::string(bytes->data(), bytes->size());
        }
    }
    return out;
}

struct Appended {
    Options_ part;
    std::vector<Rec> rows;
};

void Append(pbt::Case& c, Store* s, int64_t id, Msgs* msgs, std::map<std::string, Appended>* files) {
    World& w = s->w;
    bool described = s->blob && c.Chance(1, 3);
    UNWRAP(auto writer, w.t.Writer("u", {{Options::BLOB_AS_DESCRIPTOR, described ? "true" : "false"}}), "writer");
    std::map<std::string, Appended> by_part;
    for (size_t b = 0, n = c.Len(1, 3); b < n; b++) {
        Options_ part;
        Row fixed(w.fields.size());
        for (size_t i = 0; i < w.fields.size(); i++) {
            const Field& f = w.fields[i];
            if (f.role != "p") continue;
            fixed[i] = cv::GenCell(c, f.type, 2, 8);
            part[f.name] = PartText(f.type, fixed[i]);
        }
        std::string key;
        for (const auto& [k, v] : part) key += k + "=" + v + "/";
        std::vector<Row> rows;
        auto& into = by_part[key];
        into.part = part;
        for (size_t i = 0, m = c.Len(1, 12); i < m; i++) {
            Row r(w.fields.size());
            Rec rec;
            for (size_t k = 0; k < r.size(); k++) {
                r[k] = w.fields[k].role == "p" ? fixed[k] : GenValue(c, w, w.fields[k].type, 6);
                rec.cells[w.fields[k].id] = {w.fields[k].type, r[k]};
            }
            rows.push_back(r);
            into.rows.push_back(rec);
        }
        UNWRAP(auto batch, w.t.Batch(described ? Described(c, s, w.t.types, rows) : rows, part, 0), "batch");
        REQUIRE_OK(writer->Write(std::move(batch)), "write");
    }
    UNWRAP(auto made, writer->PrepareCommit(true, id), "prepare");
    REQUIRE_OK(writer->Close(), "close");
    // each message is of one partition; find out which by the rows its files have
    for (const auto& m : made) {
        auto impl = Impl(m);
        int64_t total = 0;
        for (const auto& f : impl->GetNewFilesIncrement().NewFiles()) if (!IsBlob(*f)) total += f->row_count;
        std::string key;
        {
            int at = 0;
            std::map<std::string, std::string> vals;
            for (const auto& p : w.t.parts) {
                const T& ty = w.t.types[w.t.Index(p)];
                const BinaryRow& r = impl->Partition();
                if (r.IsNullAt(at)) vals[p] = "__DEFAULT_PARTITION__";
                else if (ty.k == cv::K::kStr) vals[p] = r.GetString(at).ToString();
                else if (ty.k == cv::K::kI64) vals[p] = std::to_string(r.GetLong(at));
                else vals[p] = std::to_string(r.GetInt(at));
                at++;
            }
            for (const auto& [k, v] : vals) key += k + "=" + v + "/";
        }
        auto it = by_part.find(key);
        REQUIRE(it != by_part.end(), "partition", "a message for partition " << key << " nothing was written to");
        REQUIRE(total == static_cast<int64_t>(it->second.rows.size()), "counts",
                total << " rows in files of partition " << key << ", " << it->second.rows.size() << " were written");
        size_t at = 0;
        for (const auto& f : impl->GetNewFilesIncrement().NewFiles()) {
            if (IsBlob(*f)) continue;
            Appended a;
            a.part = it->second.part;
            for (int64_t i = 0; i < f->row_count; i++) a.rows.push_back(it->second.rows[at++]);
            (*files)[f->file_name] = a;
        }
        by_part.erase(it);
        msgs->push_back(m);
    }
    REQUIRE(by_part.empty(), "partition", "nothing prepared for some partition");
}

// Writes some columns of the rows of a group again.
void Update(pbt::Case& c, Store* s, int64_t id, const Group& g, const std::vector<int>& cols, State* now,
                        int64_t snapshot, Msgs* msgs) {
    World& w = s->w;
    Table sub = w.t;
    sub.names.clear();
    sub.types.clear();
    for (int k : cols) {
        sub.names.push_back(w.fields[k].name);
        sub.types.push_back(w.fields[k].type);
    }
    sub.write_columns = sub.names;
    bool described = s->blob && c.Chance(1, 3);
    UNWRAP(auto writer, sub.Writer("u", {{Options::TARGET_FILE_SIZE, "128mb"},
                                         {Options::BLOB_TARGET_FILE_SIZE, c.PickOf<std::string>({"128mb", "60b", "1b"})},
                                         {Options::BLOB_AS_DESCRIPTOR, described ? "true" : "false"}}), "writer");
    for (int64_t at = 0; at < g.count;) {
        int64_t n = c.Int(1, g.count - at);
        std::vector<Row> rows;
        for (int64_t i = 0; i < n; i++) {
            Numbered& num = now->rows[g.first + at + i];
            Row r;
            for (int k : cols) {
                const Field& f = w.fields[k];
                Cell v = f.role == "p" ? num.rec.cells[f.id].second : GenValue(c, w, f.type, 5);
                r.push_back(v);
                num.rec.cells[f.id] = {f.type, v};
            }
            num.seq = snapshot;
            rows.push_back(r);
        }
        UNWRAP(auto batch, sub.Batch(described ? Described(c, s, sub.types, rows) : rows, g.part, 0), "batch");
        REQUIRE_OK(writer->Write(std::move(batch)), "write");
        at += n;
    }
    UNWRAP(auto made, writer->PrepareCommit(true, id), "prepare");
    REQUIRE_OK(writer->Close(), "close");
    for (const auto& m : made) {
        auto impl = Impl(m);
        int64_t plain = 0, blobs = 0;
        for (const auto& f : impl->GetNewFilesIncrement().NewFiles()) {
            int64_t& at = IsBlob(*f) ? blobs : plain;
            f->AssignFirstRowId(g.first + at);
            at += f->row_count;
            if (IsBlob(*f)) continue;
            REQUIRE(plain == g.count, "files", "a column of a group was written as several files");
        }
        msgs->push_back(m);
    }
}

std::string ShowState(const Store& s) {
    std::string out = Describe(s.w);
    for (const auto& g : s.Now().groups) out += "\n  rows " + std::to_string(g.first) + " +" + std::to_string(g.count);
    return out;
}

void Step(pbt::Case& c, Store* s, FileStoreCommit* commit, int64_t id) {
    World& w = s->w;
    State next = s->Now();
    int64_t snapshot = static_cast<int64_t>(s->snaps.size());
    Msgs msgs;
    std::map<std::string, Appended> files;
    bool update = s->columns && !next.groups.empty() && c.Chance(2, 3);
    if (!update || c.Chance(1, 4)) Append(c, s, id, &msgs, &files);
    if (update) {
        std::vector<Group> some;
        for (const auto& g : next.groups) if (c.Chance(1, 2)) some.push_back(g);
        if (some.empty()) some.push_back(next.groups[c.Int(0, static_cast<int64_t>(next.groups.size()) - 1)]);
        for (const auto& g : some) {
            std::vector<int> cols;
            for (size_t k = 0; k < w.fields.size(); k++) {
                if (!s->indexed.count(w.fields[k].id)) cols.push_back(static_cast<int>(k));
            }
            if (cols.empty()) continue;
            for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[c.Int(0, static_cast<int64_t>(i) - 1)]);
            cols.resize(c.Int(1, static_cast<int64_t>(cols.size())));
            bool alone = s->blob && cols.size() == 1 && w.fields[cols[0]].type.k == cv::K::kBlob;
            if (alone) continue;  // blobs are written next to other columns
            size_t cut = cols.size() > 1 && !s->blob && c.Chance(1, 4) ? c.Int(1, static_cast<int64_t>(cols.size()) - 1) : cols.size();
            Update(c, s, id, g, std::vector<int>(cols.begin(), cols.begin() + cut), &next, snapshot, &msgs);
            if (cut < cols.size()) Update(c, s, id, g, std::vector<int>(cols.begin() + cut, cols.end()), &next, snapshot, &msgs);
            c.Label("columns written later");
        }
    }
    if (msgs.empty()) return;
    for (size_t i = msgs.size(); i > 1; i--) std::swap(msgs[i - 1], msgs[c.Int(0, static_cast<int64_t>(i) - 1)]);
    REQUIRE_OK(commit->Commit(msgs, id), "commit");
    int64_t before = next.next;
    std::set<int64_t> given;
    for (const auto& [name, meta] : FilesNow(c, *s)) {
        auto it = files.find(name);
        if (it == files.end()) continue;
        REQUIRE(meta->first_row_id, "number", name << " has no row numbers\n" << Describe(w));
        int64_t first = *meta->first_row_id;
        Group g{first, static_cast<int64_t>(it->second.rows.size()), it->second.part};
        for (int64_t i = 0; i < g.count; i++) {
            REQUIRE(first + i >= before && given.insert(first + i).second, "number",
                    name << " is given row " << first + i << ", which is taken\n" << Describe(w));
            next.rows[first + i] = Numbered{it->second.rows[i], snapshot};
        }
        next.groups.push_back(g);
        next.next = std::max(next.next, first + g.count);
        files.erase(it);
    }
    REQUIRE(files.empty(), "lost", "committed files are not planned\n" << Describe(w));
    REQUIRE(next.next - before == static_cast<int64_t>(given.size()), "number",
            "rows " << before << " to " << next.next << " are not all given\n" << Describe(w));
    s->snaps.push_back(next);
    w.commits.emplace_back();
}

void CheckRead(pbt::Case& c, const Store& s) {
    const World& w = s.w;
    const Table& t = w.t;
    Table::ReadSpec spec;
    int64_t latest = static_cast<int64_t>(s.snaps.size()) - 1;
    int64_t id = c.Chance(3, 4) ? latest : c.Int(1, latest);
    const State& at = s.snaps[id];
    if (id != latest) {
        spec.snapshot = id;
        spec.mode = StartupMode::FromSnapshotFull().ToString();
    }
    // which rows are asked for
    std::map<int64_t, float> score;
    std::optional<std::set<int64_t>> picked;
    bool scored = false;
    if (s.columns && c.Chance(1, 2)) {
        picked.emplace();
        std::vector<Range> ranges;
        for (size_t i = 0, n = c.Len(1, 4); i < n; i++) {
            int64_t a = c.Int(0, at.next), b = a + c.Int(0, c.Bool() ? 2 : 12);
            for (int64_t k = a; k <= b; k++) picked->insert(k);
        }
        RoaringBitmap64 bm;
        std::vector<float> scores;
        for (int64_t k : *picked) {
            bm.Add(k);
            score[k] = static_cast<float>(c.Int(0, 1000)) / 8;
            scores.push_back(score[k]);
        }
        scored = c.Bool();
        if (scored) {
            spec.picked = std::make_shared<BitmapVectorSearchGlobalIndexResult>(std::move(bm), std::move(scores));
        } else {
            for (int64_t k : *picked) {
                if (!ranges.empty() && ranges.back().to + 1 == k) ranges.back().to = k;
                else ranges.push_back(Range(k, k));
            }
            spec.picked = BitmapGlobalIndexResult::FromRanges(ranges);
        }
        c.Label(scored ? "scored" : "picked");
    }
    std::vector<std::string> cols = t.names;
    bool special = c.Chance(3, 4);
    if (special) {
        cols.push_back("_ROW_ID");
        cols.push_back("_SEQUENCE_NUMBER");
        if (picked) cols.push_back("_INDEX_SCORE");
    }
    if (special || c.Bool()) {
        for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[c.Int(0, static_cast<int64_t>(i) - 1)]);
        cols.resize(c.Int(1, static_cast<int64_t>(cols.size())));
        spec.columns = cols;
    }
    spec.prefetch = c.Bool();
    auto types = t.TypesOf(spec);
    std::vector<Row> all;
    for (const auto& [k, num] : at.rows) {
        if (picked && !picked->count(k)) continue;
        Row full = RowOf(w, num.rec), r;
        for (const auto& n : cols) {
            if (n == "_ROW_ID") r.push_back(cv::I(k));
            else if (n == "_SEQUENCE_NUMBER") r.push_back(cv::I(num.seq));
            else if (n == "_INDEX_SCORE") r.push_back(scored ? cv::D(score[k]) : cv::Null());
            else r.push_back(full[t.Index(n)]);
        }
        all.push_back(r);
    }
    Pred p;
    if (c.Chance(1, 2)) {
        auto near = [&](int col) {
            if (!all.empty() && c.Chance(1, 2)) {
                const Cell& v = all[c.Int(0, static_cast<int64_t>(all.size()) - 1)][col];
                if (!v.null) return v;
            }
            return cv::GenCell(c, types[col], w.space ? w.space + 2 : 0, 0);
        };
        std::vector<T> usable = types;
        T list;
        list.k = cv::K::kList;
        list.kids.resize(1);
        bool any = false;
        for (size_t i = 0; i < usable.size(); i++) {
            if (cols[i][0] == '_' || types[i].k == cv::K::kBlob) usable[i] = list;
            any |= usable[i].kids.empty();
        }
        if (any) {
            p = cp::Gen(c, cols, usable, near);
            spec.predicate = p.p;
            spec.filter = c.Bool();
            spec.scan_predicate = c.Chance(4, 5);
            c.Label(spec.filter ? "filtered" : "predicate");
        }
    }
    if (!spec.predicate && c.Chance(1, 4)) spec.limit = static_cast<int>(c.Int(1, 20));
    std::string what = "snapshot " + std::to_string(id) + " of " + std::to_string(latest) + " columns";
    for (const auto& n : cols) what += " " + n;
    if (spec.predicate) what += " where " + p.text;
    if (spec.limit) what += " limit " + std::to_string(*spec.limit);
    if (picked) {
        what += " of rows";
        for (int64_t k : *picked) what += " " + std::to_string(k);
    }
    c.Log() << what;
    bool described = s.blob && c.Chance(1, 3);
    spec.more[Options::BLOB_AS_DESCRIPTOR] = described ? "true" : "false";
    auto res = t.ReadAll(spec);
    REQUIRE(res.ok(), "read", what << " cannot be read: " << res.status().ToString() << "\n" << ShowState(s));
    std::vector<Got> rows = res.value();
    if (described) {
        UNWRAP(auto fs, FileSystemFactory::Get("mem", t.path, t.opts), "fs");
        std::shared_ptr<FileSystem> shared = std::move(fs);
        for (auto& g : rows) {
            for (size_t k = 0; k < types.size(); k++) {
                if (types[k].k != cv::K::kBlob || g.row[k].null) continue;
                UNWRAP(auto blob, Blob::FromDescriptor(g.row[k].s.data(), g.row[k].s.size()), "descriptor");
                UNWRAP(auto data, blob->ToData(shared, GetDefaultPool()), "descriptor");
                g.row[k].s = std::string(data->data(), data->size());
            }
        }
    }
    auto everything = Bag(types, all);
    auto got = Bag(types, rows);
    if (spec.limit) {
        REQUIRE(std::includes(everything.begin(), everything.end(), got.begin(), got.end()), "invented",
                what << Diff(everything, got) << "\n" << ShowState(s));
        size_t least = std::min(everything.size(), static_cast<size_t>(*spec.limit));
        REQUIRE(got.size() >= least, "limit", what << ": " << got.size() << " rows of " << everything.size() << "\n" << ShowState(s));
    } else if (!spec.predicate) {
        REQUIRE(got == everything, "rows", what << Diff(everything, got) << "\n" << ShowState(s));
    } else {
        std::vector<Row> some;
        for (const auto& r : all) if (p.holds(r)) some.push_back(r);
        auto want = Bag(types, some);
        if (spec.filter) {
            REQUIRE(got == want, "filtered", what << Diff(want, got) << "\n" << ShowState(s));
        } else {
            std::vector<Got> kept;
            for (const auto& g : rows) if (p.holds(g.row)) kept.push_back(g);
            auto have = Bag(types, kept);
            REQUIRE(have == want, "predicate", what << Diff(want, have) << "\n" << ShowState(s));
            REQUIRE(std::includes(everything.begin(), everything.end(), got.begin(), got.end()), "invented",
                    what << Diff(everything, got) << "\n" << ShowState(s));
        }
    }
    c.Eval(1);
}

// Writes indexes of some columns over runs of rows, each within a partition.
void IndexSome(pbt::Case& c, Store* s, FileStoreCommit* commit, int64_t* id) {
    World& w = s->w;
    if (s->indexed.empty()) {
        for (const auto& f : w.fields) {
            bool fit = f.type.k == cv::K::kI32 || f.type.k == cv::K::kStr || f.type.k == cv::K::kI64 ||
                       f.type.k == cv::K::kBool || f.type.k == cv::K::kI16 || f.type.k == cv::K::kDate;
            if (f.role == "v" && fit && c.Chance(2, 3)) s->indexed.insert(f.id);
        }
        if (s->indexed.empty()) return;
    }
    // runs of rows not yet indexed
    std::vector<std::pair<Range, Options_>> runs;
    auto groups = s->Now().groups;
    std::sort(groups.begin(), groups.end(), [](const Group& a, const Group& b) { return a.first < b.first; });
    for (const auto& g : groups) {
        if (s->covered.count(g.first) || c.Chance(1, 5)) continue;
        int64_t from = g.first, to = g.first + g.count - 1;
        if (!runs.empty() && runs.back().first.to + 1 == from && runs.back().second == g.part && c.Bool()) runs.back().first.to = to;
        else runs.push_back({Range(from, to), g.part});
        s->covered.insert(g.first);
    }
    Msgs msgs;
    for (auto [range, part] : runs) {
        if (c.Chance(1, 4)) range.from = c.Int(range.from, range.to);
        if (c.Chance(1, 4)) range.to = c.Int(range.from, range.to);
        Table::ReadSpec spec;
        spec.more = {{Options::SOURCE_SPLIT_TARGET_SIZE, "128mb"}, {Options::SOURCE_SPLIT_OPEN_FILE_COST, "1b"}};
        if (!part.empty()) spec.part_filters = {part};
        UNWRAP(auto scan, w.t.Scan(spec), "plan");
        UNWRAP(auto plan, scan->CreatePlan(), "plan");
        REQUIRE(plan->Splits().size() == 1, "plan", plan->Splits().size() << " splits of a partition\n" << ShowState(*s));
        auto split = std::dynamic_pointer_cast<DataSplitImpl>(plan->Splits()[0]);
        for (const auto& f : w.fields) {
            if (!s->indexed.count(f.id)) continue;
            auto res = GlobalIndexWriteTask::WriteIndex(w.t.path, f.name, "bitmap",
                                                        std::make_shared<IndexedSplitImpl>(split, std::vector<Range>{range}),
                                                        w.t.opts, GetDefaultPool());
            REQUIRE(res.ok(), "index", "index of " << f.name << " over " << range.ToString() << ": " << res.status().ToString() << "\n" << ShowState(*s));
            msgs.push_back(res.value());
            c.Label("indexed");
        }
    }
    if (msgs.empty()) return;
    for (size_t i = msgs.size(); i > 1; i--) std::swap(msgs[i - 1], msgs[c.Int(0, static_cast<int64_t>(i) - 1)]);
    // at once, or one commit for each
    if (c.Bool()) {
        REQUIRE_OK(commit->Commit(msgs, (*id)++), "commit");
        s->snaps.push_back(State(s->Now()));
    } else {
        // every shard must be of all fields before it is read
        for (const auto& m : msgs) {
            REQUIRE_OK(commit->Commit({m}, (*id)++), "commit");
            s->snaps.push_back(State(s->Now()));
        }
    }
}

void Begin(pbt::Case& c, Store* s, bool always, bool blob) {
    memfs::Store::Get().Reset();
    s->blob = blob;
    GenTable(c, &s->w, c.Chance(1, 4), false, blob);
    if (blob) s->w.t.opts[Options::BLOB_TARGET_FILE_SIZE] = c.PickOf<std::string>({"128mb", "60b", "1b"});
    s->w.t.opts[Options::ROW_TRACKING_ENABLED] = "true";
    s->columns = always || c.Chance(5, 6);
    if (s->columns) s->w.t.opts[Options::DATA_EVOLUTION_ENABLED] = "true";
    Create(c, &s->w);
    c.Log() << Describe(s->w);
}

}  // namespace

namespace {
void Columns(pbt::Case& c, bool blob) {
    Store s;
    Begin(c, &s, blob, blob);
    UNWRAP(auto commit, s.w.t.Committer("u"), "committer");
    int schemas = 0;
    for (size_t k = 0, n = c.Len(1, 6); k < n; k++) {
        if (k > 0 && c.Chance(1, 4)) {
            Evolve(c, &s.w);
            c.Log() << Describe(s.w);
            schemas++;
        }
        Step(c, &s, commit.get(), static_cast<int64_t>(k));
        if (c.Chance(1, 3)) CheckRead(c, s);
    }
    for (int i = 0; i < 5; i++) CheckRead(c, s);
    c.NonTrivial(s.snaps.size() > 2);
}
}  // namespace

FACET(columns, 10) { Columns(c, false); }

FACET(blobs, 6) { Columns(c, true); }

FACET(index, 5) {
    Store s;
    Begin(c, &s, true, false);
    UNWRAP(auto commit, s.w.t.Committer("u"), "committer");
    int64_t id = 0;
    for (size_t k = 0, n = c.Len(1, 5); k < n; k++) {
        Step(c, &s, commit.get(), id++);
        if (c.Chance(2, 3)) IndexSome(c, &s, commit.get(), &id);
        if (c.Chance(1, 3)) CheckRead(c, s);
    }
    for (int i = 0; i < 5; i++) CheckRead(c, s);
    c.NonTrivial(!s.covered.empty());
}
