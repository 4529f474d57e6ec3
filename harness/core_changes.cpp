// Changes of a table with keys followed as a stream, with fixed buckets and with buckets that are
// chosen later, and the files the latter leaves.
#include <time.h>

#include "core_world.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "pbt.h"

// The code under test sleeps between attempts.
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }

using namespace cw;  // NOLINT

namespace {

struct Change {
    int kind;
    Row row;
    std::string place;  // partition and bucket
};

struct Commit_ {
    std::map<std::string, std::vector<Change>> by_writer;  // writer and place, in order of writing
};

std::string KeyText(const World& w, const Row& r) {
    std::string s;
    for (size_t i = 0; i < w.fields.size(); i++)
        if (w.fields[i].role == "k") s += cv::Text(w.fields[i].type, r[i]) + "|";
    return s;
}

int CompareKeys(const World& w, const Row& a, const Row& b) {
    for (const auto& k : w.t.keys) {
        int i = w.t.Index(k);
        if (w.fields[i].role != "k") continue;
        int x = cv::Compare(w.fields[i].type, a[i], b[i]);
        if (x) return x;
    }
    return 0;
}

std::string KeyField(const T& t, const BinaryRow& r, int i) {
    if (r.IsNullAt(i)) return "null";
    if (cv::IsText(t.k)) return r.GetString(i).ToString();
    return std::to_string(t.k == cv::K::kI64 ? r.GetLong(i) : r.GetInt(i));
}

}  // namespace

FACET(changes, 10) {
    auto& store = memfs::Store::Get();
    store.Reset();
    World w;
    Table& t = w.t;
    w.keyed = true;
    w.space = c.PickOf<int>({6, 40});
    bool later = c.Chance(2, 3);
    int nparts = static_cast<int>(c.Weighted({3, 2}));
    int nkeys = static_cast<int>(c.Int(1, 2)), nvals = static_cast<int>(c.Int(1, 3));
    auto add = [&](const char* role, int i, const T& ty) { w.fields.push_back(Field{0, role + std::to_string(i), ty, role}); };
    auto simple = [&] { T ty; ty.k = c.PickOf<cv::K>({cv::K::kI32, cv::K::kStr, cv::K::kI64}); return ty; };
    for (int i = 0; i < nparts; i++) add("p", i, simple());
    for (int i = 0; i < nkeys; i++) add("k", i, simple());
    for (int i = 0; i < nvals; i++) add("v", i, c.Chance(1, 5) ? cv::GenType(c, 2) : GenFlat(c));
    for (size_t i = w.fields.size(); i > 1; i--) std::swap(w.fields[i - 1], w.fields[c.Int(0, static_cast<int64_t>(i) - 1)]);
    Sync(&w);
    for (int i = 0; i < nparts; i++) t.parts.push_back("p" + std::to_string(i));
    t.keys = t.parts;
    for (int i = 0; i < nkeys; i++) t.keys.push_back("k" + std::to_string(i));
    w.buckets = later ? -2 : static_cast<int>(c.Int(1, 2));
    t.opts[Options::BUCKET] = std::to_string(w.buckets);
    t.opts[Options::FILE_FORMAT] = c.PickOf<std::string>({"orc", "parquet"});
    t.opts[Options::TARGET_FILE_SIZE] = c.PickOf<std::string>({"128mb", "1kb", "200b"});
    t.opts[Options::READ_BATCH_SIZE] = std::to_string(c.PickOf<int>({1, 2, 7, 1024}));
    t.opts[Options::WRITE_BATCH_SIZE] = std::to_string(c.PickOf<int>({1, 3, 1024}));
    t.opts[Options::SOURCE_SPLIT_TARGET_SIZE] = c.PickOf<std::string>({"128mb", "1b", "600b"});
    t.opts[Options::SOURCE_SPLIT_OPEN_FILE_COST] = c.PickOf<std::string>({"4mb", "1b"});
    bool outside = c.Chance(1, 5);
    if (outside) {
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS] = "mem://ext1/a,mem://ext2";
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS_STRATEGY] = "round-robin";
    }
    std::string prefix = c.PickOf<std::string>({"data-", "x"});
    t.opts[Options::DATA_FILE_PREFIX] = prefix;
    vfmt::GetKnobs().row_group = c.PickOf<int64_t>({1, 2, 5, 64});
    vfmt::GetKnobs().prefetch = c.Bool();
    Create(c, &w);
    c.Log() << Describe(w) << "\n";
    c.Label(later ? "later" : "fixed");

    std::vector<Commit_> commits;
    std::set<std::string> file_names;
    int ncommits = static_cast<int>(c.Int(1, 5));
    struct Writing {
        std::unique_ptr<FileStoreWrite> writer;
        std::string user;
        std::optional<int> id;
    };
    std::vector<Writing> writers(c.Int(1, 2));
    for (size_t i = 0; i < writers.size(); i++) {
        writers[i].user = "u" + std::to_string(i);
        if (c.Bool()) writers[i].id = static_cast<int>(c.Int(0, 9));
        auto ctx = std::make_unique<WriteContext>(t.path, writers[i].user, true, false, false, writers[i].id, t.branch,
                                                  std::vector<std::string>(), GetDefaultPool(), ct::Pool(), Options_(), t.With({}));
        UNWRAP(writers[i].writer, FileStoreWrite::Create(std::move(ctx)), "writer");
    }
    for (int n = 0; n < ncommits; n++) {
        Commit_ now;
        Msgs all;
        size_t which = c.Draw(writers.size() - 1);
        for (size_t wi = 0; wi < writers.size(); wi++) {
            // with fixed buckets two writers at once would give the same sequence numbers
            if (!later && wi != which) continue;
            for (size_t b = 0, m = c.Len(1, 4); b < m; b++) {
                Options_ part;
                Row fixed(w.fields.size());
                for (size_t i = 0; i < w.fields.size(); i++) {
                    if (w.fields[i].role != "p") continue;
                    fixed[i] = cv::GenCell(c, w.fields[i].type, 3, 0);
                    part[w.fields[i].name] = PartText(w.fields[i].type, fixed[i]);
                }
                int bucket = later ? -2 : static_cast<int>(c.Int(0, w.buckets - 1));
                std::vector<Row> rows;
                std::vector<Kind> kinds;
                bool plain = c.Chance(1, 3);
                std::string place;
                for (const auto& [k, v] : part) place += k + "=" + v + "/";
                place += std::to_string(bucket);
                for (size_t i = 0, k = c.Len(1, 9); i < k; i++) {
                    Row r(w.fields.size());
                    for (size_t j = 0; j < r.size(); j++) {
                        const Field& f = w.fields[j];
                        r[j] = f.role == "p" ? fixed[j] : f.role == "k" ? cv::GenCell(c, f.type, 6, 0) : GenValue(c, w, f.type, 6);
                    }
                    Kind kind = plain ? Kind::INSERT : c.PickOf<Kind>({Kind::INSERT, Kind::UPDATE_BEFORE, Kind::UPDATE_AFTER, Kind::DELETE});
                    rows.push_back(r);
                    kinds.push_back(kind);
                    now.by_writer[std::to_string(wi) + ":" + place].push_back({static_cast<int>(kind), r, place});
                }
                UNWRAP(auto batch, t.Batch(rows, part, bucket, plain ? std::vector<Kind>() : kinds), "batch");
                REQUIRE_OK(writers[wi].writer->Write(std::move(batch)), "write");
            }
            UNWRAP(Msgs msgs, writers[wi].writer->PrepareCommit(true, n), "prepare");
            // what is recorded of the files
            for (const auto& msg : msgs) {
                auto impl = std::dynamic_pointer_cast<CommitMessageImpl>(msg);
                REQUIRE(impl, "message", "not a message");
                if (!later) continue;
                REQUIRE(impl->Bucket() == -2, "bucket", impl->Bucket());
                const auto& files = impl->GetNewFilesIncrement().NewFiles();
                if (files.empty()) continue;
                std::string place;
                {
                    int at = 0;
                    std::map<std::string, std::string> part;
                    for (const auto& p : t.parts) {
                        part[p] = KeyField(t.types[t.Index(p)], impl->Partition(), at);
                        at++;
                    }
                    for (const auto& [k, v] : part) place += k + "=" + v + "/";
                    place += "-2";
                }
                auto it = now.by_writer.find(std::to_string(wi) + ":" + place);
                REQUIRE(it != now.by_writer.end(), "place", "files for " << place << ", where nothing was written");
                size_t used = 0;
                for (const auto& f : files) {
                    REQUIRE(file_names.insert(f->file_name).second, "same-name", f->file_name);
                    std::string want = prefix + "-u-" + writers[wi].user + "-s-" + (writers[wi].id ? std::to_string(*writers[wi].id) + "-w-" : "");
                    REQUIRE(f->file_name.rfind(want, 0) == 0, "prefix", f->file_name << " does not start with " << want);
                    REQUIRE(f->row_count > 0 && used + f->row_count <= it->second.size(), "count", f->row_count << " rows");
                    int64_t deleted = 0;
                    for (int64_t i = 0; i < f->row_count; i++) deleted += it->second[used + i].kind == 1 || it->second[used + i].kind == 3;
                    REQUIRE(f->delete_row_count == deleted, "deleted", f->delete_row_count.value_or(-1) << " deletions recorded of " << deleted);
                    const Row &first = it->second[used].row, &last = it->second[used + f->row_count - 1].row;
                    int at = 0;
                    for (const auto& k : t.keys) {
                        int i = t.Index(k);
                        if (w.fields[i].role != "k") continue;
                        std::string lo = PartText(t.types[i], first[i]), hi = PartText(t.types[i], last[i]);
                        REQUIRE(KeyField(t.types[i], f->min_key, at) == lo && KeyField(t.types[i], f->max_key, at) == hi, "keys",
                                "first and last key recorded as " << KeyField(t.types[i], f->min_key, at) << " and " << KeyField(t.types[i], f->max_key, at) << ", expected " << lo << " and " << hi);
                        at++;
                    }
                    REQUIRE(f->level == 0 && f->schema_id == 0 && f->min_sequence_number == -1 && f->max_sequence_number == -1, "meta", f->ToString());
                    REQUIRE(f->external_path.has_value() == outside, "outside", "external path " << f->external_path.value_or("none"));
                    std::string dir = place.substr(0, place.size() - 2);
                    std::string full = outside ? *f->external_path : t.path + "/" + dir + "bucket-postpone/" + f->file_name;
                    REQUIRE(store.Has(full), "file", full << " is not there");
                    REQUIRE(static_cast<int64_t>(store.Content(full).size()) == f->file_size, "size", "size " << f->file_size);
                    used += f->row_count;
                }
                REQUIRE(used == it->second.size(), "all", used << " records of " << it->second.size() << " are in the files");
                c.Eval(files.size());
            }
            all.insert(all.end(), msgs.begin(), msgs.end());
        }
        UNWRAP(auto committer, t.Committer("com"), "committer");
        REQUIRE_OK(committer->Commit(all, n), "commit");
        commits.push_back(now);
    }
    for (auto& wr : writers) REQUIRE_OK(wr.writer->Close(), "close");

    // what a stream delivers of a commit
    auto delta = [&](const Commit_& k) {
        std::vector<std::vector<Change>> runs;
        for (const auto& [who, list] : k.by_writer) {
            if (later) {
                runs.push_back(list);
                continue;
            }
            std::vector<Change> last;
            for (const auto& ch : list) {
                auto same = std::find_if(last.begin(), last.end(), [&](const Change& x) { return KeyText(w, x.row) == KeyText(w, ch.row); });
                if (same != last.end()) *same = ch;
                else last.push_back(ch);
            }
            std::sort(last.begin(), last.end(), [&](const Change& a, const Change& b) { return CompareKeys(w, a.row, b.row) < 0; });
            runs.push_back(last);
        }
        return runs;
    };
    auto text = [&](const std::vector<int>& cols, int kind, const Row& r, bool cut) {
        std::string s = std::to_string(kind);
        for (size_t i = 0; i < cols.size(); i++) s += "," + cv::Text(t.types[cols[i]], r[cut ? i : cols[i]]);
        return s;
    };
    size_t most = 0;
    for (int n = 0, m = static_cast<int>(c.Int(1, 3)); n < m; n++) {
        Table::ReadSpec spec;
        spec.streaming = true;
        spec.mode = "from-snapshot";
        int64_t from = c.Int(1, ncommits);
        spec.snapshot = from;
        std::vector<int> cols;
        for (size_t i = 0; i < w.fields.size(); i++) cols.push_back(static_cast<int>(i));
        if (c.Bool()) {
            for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[c.Int(0, static_cast<int64_t>(i) - 1)]);
            cols.resize(c.Int(1, static_cast<int64_t>(cols.size())));
            for (int i : cols) spec.columns.push_back(t.names[i]);
        }
        spec.prefetch = c.Chance(1, 4);
        spec.threads = c.Chance(1, 6);
        UNWRAP(auto scan, t.Scan(spec), "scan");
        UNWRAP(auto first, scan->CreatePlan(), "first");
        REQUIRE(first->Splits().empty(), "first", "the first plan of a stream of changes holds " << first->Splits().size() << " splits");
        for (int64_t id = from; id <= ncommits; id++) {
            UNWRAP(auto plan, scan->CreatePlan(), "plan");
            REQUIRE(plan->SnapshotId() == id, "snapshot", plan->SnapshotId().value_or(-1) << " instead of " << id);
            UNWRAP(auto got, t.Read(spec, plan->Splits()), "read");
            std::vector<std::string> have;
            for (const auto& g : got) have.push_back(text(cols, g.kind, g.row, true));
            auto runs = delta(commits[id - 1]);
            std::vector<std::string> want;
            size_t total = 0;
            for (const auto& r : runs) {
                total += r.size();
                for (const auto& ch : r) want.push_back(text(cols, ch.kind, ch.row, false));
            }
            most = std::max(most, total);
            auto a = want, b = have;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            std::string list;
            for (const auto& x : want) list += "\n    want " + x;
            for (const auto& x : have) list += "\n    have " + x;
            REQUIRE(a == b, "delta", "snapshot " << id << " delivers other changes" << list);
            // changes of one writer in one place come in the order they were written
            for (const auto& r : runs) {
                size_t at = 0;
                for (const auto& ch : r) {
                    std::string x = text(cols, ch.kind, ch.row, false);
                    while (at < have.size() && have[at] != x) at++;
                    REQUIRE(at < have.size(), "order", "snapshot " << id << " delivers the changes in another order" << list);
                    at++;
                }
            }
            c.Eval(total);
        }
    }
    if (later) {
        Table::ReadSpec spec;
        UNWRAP(auto got, t.ReadAll(spec), "batch");
        REQUIRE(got.empty(), "batch", got.size() << " rows of files whose buckets are not chosen yet");
    }
    c.NonTrivial(most > 1);
}
