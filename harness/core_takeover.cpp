// Files made elsewhere that a table takes over.
#include <time.h>

#include "core_world.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/migrate/file_meta_utils.h"
#include "pbt.h"

// The code under test sleeps between attempts.
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }

using namespace cw;  // NOLINT

namespace {

struct Source {
    std::string path, bytes;
    std::vector<Row> rows;
};

// Writes rows of one partition into one file of a table of its own and copies that file.
std::string MakeFile(pbt::Case& c, World* w, const Options_& part, const std::vector<Row>& rows) {
    Table t = w->t;
    auto& store = memfs::Store::Get();
    Options_ more{{Options::TARGET_FILE_SIZE, "128mb"}};
    UNWRAP(auto writer, t.Writer("maker", more), "maker");
    UNWRAP(auto batch, t.Batch(rows, part, 0), "batch");
    REQUIRE_OK(writer->Write(std::move(batch)), "write");
    UNWRAP(Msgs msgs, writer->PrepareCommit(true, 0), "prepare");
    REQUIRE_OK(writer->Close(), "close");
    std::set<std::string> made;
    for (const auto& f : store.Files(t.path))
        if (f.find("/bucket-") != std::string::npos) made.insert(f);
    REQUIRE(made.size() == 1, "maker", made.size() << " files");
    std::string bytes = store.Content(*made.begin());
    store.Remove(*made.begin());
    return bytes;
}

}  // namespace

FACET(taken, 10) {
    auto& store = memfs::Store::Get();
    store.Reset();
    World w;
    GenTable(c, &w, true, false);
    Table& t = w.t;
    t.opts.erase(Options::DATA_FILE_EXTERNAL_PATHS);
    t.opts.erase(Options::DATA_FILE_EXTERNAL_PATHS_STRATEGY);
    Create(c, &w);
    c.Log() << Describe(w) << "\n";
    std::string format = t.opts[Options::FILE_FORMAT];

    Options_ part;
    Row fixed(w.fields.size());
    auto fresh_part = [&] {
        part.clear();
        for (size_t i = 0; i < w.fields.size(); i++) {
            const Field& f = w.fields[i];
            if (f.role != "p") continue;
            fixed[i] = cv::GenCell(c, f.type, 3, 8);
            part[f.name] = PartText(f.type, fixed[i]);
        }
    };
    auto gen_rows = [&] {
        std::vector<Row> rows;
        for (size_t i = 0, m = c.Len(1, 8); i < m; i++) {
            Row r(w.fields.size());
            for (size_t k = 0; k < r.size(); k++) r[k] = w.fields[k].role == "p" ? fixed[k] : GenValue(c, w, w.fields[k].type, 6);
            rows.push_back(r);
        }
        return rows;
    };

    // all files are made first, while the table has no files of its own
    struct Round {
        Options_ part;
        std::vector<Source> sources;
        bool clash = false;
    };
    std::vector<Round> rounds(c.Int(1, 3));
    int made = 0;
    for (auto& round : rounds) {
        fresh_part();
        round.part = part;
        std::string where;
        for (const auto& [k, v] : part) where += k + "=" + v + "/";
        std::vector<std::string> names;
        for (size_t i = 0, m = c.Len(1, 4); i < m; i++) {
            Source s;
            s.rows = gen_rows();
            s.bytes = MakeFile(c, &w, part, s.rows);
            bool clash = !names.empty() && c.Chance(1, 12);
            std::string name = clash ? c.Pick(names) : "f" + std::to_string(made++) + c.PickOf<std::string>({"", "_0", format, "." + format + "x"});
            names.push_back(name);
            round.clash |= clash;
            s.path = "/src/d" + std::to_string(made) + "_" + std::to_string(i) + "/" + name + (c.Bool() ? "." + format : "");
            if (clash && c.Chance(1, 3)) {  // the very same file again
                s = round.sources.back();
                round.sources.push_back(s);
                continue;
            }
            store.Put(s.path, s.bytes);
            round.sources.push_back(s);
            c.Log() << s.path << " with " << s.rows.size() << " rows for " << where << "\n";
            for (const auto& r : s.rows) c.Log() << "    " << cv::Text(t.types, r) << "\n";
        }
    }
    std::vector<Row> expected;
    int64_t id = 0;
    bool any = false;
    std::vector<std::vector<Row>> by_snapshot;
    w.rows = [&](int64_t upto) { return by_snapshot[upto - 1]; };
    auto commit = [&](const Msgs& msgs, const std::vector<Row>& more) {
        UNWRAP(auto committer, t.Committer("com"), "committer");
        REQUIRE_OK(committer->Commit(msgs, id++), "commit");
        expected.insert(expected.end(), more.begin(), more.end());
        by_snapshot.push_back(expected);
        w.commits.resize(by_snapshot.size());
    };
    auto check = [&](const char* when) {
        Table::ReadSpec s;
        s.prefetch = c.Chance(1, 4);
        if (!any) return;
        UNWRAP(auto got, t.ReadAll(s), "read");
        auto want = ct::Bag(t.types, expected), have = ct::Bag(t.types, got);
        REQUIRE(want == have, "rows", "rows differ " << when << ct::Diff(want, have));
        c.Eval(want.size());
    };
    size_t sources_taken = 0;
    for (auto& round : rounds) {
        // other rows come by an ordinary writer
        if (c.Chance(1, 3)) {
            UNWRAP(auto writer, t.Writer("u"), "writer");
            std::vector<Rec> now;
            WriteSome(c, &w, writer.get(), &now);
            UNWRAP(Msgs msgs, writer->PrepareCommit(true, id), "prepare");
            REQUIRE_OK(writer->Close(), "close");
            std::vector<Row> rows;
            for (const auto& r : now) rows.push_back(RowOf(w, r));
            commit(msgs, rows);
            any = true;
        }
        std::vector<std::string> paths;
        for (const auto& s : round.sources) paths.push_back(s.path);
        Options_ opts{{Options::FILE_SYSTEM, "mem"}, {"mem.owner", "taker"}};
        if (c.Bool()) opts = t.With(opts);
        bool faulty = c.Chance(1, 3);
        if (faulty) {
            auto counter = std::make_shared<int>(static_cast<int>(c.Int(1, 40)));
            memfs::Verdict verdict = c.Bool() ? memfs::Verdict::kFail : memfs::Verdict::kFailAfter;
            store.SetHook([counter, verdict](const memfs::Event& e) {
                if (e.owner != "taker") return memfs::Verdict::kGo;
                return --*counter == 0 ? verdict : memfs::Verdict::kGo;
            });
        }
        auto first = FileMetaUtils::GenerateCommitMessage(paths, t.path, round.part, opts);
        store.ClearHook();
        std::unique_ptr<CommitMessage> message;
        REQUIRE(!first.ok() || !round.clash, "clash", "files of the same name are taken over together");
        if (!first.ok()) {
            c.Log() << first.status().ToString() << "\n";
            REQUIRE(faulty || round.clash, "taken", "files not taken over: " << first.status().ToString());
            // nothing is lost: every file is still somewhere
            std::multiset<std::string> left, want;
            for (const char* under : {"/src", "/w"})
                for (const auto& f : store.Files(under)) left.insert(store.Content(f));
            std::map<std::string, std::string> distinct;
            for (const auto& s : round.sources) distinct[s.path] = s.bytes;
            for (const auto& [path, bytes] : distinct) want.insert(bytes);
            REQUIRE(std::includes(left.begin(), left.end(), want.begin(), want.end()), "lost", "a source file is gone after " << first.status().ToString());
            if (round.clash) {
                c.Label("clash");
                check("after a refusal");
                continue;
            }
            auto again = FileMetaUtils::GenerateCommitMessage(paths, t.path, round.part, opts);
            REQUIRE(again.ok(), "retry", "second attempt after " << first.status().ToString() << ": " << again.status().ToString());
            message = std::move(again).value();
            c.Label("retried");
        } else {
            message = std::move(first).value();
        }
        auto impl = dynamic_cast<CommitMessageImpl*>(message.get());
        REQUIRE(impl, "message", "not a message");
        const auto& files = impl->GetNewFilesIncrement().NewFiles();
        REQUIRE(files.size() == round.sources.size(), "files", files.size() << " files recorded of " << round.sources.size());
        std::set<std::string> recorded;
        for (size_t i = 0; i < files.size(); i++) {
            const auto& f = files[i];
            const Source& s = round.sources[i];
            REQUIRE(f->row_count == static_cast<int64_t>(s.rows.size()), "count", s.path << " has " << s.rows.size() << " rows, " << f->row_count << " recorded");
            REQUIRE(f->file_size == static_cast<int64_t>(s.bytes.size()), "size", f->file_size);
            REQUIRE(recorded.insert(f->file_name).second, "twice", f->file_name << " is recorded twice");
            std::string base = s.path.substr(s.path.rfind('/') + 1), end = "." + format;
            if (base.size() < end.size() || base.substr(base.size() - end.size()) != end) base += end;
            REQUIRE(f->file_name == base, "name", f->file_name << " instead of " << base);
            REQUIRE(!store.Has(s.path), "left", s.path << " is still there");
        }
        std::shared_ptr<CommitMessage> shared = std::move(message);
        std::vector<Row> rows;
        for (const auto& s : round.sources) rows.insert(rows.end(), s.rows.begin(), s.rows.end());
        commit({shared}, rows);
        sources_taken += round.sources.size();
        any = true;
        check("after taking files over");
        if (c.Chance(1, 2)) Check(c, w, "after taking files over", true);
    }
    c.NonTrivial(any && sources_taken > 1);
}

FACET(refused, 1) {
    auto& store = memfs::Store::Get();
    store.Reset();
    World w;
    GenTable(c, &w, false, true);
    Table& t = w.t;
    t.opts.erase(Options::DATA_FILE_EXTERNAL_PATHS);
    t.opts.erase(Options::DATA_FILE_EXTERNAL_PATHS_STRATEGY);
    Options_ part;
    size_t why = c.Weighted({w.keyed ? 1 : 0, w.keyed ? 0 : 1, 1, w.keyed ? 0 : 1, 1, 1});
    if (w.keyed) why = 0;
    if (why == 1) t.opts[Options::BUCKET] = "1", t.opts[Options::BUCKET_KEY] = "v0";
    if (why == 4) {
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS] = "mem://ext1/a";
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS_STRATEGY] = "round-robin";
    }
    Create(c, &w);
    if (why == 2 || why == 0) StoreSchema(c, &w);
    for (const auto& f : w.fields)
        if (f.role == "p") part[f.name] = PartText(f.type, cv::GenCell(c, f.type, 3, 0));
    std::string source = "/src/a." + t.opts[Options::FILE_FORMAT];
    if (why == 3) source = c.PickOf<std::string>({"oss://b/a.orc", "s3://b/a.orc"});
    if (why == 5 && part.empty()) why = 6;
    if (why == 5) part.erase(part.begin());
    if (why != 6) store.Put(source, "x");
    auto before = store.Snapshot();
    auto r = FileMetaUtils::GenerateCommitMessage({source}, t.path, part, {{Options::FILE_SYSTEM, "mem"}});
    c.Label("why " + std::to_string(why));
    REQUIRE(!r.ok(), "accepted", "a file is taken over although the table cannot, reason " << why);
    auto after = store.Snapshot();
    REQUIRE(before.size() == after.size() || why == 6, "touched", "files changed by a refused call");
    for (const auto& [p, n] : before) REQUIRE(after.count(p), "touched", p << " is gone after a refusal, reason " << why);
    c.NonTrivial();
}
