// Expiring snapshots and removing files nobody refers to: only what may go goes, and every
// snapshot that stays can be read as before.
#include <time.h>

#include "core_history.h"
#include "paimon/common/utils/date_time_utils.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/orphan_files_cleaner.h"
#include "pbt.h"

// The code under test sleeps between attempts.
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }

using namespace ch;  // NOLINT

namespace {

const int kThreads = ct::PoolThreads() = 1;
constexpr int64_t kHour = 3600 * 1000;

// Makes a snapshot as old as wanted.
void SetTime(const History& h, int64_t id, int64_t millis) {
    auto& store = memfs::Store::Get();
    std::string path = SnapshotPath(h, id);
    static const std::regex when("(\"timeMillis\"\\s*:\\s*)[0-9]+");
    store.Put(path, std::regex_replace(store.Content(path), when, "$01" + std::to_string(millis)));
}

std::set<int64_t> Snapshots(const History& h) {
    std::set<int64_t> out;
    for (const auto& f : memfs::Store::Get().Files(h.t.path + "/snapshot")) {
        std::string name = f.substr(f.rfind('/') + 1);
        if (name.rfind("snapshot-", 0) == 0) out.insert(std::stoll(name.substr(9)));
    }
    return out;
}

bool Starts(const std::string& s, const std::string& p) { return s.rfind(p, 0) == 0; }
bool Ends(const std::string& s, const std::string& p) {
    return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
}
std::string Base(const std::string& path) { return path.substr(path.rfind('/') + 1); }

// Names of the data files the snapshots that are there refer to.
std::set<std::string> Referred(pbt::Case& c, const History& h) {
    std::set<std::string> out;
    for (int64_t id : Snapshots(h)) {
        Table::ReadSpec s;
        s.snapshot = id;
        s.mode = StartupMode::FromSnapshotFull().ToString();
        UNWRAP(auto scan, h.t.Scan(s), "scan");
        UNWRAP(auto plan, scan->CreatePlan(), "plan");
        for (const auto& split : plan->Splits()) {
            auto d = std::dynamic_pointer_cast<DataSplitImpl>(split);
            for (const auto& f : d->DataFiles()) out.insert(f->file_name);
        }
    }
    return out;
}

struct Limits {
    int min = 1, max = 10, deletes = 10;
    int64_t retain = 0;  // in half hours
    bool dirs = false;
};

Limits GenLimits(pbt::Case& c, History* h) {
    Limits l;
    l.min = static_cast<int>(c.Int(1, 4));
    l.max = l.min + static_cast<int>(c.Int(0, 4));
    l.deletes = c.PickOf<int>({50, 50, 1, 2, 0});
    l.retain = c.Int(0, 6) * 2 + 1;
    l.dirs = c.Bool();
    h->more[Options::SNAPSHOT_NUM_RETAINED_MIN] = std::to_string(l.min);
    h->more[Options::SNAPSHOT_NUM_RETAINED_MAX] = std::to_string(l.max);
    h->more[Options::SNAPSHOT_EXPIRE_LIMIT] = std::to_string(l.deletes);
    h->more[Options::SNAPSHOT_TIME_RETAINED] = std::to_string(l.retain * 30) + " min";
    h->more[Options::SNAPSHOT_CLEAN_EMPTY_DIRECTORIES] = l.dirs ? "true" : "false";
    return l;
}

struct Junk {
    std::string path;
    bool old = false, known = false, keep = false, seen = false;
};

}  // namespace

FACET(maintenance, 10) {
    auto& store = memfs::Store::Get();
    store.Reset();
    History h;
    GenTable(c, &h);
    bool with_faults = c.Chance(1, 3);
    REQUIRE_OK(h.t.Create(), "create");
    bool exact = true;  // nothing failed so far
    int expired = 0, cleaned = 0;
    int64_t deletes_left = 0;  // empty directories may be there
    for (size_t step = 0, n = c.Len(3, 12); step < n; step++) {
        auto latest = static_cast<int64_t>(h.states.size()) - 1;
        size_t what = latest < 2 ? 0 : c.Weighted({6, 2, 1});
        if (what == 0) {
            Op op = GenOp(c, &h, c.Bool() ? "a" : "b");
            if (op.what != What::kDrop) REQUIRE_OK(Write(c, &h, &op, "w"), "write");
            h.ops.push_back(op);
            REQUIRE_OK(Run(h, op, "w"), "commit");
            Notice(c, &h, "commit");
            REQUIRE(h.ops.back().seen, "not_committed", "a commit that succeeded is not there" << Describe(h));
            continue;
        }
        auto fault = [&] {
            int64_t at = c.Int(0, 60);
            bool after = c.Bool(), crash = c.Bool();
            store.SetHook([=](const memfs::Event& e) {
                if (e.owner != "x" || e.number < at) return memfs::Verdict::kGo;
                if (e.number == at) return after ? memfs::Verdict::kFailAfter : memfs::Verdict::kFail;
                return crash ? memfs::Verdict::kFail : memfs::Verdict::kGo;
            });
        };
        if (what == 1) {
            // ages in hours, the latest the youngest
            Limits l = GenLimits(c, &h);
            int64_t now = DateTimeUtils::GetCurrentUTCTimeUs() / 1000, age = c.Int(0, 2);
            std::map<int64_t, int64_t> ages;
            auto there = Snapshots(h);
            for (auto it = there.rbegin(); it != there.rend(); ++it) {
                ages[*it] = age;
                SetTime(h, *it, now - age * kHour);
                age += c.Int(0, 3);
            }
            int64_t end = h.earliest;
            // the first that has to stay
            while (end < latest - l.min + 1 && end < h.earliest + l.deletes &&
                   (end < latest - l.max + 1 || ages[end] * 2 > l.retain)) end++;
            bool faulty = with_faults && c.Bool();
            if (faulty) {
                fault();
                exact = false;
            }
            auto got = [&]() -> Result<int32_t> {
                Options_ more = h.more;
                more["mem.owner"] = "x";
                PAIMON_ASSIGN_OR_RAISE(auto committer, h.t.Committer("e", more));
                return committer->Expire();
            }();
            store.ClearHook();
            std::string text = " of " + std::to_string(h.earliest) + ".." + std::to_string(latest) + " keeping " + std::to_string(l.min) +
                               " to " + std::to_string(l.max) + ", " + std::to_string(l.retain) + " half hours, at most " + std::to_string(l.deletes);
            c.Log() << "expire" << text << ": " << (got.ok() ? std::to_string(got.value()) : got.status().ToString()) << ", first kept " << end << "\n";
            auto left = Snapshots(h);
            for (int64_t id = end; id <= latest; id++) {
                REQUIRE(left.count(id), "expired_too_much", "snapshot " << id << " is gone after expiring" << text << Describe(h));
            }
            if (exact) {
                REQUIRE(got.ok(), "expire", got.status().ToString() << text);
                REQUIRE(got.value() == end - h.earliest, "count", "expired " << got.value() << text << ", wanted " << end - h.earliest << Describe(h));
                REQUIRE(left.size() == static_cast<size_t>(latest - end + 1), "expired_too_little", left.size() << " snapshots are left" << text << Describe(h));
            }
            h.earliest = std::max(h.earliest, end);
            expired += end > 1;
            for (int64_t id = end; id <= latest; id++) CheckSnapshot(c, h, id, true, "after expiring");
            CheckSnapshot(c, h, latest, false, "after expiring");
            if (exact && got.value() > 0) {
                auto used = Referred(c, h);
                auto there = store.Files(h.t.path);
                for (const char* more : {"/ext1", "/ext2"})
                    for (const auto& f : store.Files(more)) there.insert(f);
                for (const auto& f : there) {
                    if (!Starts(Base(f), "data-") || Base(f).find("junk") != std::string::npos) continue;
                    REQUIRE(used.count(Base(f)), "left_behind", "no snapshot refers to " << f << " after expiring" << text << Describe(h));
                }
            }
            continue;
        }
        // files that do not belong to the table, among those that do
        std::vector<Junk> junk;
        std::set<std::string> dirs{h.t.path + "/snapshot", h.t.path + "/manifest"};
        for (const auto& f : store.Files(h.t.path)) {
            std::string dir = f.substr(0, f.rfind('/'));
            if (Starts(Base(dir), "bucket-")) dirs.insert(dir);
        }
        std::vector<std::string> seen(dirs.begin(), dirs.end());
        for (size_t i = 0, m = c.Len(0, 8); i < m; i++) {
            Junk j;
            j.seen = c.Chance(3, 4);
            std::string dir = j.seen ? c.Pick(seen)
                                     : h.t.path + c.PickOf<std::string>({"", "/schema", "/index", "/p0=1", "/bucket-0/sub", "/x=1/y=2/z=3/bucket-0", "/statistics"});
            j.keep = c.Chance(1, 4);
            std::string id = "junk" + std::to_string(step) + "x" + std::to_string(i) + (j.keep ? "keep" : "");
            switch (c.Int(0, 7)) {
                case 0: j.path = dir + "/manifest-" + id; j.known = true; break;
                case 1: j.path = dir + "/manifest-list-" + id + "-0"; j.known = true; break;
                case 2: j.path = dir + "/." + id + ".tmp"; j.known = true; break;
                case 3: j.path = dir + "/data-" + id + c.PickOf<std::string>({".orc", ".parquet", ".avro", ".lance"}); j.known = true; break;
                case 4: j.path = dir + "/data-" + id + c.PickOf<std::string>({".txt", "", ".orc.crc"}); break;
                case 5: j.path = dir + "/changelog-" + id + ".orc"; break;
                case 6: j.path = dir + "/." + id; break;
                default: j.path = dir + "/" + id + ".tmp"; break;
            }
            j.old = c.Chance(3, 4);
            store.Put(j.path, "junk");
            store.Touch(j.path, j.old ? 1600000000000 : 1800000000000);
            junk.push_back(j);
        }
        // whether the table's own files are old enough to go, were they not in use
        int64_t limit = c.Bool() ? 1650000000000 : 1750000000000;
        bool retain = c.Bool();
        auto before = store.Files(h.t.path);
        bool faulty = with_faults && c.Bool();
        if (faulty) fault();
        auto got = [&]() -> Result<std::set<std::string>> {
            CleanContextBuilder b(h.t.path);
            b.AddOption(Options::FILE_SYSTEM, "mem").AddOption("mem.owner", "x").WithOlderThanMs(limit).WithExecutor(Pool());
            if (retain) b.WithFileRetainCondition([](const std::string& name) { return name.find("keep") != std::string::npos; });
            PAIMON_ASSIGN_OR_RAISE(auto ctx, b.Finish());
            PAIMON_ASSIGN_OR_RAISE(auto cleaner, OrphanFilesCleaner::Create(std::move(ctx)));
            return cleaner->Clean();
        }();
        store.ClearHook();
        auto after = store.Files(h.t.path);
        if (h.outside) {
            REQUIRE(!got.ok() && before == after, "outside", "a table with files elsewhere was cleaned" << Describe(h));
            for (const auto& j : junk) store.Remove(j.path);
            continue;
        }
        std::set<std::string> gone;
        std::set_difference(before.begin(), before.end(), after.begin(), after.end(), std::inserter(gone, gone.end()));
        c.Log() << "clean: " << (got.ok() ? std::to_string(got.value().size()) : got.status().ToString()) << ", " << gone.size() << " gone\n";
        cleaned++;
        for (const auto& j : junk) {
            bool may = j.old && j.known && j.seen && !(retain && j.keep);
            REQUIRE(may || !gone.count(j.path), "cleaned_too_much", j.path << " was removed" << Describe(h));
            if (!faulty && !exact) continue;
            if (!faulty) REQUIRE(!may || gone.count(j.path), "cleaned_too_little", j.path << " is still there" << Describe(h));
        }
        if (!faulty) {
            REQUIRE(got.ok(), "clean", got.status().ToString() << Describe(h));
            std::set<std::string> told;
            for (const auto& p : got.value()) told.insert(memfs::Normal(p));
            REQUIRE(told == gone, "told", "the files removed are not the ones named: " << gone.size() << " and " << told.size());
        }
        if (exact) {
            for (const auto& g : gone) REQUIRE(Base(g).find("junk") != std::string::npos, "in_use", g << " was removed" << Describe(h));
        }
        for (int64_t id = h.earliest; id <= latest; id++) CheckSnapshot(c, h, id, true, "after cleaning");
        CheckSnapshot(c, h, latest, false, "after cleaning");
        for (const auto& j : junk) store.Remove(j.path);
    }
    if (expired) c.Label("expired");
    if (cleaned) c.Label("cleaned");
    c.NonTrivial(expired + cleaned > 0);
}
