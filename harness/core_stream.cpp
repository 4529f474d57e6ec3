// Reading a table as a stream while it changes: every appended row arrives once, in the order of
// commits.
#include <time.h>

#include "core_history.h"
#include "pbt.h"

// The code under test sleeps between attempts.
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }

using namespace ch;  // NOLINT

namespace {

enum class Mode { kDefault, kLatestFull, kLatest, kFromSnapshot, kFromSnapshotFull };

struct Reading {
    Mode mode;
    int64_t from = 0;
    Table::ReadSpec spec;
    std::unique_ptr<TableScan> scan;
    std::optional<int64_t> next;
    bool polled = false, none_at_first = false, dead = false;
};

std::vector<Row> Some(const History& h, const Reading& s, const std::vector<Row>& rows) {
    std::vector<Row> out;
    for (const auto& r : rows) if (Hit(h.t, s.spec.part_filters, r)) out.push_back(r);
    return out;
}

}  // namespace

FACET(stream, 10) {
    auto& store = memfs::Store::Get();
    store.Reset();
    History h;
    GenTable(c, &h);
    h.t.opts[Options::SOURCE_SPLIT_TARGET_SIZE] = c.PickOf<std::string>({"128mb", "1b"});
    REQUIRE_OK(h.t.Create(), "create");
    std::vector<Reading> streams;
    int polls = 0, followed = 0;
    auto latest = [&] { return static_cast<int64_t>(h.states.size()) - 1; };
    auto open = [&] {
        Reading s;
        s.mode = static_cast<Mode>(c.Int(0, 4));
        s.spec.streaming = true;
        if (s.mode == Mode::kFromSnapshot || s.mode == Mode::kFromSnapshotFull || (s.mode == Mode::kDefault && c.Bool())) {
            s.from = c.Int(1, latest() + 3);
            s.spec.snapshot = s.from;
            if (s.mode == Mode::kDefault) s.mode = Mode::kFromSnapshot;
            else s.spec.mode = s.mode == Mode::kFromSnapshot ? "from-snapshot" : "from-snapshot-full";
        } else if (s.mode != Mode::kDefault) {
            s.spec.mode = s.mode == Mode::kLatest ? "latest" : "latest-full";
        }
        if (!h.t.parts.empty() && c.Chance(1, 4)) {
            int at = static_cast<int>(c.Int(0, static_cast<int64_t>(h.t.parts.size()) - 1));
            s.spec.part_filters.push_back({{h.t.parts[at], PartText(h.t.types[at], cv::GenCell(c, h.t.types[at], 3, 8))}});
        }
        UNWRAP(s.scan, h.t.Scan(s.spec), "scan");
        streams.push_back(std::move(s));
    };
    auto poll = [&](Reading* s) {
        polls++;
        // what should come: rows and snapshot, nothing, or an error
        std::optional<std::vector<Row>> rows;
        std::optional<int64_t> id;
        bool error = false;
        if (!s->polled) s->none_at_first = latest() == 0;
        s->polled = true;
        if (!s->next) {
            if (latest() == 0) {
            } else if (s->mode == Mode::kDefault || s->mode == Mode::kLatestFull) {
                id = latest();
            } else if (s->mode == Mode::kLatest) {
                s->next = s->none_at_first ? 1 : latest() + 1;
            } else if (s->mode == Mode::kFromSnapshot) {
                s->next = std::max(s->from, h.earliest);
            } else {
                id = std::max(s->from, h.earliest);
                if (*id > latest()) {
                    id.reset();
                    error = true;
                }
            }
            if (id) {
                rows = h.states[*id].rows;
                s->next = *id + 1;
            }
        } else {
            int64_t n = *s->next;
            if (n < h.earliest || n > latest() + 1) {
                error = true;
            } else {
                while (n <= latest() && h.ops[h.states[n].op].what != What::kAppend) n++;
                if (n <= latest()) {
                    id = n;
                    rows = h.ops[h.states[n].op].rows;
                    n++;
                    followed++;
                }
                s->next = n;
            }
        }
        auto plan = s->scan->CreatePlan();
        if (error) {
            REQUIRE(!plan.ok(), "no_error", "a stream at " << s->next.value_or(s->from) << " should fail, snapshots are " << h.earliest << ".." << latest());
            s->dead = true;
            return;
        }
        REQUIRE(plan.ok(), "plan", plan.status().ToString() << " for a stream at " << s->next.value_or(0) << ", snapshots " << h.earliest << ".." << latest() << Describe(h));
        auto splits = plan.value()->Splits();
        auto got = h.t.Read(s->spec, splits);
        REQUIRE(got.ok(), "read", got.status().ToString());
        auto want = Bag(h.t.types, Some(h, *s, rows ? *rows : std::vector<Row>()));
        auto have = Bag(h.t.types, got.value());
        REQUIRE(want == have, "rows", "a stream (" << s->spec.mode.value_or("default") << " " << s->from << ") should get "
                                      << (id ? "snapshot " + std::to_string(*id) : "nothing") << Diff(want, have) << Describe(h));
        if (id) REQUIRE(plan.value()->SnapshotId() == id, "snapshot", "plan is of snapshot " << plan.value()->SnapshotId().value_or(-1) << ", wanted " << *id);
        c.Eval(1);
    };
    if (c.Chance(3, 4)) open();
    for (size_t step = 0, n = c.Len(4, 16); step < n; step++) {
        switch (c.Weighted({5, 3, latest() > 2 ? 1 : 0, 6})) {
            case 0: {
                Op op = GenOp(c, &h, c.Bool() ? "a" : "b");
                if (op.what != What::kDrop) REQUIRE_OK(Write(c, &h, &op, "w"), "write");
                h.ops.push_back(op);
                REQUIRE_OK(Run(h, op, "w"), "commit");
                Notice(c, &h, "commit");
                break;
            }
            case 1:
                open();
                break;
            case 2: {
                int keep = static_cast<int>(c.Int(1, latest()));
                h.more[Options::SNAPSHOT_NUM_RETAINED_MIN] = std::to_string(keep);
                h.more[Options::SNAPSHOT_NUM_RETAINED_MAX] = std::to_string(keep);
                UNWRAP(auto committer, h.t.Committer("e", h.more), "committer");
                REQUIRE_OK(committer->Expire(), "expire");
                h.earliest = std::max(h.earliest, latest() - keep + 1);
                break;
            }
            default: {
                std::vector<Reading*> alive;
                for (auto& s : streams) if (!s.dead) alive.push_back(&s);
                if (!alive.empty()) poll(alive[c.Int(0, static_cast<int64_t>(alive.size()) - 1)]);
            }
        }
    }
    // everything there is left
    for (auto& s : streams) {
        for (int i = 0; i < 30 && !s.dead; i++) {
            auto before = s.next;
            poll(&s);
            if (s.next == before) break;
        }
    }
    // a stream outlives its table
    if (c.Chance(1, 4)) {
        for (const auto& f : store.Files(h.t.path + "/snapshot")) store.Remove(f);
        for (auto& s : streams) {
            if (s.dead || !s.next || *s.next == 1) continue;
            auto plan = s.scan->CreatePlan();
            REQUIRE(!plan.ok(), "no_error", "a stream at " << *s.next << " should fail, there are no snapshots");
            c.Label("table is gone");
        }
    }
    if (followed) c.Label("followed");
    c.NonTrivial(polls > 2 && followed > 0);
}
