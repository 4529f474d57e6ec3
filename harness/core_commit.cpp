// Commits that meet faults, crashes and other committers: each is carried out once or not at all,
// and what was committed before stays as it was.
#include <time.h>

#include "core_history.h"
#include "pbt.h"

// The code under test sleeps for up to a second and a half between attempts.
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }

using namespace ch;  // NOLINT

namespace {

// one thread, so that the order of operations is the same each time
const int kThreads = ct::PoolThreads() = 1;

struct Fault {
    int64_t at = 0;
    bool after = false, crash = false;
};

// Counts the operations of "x".
template <typename F>
int64_t Count(F f) {
    auto& store = memfs::Store::Get();
    auto keep = store.Snapshot();
    std::atomic<int64_t> n{0};
    store.SetHook([&](const memfs::Event& e) {
        if (e.owner == "x") n++;
        return memfs::Verdict::kGo;
    });
    f();
    store.ClearHook();
    store.Restore(keep);
    return n;
}

void Arm(const Fault& f, std::string* where) {
    memfs::Store::Get().SetHook([f, where](const memfs::Event& e) {
        if (e.owner != "x" || e.number < f.at) return memfs::Verdict::kGo;
        if (e.number == f.at) {
            if (where) *where = std::string(memfs::OpName(e.op)) + " " + e.path;
            return f.after ? memfs::Verdict::kFailAfter : memfs::Verdict::kFail;
        }
        return f.crash ? memfs::Verdict::kFail : memfs::Verdict::kGo;
    });
}

Fault GenFault(pbt::Case& c, int64_t n) {
    Fault f;
    // the last operations store the snapshot
    f.at = c.Bool() ? c.Int(0, n) : std::max<int64_t>(0, n - 1 - c.Int(0, 14));
    f.after = c.Bool();
    f.crash = c.Bool();
    return f;
}

}  // namespace

FACET(faults, 10) {
    memfs::Store::Get().Reset();
    History h;
    GenTable(c, &h);
    REQUIRE_OK(h.t.Create(), "create");
    int faulted = 0;
    for (size_t step = 0, n = c.Len(2, 7); step < n; step++) {
        std::string user = c.Bool() ? "a" : "b";
        Op op = GenOp(c, &h, user);
        if (op.what != What::kDrop) {
            if (c.Chance(1, 6)) {
                // a fault while writing
                Fault f;
                f.at = c.Int(0, 40);
                f.after = c.Bool();
                f.crash = c.Bool();
                Arm(f, nullptr);
                Status st = Write(c, &h, &op, "x");
                memfs::Store::Get().ClearHook();
                if (!st.ok()) {
                    c.Label("write failed");
                    faulted++;
                    CheckSome(c, &h, "after a failed write", 1);
                    continue;
                }
            } else {
                REQUIRE_OK(Write(c, &h, &op, "w"), "write");
            }
        }
        h.ops.push_back(op);
        size_t me = h.ops.size() - 1;
        if (c.Chance(1, 3)) {
            REQUIRE_OK(Run(h, op, "w"), "commit");
            Notice(c, &h, "commit");
            REQUIRE(h.ops[me].seen, "not_committed", "a commit that succeeded is not there" << Describe(h));
            continue;
        }
        Fault f = GenFault(c, Count([&] { (void)Run(h, op, "x"); }));
        std::string where;
        Arm(f, &where);
        Status st = Run(h, op, "x");
        memfs::Store::Get().ClearHook();
        faulted++;
        c.Log() << user << "/" << op.ident << (f.crash ? " crash" : " fault") << (f.after ? " after " : " before ") << where << ": " << st.ToString() << "\n";
        CheckSome(c, &h, "after a fault", 2);
        bool there = h.ops[me].seen;
        c.Label(st.ok() ? "committed in spite of a fault" : there ? "failed but committed" : "failed");
        REQUIRE(!st.ok() || there, "not_committed", "a commit that succeeded is not there, after " << where << Describe(h));
        if (op.what == What::kDrop) {
            if (!there) {
                REQUIRE_OK(Run(h, op, "w"), "drop_again");
                CheckSome(c, &h, "after dropping again", 1);
                REQUIRE(h.ops[me].seen, "not_committed", "a drop that succeeded is not there" << Describe(h));
            }
            continue;
        }
        for (int again = static_cast<int>(c.Int(1, 2)); again > 0; again--) {
            UNWRAP(int32_t did, Again(h, op, "w"), "again");
            CheckSome(c, &h, "after trying again", 1);
            REQUIRE(did == (there ? 0 : 1), "count", "trying again committed " << did << ", it was " << (there ? "" : "not ") << "there" << Describe(h));
            REQUIRE(h.ops[me].seen, "not_committed", "trying again did not commit" << Describe(h));
            there = true;
        }
    }
    for (int64_t id = 1; id < static_cast<int64_t>(h.states.size()); id++) CheckSnapshot(c, h, id, true, "at the end");
    c.NonTrivial(faulted > 0 && h.states.size() > 2);
}

FACET(concurrent, 10) {
    memfs::Store::Get().Reset();
    auto& store = memfs::Store::Get();
    History h;
    GenTable(c, &h);
    REQUIRE_OK(h.t.Create(), "create");
    int raced = 0;
    auto prepare = [&](const std::string& user) {
        Op op = GenOp(c, &h, user);
        if (op.what != What::kDrop) REQUIRE_OK(Write(c, &h, &op, "w"), "write");
        h.ops.push_back(op);
        return h.ops.size() - 1;
    };
    for (size_t step = 0, n = c.Len(0, 3); step < n; step++) {
        size_t me = prepare("c");
        REQUIRE_OK(Run(h, h.ops[me], "w"), "commit");
    }
    for (size_t round = 0, rounds = c.Len(1, 3); round < rounds; round++) {
        size_t me = prepare("a");
        int64_t ops = Count([&] { (void)Run(h, h.ops[me], "x"); });
        // the others run whole between two operations of this one
        std::vector<std::pair<int64_t, size_t>> others;
        for (size_t i = 0, n = c.Len(1, 3); i < n; i++) {
            int64_t at = c.Bool() ? c.Int(0, ops * 2) : std::max<int64_t>(0, ops - 1 - c.Int(0, 12));
            others.emplace_back(at, prepare(c.Bool() ? "b" : "c"));
        }
        std::sort(others.begin(), others.end());
        auto self = std::this_thread::get_id();
        bool inside = false, in_window = false;
        size_t next = 0;
        std::string log;
        std::vector<Status> ends;
        store.SetHook([&](const memfs::Event& e) {
            if (e.owner != "x" || inside || std::this_thread::get_id() != self) return memfs::Verdict::kGo;
            while (next < others.size() && e.number >= others[next].first) {
                inside = true;
                log += std::string(" before ") + memfs::OpName(e.op) + " " + e.path;
                bool storing = e.path.find("/snapshot/") != std::string::npos &&
                               (e.op == memfs::Op::kCreate || e.op == memfs::Op::kWrite || e.op == memfs::Op::kFlush ||
                                e.op == memfs::Op::kClose || e.op == memfs::Op::kRename);
                in_window |= storing;
                ends.push_back(Run(h, h.ops[others[next++].second], "w"));
                inside = false;
            }
            return memfs::Verdict::kGo;
        });
        Status st = Run(h, h.ops[me], "x");
        store.ClearHook();
        raced += static_cast<int>(ends.size());
        for (const auto& e : ends) REQUIRE(e.ok(), "other", "a commit made during another failed: " << e.ToString() << log);
        for (; next < others.size(); next++) REQUIRE_OK(Run(h, h.ops[others[next].second], "w"), "commit");
        c.Log() << "others" << log << "; this " << st.ToString() << "\n";
        CheckSome(c, &h, "after commits at once", 2);
        bool there = h.ops[me].seen;
        c.Label(!st.ok() ? (there ? "lost race, committed" : "lost race") : "won or tried again");
        REQUIRE(!st.ok() || there, "not_committed", "a commit that succeeded is not there" << log << Describe(h));
        REQUIRE(st.ok() || in_window, "gave_up", "commit failed: " << st.ToString() << log << Describe(h));
        for (size_t i = 0; i < h.ops.size(); i++) {
            REQUIRE(h.ops[i].seen || i == me, "not_committed", "a commit that succeeded is not there: " << h.ops[i].user << "/" << h.ops[i].ident << log << Describe(h));
        }
        if (!there) {
            if (h.ops[me].what == What::kDrop) {
                REQUIRE_OK(Run(h, h.ops[me], "w"), "drop_again");
            } else {
                UNWRAP(int32_t did, Again(h, h.ops[me], "w"), "again");
                REQUIRE(did == 1, "count", "trying again committed " << did << Describe(h));
            }
            CheckSome(c, &h, "after trying again", 1);
            REQUIRE(h.ops[me].seen, "not_committed", "trying again did not commit" << Describe(h));
        }
    }
    for (int64_t id = 1; id < static_cast<int64_t>(h.states.size()); id++) CheckSnapshot(c, h, id, true, "at the end");
    c.NonTrivial(raced > 0);
}
