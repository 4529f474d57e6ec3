// C06: a predicate never loses a row it holds for, and with filtering returns only those.
#include "core_dress.h"

using namespace cd;  // NOLINT

FACET(filter, 10) {
    memfs::Store::Get().Reset();
    World w;
    GenTable(c, &w, c.Chance(1, 4));
    Create(c, &w);
    bool indexed = c.Bool();
    c.Log() << Describe(w);
    UNWRAP(auto writer, w.t.Writer("u"), "writer");
    UNWRAP(auto commit, w.t.Committer("u"), "committer");
    for (size_t k = 0, commits = c.Len(1, 5); k < commits; k++) {
        std::vector<Rec> now;
        WriteSome(c, &w, writer.get(), &now);
        w.commits.push_back(now);
        UNWRAP(auto msgs, writer->PrepareCommit(c.Bool(), static_cast<int64_t>(k)), "prepare");
        if (indexed) Index(c, w, FilesOf(c, w, msgs));
        REQUIRE_OK(commit->Commit(msgs, static_cast<int64_t>(k)), "commit");
    }
    for (int i = 0; i < 5; i++) Check(c, w, "filter", true);
    c.NonTrivial(w.commits.size() > 1);
    REQUIRE_OK(writer->Close(), "close");
}
