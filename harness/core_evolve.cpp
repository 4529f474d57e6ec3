// C08: rows written under an earlier schema are read under the present one by the ids of their fields.
#include "core_dress.h"

using namespace cd;  // NOLINT

FACET(evolution, 10) {
    memfs::Store::Get().Reset();
    World w;
    GenTable(c, &w, true);
    Create(c, &w);
    bool indexed = c.Chance(1, 3);
    c.Log() << Describe(w);
    size_t commits = c.Len(1, 5);
    bool across = false;
    for (size_t k = 0; k < commits; k++) {
        if ((k > 0 || c.Bool()) && c.Chance(2, 3)) {
            Evolve(c, &w);
            across |= k > 0;
            c.Log() << "\n" << Describe(w).substr(0, Describe(w).find('\n'));
            if (k > 0 && c.Chance(1, 3)) Check(c, w, "after a change of schema", false);
        }
        UNWRAP(auto writer, w.t.Writer("u"), "writer");
        UNWRAP(auto commit, w.t.Committer("u"), "committer");
        std::vector<Rec> now;
        WriteSome(c, &w, writer.get(), &now);
        w.commits.push_back(now);
        UNWRAP(auto msgs, writer->PrepareCommit(c.Bool(), static_cast<int64_t>(k)), "prepare");
        if (indexed) Index(c, w, FilesOf(c, w, msgs));
        REQUIRE_OK(commit->Commit(msgs, static_cast<int64_t>(k)), "commit");
        REQUIRE_OK(writer->Close(), "close");
    }
    if (c.Chance(1, 2)) {
        Evolve(c, &w);
        across = true;
        c.Log() << "\n" << Describe(w).substr(0, Describe(w).find('\n'));
    }
    c.NonTrivial(across);
    Check(c, w, "at the end", false);
    Check(c, w, "again", false);
    Check(c, w, "once more", true);
}
