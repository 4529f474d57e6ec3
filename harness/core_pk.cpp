// C02: what a table with a primary key holds is what its merge engine makes of the records written.
#include "core_predicate.h"

using namespace cp;  // NOLINT

namespace {

enum class Engine { kDedup, kFirst, kPartial, kAgg };
enum class Agg { kNone, kSum, kMin, kMax, kOr, kAnd, kLast, kLastSome, kFirstOne, kFirstSome };

const char* NameOf(Agg a) {
    switch (a) {
        case Agg::kSum: return "sum";
        case Agg::kMin: return "min";
        case Agg::kMax: return "max";
        case Agg::kOr: return "bool_or";
        case Agg::kAnd: return "bool_and";
        case Agg::kLast: return "last_value";
        case Agg::kLastSome: return "last_non_null_value";
        case Agg::kFirstOne: return "first_value";
        case Agg::kFirstSome: return "first_non_null_value";
        default: return "";
    }
}

struct Rec {
    Kind kind = Kind::INSERT;
    Row row;
};

struct Group {
    std::vector<int> seq;
    std::vector<int> vals;
};

struct World {
    Table t;
    Engine engine = Engine::kDedup;
    std::vector<int> part_cols, key_cols;  // the keys without the partition columns
    std::vector<int> seq_cols;             // sequence fields of the table
    bool descending = false;
    bool ignore_delete = false;
    bool retract = false;                  // records may take back others
    int buckets = 1;
    std::vector<Agg> aggs;                 // per column
    std::vector<bool> ignore_retract;      // per column
    std::vector<Group> groups;
    std::vector<std::vector<Rec>> commits;
};

bool Retracts(Kind k) { return k == Kind::DELETE || k == Kind::UPDATE_BEFORE; }

bool Summable(const T& t) {
    return t.k == cv::K::kI16 || t.k == cv::K::kI32 || t.k == cv::K::kI64 || t.k == cv::K::kF64 || t.k == cv::K::kF32 ||
           (t.k == cv::K::kDec && t.p >= 8);
}

Cell Add(const T& t, const Cell& a, const Cell& b, int sign) {
    if (b.null) return a;
    Cell r = a.null ? (cv::IsFloat(t.k) ? cv::D(0) : cv::I(0)) : a;
    if (a.null && sign > 0) return b;
    if (cv::IsFloat(t.k)) r.d += sign * b.d; else r.i += sign * b.i;
    return r;
}

Cell Step(const T& t, Agg a, const Cell& acc, const Cell& in, bool first) {
    switch (a) {
        case Agg::kSum: return Add(t, acc, in, 1);
        case Agg::kMin: return acc.null ? in : in.null ? acc : cv::Compare(t, in, acc) < 0 ? in : acc;
        case Agg::kMax: return acc.null ? in : in.null ? acc : cv::Compare(t, in, acc) > 0 ? in : acc;
        case Agg::kOr: return acc.null ? in : in.null ? acc : cv::I(acc.i || in.i);
        case Agg::kAnd: return acc.null ? in : in.null ? acc : cv::I(acc.i && in.i);
        case Agg::kLast: return in;
        case Agg::kFirstOne: return first ? in : acc;
        case Agg::kFirstSome: return acc.null ? in : acc;
        default: return in.null ? acc : in;
    }
}

int CompareAt(const World& w, const std::vector<int>& cols, const Row& a, const Row& b, bool desc) {
    for (int col : cols) {
        if (a[col].null || b[col].null) {
            if (a[col].null && b[col].null) continue;
            return a[col].null ? -1 : 1;
        }
        if (int r = cv::Compare(w.t.types[col], a[col], b[col])) return desc ? -r : r;
    }
    return 0;
}

// the row of a key, if the table has one
std::optional<Row> Merge(const World& w, std::vector<Rec> recs) {
    if (w.ignore_delete) {
        recs.erase(std::remove_if(recs.begin(), recs.end(), [](const Rec& r) { return Retracts(r.kind); }), recs.end());
    }
    if (recs.empty()) return std::nullopt;
    if (recs.size() == 1) {
        if (Retracts(recs[0].kind)) return std::nullopt;
        return recs[0].row;
    }
    std::stable_sort(recs.begin(), recs.end(), [&](const Rec& a, const Rec& b) {
        return CompareAt(w, w.seq_cols, a.row, b.row, w.descending) < 0;
    });
    size_t width = w.t.names.size();
    if (w.engine == Engine::kDedup) {
        if (Retracts(recs.back().kind)) return std::nullopt;
        return recs.back().row;
    }
    if (w.engine == Engine::kFirst) return recs[0].row;
    Row out(width);
    if (w.engine == Engine::kAgg) {
        for (size_t n = 0; n < recs.size(); n++) {
            for (size_t i = 0; i < width; i++) {
                int col = static_cast<int>(i);
                bool is_key = std::count(w.t.keys.begin(), w.t.keys.end(), w.t.names[i]) > 0;
                bool is_seq = std::count(w.seq_cols.begin(), w.seq_cols.end(), col) > 0;
                const Cell& in = recs[n].row[i];
                if (is_key || is_seq) { out[i] = in; continue; }
                if (Retracts(recs[n].kind)) {
                    if (!w.ignore_retract[i]) out[i] = Add(w.t.types[i], out[i], in, -1);
                    continue;
                }
                out[i] = Step(w.t.types[i], w.aggs[i], out[i], in, n == 0);
            }
        }
        return out;
    }
    for (const auto& rec : recs) {
        std::vector<bool> done(width, false);
        for (const auto& g : w.groups) {
            for (int col : g.seq) done[col] = true;
            for (int col : g.vals) done[col] = true;
            bool none = true;
            for (int col : g.seq) none &= rec.row[col].null;
            if (none) continue;
            bool newer = CompareAt(w, g.seq, rec.row, out, false) >= 0;
            for (int col : g.vals) {
                if (w.aggs[col] != Agg::kNone) out[col] = Step(w.t.types[col], w.aggs[col], out[col], rec.row[col], false);
                else if (newer) out[col] = rec.row[col];
            }
            if (newer) for (int col : g.seq) out[col] = rec.row[col];
        }
        for (size_t i = 0; i < width; i++) {
            if (!done[i] && !rec.row[i].null) out[i] = rec.row[i];
        }
    }
    return out;
}

std::string PartText(const T& t, const Cell& c) { return cv::IsText(t.k) ? c.s : std::to_string(c.i); }

std::string KeyText(const World& w, const Row& r, bool with_part) {
    std::string s;
    if (with_part) for (int col : w.part_cols) s += cv::Text(w.t.types[col], r[col]) + "|";
    for (int col : w.key_cols) s += cv::Text(w.t.types[col], r[col]) + "|";
    return s;
}

int BucketOf(const World& w, const Row& r) {
    uint32_t h = 2166136261u;
    for (char ch : KeyText(w, r, false)) h = (h ^ static_cast<unsigned char>(ch)) * 16777619u;
    return static_cast<int>((h >> 8) % static_cast<uint32_t>(w.buckets));
}

void GenTable(pbt::Case& c, World* w) {
    Table& t = w->t;
    w->engine = c.PickOf<Engine>({Engine::kDedup, Engine::kPartial, Engine::kAgg});
    int nparts = static_cast<int>(c.Weighted({3, 2}));
    int nkeys = static_cast<int>(c.Weighted({3, 2})) + 1;
    int nvals = static_cast<int>(c.Int(1, 5));
    for (int i = 0; i < nparts; i++) {
        T pt;
        pt.k = c.PickOf<cv::K>({cv::K::kI32, cv::K::kStr, cv::K::kI64});
        t.names.push_back("p" + std::to_string(i));
        t.types.push_back(pt);
    }
    for (int i = 0; i < nkeys; i++) {
        t.names.push_back("k" + std::to_string(i));
        t.types.push_back(cv::GenAtom(c, true));
    }
    for (int i = 0; i < nvals; i++) {
        t.names.push_back("v" + std::to_string(i));
        t.types.push_back(w->engine == Engine::kAgg || c.Bool() ? cv::GenAtom(c) : cv::GenType(c, 1));
    }
    for (size_t i = t.names.size(); i > 1; i--) {
        size_t j = c.Int(0, static_cast<int64_t>(i) - 1);
        std::swap(t.names[i - 1], t.names[j]);
        std::swap(t.types[i - 1], t.types[j]);
    }
    for (int i = 0; i < nparts; i++) t.parts.push_back("p" + std::to_string(i));
    for (int i = 0; i < nkeys; i++) t.keys.push_back("k" + std::to_string(i));
    if (c.Bool()) std::reverse(t.keys.begin(), t.keys.end());
    for (const auto& k : t.keys) w->key_cols.push_back(t.Index(k));
    for (const auto& p : t.parts) {
        w->part_cols.push_back(t.Index(p));
        t.keys.insert(c.Bool() ? t.keys.begin() : t.keys.end(), p);
    }
    w->aggs.assign(t.names.size(), Agg::kNone);
    w->ignore_retract.assign(t.names.size(), false);
    std::vector<int> vals;
    for (size_t i = 0; i < t.names.size(); i++) if (t.names[i][0] == 'v') vals.push_back(static_cast<int>(i));
    for (size_t i = vals.size(); i > 1; i--) std::swap(vals[i - 1], vals[c.Int(0, static_cast<int64_t>(i) - 1)]);

    w->buckets = static_cast<int>(c.Int(1, 3));
    t.opts[Options::BUCKET] = std::to_string(w->buckets);
    static const char* kEngines[] = {"deduplicate", "first-row", "partial-update", "aggregation"};
    t.opts[Options::MERGE_ENGINE] = kEngines[static_cast<int>(w->engine)];
    auto seq_ok = [&](int col) {
        auto k = t.types[col].k;
        return t.types[col].kids.empty() && !cv::IsFloat(k) && k != cv::K::kBin;
    };
    // sequence fields
    if ((w->engine == Engine::kDedup || w->engine == Engine::kAgg) && c.Chance(1, 2)) {
        std::string list;
        for (int col : vals) {
            if (!seq_ok(col) || w->seq_cols.size() == 2 || (!w->seq_cols.empty() && c.Bool())) continue;
            w->seq_cols.push_back(col);
            list += (list.empty() ? "" : ",") + t.names[col];
        }
        if (!list.empty()) {
            t.opts[Options::SEQUENCE_FIELD] = list;
            w->descending = c.Chance(1, 3);
            if (w->descending) t.opts[Options::SEQUENCE_FIELD_SORT_ORDER] = "descending";
            c.Label("sequence field");
        }
    }
    auto agg_option = [&](int col) { return "fields." + t.names[col] + ".aggregate-function"; };
    if (w->engine == Engine::kAgg) {
        w->retract = w->seq_cols.empty() && c.Chance(1, 2);
        if (c.Chance(1, 4) && !w->retract) {
            t.opts[Options::FIELDS_DEFAULT_AGG_FUNC] = "last_value";
        }
        for (int col : vals) {
            if (std::count(w->seq_cols.begin(), w->seq_cols.end(), col)) continue;
            const T& ty = t.types[col];
            std::vector<Agg> can;
            // taking back a float zero leaves a zero of either sign
            if (Summable(ty) && !(w->retract && cv::IsFloat(ty.k))) { can.push_back(Agg::kSum); can.push_back(Agg::kSum); }
            if (ty.k == cv::K::kBool) { can.push_back(Agg::kOr); can.push_back(Agg::kAnd); }
            else if (ty.kids.empty()) { can.push_back(Agg::kMin); can.push_back(Agg::kMax); }
            if (w->seq_cols.empty()) {
                can.push_back(Agg::kLastSome);
                can.push_back(Agg::kFirstSome);
                if (!w->retract) can.push_back(Agg::kFirstOne);
            }
            if (!w->retract) can.push_back(Agg::kLast);
            Agg a = c.Pick(can);
            w->aggs[col] = a;
            bool fallback = t.opts.count(Options::FIELDS_DEFAULT_AGG_FUNC) > 0;
            bool implied = a == (fallback ? Agg::kLast : Agg::kLastSome);
            if (!implied || c.Bool()) t.opts[agg_option(col)] = NameOf(a);
            if (w->retract && (a != Agg::kSum || c.Chance(1, 3))) {
                w->ignore_retract[col] = true;
                t.opts["fields." + t.names[col] + ".ignore-retract"] = "true";
            }
        }
    } else if (w->engine == Engine::kPartial && c.Chance(2, 3) && vals.size() >= 2) {
        size_t at = 0;
        while (at + 1 < vals.size()) {
            Group g;
            std::string seqs, members;
            size_t nseq = c.Chance(1, 3) ? 2 : 1;
            while (at < vals.size() && g.seq.size() < nseq && seq_ok(vals[at])) {
                seqs += (seqs.empty() ? "" : ",") + t.names[vals[at]];
                g.seq.push_back(vals[at++]);
            }
            if (g.seq.empty()) break;
            size_t nval = static_cast<size_t>(c.Int(1, 2));
            while (at < vals.size() && g.vals.size() < nval) {
                int col = vals[at++];
                members += (members.empty() ? "" : ",") + t.names[col];
                g.vals.push_back(col);
                if (c.Chance(1, 2)) {
                    if (Summable(t.types[col])) w->aggs[col] = Agg::kSum;
                    else if (t.types[col].kids.empty() && t.types[col].k != cv::K::kBool) w->aggs[col] = c.Bool() ? Agg::kMin : Agg::kMax;
                    if (w->aggs[col] != Agg::kNone) t.opts[agg_option(col)] = NameOf(w->aggs[col]);
                }
            }
            if (g.vals.empty()) break;
            t.opts["fields." + seqs + ".sequence-group"] = members;
            w->groups.push_back(g);
            c.Label("sequence group");
        }
    }
    if (w->engine != Engine::kAgg && c.Chance(1, 3)) {
        w->ignore_delete = true;
        t.opts[Options::IGNORE_DELETE] = "true";
    }
    if (w->engine == Engine::kDedup) w->retract = true;
    if (w->ignore_delete) w->retract = true;
    t.opts[Options::FILE_FORMAT] = c.PickOf<std::string>({"orc", "parquet"});
    t.opts[Options::TARGET_FILE_SIZE] = c.PickOf<std::string>({"128mb", "1kb", "200b"});
    t.opts[Options::READ_BATCH_SIZE] = std::to_string(c.PickOf<int>({1, 2, 7, 1024}));
    t.opts[Options::WRITE_BATCH_SIZE] = std::to_string(c.PickOf<int>({1, 3, 1024}));
    t.opts[Options::WRITE_BUFFER_SIZE] = c.PickOf<std::string>({"256mb", "1b", "150b"});
    t.opts[Options::SOURCE_SPLIT_TARGET_SIZE] = c.PickOf<std::string>({"128mb", "1b", "600b"});
    if (c.Chance(1, 6)) {
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS] = "mem://ext1/a,mem://ext2";
        t.opts[Options::DATA_FILE_EXTERNAL_PATHS_STRATEGY] = "round-robin";
    }
    if (c.Chance(1, 6)) t.opts[Options::DATA_FILE_PREFIX] = "x";
    t.opts[Options::SOURCE_SPLIT_OPEN_FILE_COST] = c.PickOf<std::string>({"4mb", "1b"});
    t.opts[Options::SORT_ENGINE] = c.PickOf<std::string>({"loser-tree", "min-heap"});
    vfmt::GetKnobs().row_group = c.PickOf<int64_t>({1, 2, 5, 64});
    vfmt::GetKnobs().prefetch = c.Bool();
}

std::string Describe(const World& w) {
    std::string s;
    for (size_t i = 0; i < w.t.names.size(); i++) s += w.t.names[i] + ":" + cv::ToArrow(w.t.types[i])->ToString() + " ";
    s += "\n  keys";
    for (const auto& k : w.t.keys) s += " " + k;
    for (const auto& [k, v] : w.t.opts) s += "\n  " + k + "=" + v;
    for (size_t i = 0; i < w.commits.size(); i++) {
        s += "\n  commit " + std::to_string(i + 1);
        for (const auto& r : w.commits[i]) s += "\n    " + std::to_string(static_cast<int>(r.kind)) + " " + cv::Text(w.t.types, r.row);
    }
    return s;
}

Cell SomeCell(pbt::Case& c, const World& w, int col) {
    return cv::GenCell(c, w.t.types[col], 6, 0);
}

void WriteSome(pbt::Case& c, World* w, FileStoreWrite* writer, std::vector<Rec>* now) {
    Table& t = w->t;
    for (size_t b = 0, nbatch = c.Len(1, 4); b < nbatch; b++) {
        Options_ part;
        Row fixed(t.names.size());
        for (size_t i = 0; i < w->part_cols.size(); i++) {
            int col = w->part_cols[i];
            fixed[col] = cv::GenCell(c, t.types[col], 2, 0);
            part[t.parts[i]] = PartText(t.types[col], fixed[col]);
        }
        std::map<int, std::pair<std::vector<Row>, std::vector<Kind>>> by_bucket;
        bool plain = !w->retract || c.Chance(1, 2);
        for (size_t i = 0, n = c.Len(1, 10); i < n; i++) {
            Rec rec;
            rec.row.resize(t.names.size());
            for (size_t col = 0; col < rec.row.size(); col++) {
                char what = t.names[col][0];
                if (what == 'p') rec.row[col] = fixed[col];
                else if (what == 'k') rec.row[col] = cv::GenCell(c, t.types[col], 5, 0);
                else rec.row[col] = cv::GenCell(c, t.types[col], 6, 4);
            }
            // a record that is the only one of its key is kept as it came
            for (const auto& g : w->groups) {
                bool none = true;
                for (int col : g.seq) none &= rec.row[col].null;
                if (none) for (int col : g.vals) rec.row[col] = cv::Null();
            }
            if (!plain) rec.kind = static_cast<Kind>(c.Weighted({4, 1, 2, 3}));
            auto& [rows, kinds] = by_bucket[BucketOf(*w, rec.row)];
            rows.push_back(rec.row);
            kinds.push_back(rec.kind);
            now->push_back(rec);
        }
        for (auto& [bucket, rk] : by_bucket) {
            UNWRAP(auto batch, t.Batch(rk.first, part, bucket, plain && c.Bool() ? std::vector<Kind>() : rk.second), "batch");
            REQUIRE_OK(writer->Write(std::move(batch)), "write");
        }
    }
}

void Check(pbt::Case& c, const World& w, const char* when) {
    const Table& t = w.t;
    Table::ReadSpec s;
    int64_t latest = static_cast<int64_t>(w.commits.size());
    int64_t id = c.Chance(2, 3) ? latest : c.Int(1, latest);
    if (id != latest) {
        s.snapshot = id;
        s.mode = StartupMode::FromSnapshotFull().ToString();
    }
    if (c.Chance(1, 2)) {
        std::vector<std::string> cols = t.names;
        for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[c.Int(0, static_cast<int64_t>(i) - 1)]);
        cols.resize(c.Int(1, static_cast<int64_t>(cols.size())));
        s.columns = cols;
    }
    s.prefetch = c.Bool();
    s.threads = c.Chance(1, 4);
    if (c.Chance(1, 3)) s.more[Options::SORT_ENGINE] = c.PickOf<std::string>({"loser-tree", "min-heap"});
    std::map<std::string, std::vector<Rec>> by_key;
    for (int64_t k = 0; k < id; k++) {
        for (const auto& r : w.commits[k]) by_key[KeyText(w, r.row, true)].push_back(r);
    }
    if (w.buckets > 1 && c.Chance(1, 5)) s.bucket = static_cast<int>(c.Int(0, w.buckets - 1));
    std::vector<std::string> names = s.columns.empty() ? t.names : s.columns;
    std::vector<T> types = t.TypesOf(s);
    std::vector<Row> merged;
    bool folded = false;
    for (auto& [key, recs] : by_key) {
        if (s.bucket && BucketOf(w, recs[0].row) != *s.bucket) continue;
        folded |= recs.size() > 1;
        auto row = Merge(w, recs);
        if (!row) continue;
        Row r;
        for (const auto& n : names) r.push_back((*row)[t.Index(n)]);
        merged.push_back(r);
    }
    Pred p;
    if (c.Chance(1, 2)) {
        p = cp::Gen(c, names, types, [&](int col) { return SomeCell(c, w, t.Index(names[col])); });
        s.predicate = p.p;
        s.filter = c.Bool();
        s.scan_predicate = c.Chance(3, 4);
        c.Label(s.filter ? "filtered" : "predicate");
    }
    auto got_rows = t.ReadAll(s);
    REQUIRE(got_rows.ok(), "read", when << ": snapshot " << id << " cannot be read: " << got_rows.status().ToString() << "\n" << Describe(w));
    auto got = Bag(types, got_rows.value());
    auto all = Bag(types, merged);
    if (!s.predicate) {
        REQUIRE(got == all, "rows", when << ": snapshot " << id << " of " << latest << " reads wrongly" << Diff(all, got) << "\n" << Describe(w));
    } else {
        std::vector<Row> some;
        for (const auto& r : merged) if (p.holds(r)) some.push_back(r);
        auto want = Bag(types, some);
        if (s.filter) {
            REQUIRE(got == want, "filtered", when << ": rows where " << p.text << Diff(want, got) << "\n" << Describe(w));
        } else {
            // without the filter others may come, and be out of date
            std::vector<Got> kept;
            for (const auto& g : got_rows.value()) if (p.holds(g.row)) kept.push_back(g);
            auto have = Bag(types, kept);
            REQUIRE(have == want, "predicate", when << ": rows where " << p.text << Diff(want, have) << "\n" << Describe(w));
        }
    }
    if (folded) c.NonTrivial();
    c.Eval(1);
}

}  // namespace

FACET(key_table, 10) {
    memfs::Store::Get().Reset();
    World w;
    GenTable(c, &w);
    c.Log() << Describe(w);
    REQUIRE_OK(w.t.Create(), "create");
    bool streaming = c.Bool();
    std::unique_ptr<FileStoreWrite> writer;
    UNWRAP(auto commit, w.t.Committer("u"), "committer");
    size_t commits = c.Len(1, 5);
    for (size_t k = 0; k < commits; k++) {
        if (!writer || !streaming || c.Chance(1, 3)) {
            UNWRAP(auto fresh, w.t.Writer("u", {}, streaming), "writer");
            writer = std::move(fresh);
        }
        std::vector<Rec> now;
        WriteSome(c, &w, writer.get(), &now);
        w.commits.push_back(now);
        UNWRAP(auto msgs, writer->PrepareCommit(c.Bool(), static_cast<int64_t>(k)), "prepare");
        REQUIRE_OK(commit->Commit(msgs, static_cast<int64_t>(k)), "commit");
        if (c.Chance(1, 3)) Check(c, w, "between commits");
    }
    Check(c, w, "at the end");
    Check(c, w, "again");
    REQUIRE_OK(writer->Close(), "close");
    writer.reset();
    REQUIRE(memfs::Store::Get().OpenOutputs() == 0, "leak", "output streams left open");
}
