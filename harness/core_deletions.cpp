// C12: rows marked as deleted are not read, all others are.
#include <regex>

#include "core_dress.h"
#include "paimon/core/deletionvectors/bitmap_deletion_vector.h"
#include "paimon/core/deletionvectors/deletion_vector.h"
#include "paimon/table/source/table_scan.h"

using namespace cd;  // NOLINT

namespace {
using Positions = std::set<int64_t>;

std::string Body(pbt::Case& c, const Positions& p) {
    RoaringBitmap32 b;
    for (int64_t x : p) b.Add(static_cast<int32_t>(x));
    auto bytes = b.Serialize(GetDefaultPool().get());
    return ci::Big(1581511376, 4) + std::string(bytes->data(), bytes->size());
}

Positions In(const RoaringBitmap32& b) {
    Positions p;
    for (auto it = b.Begin(); it != b.End(); ++it) p.insert(*it);
    return p;
}

struct Deleting {
    World* w;
    std::vector<DataFile> files;
    std::vector<size_t> count;                         // files of the first so many commits
    std::vector<std::map<std::string, Positions>> at;  // deleted positions by snapshot
    int made = 0;
    bool in_dir = false;
};

// Puts the vectors of some files into index files and names these in the snapshot.
void Store(pbt::Case& c, Deleting* d, int64_t snapshot, const std::map<std::string, Positions>& deleted) {
    const World& w = *d->w;
    CoreOptions o;
    auto paths = Paths(c, w, &o);
    std::map<std::pair<std::string, int>, std::vector<const DataFile*>> groups;
    for (const auto& f : d->files) {
        if (deleted.count(f.meta->file_name)) groups[{f.dir, f.bucket}].push_back(&f);
    }
    std::vector<IndexManifestEntry> entries;
    auto entry = [&](const DataFile& f, std::shared_ptr<IndexFileMeta> m) {
        entries.emplace_back(FileKind::Add(), f.partition, f.bucket, m);
    };
    for (auto& [key, group] : groups) {
        for (size_t i = group.size(); i > 1; i--) std::swap(group[i - 1], group[c.Draw(i - 1)]);
        for (size_t i = 0; i < group.size();) {
            std::string bytes = ci::Big(1, 1);
            LinkedHashMap<std::string, DeletionVectorMeta> ranges;
            const DataFile& first = *group[i];
            int64_t total = 0;
            for (size_t n = c.Int(1, 3); n > 0 && i < group.size(); n--, i++) {
                const Positions& p = deleted.at(group[i]->meta->file_name);
                if (c.Chance(1, 5)) bytes += c.Bytes(c.Int(1, 5));
                std::string body = Body(c, p);
                ranges.insert(group[i]->meta->file_name,
                              DeletionVectorMeta(group[i]->meta->file_name, static_cast<int32_t>(bytes.size()),
                                                 static_cast<int32_t>(body.size()),
                                                 c.Chance(3, 4) ? std::optional<int64_t>(p.size()) : std::nullopt));
                bytes += ci::Big(body.size(), 4) + body + ci::Big(c.Draw(0xffff), 4);
                total += static_cast<int64_t>(p.size());
            }
            std::string name = "index-" + std::to_string(d->made++);
            std::optional<std::string> external;
            std::string path = (d->in_dir ? first.dir : w.t.path + "/index") + "/" + name;
            if (d->in_dir && c.Chance(1, 4)) {
                path = "/w/elsewhere/" + name;
                external = path;
            }
            memfs::Store::Get().Put(path, bytes);
            entry(first, std::make_shared<IndexFileMeta>("DELETION_VECTORS", name, bytes.size(), total, ranges, external));
            if (c.Chance(1, 6)) {
                entry(first, std::make_shared<IndexFileMeta>("HASH", "index-h" + name, 8, 2, std::nullopt, std::nullopt));
            }
        }
    }
    for (size_t i = entries.size(); i > 1; i--) std::swap(entries[i - 1], entries[c.Draw(i - 1)]);
    UNWRAP(auto file, IndexManifestFile::Create(o.GetFileSystem(), o.GetManifestFormat(), o.GetManifestCompression(), paths,
                                                GetDefaultPool(), o), "index-manifest");
    UNWRAP(auto named, file->WriteWithoutRolling(entries), "index-manifest");
    std::string at = w.t.path + "/snapshot/snapshot-" + std::to_string(snapshot);
    std::string text = memfs::Store::Get().Content(at);
    std::string field = "\"indexManifest\":\"" + named.first + "\"";
    std::regex there("\"indexManifest\"\\s*:\\s*(null|\"[^\"]*\")");
    if (std::regex_search(text, there)) text = std::regex_replace(text, there, field);
    else text.insert(text.find('{') + 1, field + ",");
    memfs::Store::Get().Put(at, text);
}

Positions Some(pbt::Case& c, int64_t n) {
    Positions p;
    int how = static_cast<int>(c.Weighted({5, 1, 1, 2}));
    for (int64_t i = 0; i < n; i++) {
        if (how == 1 || (how == 0 && c.Chance(1, 3)) || (how == 3 && c.Chance(4, 5))) p.insert(i);
    }
    return p;
}

std::string KeyOf(const World& w, const Row& r) {
    std::string key;
    for (size_t i = 0; i < w.fields.size(); i++) {
        if (w.fields[i].role != "v") key += cv::Text(w.fields[i].type, r[i]) + "#" + w.fields[i].name + ";";
    }
    return key;
}

// How many rows a reader asks for never makes the plan too short.
void Limit(pbt::Case& c, const World& w, int64_t id) {
    std::vector<Row> all = Rows(w, id);
    Table::ReadSpec s;
    s.limit = static_cast<int>(c.Int(1, static_cast<int64_t>(all.size()) + 2));
    s.snapshot = id;
    s.mode = StartupMode::FromSnapshotFull().ToString();
    UNWRAP(auto got, w.t.ReadAll(s), "limited");
    auto everything = Bag(w.t.types, all), have = Bag(w.t.types, got);
    REQUIRE(std::includes(everything.begin(), everything.end(), have.begin(), have.end()), "limit-invented",
            Diff(everything, have) << "\n" << Describe(w));
    REQUIRE(got.size() >= std::min<size_t>(*s.limit, all.size()), "limit",
            "asked for " << *s.limit << " of " << all.size() << " rows, got " << got.size() << "\n" << Describe(w));
}
}  // namespace

FACET(table, 8) {
    memfs::Store::Get().Reset();
    World w;
    GenTable(c, &w, c.Chance(1, 5));
    bool first_row = w.keyed && c.Chance(1, 5);
    if (first_row) {
        w.deletes = false;
        w.t.opts["merge-engine"] = "first-row";
    } else {
        w.t.opts[Options::DELETION_VECTORS_ENABLED] = "true";
    }
    Deleting d;
    d.w = &w;
    d.in_dir = c.Chance(1, 3);
    if (d.in_dir) w.t.opts[Options::INDEX_FILE_IN_DATA_FILE_DIR] = "true";
    Create(c, &w);
    c.Log() << Describe(w);
    bool indexed = c.Chance(1, 3), deleted_any = false;
    UNWRAP(auto writer, w.t.Writer("u"), "writer");
    UNWRAP(auto commit, w.t.Committer("u"), "committer");
    d.at.emplace_back();
    d.count.push_back(0);
    std::set<std::string> above;
    for (size_t k = 0, commits = c.Len(1, 4); k < commits; k++) {
        std::vector<Rec> now;
        WriteSome(c, &w, writer.get(), &now);
        w.commits.push_back(now);
        UNWRAP(auto msgs, writer->PrepareCommit(c.Bool(), static_cast<int64_t>(k)), "prepare");
        std::vector<DataFile> files = FilesOf(c, w, msgs);
        if (w.keyed) {
            // compacted, but for some
            int up = static_cast<int>(c.Int(1, 4));
            for (auto& f : files) {
                f.meta->level = c.Chance(1, 5) ? 0 : up;
                // where the first row stays, one that comes later is never above the lowest level
                for (const auto& r : f.rows) if (first_row && above.count(KeyOf(w, r.row))) f.meta->level = 0;
                for (const auto& r : f.rows) if (f.meta->level > 0) above.insert(KeyOf(w, r.row));
            }
        }
        if (indexed) Index(c, w, files);
        d.files.insert(d.files.end(), files.begin(), files.end());
        d.count.push_back(d.files.size());
        REQUIRE_OK(commit->Commit(msgs, static_cast<int64_t>(k)), "commit");
        auto deleted = d.at.back();
        if (first_row) {
        } else if (w.keyed) {
            // of each key at most one row is left above the lowest level
            std::set<std::string> seen;
            for (size_t i = d.files.size(); i-- > 0;) {
                const DataFile& f = d.files[i];
                if (f.meta->level == 0) continue;
                for (int64_t j = static_cast<int64_t>(f.rows.size()) - 1; j >= 0; j--) {
                    bool newest = seen.insert(KeyOf(w, f.rows[j].row)).second;
                    if (!newest || c.Chance(1, 6)) deleted[f.meta->file_name].insert(j);
                }
            }
        } else if (c.Chance(3, 4)) {
            for (const auto& f : d.files) {
                if (!c.Chance(2, 3)) continue;
                Positions p = Some(c, f.meta->row_count);
                deleted[f.meta->file_name].insert(p.begin(), p.end());
            }
        }
        if (deleted != d.at.back()) Store(c, &d, static_cast<int64_t>(k) + 1, deleted);
        d.at.push_back(deleted);
        for (const auto& [name, p] : deleted) deleted_any |= !p.empty();
    }
    w.rows = [&](int64_t id) {
        std::vector<Row> out;
        for (size_t i = 0; i < d.count[id]; i++) {
            const DataFile& f = d.files[i];
            if (w.keyed && f.meta->level == 0) continue;
            auto it = d.at[id].find(f.meta->file_name);
            for (size_t j = 0; j < f.rows.size(); j++) {
                if (it != d.at[id].end() && it->second.count(static_cast<int64_t>(j))) continue;
                if (f.rows[j].kind == 0 || f.rows[j].kind == 2) out.push_back(f.rows[j].row);
            }
        }
        return out;
    };
    if (w.keyed) c.Label("with key");
    for (int i = 0; i < 4; i++) Check(c, w, "deletions", false);
    Limit(c, w, c.Int(1, static_cast<int64_t>(w.commits.size())));
    c.NonTrivial(deleted_any);
    REQUIRE_OK(writer->Close(), "close");
}

// A vector as a set of positions, kept as bytes.
FACET(vector, 2) {
    auto pool = GetDefaultPool();
    Positions model;
    int64_t space = c.PickOf<int64_t>({5, 70, 70000, INT32_MAX});
    std::vector<char> flags;
    PAIMON_UNIQUE_PTR<DeletionVector> dv;
    if (c.Chance(1, 3)) {
        for (int64_t i = 0, n = c.Len(0, 40); i < n; i++) {
            flags.push_back(static_cast<char>(c.Draw(1)));
            if (flags.back()) model.insert(i);
        }
        dv = DeletionVector::FromPrimitiveArray(flags, pool.get());
    } else {
        dv = pool->AllocateUnique<BitmapDeletionVector>(RoaringBitmap32());
    }
    for (int64_t i = 0, n = c.Len(1, 25); i < n; i++) {
        int64_t x = !model.empty() && c.Chance(1, 4) ? *model.begin() : c.Int(0, space);
        switch (c.Draw(3)) {
            case 0:
                REQUIRE_OK(dv->Delete(x), "delete");
                model.insert(x);
                break;
            case 1: {
                UNWRAP(bool fresh, dv->CheckedDelete(x), "checked");
                REQUIRE(fresh == model.insert(x).second, "checked", x);
                break;
            }
            case 2: {
                int64_t beyond = static_cast<int64_t>(INT32_MAX) + c.Int(1, 5000000000LL);
                REQUIRE(!dv->Delete(beyond).ok() && !dv->CheckedDelete(beyond).ok() && !dv->IsDeleted(beyond).ok(), "beyond", beyond);
                break;
            }
            default: {
                UNWRAP(auto bytes, dv->SerializeToBytes(pool), "bytes");
                std::string text(bytes->data(), bytes->size());
                REQUIRE(text.substr(0, 4) == ci::Big(1581511376, 4), "bytes", pbt::Hex(text));
                RoaringBitmap32 kept;
                REQUIRE_OK(kept.Deserialize(text.data() + 4, text.size() - 4), "bytes");
                REQUIRE(In(kept) == model, "bytes", pbt::Hex(text));
                UNWRAP(auto back, DeletionVector::DeserializeFromBytes(bytes.get(), pool.get()), "back");
                dv = std::move(back);
            }
        }
        REQUIRE(dv->IsEmpty() == model.empty(), "empty", model.size());
        int64_t from = std::max<int64_t>(0, std::min<int64_t>(x, INT32_MAX - 40) - c.Int(0, 3)), len = c.Int(0, 30);
        UNWRAP(auto valid, dv->IsValid(from, len), "valid");
        for (int64_t k = 0; k < len; k++) {
            UNWRAP(bool gone, dv->IsDeleted(from + k), "is-deleted");
            REQUIRE(gone == (model.count(from + k) > 0), "is-deleted", from + k);
            REQUIRE(valid.Contains(static_cast<int32_t>(k)) == !gone, "valid", from + k);
        }
        REQUIRE(valid.Cardinality() <= len, "valid", valid.Cardinality());
    }
    c.NonTrivial(model.size() > 2);
    // within a longer file
    std::string body = Body(c, model), before = c.Bytes(c.Int(0, 9));
    auto& store = memfs::Store::Get();
    store.Reset();
    World w;
    w.t.opts[Options::FILE_SYSTEM] = "mem";
    UNWRAP(CoreOptions o, CoreOptions::FromMap(w.t.opts), "options");
    auto read = [&](const std::string& content, int64_t offset, int64_t length) {
        store.Put("/w/dv", content);
        return DeletionVector::Read(o.GetFileSystem().get(), DeletionFile("/w/dv", offset, length, std::nullopt), pool.get());
    };
    std::string all = before + ci::Big(body.size(), 4) + body;
    int64_t at = static_cast<int64_t>(before.size()), size = static_cast<int64_t>(body.size());
    UNWRAP(auto got, read(all + c.Bytes(c.Int(0, 9)), at, size), "read");
    for (int64_t x : model) {
        UNWRAP(bool gone, got->IsDeleted(x), "read");
        REQUIRE(gone, "read", x);
    }
    auto bitmap = dynamic_cast<BitmapDeletionVector*>(got.get());
    REQUIRE(bitmap && In(*bitmap->GetBitmap()) == model, "read", model.size());
    REQUIRE(!read(all, at, size + c.PickOf<int64_t>({-1, 1, 100})).ok(), "other-length", size);
    REQUIRE(!read(all.substr(0, c.Draw(all.size() - 1)), at, size).ok(), "cut", all.size());
    std::string wrong = all;
    wrong[at + c.Int(0, 7)] ^= static_cast<char>(1 << c.Draw(7));
    REQUIRE(!read(wrong, at, size).ok(), "magic", "");
}

// A vector that cannot be read is an error, not a file without deletions.
FACET(unreadable, 2) {
    memfs::Store::Get().Reset();
    World w;
    GenTable(c, &w, false);
    if (w.keyed) throw pbt::Discard{};
    w.t.opts[Options::DELETION_VECTORS_ENABLED] = "true";
    Deleting d;
    d.w = &w;
    Create(c, &w);
    UNWRAP(auto writer, w.t.Writer("u"), "writer");
    UNWRAP(auto commit, w.t.Committer("u"), "committer");
    std::vector<Rec> now;
    WriteSome(c, &w, writer.get(), &now);
    w.commits.push_back(now);
    UNWRAP(auto msgs, writer->PrepareCommit(false, 0), "prepare");
    d.files = FilesOf(c, w, msgs);
    REQUIRE_OK(commit->Commit(msgs, 0), "commit");
    std::map<std::string, Positions> deleted;
    for (const auto& f : d.files) deleted[f.meta->file_name] = Some(c, f.meta->row_count);
    Store(c, &d, 1, deleted);
    auto& store = memfs::Store::Get();
    std::vector<std::string> all;
    for (const auto& f : store.Files(w.t.path)) {
        if (f.find("/index/") != std::string::npos) all.push_back(f);
    }
    REQUIRE(!all.empty(), "index-files", "none");
    c.NonTrivial();
    auto was = store.Snapshot();
    for (int i = 0; i < 3; i++) {
        store.Restore(was);
        std::string victim = c.Pick(all);
        std::string content = store.Content(victim);
        int how = static_cast<int>(c.Draw(2));
        c.Log() << how << " " << victim << "; ";
        if (how == 0) store.Remove(victim);
        else if (how == 1) store.Put(victim, content.substr(0, c.Int(0, 5)));
        else store.SetHook([&](const memfs::Event& e) { return e.path == victim && e.op == memfs::Op::kOpen ? memfs::Verdict::kFail : memfs::Verdict::kGo; });
        auto r = w.t.ReadAll(Table::ReadSpec());
        store.ClearHook();
        REQUIRE(!r.ok(), "accepted", "read " << r.value().size() << " rows without " << victim);
    }
    REQUIRE_OK(writer->Close(), "close");
}
