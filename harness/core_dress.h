#pragma once
// Indexes, deletion vectors and levels for the files of a table, put there the way other writers do:
// this library reads them but does not write them.
#include "core_index_bytes.h"
#include "core_world.h"
#include "paimon/core/core_options.h"
#include "paimon/core/index/index_file_meta.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/manifest/index_manifest_entry.h"
#include "paimon/core/manifest/index_manifest_file.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/core/utils/file_store_path_factory.h"
#include "paimon/utils/roaring_bitmap32.h"

namespace cd {
using namespace cw;  // NOLINT

inline std::shared_ptr<FileStorePathFactory> Paths(pbt::Case& c, const World& w, CoreOptions* options) {
    UNWRAP(CoreOptions o, CoreOptions::FromMap(w.t.opts), "options");
    *options = o;
    UNWRAP(auto f,
           FileStorePathFactory::Create(w.t.path, w.t.ArrowSchema(), w.t.parts, o.GetPartitionDefaultName(),
                                        o.GetWriteFileFormat()->Identifier(), o.DataFilePrefix(),
                                        o.LegacyPartitionNameEnabled(), {}, o.IndexFileInDataFileDir(),
                                        GetDefaultPool()),
           "paths");
    return f;
}

struct DataFile {
    BinaryRow partition = BinaryRow::EmptyRow();
    int32_t bucket = 0;
    std::string dir;
    std::shared_ptr<DataFileMeta> meta;
    std::vector<Got> rows;  // by position
};

// Reads each file of the messages by itself.
inline std::vector<DataFile> FilesOf(pbt::Case& c, const World& w, const Msgs& msgs) {
    CoreOptions o;
    auto paths = Paths(c, w, &o);
    std::vector<DataFile> out;
    for (const auto& m : msgs) {
        auto msg = std::dynamic_pointer_cast<CommitMessageImpl>(m);
        for (const auto& meta : msg->GetNewFilesIncrement().NewFiles()) {
            DataFile f;
            f.partition = msg->Partition();
            f.bucket = msg->Bucket();
            f.meta = meta;
            UNWRAP(f.dir, paths->BucketPath(f.partition, f.bucket), "bucket");
            DataSplitImpl::Builder b(f.partition, f.bucket, f.dir, {meta});
            b.WithSnapshot(1).IsStreaming(w.keyed).RawConvertible(true);
            UNWRAP(auto split, b.Build(), "split");
            UNWRAP(f.rows, w.t.Read(Table::ReadSpec(), {split}), "file");
            REQUIRE(static_cast<int64_t>(f.rows.size()) == meta->row_count, "row-count",
                    meta->file_name << " holds " << f.rows.size() << " rows, said to hold " << meta->row_count);
            out.push_back(std::move(f));
        }
    }
    return out;
}

// Indexes some columns of some files, within the metadata of the file or next to it.
inline void Index(pbt::Case& c, const World& w, const std::vector<DataFile>& files) {
    for (const auto& f : files) {
        if (!c.Chance(3, 4)) continue;
        std::vector<std::string> names;
        std::vector<std::vector<ci::Entry>> entries;
        for (size_t i = 0; i < w.fields.size(); i++) {
            ci::Column col;
            col.name = w.fields[i].name;
            col.type = w.fields[i].type;
            if (!col.type.kids.empty() || (col.type.k == cv::K::kTs && col.type.p > 6)) continue;
            bool low = false;
            for (const auto& r : f.rows) {
                col.cells.push_back(r.row[i]);
                low |= col.cells.back().i == INT64_MIN;
            }
            auto can = [&](const std::vector<cv::K>& ks) { return std::count(ks.begin(), ks.end(), col.type.k) > 0; };
            std::vector<ci::Entry> es;
            if (can(ci::kBitmapKinds) && c.Bool()) es.push_back({"bitmap", ci::BitmapBytes(c, col, ci::BitmapOptions(c, col))});
            if (can(ci::kBsiKinds) && !low && c.Bool()) es.push_back({"bsi", ci::BsiBytes(c, col)});
            if (can(ci::kBloomKinds) && c.Bool()) {
                es.push_back({"bloom-filter", ci::BloomBytes(col, static_cast<int>(c.Int(1, 4)), c.PickOf<int>({2, 16, 64}))});
            }
            if (c.Chance(1, 8)) es.push_back({"unheard-of", c.Bytes(c.Int(0, 9))});
            if (es.empty()) continue;
            names.push_back(col.name);
            entries.push_back(es);
        }
        if (names.empty() && c.Chance(3, 4)) continue;
        std::string bytes = ci::ContainerBytes(names, entries);
        if (!w.keyed && c.Bool()) {
            f.meta->embedded_index = std::make_shared<Bytes>(bytes.size(), GetDefaultPool().get());
            memcpy(f.meta->embedded_index->data(), bytes.data(), bytes.size());
            c.Label("index within");
        } else {
            std::string name = f.meta->file_name + ".index";
            // next to the file, wherever that is
            std::string dir = f.meta->external_path ? f.meta->external_path->substr(0, f.meta->external_path->rfind('/')) : f.dir;
            memfs::Store::Get().Put(memfs::Normal(dir + "/" + name), bytes);
            f.meta->extra_files.push_back(name);
            c.Label("index next to");
        }
    }
}

}  // namespace cd
