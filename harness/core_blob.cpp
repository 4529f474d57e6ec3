// C17: a blob file gives back the blobs put in, whole or as descriptors, and one that is damaged is
// refused or read within its bounds.
#include "core_table.h"
#include "paimon/data/blob.h"
#include "paimon/format/blob/blob_file_batch_reader.h"
#include "paimon/format/blob/blob_format_writer.h"
#include "paimon/format/blob/blob_stats_extractor.h"
#include "paimon/fs/file_system_factory.h"

using namespace ct;  // NOLINT
using blob::BlobFileBatchReader;
using blob::BlobFormatWriter;

namespace {

const char* kPath = "/f/a.blob";

std::shared_ptr<FileSystem> Fs(pbt::Case& c) {
    UNWRAP(auto fs, FileSystemFactory::Get("mem", "/", {}), "fs");
    return std::shared_ptr<FileSystem>(std::move(fs));
}

std::shared_ptr<arrow::Schema> BlobSchema() { return arrow::schema({BlobUtils::ToArrowField("b", true)}); }

std::string GenBlob(pbt::Case& c) {
    switch (c.Weighted({3, 4, 1})) {
        case 0: return c.Bytes(c.Len(0, 3));
        case 1: return c.Bytes(c.Len(0, 200));
        default: {
            // around the sizes pieces are copied in
            static const std::vector<int64_t> sizes = {65535, 65536, 65537, 1048575, 1048576, 1048577, 1100000};
            std::string s(c.Pick(sizes), 'x');
            auto rng = c.Sub();
            for (size_t i = 0; i < s.size(); i += 1 + (rng.Next() % 997)) s[i] = static_cast<char>(rng.Next());
            return s;
        }
    }
}

Status AddOne(BlobFormatWriter* w, const std::string& bytes) {
    T t;
    t.k = cv::K::kBlob;
    auto array = cv::MakeStruct({"b"}, {t}, {{cv::S(bytes)}});
    ::ArrowArray a;
    auto st = arrow::ExportArray(*array, &a);
    if (!st.ok()) return Status::Invalid(st.ToString());
    return w->AddBatch(&a);
}

void Save(pbt::Case& c, const std::vector<std::string>& blobs, const std::shared_ptr<MemoryPool>& pool) {
    auto fs = Fs(c);
    bool described = c.Chance(1, 3);
    UNWRAP(auto out, fs->Create(kPath, true), "create");
    std::shared_ptr<OutputStream> shared = std::move(out);
    UNWRAP(auto w, BlobFormatWriter::Create(described, shared, arrow::struct_(BlobSchema()->fields()), fs, pool), "writer");
    int64_t target = c.Int(0, 400), size = 0;
    for (size_t i = 0; i < blobs.size(); i++) {
        std::string bytes = blobs[i];
        if (described) {
            std::string path = "/blobs/" + std::to_string(i), before = c.Bytes(c.Len(0, 5)), after = c.Bytes(c.Len(0, 5));
            memfs::Store::Get().Put(path, before + bytes + after);
            UNWRAP(auto b, Blob::FromPath(path, static_cast<int64_t>(before.size()),
                                          after.empty() && c.Bool() ? -1 : static_cast<int64_t>(bytes.size())), "blob");
            auto d = b->ToDescriptor(pool);
            bytes = std::string(d->data(), d->size());
        }
        REQUIRE_OK(AddOne(w.get(), bytes), "add");
        size += static_cast<int64_t>(blobs[i].size()) + 16;
        UNWRAP(bool full, w->ReachTargetSize(true, target), "target");
        REQUIRE(full == (size >= target), "target", "after " << size << " bytes the target of " << target << " is said "
                                                             << (full ? "" : "not ") << "to be reached");
    }
    REQUIRE_OK(w->Finish(), "finish");
    REQUIRE_OK(shared->Close(), "close");
}

uint64_t Little(const std::string& s, size_t at, int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; i++) v |= static_cast<uint64_t>(static_cast<uint8_t>(s[at + i])) << (8 * i);
    return v;
}

uint32_t Crc(const char* p, size_t n) {
    static const std::vector<uint32_t> table = [] {
        std::vector<uint32_t> t(256);
        for (uint32_t i = 0; i < 256; i++) {
            uint32_t v = i;
            for (int k = 0; k < 8; k++) v = (v & 1) ? (v >> 1) ^ 0xEDB88320u : v >> 1;
            t[i] = v;
        }
        return t;
    }();
    uint32_t v = 0xFFFFFFFFu;
    for (size_t i = 0; i < n; i++) v = table[(v ^ static_cast<uint8_t>(p[i])) & 255] ^ (v >> 8);
    return ~v;
}

// The layout documented with the reader, taken apart independently.
void CheckLayout(pbt::Case& c, const std::string& file, const std::vector<std::string>& blobs) {
    size_t at = 0;
    std::string lens;
    int64_t last = 0;
    for (const auto& b : blobs) {
        REQUIRE(file.size() >= at + b.size() + 16, "layout", "the file ends within a blob");
        REQUIRE(Little(file, at, 4) == 1481511375u, "layout", "no magic number before a blob");
        REQUIRE(file.compare(at + 4, b.size(), b) == 0, "layout", "a blob is not stored as it is");
        int64_t len = static_cast<int64_t>(b.size()) + 16;
        REQUIRE(static_cast<int64_t>(Little(file, at + 4 + b.size(), 8)) == len, "layout", "length after a blob is wrong");
        uint32_t crc = Crc(file.data() + at, len - 4);
        REQUIRE(Little(file, at + len - 4, 4) == crc, "layout", "checksum after a blob is wrong");
        at += len;
        uint64_t z = (static_cast<uint64_t>(len - last) << 1) ^ static_cast<uint64_t>((len - last) >> 63);
        last = len;
        for (; z > 127; z >>= 7) lens += static_cast<char>((z & 127) | 128);
        lens += static_cast<char>(z);
    }
    REQUIRE(file.size() == at + lens.size() + 5, "layout", "the file has " << file.size() << " bytes, wanted " << at + lens.size() + 5);
    REQUIRE(file.compare(at, lens.size(), lens) == 0, "layout", "the index of lengths is wrong");
    REQUIRE(Little(file, file.size() - 5, 4) == lens.size(), "layout", "the length of the index is wrong");
    REQUIRE(file.back() == 1, "layout", "the version is wrong");
}

struct Back {
    Status status = Status::OK();
    std::vector<std::string> blobs;
};

Back ReadBack(pbt::Case& c, int batch, bool described, const std::optional<std::vector<int>>& rows,
              const std::shared_ptr<MemoryPool>& pool, bool strict) {
    Back back;
    auto fs = Fs(c);
    auto run = [&]() -> Status {
        PAIMON_ASSIGN_OR_RAISE(auto in, fs->Open(kPath));
        PAIMON_ASSIGN_OR_RAISE(auto r, BlobFileBatchReader::Create(std::shared_ptr<InputStream>(std::move(in)), batch, described, pool));
        size_t all = r->GetNumberOfRows();
        ::ArrowSchema s;
        auto st = arrow::ExportSchema(*BlobSchema(), &s);
        if (!st.ok()) return Status::Invalid(st.ToString());
        std::optional<RoaringBitmap32> sel;
        if (rows) {
            sel.emplace();
            for (int x : *rows) sel->Add(x);
        }
        PAIMON_RETURN_NOT_OK(r->SetReadSchema(&s, nullptr, sel));
        size_t at = 0;
        while (true) {
            PAIMON_ASSIGN_OR_RAISE(auto b, r->NextBatch());
            if (BatchReader::IsEofBatch(b)) {
                if (strict) REQUIRE(r->GetPreviousBatchFirstRowNumber() == all, "number", "row number at the end is " << r->GetPreviousBatchFirstRowNumber());
                break;
            }
            auto imported = arrow::ImportArray(b.first.get(), b.second.get());
            if (!imported.ok()) FAIL("batch", imported.status().ToString());
            auto a = std::static_pointer_cast<arrow::StructArray>(imported.ValueUnsafe());
            REQUIRE(a->length() > 0 && a->length() <= batch, "batch", "a batch of " << a->length() << " rows, at most " << batch << " wanted");
            if (strict) {
                uint64_t first = rows ? static_cast<uint64_t>((*rows)[at]) : at;
                REQUIRE(r->GetPreviousBatchFirstRowNumber() == first, "number", "a batch starts at row " << first << ", reported is " << r->GetPreviousBatchFirstRowNumber());
            }
            const auto& l = static_cast<const arrow::LargeBinaryArray&>(*a->field(0));
            for (int64_t i = 0; i < a->length(); i++) {
                std::string v(l.GetView(i));
                if (described) {
                    PAIMON_ASSIGN_OR_RAISE(auto blob, Blob::FromDescriptor(v.data(), v.size()));
                    PAIMON_ASSIGN_OR_RAISE(auto data, blob->ToData(fs, pool));
                    v = std::string(data->data(), data->size());
                }
                back.blobs.push_back(std::move(v));
            }
            at += a->length();
        }
        r->Close();
        REQUIRE(!r->NextBatch().ok(), "closed", "a closed reader goes on");
        return Status::OK();
    };
    back.status = run();
    return back;
}

}  // namespace

FACET(file, 10) {
    memfs::Store::Get().Reset();
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    std::vector<std::string> blobs;
    for (size_t i = 0, n = c.Len(0, 12); i < n; i++) blobs.push_back(GenBlob(c));
    Save(c, blobs, pool);
    CheckLayout(c, memfs::Store::Get().Content(kPath), blobs);
    for (int k = 0; k < 3; k++) {
        std::optional<std::vector<int>> rows;
        std::vector<std::string> want;
        if (c.Bool()) {
            rows.emplace();
            for (size_t i = 0; i < blobs.size(); i++) if (c.Bool()) rows->push_back(static_cast<int>(i));
            for (int r : *rows) want.push_back(blobs[r]);
        } else {
            want = blobs;
        }
        int batch = c.PickOf<int>({1, 2, 3, 1024});
        bool described = c.Bool();
        Back b = ReadBack(c, batch, described, rows, pool, true);
        REQUIRE(b.status.ok(), "read", b.status.ToString());
        REQUIRE(b.blobs.size() == want.size(), "count", b.blobs.size() << " blobs read, " << want.size() << " wanted");
        for (size_t i = 0; i < want.size(); i++) {
            REQUIRE(b.blobs[i] == want[i], "bytes", "blob " << i << " of " << want.size() << " differs, length " << b.blobs[i].size() << " and " << want[i].size());
        }
        c.Eval(1);
    }
    if (c.Chance(1, 4)) {
        // a row the file does not have
        std::vector<int> rows = {static_cast<int>(blobs.size() + c.Int(0, 3))};
        REQUIRE(!ReadBack(c, 2, false, rows, pool, false).status.ok(), "outside", "row " << rows[0] << " of " << blobs.size() << " is read");
    }
    {
        blob::BlobStatsExtractor stats(BlobSchema());
        UNWRAP(auto got, stats.ExtractWithFileInfo(Fs(c), kPath, pool), "stats");
        REQUIRE(got.second.GetRowCount() == static_cast<int64_t>(blobs.size()), "stats", "row count " << got.second.GetRowCount());
        REQUIRE(got.first.size() == 1, "stats", "stats of " << got.first.size() << " columns");
    }
    REQUIRE(pool->CurrentUsage() == 0, "memory", pool->CurrentUsage() << " bytes of the pool are still taken");
    c.NonTrivial(blobs.size() > 1);
}

FACET(refused, 2) {
    memfs::Store::Get().Reset();
    auto pool = GetDefaultPool();
    auto fs = Fs(c);
    UNWRAP(auto out, fs->Create(kPath, true), "create");
    std::shared_ptr<OutputStream> shared = std::move(out);
    auto good = arrow::struct_(BlobSchema()->fields());
    auto plain = arrow::struct_({arrow::field("b", arrow::large_binary())});
    auto two = arrow::struct_({BlobUtils::ToArrowField("b"), BlobUtils::ToArrowField("d")});
    REQUIRE(!BlobFormatWriter::Create(false, shared, plain, fs, pool).ok(), "plain", "a column that is no blob is accepted");
    REQUIRE(!BlobFormatWriter::Create(false, shared, two, fs, pool).ok(), "two", "two columns are accepted");
    REQUIRE(!BlobFormatWriter::Create(false, nullptr, good, fs, pool).ok(), "null", "no stream is accepted");
    UNWRAP(auto w, BlobFormatWriter::Create(false, shared, good, fs, pool), "writer");
    T t;
    t.k = cv::K::kBlob;
    std::vector<Row> rows;
    bool null = c.Bool();
    if (null) rows = {{cv::Null()}};
    else for (size_t i = 0, n = c.Bool() ? 0 : c.Len(2, 4); i < n; i++) rows.push_back({cv::S("x")});
    auto array = cv::MakeStruct({"b"}, {t}, rows);
    ::ArrowArray a;
    auto st = arrow::ExportArray(*array, &a);
    REQUIRE(st.ok(), "harness", st.ToString());
    REQUIRE(!w->AddBatch(&a).ok(), "batch", (null ? "a null" : "not one row") << " is accepted");
    if (a.release) a.release(&a);
    REQUIRE_OK(w->Finish(), "finish");
    REQUIRE_OK(shared->Close(), "close");
    Back b = ReadBack(c, 3, false, std::nullopt, pool, true);
    REQUIRE(b.status.ok() && b.blobs.empty(), "after", "a refused batch left " << b.blobs.size() << " blobs: " << b.status.ToString());
    REQUIRE(!BlobFileBatchReader::Create(nullptr, 1, false, pool).ok(), "null", "no stream is accepted");
    UNWRAP(auto in, fs->Open(kPath), "open");
    REQUIRE(!BlobFileBatchReader::Create(std::shared_ptr<InputStream>(std::move(in)), static_cast<int>(c.Int(-3, 0)), false, pool).ok(), "size", "a batch size below one is accepted");
    c.NonTrivial();
}

FACET(damaged, 6) {
    memfs::Store::Get().Reset();
    auto pool = GetDefaultPool();
    std::vector<std::string> blobs;
    for (size_t i = 0, n = c.Len(0, 6); i < n; i++) blobs.push_back(c.Bytes(c.Len(0, 30)));
    Save(c, blobs, pool);
    std::string file = memfs::Store::Get().Content(kPath);
    size_t tail = 5 + blobs.size();
    for (size_t k = 0, n = c.Len(1, 3); k < n; k++) {
        switch (c.Weighted({5, 2, 2, 1})) {
            case 0:  // a byte of the end
                if (!file.empty()) file[file.size() - 1 - c.Int(0, static_cast<int64_t>(std::min(file.size(), tail)) - 1)] = static_cast<char>(c.Draw(255));
                break;
            case 1:
                file.resize(c.Int(0, static_cast<int64_t>(file.size())));
                break;
            case 2: {  // an index of our own
                std::string index;
                for (size_t i = 0, m = c.Len(1, 4); i < m; i++) {
                    int64_t d = c.Chance(1, 4) ? c.I64() : c.Int(-40, 60);
                    uint64_t z = (static_cast<uint64_t>(d) << 1) ^ static_cast<uint64_t>(d >> 63);
                    for (; z > 127; z >>= 7) index += static_cast<char>((z & 127) | 128);
                    index += static_cast<char>(z);
                }
                uint32_t len = static_cast<uint32_t>(c.Chance(1, 4) ? c.I32() : index.size());
                file += index;
                for (int i = 0; i < 4; i++) file += static_cast<char>(len >> (8 * i));
                file += '\x01';
                break;
            }
            default:
                file += c.Bytes(c.Len(1, 6));
        }
    }
    memfs::Store::Get().Put(kPath, file);
    std::optional<std::vector<int>> rows;
    if (c.Bool()) {
        rows.emplace();
        for (int i = 0; i < 6; i++) if (c.Bool()) rows->push_back(i);
    }
    Back b = ReadBack(c, c.PickOf<int>({1, 3, 1024}), c.Chance(1, 3), rows, pool, false);
    size_t total = 0;
    for (const auto& x : b.blobs) total = std::max(total, x.size());
    REQUIRE(total <= file.size(), "size", "a blob of " << total << " bytes is read from a file of " << file.size());
    c.Label(b.status.ok() ? "read" : "refused");
    c.NonTrivial(!b.status.ok());
}
