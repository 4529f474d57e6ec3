// Values stored as single bytes, words or names, and lists of deletion files: the stored form is
// fixed, reads back, and anything else is refused.
#include <map>
#include <set>

#include "paimon/catalog/identifier.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/types/row_kind.h"
#include "paimon/core/manifest/file_kind.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/table/source/startup_mode.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

FACET(kinds, 1) {
    int8_t b = static_cast<int8_t>(c.Bool() ? c.Int(0, 4) : c.Int(-128, 127));
    c.NonTrivial(b != 0);
    auto k = RowKind::FromByteValue(b);
    REQUIRE(k.ok() == (b >= 0 && b <= 3), "row-kind", static_cast<int>(b));
    const std::vector<std::string> shorts = {"+I", "-U", "+U", "-D"};
    if (k.ok()) {
        const RowKind* want = b == 0 ? RowKind::Insert() : b == 1 ? RowKind::UpdateBefore() : b == 2 ? RowKind::UpdateAfter() : RowKind::Delete();
        REQUIRE(k.value() == want && k.value()->ToByteValue() == b && k.value()->ShortString() == shorts[b], "row-kind", static_cast<int>(b));
        const std::vector<std::string> names = {"INSERT", "UPDATE_BEFORE", "UPDATE_AFTER", "DELETE"};
        REQUIRE(k.value()->Name() == names[b], "row-kind-long-name", k.value()->Name());
        for (int o = 0; o < 4; o++) {
            RowKind copy = *RowKind::FromByteValue(static_cast<int8_t>(o)).value();
            REQUIRE((*k.value() == copy) == (o == b) && copy == copy, "row-kind-equal", o << " " << static_cast<int>(b));
        }
        REQUIRE(k.value()->IsRetract() == (b == 1 || b == 3) && k.value()->IsAdd() == (b == 0 || b == 2), "row-kind-sign", static_cast<int>(b));
    }
    std::string s = c.Bool() ? c.Pick(shorts) : c.PickOf<std::string>({"", "I", "+D", "-I", "+i", "+U ", "D"});
    auto f = RowKind::FromShortString(s);
    size_t at = std::find(shorts.begin(), shorts.end(), s) - shorts.begin();
    REQUIRE(f.ok() == (at < 4) && (!f.ok() || f.value()->ToByteValue() == static_cast<int8_t>(at)), "row-kind-name", s);
    auto fk = FileKind::FromByteValue(b);
    REQUIRE(fk.ok() == (b == 0 || b == 1), "file-kind", static_cast<int>(b));
    if (fk.ok()) {
        REQUIRE(fk.value().ToByteValue() == b && fk.value() == (b == 0 ? FileKind::Add() : FileKind::Delete()) &&
                    !(fk.value() == (b == 1 ? FileKind::Add() : FileKind::Delete())),
                "file-kind", static_cast<int>(b));
    }
    auto fs = FileSource::FromByteValue(b);
    REQUIRE(fs.ok() == (b == 0 || b == 1), "file-source", static_cast<int>(b));
    if (fs.ok()) {
        REQUIRE(fs.value().ToByteValue() == b && fs.value() == (b == 0 ? FileSource::Append() : FileSource::Compact()) &&
                    fs.value() == fs.value() && fs.value() != (b == 1 ? FileSource::Append() : FileSource::Compact()) &&
                    fs.value().ToString() == (b == 0 ? "APPEND" : "COMPACT"),
                "file-source", static_cast<int>(b));
    }
    const std::vector<std::string> modes = {"default", "latest-full", "latest", "from-snapshot", "from-snapshot-full"};
    const std::vector<StartupMode> values = {StartupMode::Default(), StartupMode::LatestFull(), StartupMode::Latest(),
                                             StartupMode::FromSnapshot(), StartupMode::FromSnapshotFull()};
    std::string m = c.Chance(2, 3) ? c.Pick(modes) : c.PickOf<std::string>({"", "full", "latest-", "from-snapshot-ful", "Latest", "from_snapshot"});
    auto mode = StartupMode::FromString(m);
    size_t which = std::find(modes.begin(), modes.end(), m) - modes.begin();
    REQUIRE(mode.ok() == (which < modes.size()), "startup-mode", m);
    REQUIRE(!mode.ok() || mode.value() == mode.value(), "startup-mode-itself", m);
    for (size_t i = 0; mode.ok() && i < modes.size(); i++) {
        REQUIRE((mode.value() == values[i]) == (i == which) && values[i].ToString() == modes[i], "startup-mode", m << " " << modes[i]);
    }
    std::string d = c.PickOf<std::string>({"db", "", "d'b", "x"}), t = c.PickOf<std::string>({"t", "", "x", "db"});
    std::string d2 = c.PickOf<std::string>({"db", "", "d'b", "x"}), t2 = c.PickOf<std::string>({"t", "", "x", "db"});
    Identifier id(d, t), id2(d2, t2);
    REQUIRE(id.GetDatabaseName() == d && id.GetTableName() == t, "identifier", d << "." << t);
    REQUIRE((id == id2) == (d == d2 && t == t2), "identifier-equal", d << "." << t << " " << d2 << "." << t2);
    REQUIRE(id.ToString() == "Identifier{database='" + d + "', table='" + t + "'}", "identifier-text", id.ToString());
}

namespace {
struct Bytes2 {
    std::string s;
    void U8(int v) {
        s.push_back(static_cast<char>(v));
    }
    void Be(int64_t v, int n) {
        for (int i = n - 1; i >= 0; i--) {
            s.push_back(static_cast<char>(v >> (8 * i)));
        }
    }
};
}  // namespace

FACET(deletion_files, 1) {
    auto pool = GetDefaultPool();
    std::vector<std::optional<DeletionFile>> files;
    Bytes2 now, old;
    int64_t n = c.Len(0, 5);
    c.NonTrivial(n >= 2);
    for (auto* b : {&now, &old}) {
        b->U8(n > 0);
        if (n > 0) {
            b->Be(n, 4);
        }
    }
    for (int64_t i = 0; i < n; i++) {
        if (c.Chance(1, 3)) {
            files.emplace_back(std::nullopt);
            now.U8(0);
            old.U8(0);
            continue;
        }
        std::string path = c.Bool() ? c.Ascii(c.Len(0, 20)) : c.Chance(1, 8) ? std::string(c.PickOf<int>({255, 256, 1000}), 'p') : "index-\xc3\xa9";
        int64_t off = c.I64(), len = c.I64();
        std::optional<int64_t> card;
        if (c.Bool()) {
            card = std::abs(c.I64() / 2);
        }
        files.emplace_back(DeletionFile(path, off, len, card));
        for (auto* b : {&now, &old}) {
            b->U8(1);
            b->Be(static_cast<int64_t>(path.size()), 2);
            b->s += path;
            b->Be(off, 8);
            b->Be(len, 8);
        }
        now.Be(card.value_or(-1), 8);
    }
    MemorySegmentOutputStream out(static_cast<int32_t>(c.PickOf<int>({16, 64, 1024})), pool);
    DeletionFile::SerializeList(files, &out);
    auto bytes = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, static_cast<int32_t>(out.CurrentSize()), pool.get());
    std::string got(bytes->data(), bytes->size());
    REQUIRE(got == now.s, "bytes", pbt::Hex(got) << " want " << pbt::Hex(now.s));

    int32_t version = static_cast<int32_t>(c.PickOf<int>({1, 2, 3, 4, 5, 8, 0, -1}));
    bool legacy = version <= 3;
    // versions before 4 did not store how many rows are deleted
    const std::string& stored = legacy ? old.s : now.s;
    std::string tail = c.Bytes(c.Int(0, 3));
    std::string all = stored + tail;
    auto stream = std::make_shared<ByteArrayInputStream>(all.data(), all.size());
    DataInputStream in(stream);
    auto back = DeletionFile::DeserializeList(&in, version);
    if (version < 1) {
        REQUIRE(back.ok() == files.empty(), "unknown-version", version);
        return;
    }
    REQUIRE(back.ok(), "read-back", back.status().ToString());
    REQUIRE(back.value().size() == files.size(), "read-back-count", back.value().size());
    for (size_t i = 0; i < files.size(); i++) {
        std::optional<DeletionFile> want = files[i];
        if (want && legacy) {
            want->cardinality = std::nullopt;
        }
        REQUIRE(back.value()[i].has_value() == want.has_value() && (!want || *back.value()[i] == *want), "read-back",
                i << " " << (want ? want->ToString() : "null"));
    }
    UNWRAP(int64_t at, in.GetPos(), "position");
    REQUIRE(at == static_cast<int64_t>(stored.size()), "position", at << " want " << stored.size());
}
