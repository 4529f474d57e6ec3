// Damaged stored bytes: every decoder refuses them or returns something usable, and reads nothing
// beyond the bytes it was given.
#include <cstring>
#include <memory>

#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/delta_varint_compressor.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
// A buffer of exactly the given bytes, so that one byte too far is noticed.
struct Exact {
    explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) {
        memcpy(p.get(), s.data(), n);
    }
    std::unique_ptr<char[]> p;
    size_t n;
};
std::string Str(const PAIMON_UNIQUE_PTR<Bytes>& b) {
    return std::string(b->data(), b->size());
}
RoaringBitmap32 Set32(Case& c) {
    RoaringBitmap32 b;
    int64_t n = c.Len(0, 6);
    for (int64_t i = 0; i < n; i++) {
        int64_t from = c.PickOf<int64_t>({0, 100, 65530, 131072, 2147400000}) + c.Int(0, 50);
        if (c.Bool()) {
            b.Add(static_cast<int32_t>(from));
        } else if (c.Chance(1, 6)) {
            for (int k = 0; k < 5000; k++) {
                b.Add(static_cast<int32_t>(from + 2 * k));
            }
        } else {
            b.AddRange(static_cast<int32_t>(from), static_cast<int32_t>(from + c.Int(1, 300)));
        }
    }
    return b;
}
std::string Damage(Case& c, std::string s, bool* cut) {
    *cut = c.Bool();
    if (*cut) {
        s.resize(s.empty() ? 0 : c.Draw(s.size() - 1));
        return s;
    }
    int64_t k = c.Int(1, 3);
    for (int64_t i = 0; i < k && !s.empty(); i++) {
        s[c.Draw(s.size() - 1)] = static_cast<char>(c.PickOf<int>({0, 1, 0x7f, 0x80, 0xff, static_cast<int>(c.Draw(255))}));
    }
    return s;
}
}  // namespace

FACET(cut_bitmaps, 3) {
    RoaringBitmap32 a = Set32(c);
    std::string s = Str(a.Serialize(GetDefaultPool().get()));
    RoaringBitmap64 w;
    int64_t parts = c.Int(0, 3);
    for (int64_t i = 0; i < parts; i++) {
        int64_t base = c.PickOf<int64_t>({0, 1ll << 32, 1ll << 40}) + c.Int(0, 1000);
        w.AddRange(base, base + c.Int(1, 20));
    }
    std::string s64 = Str(w.Serialize(GetDefaultPool().get()));
    size_t cut = c.Draw(s.size() - 1), cut64 = c.Draw(s64.size() - 1);
    c.NonTrivial(cut > 4);
    {
        Exact e(s.substr(0, cut));
        RoaringBitmap32 b;
        REQUIRE(!b.Deserialize(e.p.get(), e.n).ok(), "truncated-accepted", cut << " of " << s.size());
        ByteArrayInputStream in(e.p.get(), e.n);
        RoaringBitmap32 b2;
        REQUIRE(!b2.Deserialize(&in).ok(), "truncated-accepted-stream", cut << " of " << s.size());
    }
    {
        Exact e(s64.substr(0, cut64));
        RoaringBitmap64 b;
        REQUIRE(!b.Deserialize(e.p.get(), e.n).ok(), "truncated-accepted-64", cut64 << " of " << s64.size());
        ByteArrayInputStream in(e.p.get(), e.n);
        REQUIRE(!b.Deserialize(&in).ok(), "truncated-accepted-64-stream", cut64 << " of " << s64.size());
    }
    // several in one stream, each leaves the stream where the next begins
    std::string both = s + s + std::string("zz");
    Exact e(both);
    ByteArrayInputStream in(e.p.get(), e.n);
    for (size_t i = 1; i <= 2; i++) {
        RoaringBitmap32 b;
        REQUIRE_OK(b.Deserialize(&in), "one-after-another");
        UNWRAP(int64_t pos, in.GetPos(), "position");
        REQUIRE(b == a && pos == static_cast<int64_t>(i * s.size()), "one-after-another", pos);
    }
}

FACET(bit_slices, 3) {
    int64_t min = c.Int(0, 20), max = min + c.PickOf<int64_t>({0, 1, 100, 1ll << 40});
    UNWRAP(auto app, BitSliceIndexRoaringBitmap::Appender::Create(min, max), "create");
    int64_t rows = c.Len(1, 8);
    for (int64_t i = 0; i < rows; i++) {
        REQUIRE_OK(app->Append(static_cast<int32_t>(i), min + static_cast<int64_t>(c.Draw(static_cast<uint64_t>(max - min)))), "append");
    }
    auto bytes = app->Serialize(GetDefaultPool());
    std::string s(bytes->data(), bytes->size());
    bool cut = c.Bool();
    if (cut) {
        s.resize(c.Draw(s.size() - 1));
    } else {
        // version, smallest and largest value, and the number of slices; not the row sets
        RoaringBitmap32 ebm;
        ByteArrayInputStream probe(s.data() + 17, s.size() - 17);
        REQUIRE_OK(ebm.Deserialize(&probe), "row-set");
        UNWRAP(int64_t len, probe.GetPos(), "position");
        int64_t k = c.Int(1, 3);
        for (int64_t i = 0; i < k; i++) {
            size_t at = c.Draw(20);
            at = at < 17 ? at : at + len;
            s[at] = static_cast<char>(c.PickOf<int>({0, 1, 0x7f, 0x80, 0xff, static_cast<int>(c.Draw(255))}));
        }
    }
    c.NonTrivial(!cut || s.size() > 20);
    c.Log() << pbt::Hex(s.substr(0, 40));
    Exact e(s);
    auto r = BitSliceIndexRoaringBitmap::Create(std::make_shared<ByteArrayInputStream>(e.p.get(), e.n));
    REQUIRE(!cut || !r.ok(), "truncated-accepted", s.size());
    if (r.ok()) {
        auto eq = r.value()->Equal(min);
        auto gt = r.value()->GreaterThan(min);
        c.Label("accepted");
    }
}

FACET(sequences, 3) {
    std::vector<int64_t> v;
    int64_t n = c.Len(1, 12);
    for (int64_t i = 0; i < n; i++) {
        v.push_back(c.I64());
    }
    auto bytes = DeltaVarintCompressor::Compress(v);
    bool cut;
    std::string s = Damage(c, std::string(bytes.begin(), bytes.end()), &cut);
    c.NonTrivial(n >= 2);
    auto r = DeltaVarintCompressor::Decompress(std::vector<char>(s.begin(), s.end()));
    // how many whole numbers there are: one per byte without the continuation bit
    size_t whole = 0, run = 0;
    bool bad = false;
    for (char ch : s) {
        run++;
        if (!(ch & 0x80)) {
            whole++;
            run = 0;
        }
        bad = bad || run > 10;
    }
    if (run > 0) {
        REQUIRE(!r.ok(), "half-a-number-accepted", pbt::Hex(s));
    } else if (r.ok()) {
        REQUIRE(r.value().size() == whole, "count", r.value().size() << " want " << whole);
        for (size_t i = 0; cut && i < whole; i++) {
            REQUIRE(r.value()[i] == v[i], "prefix", i);
        }
    } else {
        REQUIRE(!cut, "whole-numbers-refused", pbt::Hex(s));
    }
}

FACET(deletion_files, 3) {
    auto pool = GetDefaultPool();
    std::vector<std::optional<DeletionFile>> files;
    int64_t n = c.Len(1, 4);
    for (int64_t i = 0; i < n; i++) {
        if (c.Chance(1, 4)) {
            files.emplace_back(std::nullopt);
        } else {
            files.emplace_back(DeletionFile(c.Ascii(c.Len(0, 10)), c.I64(), c.I64(), c.Int(0, 9)));
        }
    }
    MemorySegmentOutputStream out(64, pool);
    DeletionFile::SerializeList(files, &out);
    auto bytes = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, static_cast<int32_t>(out.CurrentSize()), pool.get());
    bool cut;
    std::string s = Damage(c, std::string(bytes->data(), bytes->size()), &cut);
    c.NonTrivial(s.size() > 6);
    c.Log() << pbt::Hex(s);
    Exact e(s);
    DataInputStream in(std::make_shared<ByteArrayInputStream>(e.p.get(), e.n));
    auto r = DeletionFile::DeserializeList(&in, static_cast<int32_t>(c.Int(3, 5)));
    if (r.ok()) {
        UNWRAP(int64_t pos, in.GetPos(), "position");
        REQUIRE(pos <= static_cast<int64_t>(s.size()), "position", pos);
        for (auto& f : r.value()) {
            if (f) {
                f->ToString();
            }
        }
    }
}
