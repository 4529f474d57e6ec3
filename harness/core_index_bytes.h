#pragma once
// The bytes of file indexes, written down from the rows.
#include <algorithm>
#include <cstring>
#include <map>

#include "core_literal.h"
#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_format.h"
#include "paimon/file_index/file_index_reader.h"
#include "paimon/file_index/file_indexer.h"
#include "paimon/file_index/file_indexer_factory.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"
#include "xxhash.h"

namespace ci {
using namespace paimon;  // NOLINT
using cv::Cell;
using cv::K;
using cv::Row;
using cv::T;
using pbt::Case;

struct Column {
    std::string name = "f";
    T type;
    std::vector<Cell> cells;
};

inline ::ArrowSchema* Schema(const Column& col, ::ArrowSchema* out) {
    CV_OK(arrow::ExportSchema(*arrow::schema({arrow::field(col.name, cv::ToArrow(col.type))}), out));
    return out;
}

inline std::string BitmapBytes(Case& c, const Column& col, std::map<std::string, std::string> opts) {
    UNWRAP(auto indexer, FileIndexerFactory::Get("bitmap", opts), "indexer");
    ::ArrowSchema cs;
    UNWRAP(auto writer, indexer->CreateWriter(Schema(col, &cs), GetDefaultPool()), "writer");
    size_t done = 0;
    while (done < col.cells.size() || (done == 0 && c.Chance(1, 8))) {
        size_t k = col.cells.empty() ? 0 : c.Int(1, static_cast<int64_t>(col.cells.size() - done));
        // a piece of a longer array
        std::vector<Row> rows;
        int64_t before = c.PickOf<int64_t>({0, 0, 1, 3});
        for (int64_t i = 0; i < before; i++) rows.push_back({cv::GenCell(c, col.type)});
        for (size_t i = 0; i < k; i++) rows.push_back({col.cells[done + i]});
        auto array = cv::MakeStruct({col.name}, {col.type}, rows)->Slice(before);
        ::ArrowArray ca;
        CV_OK(arrow::ExportArray(*array, &ca));
        REQUIRE_OK(writer->AddBatch(&ca), "add-batch");
        done += k;
        if (col.cells.empty()) break;
    }
    auto bytes = writer->SerializedBytes();
    if (!bytes.ok()) FAIL("serialize", bytes.status().ToString());
    return std::string(bytes.value()->data(), bytes.value()->size());
}

inline std::string Big(uint64_t v, int n) {
    std::string s;
    for (int i = n - 1; i >= 0; i--) s += static_cast<char>(v >> (8 * i));
    return s;
}

inline std::string BsiBytes(Case& c, const Column& col) {
    std::vector<std::pair<int32_t, int64_t>> side[2];
    for (size_t i = 0; i < col.cells.size(); i++) {
        if (col.cells[i].null) continue;
        int64_t v = col.cells[i].i * (col.type.k == K::kTs && col.type.p == 0 ? 1000 : 1);
        side[v < 0].emplace_back(static_cast<int32_t>(i), v < 0 ? -v : v);
    }
    std::string out = Big(1, 1) + Big(col.cells.size(), 4);
    for (auto& s : side) {
        if (s.empty()) {
            out += Big(0, 1);
            continue;
        }
        int64_t lo = INT64_MAX, hi = 0;
        for (auto& [row, v] : s) {
            lo = std::min(lo, v);
            hi = std::max(hi, v);
        }
        UNWRAP(auto app, BitSliceIndexRoaringBitmap::Appender::Create(lo, hi), "appender");
        for (auto& [row, v] : s) REQUIRE_OK(app->Append(row, v), "append");
        auto b = app->Serialize(GetDefaultPool());
        out += Big(1, 1) + std::string(b->data(), b->size());
    }
    return out;
}

inline int64_t Mix(uint64_t k) {
    auto sar = [](uint64_t x, int n) { return static_cast<uint64_t>(static_cast<int64_t>(x) >> n); };
    k = ~k + (k << 21);
    k ^= sar(k, 24);
    k = k * 265;
    k ^= sar(k, 14);
    k = k * 21;
    k ^= sar(k, 28);
    k += k << 31;
    return static_cast<int64_t>(k);
}

inline int64_t HashOf(const T& t, const Cell& v) {
    switch (t.k) {
        case K::kStr:
        case K::kBin: return static_cast<int64_t>(XXH64(v.s.data(), v.s.size(), 0));
        case K::kF32: {
            float f = static_cast<float>(v.d);
            int32_t bits;
            memcpy(&bits, &f, 4);
            return Mix(static_cast<uint64_t>(static_cast<int64_t>(bits)));
        }
        case K::kF64: {
            int64_t bits;
            memcpy(&bits, &v.d, 8);
            return Mix(static_cast<uint64_t>(bits));
        }
        case K::kTs: return Mix(static_cast<uint64_t>(v.i * (t.p == 0 ? 1000 : 1)));
        default: return Mix(static_cast<uint64_t>(v.i));
    }
}

inline std::vector<int32_t> BitsOf(int64_t hash, int k, int32_t bits) {
    std::vector<int32_t> out;
    int32_t h1 = static_cast<int32_t>(hash), h2 = static_cast<int32_t>(static_cast<uint64_t>(hash) >> 32);
    for (int i = 1; i <= k; i++) {
        int32_t h = static_cast<int32_t>(static_cast<uint32_t>(h1) + static_cast<uint32_t>(i) * static_cast<uint32_t>(h2));
        if (h < 0) h = ~h;
        out.push_back(h % bits);
    }
    return out;
}

inline const std::vector<K> kBitmapKinds = {K::kBool, K::kI8, K::kI16, K::kI32, K::kI64, K::kStr, K::kDate, K::kTs};
inline const std::vector<K> kBsiKinds = {K::kI8, K::kI16, K::kI32, K::kI64, K::kDate, K::kTs};
inline const std::vector<K> kBloomKinds = {K::kI8, K::kI16, K::kI32, K::kI64, K::kF32, K::kF64, K::kStr, K::kBin, K::kDate, K::kTs};

inline std::map<std::string, std::string> BitmapOptions(Case& c, const Column& col) {
    std::map<std::string, std::string> o;
    if (c.Chance(2, 3)) o["version"] = c.Bool() ? "1" : "2";
    if (c.Bool()) {
        size_t longest = 8;
        for (auto& v : col.cells) longest = std::max(longest, v.s.size() + 4);
        o["index-block-size"] = std::to_string(longest + 12 + c.Int(0, 40)) + "b";
    }
    return o;
}

struct Entry {
    std::string kind, bytes;
    bool empty = false;
};
inline std::string Utf(const std::string& s) {
    return Big(s.size(), 2) + s;
}

inline std::string BloomBytes(const Column& col, int k, int32_t bytes) {
    std::string bits(bytes, 0);
    for (auto& v : col.cells) {
        if (v.null) continue;
        for (int32_t b : BitsOf(HashOf(col.type, v), k, bytes * 8)) bits[b / 8] = static_cast<char>(bits[b / 8] | (1 << (b % 8)));
    }
    return Big(k, 4) + bits;
}

// Several columns with several indexes each.
inline std::string ContainerBytes(const std::vector<std::string>& names, const std::vector<std::vector<Entry>>& entries) {
    size_t head = 8 + 4 + 4 + 4 + 4;
    for (size_t i = 0; i < names.size(); i++) {
        head += 2 + names[i].size() + 4;
        for (auto& e : entries[i]) head += 2 + e.kind.size() + 8;
    }
    std::string h = Big(1493475289347502ULL, 8) + Big(1, 4) + Big(head, 4) + Big(names.size(), 4), body;
    for (size_t i = 0; i < names.size(); i++) {
        h += Utf(names[i]) + Big(entries[i].size(), 4);
        for (auto& e : entries[i]) {
            h += Utf(e.kind) + Big(e.empty ? 0xffffffffu : head + body.size(), 4) + Big(e.bytes.size(), 4);
            body += e.bytes;
        }
    }
    return h + Big(0, 4) + body;
}
}  // namespace ci
