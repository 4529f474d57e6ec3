// Which bucket a row's key falls into, next to an own encoding of the key and an own hash.
#include <cstring>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "core_values.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/utils/bucket_id_calculator.h"
#include "pbt.h"

using namespace paimon;
using cv::Cell;
using cv::K;
using cv::T;

namespace {

void Put64(std::string* s, size_t at, uint64_t v) {
    for (int i = 0; i < 8; i++) (*s)[at + i] = static_cast<char>(v >> (8 * i));
}

// the key as one row of bytes: flags for nulls, eight bytes for each column, then what is longer
std::string Encode(const std::vector<T>& types, const cv::Row& row) {
    size_t n = types.size();
    size_t head = (n + 8 + 63) / 64 * 8;
    std::string s(head + 8 * n, '\0');
    auto append = [&](const std::string& bytes, size_t room) {
        size_t at = s.size();
        s += bytes;
        s.resize(at + room, '\0');
        return at;
    };
    for (size_t i = 0; i < n; i++) {
        const Cell& c = row[i];
        const T& t = types[i];
        size_t slot = head + 8 * i;
        if (c.null) {
            s[(i + 8) / 8] = static_cast<char>(s[(i + 8) / 8] | 1 << ((i + 8) % 8));
            // long times and decimals keep their place
            if (t.k == K::kTs && t.p > 3) Put64(&s, slot, static_cast<uint64_t>(append("", 8)) << 32);
            if (t.k == K::kDec && t.p > 18) Put64(&s, slot, static_cast<uint64_t>(append("", 16)) << 32);
            continue;
        }
        switch (t.k) {
            case K::kBool: s[slot] = static_cast<char>(c.i); break;
            case K::kI8: s[slot] = static_cast<char>(c.i); break;
            case K::kI16: s[slot] = static_cast<char>(c.i); s[slot + 1] = static_cast<char>(c.i >> 8); break;
            case K::kI32:
            case K::kDate: for (int b = 0; b < 4; b++) s[slot + b] = static_cast<char>(c.i >> (8 * b)); break;
            case K::kI64: Put64(&s, slot, static_cast<uint64_t>(c.i)); break;
            case K::kF32: { float f = static_cast<float>(c.d); memcpy(&s[slot], &f, 4); break; }
            case K::kF64: memcpy(&s[slot], &c.d, 8); break;
            case K::kStr:
            case K::kBin:
                if (c.s.size() <= 7) {
                    memcpy(&s[slot], c.s.data(), c.s.size());
                    s[slot + 7] = static_cast<char>(0x80 | c.s.size());
                } else {
                    uint64_t at = append(c.s, (c.s.size() + 7) / 8 * 8);
                    Put64(&s, slot, at << 32 | c.s.size());
                }
                break;
            case K::kTs: {
                int64_t per = t.p == 6 ? 1000 : 1000000;
                if (t.p <= 3) { Put64(&s, slot, static_cast<uint64_t>(t.p == 0 ? c.i * 1000 : c.i)); break; }
                int64_t milli = c.i / per, rest = c.i % per;
                if (rest < 0) { rest += per; milli--; }
                uint64_t at = append("", 8);
                Put64(&s, at, static_cast<uint64_t>(milli));
                Put64(&s, slot, at << 32 | static_cast<uint64_t>(rest * (1000000 / per)));
                break;
            }
            case K::kDec: {
                if (t.p <= 18) { Put64(&s, slot, static_cast<uint64_t>(c.i)); break; }
                // as few bytes as hold it, the most significant first
                std::string bytes;
                int64_t v = c.i;
                do {
                    bytes.insert(bytes.begin(), static_cast<char>(v));
                    v >>= 8;
                } while (!((v == 0 && !(bytes[0] & 0x80)) || (v == -1 && (bytes[0] & 0x80))));
                uint64_t at = append(bytes, 16);
                Put64(&s, slot, at << 32 | bytes.size());
                break;
            }
            default: break;
        }
    }
    return s;
}

uint32_t Turn(uint32_t x, int r) { return x << r | x >> (32 - r); }
int32_t Hash(const std::string& s) {
    uint32_t h = 42;
    for (size_t i = 0; i + 4 <= s.size(); i += 4) {
        uint32_t k = 0;
        for (int b = 3; b >= 0; b--) k = k << 8 | static_cast<uint8_t>(s[i + b]);
        h = Turn(h ^ Turn(k * 0xcc9e2d51u, 15) * 0x1b873593u, 13) * 5 + 0xe6546b64u;
    }
    h ^= static_cast<uint32_t>(s.size());
    h = (h ^ h >> 16) * 0x85ebca6bu;
    h = (h ^ h >> 13) * 0xc2b2ae35u;
    return static_cast<int32_t>(h ^ h >> 16);
}

FACET(buckets, 10) {
    int n = static_cast<int>(c.Chance(1, 12) ? c.Int(50, 70) : c.Int(1, 5));
    std::vector<T> types;
    std::vector<std::string> names;
    for (int i = 0; i < n; i++) {
        types.push_back(cv::GenAtom(c));
        names.push_back("k" + std::to_string(i));
    }
    int rows = static_cast<int>(c.Int(1, 6));
    std::vector<cv::Row> data;
    for (int r = 0; r < rows; r++) {
        cv::Row row;
        for (const T& t : types) {
            Cell v = cv::GenCell(c, t, 0, 6);
            if (!v.null && t.k == K::kDec && c.Bool()) {
                int64_t most = 1;
                for (int i = 0; i < std::min(t.p, 18); i++) most *= 10;
                v.i = static_cast<int64_t>(c.I64() % most);
            }
            if (!v.null && (t.k == K::kTs) && c.Chance(1, 3)) v.i = c.Int(-3000000000000ll, 3000000000000ll);
            if (!v.null && cv::IsText(t.k) && c.Chance(1, 3)) v.s = t.k == K::kStr ? c.Ascii(c.Int(5, 20)) : c.Bytes(c.Int(5, 20));
            if (!v.null && cv::IsFloat(t.k) && std::isnan(v.d)) v.d = 1.5;
            row.push_back(v);
        }
        data.push_back(row);
    }
    int32_t buckets = c.Chance(1, 8) ? c.PickOf<int32_t>({1, -1, -2, 0, -3}) : c.Chance(1, 8) ? 2147483647 : static_cast<int32_t>(c.Int(2, 1000));
    bool keyed = c.Bool();
    auto made = BucketIdCalculator::Create(keyed, buckets);
    bool fine = buckets > 0 || (buckets == -1 && !keyed) || (buckets == -2 && keyed);
    REQUIRE(made.ok() == fine, "create", buckets << " buckets " << (keyed ? "with" : "without") << " keys: " << made.status().ToString());
    if (!fine) return;
    std::shared_ptr<arrow::Array> array = cv::MakeStruct(names, types, data);
    int from = 0, count = rows;
    if (c.Chance(1, 3)) {
        from = static_cast<int>(c.Int(0, rows - 1));
        count = static_cast<int>(c.Int(1, rows - from));
        array = array->Slice(from, count);
    }
    ::ArrowArray ca;
    ::ArrowSchema cs;
    auto st = arrow::ExportArray(*array, &ca, &cs);
    REQUIRE(st.ok(), "harness", st.ToString());
    std::vector<int32_t> got(count + 1, -77);
    REQUIRE_OK(made.value()->CalculateBucketIds(&ca, &cs, got.data()), "calculate");
    REQUIRE(got[count] == -77, "overrun", "more buckets than rows");
    for (int r = 0; r < count; r++) {
        int32_t want = buckets == -2 ? -2 : buckets == 1 || buckets == -1 ? 0 : 0;
        if (buckets > 1) {
            int64_t h = Hash(Encode(types, data[from + r]));
            want = static_cast<int32_t>(std::abs(h % buckets));
        }
        c.Log() << cv::Text(types, data[from + r]) << " in " << buckets << ": " << got[r] << "\n";
        REQUIRE(got[r] == want, "bucket", cv::Text(types, data[from + r]) << " falls into " << got[r] << " of " << buckets << ", expected " << want);
        c.Eval(1);
    }
    c.Label(buckets > 1 ? "hashed" : "fixed");
    c.NonTrivial(buckets > 1);
}

}  // namespace
