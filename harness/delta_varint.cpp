// Delta/varint compressed sequences of 64-bit integers.
#include "paimon/common/utils/delta_varint_compressor.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
std::vector<int64_t> Sequence(Case& c) {
    std::vector<int64_t> v;
    int64_t n = c.Len(0, 40);
    int64_t style = c.Int(0, 2);
    int64_t cur = c.I64();
    for (int64_t i = 0; i < n; i++) {
        if (style == 0) {
            cur = c.I64();
        } else if (style == 1) {
            // steps around the sizes at which one more byte is needed
            uint64_t step = (1ULL << c.Int(0, 63)) - static_cast<uint64_t>(c.Int(0, 1));
            cur = static_cast<int64_t>(c.Bool() ? static_cast<uint64_t>(cur) + step
                                                : static_cast<uint64_t>(cur) - step);
        } else {
            cur = static_cast<int64_t>(static_cast<uint64_t>(cur) +
                                       static_cast<uint64_t>(c.Int(-70, 70)));
        }
        v.push_back(cur);
    }
    return v;
}

std::vector<char> Reference(const std::vector<int64_t>& v) {
    std::vector<char> out;
    uint64_t prev = 0;
    for (int64_t x : v) {
        int64_t d = static_cast<int64_t>(static_cast<uint64_t>(x) - prev);
        prev = static_cast<uint64_t>(x);
        uint64_t z = (static_cast<uint64_t>(d) << 1) ^ (d < 0 ? ~0ULL : 0ULL);
        do {
            unsigned char b = z & 0x7f;
            z >>= 7;
            out.push_back(static_cast<char>(b | (z ? 0x80 : 0)));
        } while (z);
    }
    return out;
}
}  // namespace

FACET(round_trip, 4) {
    std::vector<int64_t> v = Sequence(c);
    auto bytes = DeltaVarintCompressor::Compress(v);
    auto ref = Reference(v);
    REQUIRE(bytes == ref, "layout",
            "got " << pbt::Hex(std::string(bytes.begin(), bytes.end())) << " want "
                   << pbt::Hex(std::string(ref.begin(), ref.end())));
    UNWRAP(auto back, DeltaVarintCompressor::Decompress(bytes), "decompress");
    REQUIRE(back == v, "roundtrip", "values differ");
    // cut inside the last value: reported; cut between values: the values before the cut
    if (!bytes.empty()) {
        size_t cut = c.Draw(bytes.size() - 1);
        std::vector<char> part(bytes.begin(), bytes.begin() + static_cast<long>(cut));
        auto r = DeltaVarintCompressor::Decompress(part);
        bool mid = !part.empty() && (part.back() & 0x80);
        REQUIRE(r.ok() == !mid, "truncated", "cut at " << cut << " " << r.status().ToString());
        if (r.ok()) {
            REQUIRE(r.value().size() <= v.size() &&
                        std::equal(r.value().begin(), r.value().end(), v.begin()),
                    "truncated-values", cut);
        }
    }
    c.NonTrivial(v.size() >= 2);
    c.Log() << "n " << v.size() << " bytes " << bytes.size();
}

// Any bytes at all: an answer or an error, and the answer re-encodes to the same values.
FACET(any_bytes, 2) {
    std::string s = c.Bytes(c.Len(0, 40));
    if (c.Bool()) {
        for (char& x : s) {
            if (c.Chance(2, 3)) {
                x = static_cast<char>(x | 0x80);
            }
        }
    }
    std::vector<char> in(s.begin(), s.end());
    // longest run of continuation bytes
    size_t run = 0, longest = 0;
    for (char x : in) {
        run = (x & 0x80) ? run + 1 : 0;
        longest = std::max(longest, run);
    }
    auto r = DeltaVarintCompressor::Decompress(in);
    if (longest >= 10 || (!in.empty() && (in.back() & 0x80))) {
        REQUIRE(!r.ok(), "malformed-accepted", pbt::Hex(s));
    } else {
        REQUIRE(r.ok(), "well-formed-refused", pbt::Hex(s));
        UNWRAP(auto again, DeltaVarintCompressor::Decompress(DeltaVarintCompressor::Compress(r.value())),
               "again");
        REQUIRE(again == r.value(), "reencode", "");
    }
    c.NonTrivial(in.size() >= 2);
    c.Label(r.ok() ? "accepted" : "refused");
    c.Log() << pbt::Hex(s);
}
