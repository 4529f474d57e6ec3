// Bloom filter: never denies a value that was added; layout shared with other readers.
#include <cmath>
#include <memory>
#include <set>

#include "paimon/common/utils/bloom_filter64.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
// The positions other readers of the same files compute, in 32-bit wrapping arithmetic.
std::vector<uint32_t> Positions(int64_t h, int32_t k, int32_t bits) {
    std::vector<uint32_t> out;
    uint32_t a = static_cast<uint32_t>(h), b = static_cast<uint32_t>(static_cast<uint64_t>(h) >> 32);
    for (int32_t i = 1; i <= k; i++) {
        uint32_t v = a + static_cast<uint32_t>(i) * b;
        if (v & 0x80000000u) {
            v = ~v;
        }
        out.push_back(v % static_cast<uint32_t>(bits));
    }
    return out;
}
}  // namespace

FACET(no_false_negatives, 4) {
    auto pool = GetDefaultPool();
    int64_t items = c.PickOf<int64_t>({1, 2, 3, 7, 10, 100, 1000});
    double fpp = c.PickOf<double>({0.1, 0.01, 0.3, 0.001, 0.5, 0.9, 0.05});
    BloomFilter64 f(items, fpp, pool);
    int32_t bits = f.GetBitSet().BitSize(), k = f.GetNumHashFunctions();
    // enough bits and hash functions for what was asked for
    double want_bits = -static_cast<double>(items) * std::log(fpp) / (std::log(2) * std::log(2));
    REQUIRE(bits >= want_bits - 1 && bits <= want_bits + 9 && bits % 8 == 0, "size",
            bits << " bits for " << want_bits);
    REQUIRE(k >= 1 && std::abs(k - std::max(1.0, std::round(bits / static_cast<double>(items) *
                                                             std::log(2)))) < 1.5,
            "hash-count", k);
    std::set<int64_t> added;
    std::set<uint32_t> on;
    int64_t n = c.Len(0, std::min<int64_t>(items * 2, 60));
    auto check = [&](const BloomFilter64& g, const char* when) {
        for (int64_t h : added) {
            REQUIRE(g.TestHash(h), "false-negative", when << " hash " << h);
        }
    };
    for (int64_t i = 0; i < n; i++) {
        int64_t h = c.I64();
        f.AddHash(h);
        added.insert(h);
        for (uint32_t p : Positions(h, k, bits)) {
            on.insert(p);
        }
    }
    check(f, "filled");
    auto bytes = std::make_shared<Bytes>(bits / 8 + 5, pool.get());
    memset(bytes->data(), 0x5a, bytes->size());
    int32_t off = static_cast<int32_t>(c.Int(0, 5));
    auto tail = std::make_shared<Bytes>(bits / 8 + off, pool.get());
    memset(tail->data(), 0, tail->size());
    for (int32_t i = 0; i < bits; i++) {
        REQUIRE(f.GetBitSet().Get(i) == (on.count(static_cast<uint32_t>(i)) > 0), "layout",
                "bit " << i);
        if (f.GetBitSet().Get(i)) {
            tail->data()[off + i / 8] |= static_cast<char>(1 << (i % 8));
        }
    }
    // reloaded from a byte array at some offset, as the index file reader does
    BloomFilter64 g(k, std::make_unique<BloomFilter64::BitSet>(tail, off));
    REQUIRE(g.GetBitSet().BitSize() == bits, "reload-size", g.GetBitSet().BitSize());
    check(g, "reloaded");
    for (int i = 0; i < 20; i++) {
        int64_t h = c.I64();
        bool all = true;
        for (uint32_t p : Positions(h, k, bits)) {
            all = all && on.count(p);
        }
        REQUIRE(f.TestHash(h) == all && g.TestHash(h) == all, "answer", h);
    }
    // adding to a filter over an existing array changes that array in place
    int64_t h = c.I64();
    g.AddHash(h);
    REQUIRE(g.TestHash(h), "false-negative", "after reload " << h);
    for (int32_t i = 0; i < off; i++) {
        REQUIRE(tail->data()[i] == 0, "header-overwritten", i);
    }
    for (uint32_t p : Positions(h, k, bits)) {
        REQUIRE((tail->data()[off + static_cast<int32_t>(p / 8)] >> (p % 8)) & 1, "in-place", p);
    }
    c.NonTrivial(added.size() >= 2);
    c.Log() << "items " << items << " fpp " << fpp << " added " << added.size() << " off " << off;
}

// Filled to its capacity the filter stays near the requested false positive rate.
FACET(false_positive_rate, 1) {
    auto pool = GetDefaultPool();
    int64_t items = c.Int(200, 1500);
    double fpp = c.PickOf<double>({0.1, 0.05, 0.02, 0.01});
    BloomFilter64 f(items, fpp, pool);
    auto rng = c.Sub();
    std::set<int64_t> in;
    for (int64_t i = 0; i < items; i++) {
        int64_t h = static_cast<int64_t>(rng.Next());
        f.AddHash(h);
        in.insert(h);
    }
    int hits = 0;
    const int kProbes = 3000;
    for (int i = 0; i < kProbes; i++) {
        int64_t h = static_cast<int64_t>(rng.Next());
        hits += !in.count(h) && f.TestHash(h);
    }
    // six standard deviations above one and a half times the rate
    double lim = 1.5 * fpp * kProbes + 6 * std::sqrt(1.5 * fpp * kProbes) + 5;
    REQUIRE(hits <= lim, "false-positive-rate", hits << "/" << kProbes << " for fpp " << fpp);
    for (int64_t h : in) {
        REQUIRE(f.TestHash(h), "false-negative", h);
    }
    c.NonTrivial();
    c.Log() << "items " << items << " fpp " << fpp << " hits " << hits;
}
