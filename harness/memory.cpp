// Memory pools account for every byte; byte arrays own their memory and compare like strings.
#include <cstring>
#include <map>
#include <memory>
#include <thread>

#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

FACET(accounting, 4) {
    auto pool = GetMemoryPool();
    struct Block {
        char* p;
        std::string data;
        uint64_t align;
    };
    std::vector<Block> blocks;
    uint64_t now = 0, low_peak = 0, high_peak = 0;
    auto fill = [&](Block& b, size_t from) {
        for (size_t i = from; i < b.data.size(); i++) {
            b.data[i] = static_cast<char>('a' + i % 26);
            b.p[i] = b.data[i];
        }
    };
    int64_t n = c.Len(1, 16);
    for (int64_t i = 0; i < n; i++) {
        switch (blocks.empty() ? 0 : c.Weighted({3, 3, 2, 1})) {
            case 3: {  // growing nothing is the same as asking for a block
                size_t size = c.PickOf<size_t>({1, 24, 100, 4096});
                uint64_t align = c.PickOf<uint64_t>({0, 8, 64});
                Block b{static_cast<char*>(pool->Realloc(nullptr, 0, size, align)), std::string(size, 0), align};
                REQUIRE(b.p != nullptr && (align == 0 || reinterpret_cast<uintptr_t>(b.p) % align == 0), "realloc-nothing",
                        size);
                fill(b, 0);
                blocks.push_back(b);
                now += size;
                break;
            }
            case 0: {
                uint64_t align = c.PickOf<uint64_t>({0, 8, 16, 64, 128, 4096});
                size_t size = c.PickOf<size_t>({1, 8, 24, 64, 100, 1000, 4096, 0});
                Block b{static_cast<char*>(pool->Malloc(size, align)), std::string(size, 0), align};
                REQUIRE(size == 0 || b.p != nullptr, "null", size);
                REQUIRE(reinterpret_cast<uintptr_t>(b.p) % (align == 0 ? 16 : align) == 0, "alignment", align);
                fill(b, 0);
                blocks.push_back(b);
                now += size;
                c.Log() << "malloc " << size << "/" << align << " ";
                break;
            }
            case 1: {
                Block& b = blocks[c.Int(0, static_cast<int64_t>(blocks.size()) - 1)];
                size_t old = b.data.size();
                size_t size = c.Bool() ? c.PickOf<size_t>({1, 8, 24, 64, 100, 1000, 4096})
                                       : static_cast<size_t>(std::max<int64_t>(1, static_cast<int64_t>(old / 2) + c.Int(0, 3) - 1));
                if (c.Chance(1, 6)) {
                    size = 0;
                }
                char* p = static_cast<char*>(pool->Realloc(b.p, old, size, b.align));
                REQUIRE(p != nullptr || size == 0, "realloc-null", size);
                REQUIRE(memcmp(p, b.data.data(), std::min(old, size)) == 0, "realloc-lost-bytes",
                        old << " to " << size);
                REQUIRE(b.align == 0 || reinterpret_cast<uintptr_t>(p) % b.align == 0, "realloc-alignment", b.align);
                b.p = p;
                b.data.resize(size);
                fill(b, std::min(old, size));
                high_peak = std::max(high_peak, now + size);  // both may exist for a moment
                now = now - old + size;
                c.Log() << "realloc " << old << "->" << size << "/" << b.align << " ";
                break;
            }
            default: {
                size_t k = c.Int(0, static_cast<int64_t>(blocks.size()) - 1);
                pool->Free(blocks[k].p, blocks[k].data.size());
                now -= blocks[k].data.size();
                blocks.erase(blocks.begin() + k);
                c.Log() << "free ";
            }
        }
        low_peak = std::max(low_peak, now);
        high_peak = std::max(high_peak, now);
        REQUIRE(pool->CurrentUsage() == now, "current", pool->CurrentUsage() << " want " << now);
        REQUIRE(pool->MaxMemoryUsage() >= low_peak && pool->MaxMemoryUsage() <= high_peak, "peak",
                pool->MaxMemoryUsage() << " want " << low_peak << ".." << high_peak);
        for (auto& b : blocks) {
            REQUIRE(memcmp(b.p, b.data.data(), b.data.size()) == 0, "contents", b.data.size());
        }
    }
    c.NonTrivial(n >= 3 && high_peak > 0);
    for (auto& b : blocks) {
        pool->Free(b.p, b.data.size());
    }
    REQUIRE(pool->CurrentUsage() == 0, "leak", pool->CurrentUsage());
}

namespace {
struct Tracked {
    explicit Tracked(int* count, bool boom) : count_(count) {
        if (boom) {
            throw std::runtime_error("boom");
        }
        ++*count_;
    }
    ~Tracked() {
        --*count_;
    }
    int* count_;
    char pad[40];
};
}  // namespace

FACET(owned_objects, 2) {
    auto pool = GetMemoryPool();
    int alive = 0;
    {
        std::vector<PAIMON_UNIQUE_PTR<Tracked>> v;
        int64_t n = c.Len(1, 8);
        c.NonTrivial(n >= 2);
        for (int64_t i = 0; i < n; i++) {
            bool boom = c.Chance(1, 3);
            try {
                v.push_back(pool->AllocateUnique<Tracked>(&alive, boom));
                REQUIRE(!boom, "no-throw", "");
            } catch (const std::runtime_error&) {
                REQUIRE(boom, "threw", "");
            }
            if (v.size() >= 2 && c.Chance(1, 4)) {
                v[0] = std::move(v.back());  // what was held before is released
                v.pop_back();
            }
            if (!v.empty() && c.Chance(1, 4)) {
                v.erase(v.begin() + c.Int(0, static_cast<int64_t>(v.size()) - 1));
            }
            REQUIRE(alive == static_cast<int>(v.size()), "alive", alive << " want " << v.size());
            REQUIRE(pool->CurrentUsage() == v.size() * sizeof(Tracked), "usage", pool->CurrentUsage());
        }
    }
    REQUIRE(alive == 0 && pool->CurrentUsage() == 0, "released", alive);
    // an object goes back to the pool it came from, whichever holder it ends in
    auto second = GetMemoryPool();
    {
        auto a = pool->AllocateUnique<Tracked>(&alive, false);
        auto b = second->AllocateUnique<Tracked>(&alive, false);
        switch (c.Int(0, 2)) {
            case 0:
                a = std::move(b);
                REQUIRE(alive == 1 && pool->CurrentUsage() == 0 && second->CurrentUsage() == sizeof(Tracked),
                        "moved-between-pools", "");
                break;
            case 1: {
                auto d = a.get_deleter();
                d = b.get_deleter();
                Tracked* raw = b.release();
                d(raw);
                REQUIRE(alive == 1 && pool->CurrentUsage() == sizeof(Tracked) && second->CurrentUsage() == 0,
                        "deleter-assigned", "");
                break;
            }
            default:
                std::swap(a, b);
                a.reset();
                REQUIRE(alive == 1 && pool->CurrentUsage() == sizeof(Tracked) && second->CurrentUsage() == 0,
                        "swapped-between-pools", "");
        }
    }
    REQUIRE(alive == 0 && pool->CurrentUsage() == 0 && second->CurrentUsage() == 0, "released-both", alive);
    bool refused = false;
    try {
        refused = pool->Malloc(16, 24) == nullptr;  // an alignment no block can have
    } catch (const std::bad_alloc&) {
        refused = true;
    }
    REQUIRE(refused && pool->CurrentUsage() == 0, "bad-alignment", "");
    REQUIRE(GetDefaultPool() && GetDefaultPool() == GetDefaultPool(), "default-pool", "");
}

FACET(byte_arrays, 4) {
    auto pool = GetMemoryPool();
    {
        auto str = [](const Bytes& b) { return std::string(b.data(), b.size()); };
        auto word = [&] {
            std::string s;
            int64_t n = c.Len(0, 20);
            for (int64_t i = 0; i < n; i++) {
                s.push_back(static_cast<char>(c.PickOf<int>({'a', 'b', 0, 0x7f, 0x80, 0xff})));
            }
            return s;
        };
        auto sign = [](int64_t v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
        std::string s = word();
        std::string t = c.Bool() ? word() : c.Bool() ? s : s + word();
        c.Log() << pbt::Hex(s) << " / " << pbt::Hex(t);
        c.NonTrivial(s.size() >= 2 && !t.empty());
        Bytes a(s, pool.get()), b(t, pool.get());
        REQUIRE(str(a) == s && a.size() == s.size(), "from-string", "");
        REQUIRE(pool->CurrentUsage() == s.size() + t.size(), "usage", pool->CurrentUsage());
        int cmp = memcmp(s.data(), t.data(), std::min(s.size(), t.size()));
        int want = cmp != 0 ? sign(cmp) : sign(static_cast<int64_t>(s.size()) - static_cast<int64_t>(t.size()));
        REQUIRE((a == b) == (want == 0) && (a < b) == (want < 0) && sign(a.compare(b)) == want, "compare", want);
        size_t n = static_cast<size_t>(c.Int(0, 30));
        {
            auto copy = Bytes::CopyOf(a, n, pool.get());
            REQUIRE(copy->size() == n, "copy-size", copy->size());
            size_t keep = std::min(n, s.size());
            REQUIRE(keep == 0 || str(*copy).substr(0, keep) == s.substr(0, keep), "copy-contents", n);
            if (n > 0) {
                (*copy)[0] = 'Z';  // a copy does not share
                REQUIRE(str(a) == s, "copy-shared", "");
            }
        }
        auto fresh = Bytes::AllocateBytes(static_cast<int32_t>(n), pool.get());
        REQUIRE(fresh->size() == n, "allocate-size", fresh->size());
        REQUIRE(a == *&a && !(a < *&a) && a.compare(a) == 0, "self", "");
        auto copied = Bytes::AllocateBytes(t, pool.get());
        REQUIRE(*copied == b, "allocate-string", "");
        Bytes moved(std::move(a));
        REQUIRE(str(moved) == s && a.size() == 0 && a.data() == nullptr, "move", a.size());
        Bytes target(word(), pool.get());
        target = std::move(moved);
        REQUIRE(str(target) == s && moved.size() == 0, "move-assign", "");
        Bytes& self = target;
        target = std::move(self);
        REQUIRE(str(target) == s, "self-move", "");
        Bytes empty;
        REQUIRE(empty.size() == 0 && (empty == Bytes(std::string(), pool.get())), "empty", "");
    }
    REQUIRE(pool->CurrentUsage() == 0, "leak", pool->CurrentUsage());
}

// Two or more threads at once: usage adds up and the peak never goes down.
FACET(threads, 1) {
    auto pool = GetMemoryPool();
    int64_t threads = c.Int(2, 4);
    int64_t rounds = 200;
    uint64_t seed = c.Sub().Next();
    std::vector<std::string> errors(threads);
    std::vector<std::thread> ts;
    for (int64_t t = 0; t < threads; t++) {
        ts.emplace_back([&, t] {
            uint64_t x = seed + t * 7919 + 1;
            uint64_t last_peak = 0;
            for (int64_t i = 0; i < rounds; i++) {
                x = x * 6364136223846793005ull + 1442695040888963407ull;
                size_t size = 1 + (x >> 33) % 500;
                void* p = pool->Malloc(size);
                uint64_t peak = pool->MaxMemoryUsage();
                if (peak < last_peak) {
                    errors[t] = "peak fell from " + std::to_string(last_peak) + " to " + std::to_string(peak);
                }
                if (peak < size) {
                    errors[t] = "peak below a live block";
                }
                last_peak = peak;
                pool->Free(p, size);
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    c.NonTrivial();
    for (auto& e : errors) {
        REQUIRE(e.empty(), "peak-fell", e);
    }
    REQUIRE(pool->CurrentUsage() == 0, "leak", pool->CurrentUsage());
}
