// References to large values kept outside the table: byte form and refusal of bad ones.
#include <memory>

#include "paimon/common/data/blob_descriptor.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
std::string Encode(const std::string& uri, int64_t off, int64_t len, uint32_t uri_len, int version = 1) {
    std::string s;
    auto put = [&](uint64_t v, int w) {
        for (int i = 0; i < w; i++) {
            s.push_back(static_cast<char>(v >> (8 * i)));
        }
    };
    put(version, 1);
    put(uri_len, 4);
    s += uri;
    put(off, 8);
    put(len, 8);
    return s;
}
std::string Uri(Case& c) {
    return c.Chance(1, 20) ? std::string(c.PickOf<int64_t>({255, 256, 65535, 70000}), 'u') : c.Bytes(c.Len(0, 30));
}
}  // namespace

FACET(round_trip, 3) {
    auto pool = GetDefaultPool();
    std::string uri = Uri(c);
    int64_t off = c.I64(), len = c.I64();
    if (c.Bool()) {
        off = c.Int(0, 1000);
        len = c.Int(-1, 1000);
    }
    c.Log() << "uri " << uri.size() << " bytes, " << off << "+" << len << " ";
    auto r = BlobDescriptor::Create(uri, off, len);
    bool valid = off >= 0 && len >= -1;
    REQUIRE(r.ok() == valid, "create", (valid ? "refused" : "accepted"));
    if (!valid) {
        return;
    }
    c.NonTrivial(uri.size() >= 2 && off > 0);
    auto d = std::move(r).value();
    auto bytes = d->Serialize(pool);
    std::string s(bytes->data(), bytes->size());
    REQUIRE(s == Encode(uri, off, len, uri.size()), "layout", pbt::Hex(s.substr(0, 80)));
    std::unique_ptr<char[]> exact(new char[s.size()]);
    memcpy(exact.get(), s.data(), s.size());
    auto back = BlobDescriptor::Deserialize(exact.get(), s.size());
    REQUIRE(back.ok(), "deserialize", back.status().ToString());
    REQUIRE(back.value()->Uri() == uri && back.value()->Offset() == off && back.value()->Length() == len,
            "fields", back.value()->Offset() << "+" << back.value()->Length());
    std::string text = "BlobDescriptor{version=1, uri='" + uri + "', offset=" + std::to_string(off) + ", length=" + std::to_string(len) + "}";
    REQUIRE(d->ToString() == text && back.value()->ToString() == text, "text", pbt::Show(d->ToString()));
    // any proper prefix is refused
    size_t keep = c.Int(0, static_cast<int64_t>(s.size()) - 1);
    std::unique_ptr<char[]> part(new char[keep]);
    memcpy(part.get(), s.data(), keep);
    REQUIRE(!BlobDescriptor::Deserialize(part.get(), keep).ok(), "prefix-accepted", keep << " of " << s.size());
}

FACET(bad_bytes, 2) {
    std::string uri = c.Bytes(c.Len(0, 20));
    int64_t off = c.Int(-3, 5), len = c.Int(-4, 5);
    uint32_t uri_len = static_cast<uint32_t>(
        c.Bool() ? static_cast<int64_t>(uri.size())
                 : c.PickOf<int64_t>({-1, INT32_MIN, INT32_MAX, static_cast<int64_t>(uri.size()) + 1,
                                      static_cast<int64_t>(uri.size()) + 16, static_cast<int64_t>(uri.size()) + 17,
                                      1 << 30}));
    int version = static_cast<int>(c.PickOf<int64_t>({1, 1, 1, 0, 2, 255, 127}));
    std::string s = Encode(uri, off, len, uri_len, version);
    c.Log() << pbt::Hex(s);
    std::unique_ptr<char[]> exact(new char[s.size()]);
    memcpy(exact.get(), s.data(), s.size());
    auto r = BlobDescriptor::Deserialize(exact.get(), s.size());
    bool valid = uri_len == uri.size() && off >= 0 && len >= -1;
    c.NonTrivial();
    if (version == 1) {
        if (valid) {
            REQUIRE(r.ok(), "refused", r.status().ToString());
        } else {
            // any other length leaves too few or too many bytes for the two numbers
            REQUIRE(!r.ok(), "accepted", "uri length " << uri_len << " range " << off << "+" << len);
        }
    }
}
