// Memory cut into equal pieces behaves like one contiguous array, whatever the size of the pieces.
#include <cstring>
#include <memory>

#include "paimon/common/data/binary_section.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/murmurhash_utils.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
// Murmur3 as other writers of the same tables compute it: little-endian words, then each
// remaining byte mixed as a signed number.
uint32_t Rotl(uint32_t x, int r) {
    return (x << r) | (x >> (32 - r));
}
uint32_t MixIn(uint32_t h, uint32_t k) {
    k *= 0xcc9e2d51u;
    k = Rotl(k, 15);
    k *= 0x1b873593u;
    h ^= k;
    h = Rotl(h, 13);
    return h * 5 + 0xe6546b64u;
}
uint32_t Finish(uint32_t h) {
    h ^= h >> 16;
    h *= 0x85ebca6bu;
    h ^= h >> 13;
    h *= 0xc2b2ae35u;
    h ^= h >> 16;
    return h;
}
int32_t Murmur(const std::string& s, uint32_t seed = 42) {
    uint32_t h = seed;
    size_t i = 0;
    for (; i + 4 <= s.size(); i += 4) {
        uint32_t w = 0;
        for (int k = 0; k < 4; k++) {
            w |= static_cast<uint32_t>(static_cast<uint8_t>(s[i + k])) << (8 * k);
        }
        h = MixIn(h, w);
    }
    for (; i < s.size(); i++) {
        h = MixIn(h, static_cast<uint32_t>(static_cast<int32_t>(static_cast<signed char>(s[i]))));
    }
    return static_cast<int32_t>(Finish(h ^ static_cast<uint32_t>(s.size())));
}

std::vector<MemorySegment> Cut(const std::string& s, int32_t piece) {
    auto pool = GetDefaultPool();
    std::vector<MemorySegment> out;
    for (size_t i = 0; i < s.size() || out.empty(); i += piece) {
        std::string part = s.substr(i, piece);
        part.resize(piece, '\x7e');
        out.push_back(MemorySegment::Wrap(std::make_shared<Bytes>(part, pool.get())));
    }
    return out;
}

std::string Join(const std::vector<MemorySegment>& v) {
    std::string s;
    for (auto& m : v) {
        s.append(m.GetArray()->data(), m.Size());
    }
    return s;
}

std::string Str(const Bytes& b) {
    return std::string(b.data(), b.size());
}

template <typename T>
void PutGet(Case& c, std::vector<MemorySegment>* segs, std::string* model) {
    if (model->size() < sizeof(T)) {
        return;
    }
    int32_t off = static_cast<int32_t>(c.Int(0, static_cast<int64_t>(model->size() - sizeof(T))));
    uint64_t raw = static_cast<uint64_t>(c.I64());
    T v;
    memcpy(&v, &raw, sizeof(T));
    if (std::is_same_v<T, float> || std::is_same_v<T, double>) {
        v = static_cast<T>(static_cast<int32_t>(raw)) / 8;
    }
    if (c.Bool()) {
        MemorySegmentUtils::SetValue<T>(segs, off, v);
        memcpy(model->data() + off, &v, sizeof(T));
        c.Log() << "set" << sizeof(T) << "@" << off << " ";
        return;
    }
    T want;
    memcpy(&want, model->data() + off, sizeof(T));
    T got = MemorySegmentUtils::GetValue<T>(*segs, off);
    REQUIRE(memcmp(&got, &want, sizeof(T)) == 0, "get-value", "width " << sizeof(T) << " at " << off);
}
}  // namespace

FACET(pieces, 6) {
    auto pool = GetDefaultPool();
    int32_t piece = static_cast<int32_t>(c.PickOf<int64_t>({64, 1, 2, 3, 4, 5, 7, 8, 9, 16, 24}));
    int64_t count = c.Len(1, 8);
    std::string model;
    for (int64_t i = 0; i < count * piece; i++) {
        model.push_back(static_cast<char>(c.PickOf<int>({0, 1, 'a', 'b', 0x7f, 0x80, 0xff})));
    }
    auto segs = Cut(model, piece);
    c.Log() << "piece " << piece << " x " << count << " ";
    int64_t n = c.Len(1, 12);
    auto range = [&](int32_t* off, int32_t* len) {
        *off = static_cast<int32_t>(c.Int(0, static_cast<int64_t>(model.size())));
        *len = static_cast<int32_t>(c.Int(0, static_cast<int64_t>(model.size()) - *off));
    };
    for (int64_t step = 0; step < n; step++) {
        int32_t off, len;
        switch (c.Weighted({2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2})) {
            case 0:
                PutGet<int16_t>(c, &segs, &model);
                break;
            case 1:
                PutGet<int32_t>(c, &segs, &model);
                break;
            case 2:
                PutGet<int64_t>(c, &segs, &model);
                break;
            case 3:
                c.Bool() ? PutGet<float>(c, &segs, &model) : PutGet<double>(c, &segs, &model);
                break;
            case 4:
                PutGet<char>(c, &segs, &model);
                break;
            case 5: {
                int32_t base = static_cast<int32_t>(c.Int(0, static_cast<int64_t>(model.size()) - 1));
                int32_t bit = static_cast<int32_t>(c.Int(0, (static_cast<int64_t>(model.size()) - base) * 8 - 1));
                char& byte = model[base + bit / 8];
                int64_t what = c.Int(0, 2);
                c.Log() << "bit" << what << "@" << base << "+" << bit << " ";
                if (what == 0) {
                    MemorySegmentUtils::BitSet(&segs, base, bit);
                    byte = static_cast<char>(byte | (1 << (bit % 8)));
                } else if (what == 1) {
                    MemorySegmentUtils::BitUnSet(&segs, base, bit);
                    byte = static_cast<char>(byte & ~(1 << (bit % 8)));
                } else {
                    REQUIRE(MemorySegmentUtils::BitGet(segs, base, bit) == ((byte >> (bit % 8)) & 1),
                            "bit-get", base << "+" << bit);
                }
                break;
            }
            case 6: {
                range(&off, &len);
                std::string src = "<<" + c.Bytes(len) + ">";
                MemorySegmentUtils::CopyFromBytes(&segs, off, Bytes(src, pool.get()), 2, len);
                model.replace(off, len, src.substr(2, len));
                c.Log() << "copy-from " << off << "+" << len << " ";
                break;
            }
            case 7: {
                range(&off, &len);
                auto b = MemorySegmentUtils::CopyToBytes(segs, off, len, pool.get());
                REQUIRE(Str(*b) == model.substr(off, len), "copy-to-bytes", off << "+" << len);
                std::string dst(len + 3, '#');
                MemorySegmentUtils::CopyToBytes(segs, off, &dst, 1, len);
                REQUIRE(dst == "#" + model.substr(off, len) + "##", "copy-to-target", off << "+" << len);
                std::string raw(len + 1, '#');
                MemorySegmentUtils::CopyToUnsafe(segs, off, raw.data(), len);
                REQUIRE(raw == model.substr(off, len) + "#", "copy-to-raw", off << "+" << len);
                auto g = MemorySegmentUtils::GetBytes(segs, off, len, pool.get());
                REQUIRE(Str(*g) == model.substr(off, len), "get-bytes", off << "+" << len);
                break;
            }
            case 8: {
                range(&off, &len);
                MemorySegmentOutputStream out(static_cast<int32_t>(c.PickOf<int64_t>({64, 1, 3, 8})), pool);
                out.Write("ab", 2);
                Status st = MemorySegmentUtils::CopyToStream(segs, off, len, &out);
                REQUIRE(st.ok(), "copy-to-stream-refused", st.ToString());
                auto b = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), pool.get());
                REQUIRE(Str(*b) == "ab" + model.substr(off, len), "copy-to-stream", off << "+" << len);
                break;
            }
            case 9: {
                range(&off, &len);
                // more than there is must be refused
                MemorySegmentOutputStream out(16, pool);
                int32_t past = static_cast<int32_t>(model.size()) - off + 1 + static_cast<int32_t>(c.Int(0, 5));
                REQUIRE(!MemorySegmentUtils::CopyToStream(segs, off, past, &out).ok(), "copy-past-end",
                        off << "+" << past);
                break;
            }
            case 10: {
                // equality against a differently cut copy, changed in one byte or not
                range(&off, &len);
                std::string other = c.Bytes(c.Int(0, 5));
                int32_t off2 = static_cast<int32_t>(other.size());
                std::string want = model.substr(off, len);
                bool same = c.Bool() || len == 0;
                if (!same) {
                    want[c.Int(0, len - 1)] ^= static_cast<char>(1 << c.Int(0, 7));
                }
                other += want + "z";
                auto segs2 = Cut(other, static_cast<int32_t>(c.PickOf<int64_t>({64, 1, 2, 3, 5, 8, 13})));
                REQUIRE(MemorySegmentUtils::Equals(segs, off, segs2, off2, len) == same, "equals",
                        off << "+" << len << " same " << same);
                BinarySection a(segs, off, len), b(segs2, off2, len);
                REQUIRE((a == b) == same, "section-equals", off << "+" << len);
                if (same) {
                    REQUIRE(a.HashCode() == b.HashCode(), "equal-but-different-hash", off << "+" << len);
                }
                break;
            }
            case 11: {
                range(&off, &len);
                // a needle cut out of the haystack or made up
                std::string hay = model.substr(off, len);
                std::string needle;
                if (c.Bool() && len > 0) {
                    int64_t a = c.Int(0, len - 1);
                    needle = hay.substr(a, c.Int(0, std::min<int64_t>(len - a, 6)));
                } else {
                    int64_t k = c.Int(0, 3);
                    for (int64_t i = 0; i < k; i++) {
                        needle.push_back(static_cast<char>(c.PickOf<int>({0, 1, 'a', 'b'})));
                    }
                }
                std::string other = "q" + needle + "q";
                auto segs2 = Cut(other, static_cast<int32_t>(c.PickOf<int64_t>({64, 1, 2, 3})));
                int32_t got = MemorySegmentUtils::Find(segs, off, len, segs2, 1, needle.size());
                size_t at = hay.find(needle);
                int32_t want = at == std::string::npos ? -1 : static_cast<int32_t>(at) + off;
                REQUIRE(got == want, "find", pbt::Hex(needle) << " in " << off << "+" << len << ": " << got
                                                        << " want " << want);
                break;
            }
            default: {
                range(&off, &len);
                REQUIRE(MemorySegmentUtils::Hash(segs, off, len, pool.get()) == Murmur(model.substr(off, len)),
                        "hash", off << "+" << len);
                int32_t words = len - len % 4;
                REQUIRE(MemorySegmentUtils::HashByWords(segs, off, words, pool.get()) ==
                            Murmur(model.substr(off, words)),
                        "hash-by-words", off << "+" << words);
                BinarySection sec(segs, off, len);
                REQUIRE(sec.HashCode() == Murmur(model.substr(off, len)), "section-hash", off << "+" << len);
                auto b = std::make_shared<Bytes>(model.substr(off, len), pool.get());
                REQUIRE(MurmurHashUtils::HashBytes(b) == Murmur(Str(*b)), "hash-bytes", "");
                REQUIRE(MurmurHashUtils::HashBytesPositive(b) == (Murmur(Str(*b)) & 0x7fffffff),
                        "hash-positive", "");
            }
        }
        REQUIRE(Join(segs) == model, "contents", pbt::Hex(Join(segs)) << " want " << pbt::Hex(model));
    }
    c.NonTrivial(count >= 2 && n >= 2);
}

FACET(one_segment, 2) {
    auto pool = GetDefaultPool();
    auto word = [&](int64_t n) {
        std::string s;
        for (int64_t i = 0; i < n; i++) {
            s.push_back(static_cast<char>(c.PickOf<int>({'a', 'b', 0, 1, 0x7f, 0x80, 0xff})));
        }
        return s;
    };
    int64_t n = c.Len(1, 40);
    std::string a = word(n);
    std::string b = a;
    // mostly equal with few differences: the first differing byte must decide
    int64_t changes = c.Int(0, 3);
    for (int64_t i = 0; i < changes; i++) {
        b[c.Int(0, n - 1)] = static_cast<char>(c.PickOf<int>({0, 1, 'a', 0x7f, 0x80, 0xff}));
    }
    auto sa = MemorySegment::Wrap(std::make_shared<Bytes>(a, pool.get()));
    auto sb = MemorySegment::Wrap(std::make_shared<Bytes>(b, pool.get()));
    int32_t o1 = static_cast<int32_t>(c.Int(0, n)), o2 = c.Bool() ? static_cast<int32_t>(c.Int(0, n)) : o1;
    int32_t l1 = static_cast<int32_t>(c.Int(0, n - o1)), l2 = static_cast<int32_t>(c.Int(0, n - o2));
    c.Log() << pbt::Hex(a) << " " << pbt::Hex(b) << " " << o1 << "+" << l1 << " " << o2 << "+" << l2;
    c.NonTrivial(n >= 9 && l1 >= 2 && l2 >= 2);
    auto sign = [](int64_t v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
    auto cmp = [&](const std::string& x, const std::string& y) {
        int r = memcmp(x.data(), y.data(), std::min(x.size(), y.size()));
        return r != 0 ? sign(r) : sign(static_cast<int64_t>(x.size()) - static_cast<int64_t>(y.size()));
    };
    int32_t both = std::min(l1, l2);
    REQUIRE(sign(sa.Compare(sb, o1, o2, both)) == cmp(a.substr(o1, both), b.substr(o2, both)), "compare", both);
    REQUIRE(sign(sa.Compare(sb, o1, o2, l1, l2)) == cmp(a.substr(o1, l1), b.substr(o2, l2)), "compare-lengths",
            l1 << " " << l2);
    REQUIRE(sa.EqualTo(sb, o1, o2, both) == (a.substr(o1, both) == b.substr(o2, both)), "equal-to", both);
    Bytes tmp(both + 1, pool.get());
    sa.SwapBytes(&tmp, &sb, o1, o2, both);
    std::string wa = a, wb = b;
    wa.replace(o1, both, b.substr(o2, both));
    wb.replace(o2, both, a.substr(o1, both));
    REQUIRE(Join({sa}) == wa && Join({sb}) == wb, "swap", both);
    REQUIRE(!sa.IsOffHeap() && sa.Size() == static_cast<int32_t>(n) && sa.GetHeapMemory().get() == sa.GetArray(), "heap", "");
    // whole byte arrays
    Bytes part(l1, pool.get());
    sa.Get(o1, &part);
    REQUIRE(Str(part) == wa.substr(o1, l1), "get-bytes", o1 << "+" << l1);
    std::string raw(static_cast<size_t>(l1), 'x');
    sa.CopyToUnsafe(o1, raw.data(), 0, l1);
    REQUIRE(raw == wa.substr(o1, l1), "copy-unsafe", o1 << "+" << l1);
    Bytes other(b.substr(o2, l2), pool.get());
    sb.Put(o2, other);
    wb.replace(o2, l2, b.substr(o2, l2));
    REQUIRE(Join({sb}) == wb, "put-bytes", o2 << "+" << l2);
    // single bits and flags
    for (int64_t k = 0, m = c.Int(1, 4); k < m; k++) {
        int32_t base = static_cast<int32_t>(c.Int(0, n - 1));
        int32_t bit = static_cast<int32_t>(c.Int(0, (n - base) * 8 - 1));
        char& byte = wa[base + bit / 8];
        REQUIRE(MemorySegmentUtils::BitGet(sa, base, bit) == (((byte >> (bit % 8)) & 1) != 0), "bit-get", base << "." << bit);
        if (c.Bool()) {
            MemorySegmentUtils::BitSet(&sa, base, bit);
            byte = static_cast<char>(byte | (1 << (bit % 8)));
        } else {
            MemorySegmentUtils::BitUnSet(&sa, base, bit);
            byte = static_cast<char>(byte & ~(1 << (bit % 8)));
        }
        REQUIRE(Join({sa}) == wa, "bit-set", base << "." << bit << ": " << pbt::Hex(Join({sa})) << " want " << pbt::Hex(wa));
        REQUIRE(sa.GetValue<bool>(base) == (wa[base] != 0), "flag", base);
        if (c.Chance(1, 3)) {
            bool flag = c.Bool();
            sa.PutValue<bool>(base, flag);
            wa[base] = flag ? 1 : 0;
            REQUIRE(Join({sa}) == wa, "put-flag", base);
        }
    }
}

// A section of memory, and short values kept inside the field itself.
FACET(sections, 2) {
    auto pool = GetDefaultPool();
    int32_t piece = static_cast<int32_t>(c.PickOf<int64_t>({64, 8, 9, 16, 3, 1}));
    std::string a = c.Bytes(c.Len(1, 40));
    int32_t off = static_cast<int32_t>(c.Int(0, static_cast<int64_t>(a.size())));
    int32_t len = static_cast<int32_t>(c.Int(0, static_cast<int64_t>(a.size()) - off));
    std::string want = a.substr(off, len);
    std::string pre = c.Bytes(c.Int(0, 9));
    std::string other = want;
    if (len > 0 && c.Chance(1, 3)) {
        other[c.Int(0, len - 1)] ^= static_cast<char>(1 << c.Int(0, 7));
    } else if (c.Chance(1, 4)) {
        other += 'z';
    }
    BinarySection x(Cut(a, piece), off, len), y;
    int32_t piece2 = static_cast<int32_t>(c.PickOf<int64_t>({64, 8, 5, 2}));
    std::string all = pre + other + "tail";
    if (c.Bool()) {
        auto bytes = std::make_shared<Bytes>(all, pool.get());
        y.PointTo(MemorySegment::Wrap(bytes), static_cast<int32_t>(pre.size()), static_cast<int32_t>(other.size()));
    } else {
        y.PointTo(Cut(all, piece2), static_cast<int32_t>(pre.size()), static_cast<int32_t>(other.size()));
    }
    c.Log() << pbt::Hex(want) << " / " << pbt::Hex(other) << " pieces of " << piece << " ";
    c.NonTrivial(len >= 2);
    REQUIRE(x == x && (x == y) == (want == other) && (y == x) == (want == other), "section-equal", "");
    REQUIRE(x.GetOffset() == off && x.GetSizeInBytes() == len && Join(x.GetSegments()).substr(off, len) == want, "section", "");
    REQUIRE(y.GetOffset() == static_cast<int32_t>(pre.size()) && y.GetSizeInBytes() == static_cast<int32_t>(other.size()),
            "point-to", "");
    REQUIRE(Str(*x.ToBytes(pool.get())) == want && Str(*y.ToBytes(pool.get())) == other, "section-bytes", "");
    if (want == other && len % 4 == 0) {
        REQUIRE(x.HashCode() == y.HashCode(), "section-hash", "");
    }
    // a field: up to seven bytes inside the eight of the field, longer ones elsewhere
    std::string value = c.Bytes(c.Len(0, 20));
    int32_t base = static_cast<int32_t>(c.Int(0, 5));
    std::string row(base, 'b');
    std::string fixed(8, 0);
    int32_t field = base + 8 * static_cast<int32_t>(c.Int(0, 2));
    row.resize(field, 'f');
    int64_t word;
    if (value.size() <= 7) {
        for (size_t i = 0; i < value.size(); i++) {
            fixed[i] = value[i];
        }
        fixed[7] = static_cast<char>(0x80 | value.size());
        memcpy(&word, fixed.data(), 8);
        row += fixed + "after";
    } else {
        int64_t at = field + 8 + c.Int(0, 4) - base;
        word = (at << 32) | static_cast<int64_t>(value.size());
        memcpy(fixed.data(), &word, 8);
        row += fixed;
        row.resize(base + at, 'p');
        row += value + "end";
    }
    auto got = BinarySection::ReadBinary(Cut(row, piece), base, field, word, pool.get());
    REQUIRE(Str(*got) == value, "read-binary", pbt::Hex(Str(*got)) << " want " << pbt::Hex(value));
}

FACET(murmur, 2) {
    auto pool = GetDefaultPool();
    std::string s = c.Bytes(c.Len(0, 64));
    c.NonTrivial(s.size() >= 5);
    c.Log() << pbt::Hex(s);
    std::string padded = "xyz" + s;
    int32_t seed = c.I32();
    REQUIRE(MurmurHashUtils::HashUnsafeBytes(padded.data(), 3, s.size()) == Murmur(s), "unsafe", "");
    REQUIRE(MurmurHashUtils::HashUnsafeBytes(padded.data(), 3, s.size(), seed) ==
                Murmur(s, static_cast<uint32_t>(seed)),
            "unsafe-seed", seed);
    std::string w = s.substr(0, s.size() - s.size() % 4);
    REQUIRE(MurmurHashUtils::HashUnsafeBytesByWords(padded.data(), 3, w.size()) == Murmur(w), "words", "");
    auto seg = MemorySegment::Wrap(std::make_shared<Bytes>(padded, pool.get()));
    REQUIRE(MurmurHashUtils::HashBytes(seg, 3, s.size()) == Murmur(s), "segment", "");
    REQUIRE(MurmurHashUtils::HashBytesByWords(seg, 3, w.size()) == Murmur(w), "segment-words", "");
    int32_t x = c.I32();
    REQUIRE(static_cast<uint32_t>(MurmurHashUtils::Fmix(x)) == Finish(static_cast<uint32_t>(x)), "fmix", x);
}
