// A UTF-8 string kept in memory pieces behaves like the plain string.
#include <cstring>
#include <memory>

#include "paimon/common/data/binary_string.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
const std::vector<std::string> kChars = {"a",  "b",  "A",  "Z",  " ",  "%",   "z",    "\x7f",
                                         "é", "ß", "я", "中", "文", "€", "😀", "𝄞", std::string(1, '\0')};

std::string Text(Case& c, int64_t max, std::vector<size_t>* starts) {
    std::string s;
    int64_t n = c.Len(0, max);
    for (int64_t i = 0; i < n; i++) {
        starts->push_back(s.size());
        s += c.Pick(kChars);
    }
    starts->push_back(s.size());
    return s;
}

// The string somewhere inside pieces of one size, with other bytes around it.
BinaryString Place(Case& c, const std::string& s, std::string* how) {
    auto pool = GetDefaultPool();
    switch (c.Weighted({1, 1, 3})) {
        case 0:
            *how += "whole ";
            return BinaryString::FromString(s, pool.get());
        case 1: {
            std::string pre = c.Bytes(c.Int(0, 9));
            *how += "bytes+" + std::to_string(pre.size()) + " ";
            return BinaryString::FromBytes(std::make_shared<Bytes>(pre + s, pool.get()), pre.size(), s.size());
        }
        default: {
            int64_t piece = c.PickOf<int64_t>({64, 1, 2, 3, 4, 5, 7, 8, 16});
            std::string pre = c.Bytes(c.Int(0, 9));
            std::string all = pre + s + c.Bytes(c.Int(1, 4));
            std::vector<MemorySegment> segs;
            for (size_t i = 0; i < all.size() || segs.empty(); i += piece) {
                std::string part = all.substr(i, piece);
                part.resize(piece, '\xe4');
                segs.push_back(MemorySegment::Wrap(std::make_shared<Bytes>(part, pool.get())));
            }
            *how += "pieces of " + std::to_string(piece) + "+" + std::to_string(pre.size()) + " ";
            return BinaryString::FromAddress(segs, static_cast<int32_t>(pre.size()),
                                             static_cast<int32_t>(s.size()));
        }
    }
}

int Sign(int64_t v) {
    return v < 0 ? -1 : v > 0 ? 1 : 0;
}
int Cmp(const std::string& x, const std::string& y) {
    int r = memcmp(x.data(), y.data(), std::min(x.size(), y.size()));
    return r != 0 ? Sign(r) : Sign(static_cast<int64_t>(x.size()) - static_cast<int64_t>(y.size()));
}
}  // namespace

FACET(text, 6) {
    auto pool = GetDefaultPool();
    std::vector<size_t> st, su;
    std::string s = Text(c, 24, &st);
    std::string t;
    switch (c.Weighted({2, 2, 2, 1, 2})) {
        case 0:
            t = Text(c, 24, &su);
            break;
        case 1: {  // a piece of s, on character boundaries
            size_t a = c.Int(0, static_cast<int64_t>(st.size()) - 1);
            size_t b = c.Int(static_cast<int64_t>(a), static_cast<int64_t>(st.size()) - 1);
            t = s.substr(st[a], st[b] - st[a]);
            break;
        }
        case 2:  // s changed in one byte
            t = s;
            if (!t.empty()) {
                t[c.Int(0, static_cast<int64_t>(t.size()) - 1)] ^= static_cast<char>(1 << c.Int(0, 7));
            }
            break;
        case 3:
            t = s;
            break;
        default:  // longer than s
            t = s + c.Pick(kChars);
    }
    std::string how;
    BinaryString x = Place(c, s, &how);
    BinaryString y = Place(c, t, &how);
    c.Log() << how << pbt::Show(s) << " / " << pbt::Show(t) << " ";
    c.NonTrivial(st.size() > 2 && t.size() >= 1);

    REQUIRE(x.ToString() == s && y.ToString() == t, "to-string", pbt::Show(x.ToString()));
    REQUIRE(x.GetSizeInBytes() == static_cast<int32_t>(s.size()), "size", x.GetSizeInBytes());
    REQUIRE(x.NumChars() == static_cast<int32_t>(st.size()) - 1, "num-chars", x.NumChars());
    REQUIRE(Sign(x.CompareTo(y)) == Cmp(s, t), "compare", x.CompareTo(y) << " want " << Cmp(s, t));
    REQUIRE(Sign(y.CompareTo(x)) == Cmp(t, s), "compare-reverse", y.CompareTo(x));
    REQUIRE((x == y) == (s == t), "equals", "");
    REQUIRE(x == x && !(x < x), "equals-itself", "");
    REQUIRE((x < y) == (Cmp(s, t) < 0), "less", "");
    if (s == t) {
        REQUIRE(x.HashCode() == y.HashCode(), "hash", "");
    }
    for (size_t i = 0; i < s.size(); i++) {
        REQUIRE(x.ByteAt(i) == s[i], "byte-at", i);
    }
    REQUIRE(x.Copy(pool.get()).ToString() == s, "copy", "");
    if (!s.empty()) {  // a copy of some bytes, both ends counted
        int32_t from = static_cast<int32_t>(c.Int(0, static_cast<int64_t>(s.size()) - 1));
        int32_t to = static_cast<int32_t>(c.Int(from, static_cast<int64_t>(s.size()) - 1));
        std::string part = s.substr(from, to - from + 1);
        REQUIRE(x.CopyBinaryString(from, to, pool.get()).ToString() == part, "copy-part", from << ".." << to);
        if (x.GetSegments().size() == 1) {
            REQUIRE(x.CopyBinaryStringInOneSeg(from, to - from + 1, pool.get()).ToString() == part, "copy-part-one",
                    from << ".." << to);
        }
    }
    {
        auto b = x.ToBytes(pool.get());
        REQUIRE(std::string(b->data(), b->size()) == s, "to-bytes", "");
    }
    REQUIRE(x.Contains(y) == (s.find(t) != std::string::npos), "contains", "");
    REQUIRE(x.StartsWith(y) == (s.size() >= t.size() && s.compare(0, t.size(), t) == 0), "starts-with", "");
    REQUIRE(x.EndsWith(y) == (s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0),
            "ends-with", "");
    // substring by characters
    int64_t chars = static_cast<int64_t>(st.size()) - 1;
    int32_t b = static_cast<int32_t>(c.Int(0, chars + 2)), e = static_cast<int32_t>(c.Int(0, chars + 3));
    std::string sub = b >= e || b >= chars ? "" : s.substr(st[b], st[std::min<int64_t>(e, chars)] - st[b]);
    REQUIRE(x.Substring(b, e, pool.get()).ToString() == sub, "substring",
            b << ".." << e << ": " << pbt::Show(x.Substring(b, e, pool.get()).ToString()) << " want "
              << pbt::Show(sub));
    // first character position at or after `from` where t stands
    if (!t.empty()) {
        int32_t from = static_cast<int32_t>(c.Int(0, chars + 1));
        int32_t want = -1;
        for (int64_t i = from; i < chars; i++) {
            if (s.compare(st[i], t.size(), t) == 0 && s.size() - st[i] >= t.size()) {
                want = static_cast<int32_t>(i);
                break;
            }
        }
        REQUIRE(x.IndexOf(y, from) == want, "index-of",
                "from " << from << ": " << x.IndexOf(y, from) << " want " << want);
    } else {
        REQUIRE(x.IndexOf(y, 0) == 0, "index-of-empty", x.IndexOf(y, 0));
    }
    std::string up = s, low = s;
    for (auto& ch : up) {
        ch = ch >= 'a' && ch <= 'z' ? static_cast<char>(ch - 32) : ch;
    }
    for (auto& ch : low) {
        ch = ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch + 32) : ch;
    }
    REQUIRE(x.ToUpperCase(pool.get()).ToString() == up, "upper", pbt::Show(x.ToUpperCase(pool.get()).ToString()));
    REQUIRE(x.ToLowerCase(pool.get()).ToString() == low, "lower", pbt::Show(x.ToLowerCase(pool.get()).ToString()));
    REQUIRE(BinaryString::BlankString(chars, pool.get()).ToString() == std::string(chars, ' '), "blank", chars);
}

// Any bytes at all, cut off inside a character: nothing may reach outside the string.
FACET(any_bytes, 3) {
    auto pool = GetDefaultPool();
    std::string s;
    int64_t n = c.Len(0, 16);
    for (int64_t i = 0; i < n; i++) {
        s.push_back(static_cast<char>(c.PickOf<int>({'a', 0x80, 0xc3, 0xe4, 0xf0, 0xff, 0xbf, 0, 'b', 0xc0})));
    }
    auto x = BinaryString::FromBytes(std::make_shared<Bytes>(s, pool.get()));
    std::string how;
    auto y = Place(c, s, &how);
    c.Log() << how << pbt::Hex(s) << " ";
    c.NonTrivial(n >= 2);
    REQUIRE(x == y && x.ToString() == s && y.ToString() == s, "to-string", "");
    REQUIRE(x.HashCode() == y.HashCode(), "hash", "");
    REQUIRE(x.NumChars() == y.NumChars(), "num-chars-by-placement", x.NumChars() << " " << y.NumChars());
    for (int32_t b = 0; b <= static_cast<int32_t>(n); b++) {
        int32_t e = b + 1 + static_cast<int32_t>(c.Int(0, 3));
        std::string p = x.Substring(b, e, pool.get()).ToString();
        std::string q = y.Substring(b, e, pool.get()).ToString();
        REQUIRE(p == q, "substring-by-placement", b << ".." << e << ": " << pbt::Hex(p) << " " << pbt::Hex(q));
        REQUIRE(s.find(p) != std::string::npos, "substring-not-inside", b << ".." << e << ": " << pbt::Hex(p));
    }
}
