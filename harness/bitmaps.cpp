// Row-position bitmaps against a model made of disjoint intervals.
#include <algorithm>
#include <memory>

#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {

// A set of non-negative integers as sorted disjoint half-open intervals.
struct Model {
    std::vector<std::pair<int64_t, int64_t>> iv;

    template <typename F>
    static Model Combine(const Model& a, const Model& b, F keep) {
        std::vector<int64_t> cuts;
        for (auto& p : a.iv) {
            cuts.push_back(p.first);
            cuts.push_back(p.second);
        }
        for (auto& p : b.iv) {
            cuts.push_back(p.first);
            cuts.push_back(p.second);
        }
        std::sort(cuts.begin(), cuts.end());
        cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
        Model r;
        for (size_t i = 0; i + 1 < cuts.size(); i++) {
            if (keep(a.Has(cuts[i]), b.Has(cuts[i]))) {
                if (!r.iv.empty() && r.iv.back().second == cuts[i]) {
                    r.iv.back().second = cuts[i + 1];
                } else {
                    r.iv.push_back({cuts[i], cuts[i + 1]});
                }
            }
        }
        return r;
    }
    static Model Range(int64_t a, int64_t b) {
        Model m;
        if (a < b) {
            m.iv.push_back({a, b});
        }
        return m;
    }
    bool Has(int64_t x) const {
        auto it = std::upper_bound(iv.begin(), iv.end(), std::make_pair(x, INT64_MAX));
        return it != iv.begin() && (it - 1)->second > x;
    }
    int64_t Card() const {
        int64_t n = 0;
        for (auto& p : iv) {
            n += p.second - p.first;
        }
        return n;
    }
    // smallest element >= x, or -1
    int64_t Next(int64_t x) const {
        for (auto& p : iv) {
            if (p.second > x) {
                return std::max(p.first, x);
            }
        }
        return -1;
    }
    std::string Text() const {
        std::ostringstream o;
        o << "{";
        for (size_t i = 0; i < iv.size() && i < 8; i++) {
            o << "[" << iv[i].first << "," << iv[i].second << ")";
        }
        o << (iv.size() > 8 ? "..." : "") << "}";
        return o.str();
    }
};
bool U(bool a, bool b) {
    return a || b;
}
bool N(bool a, bool b) {
    return a && b;
}
bool D(bool a, bool b) {
    return a && !b;
}
bool X(bool a, bool b) {
    return a != b;
}

int64_t Value(Case& c, bool wide) {
    int64_t max = wide ? INT64_MAX - 1000000 : INT32_MAX - 1;
    switch (c.Draw(wide ? 6 : 4)) {
        case 0:
            return c.Int(0, 40);
        case 1:
            return c.Int(0, 3000);
        case 2: {
            int64_t k = c.Int(0, 4);
            return std::max<int64_t>(0, k * 65536 + c.Int(0, 6) - 3);
        }
        case 3:
            return c.Int(0, 400000);
        case 4:
            return max - c.Int(0, 70000);
        case 5: {
            int64_t k = c.PickOf<int64_t>({1, 2, 3, 7, 1000, (1LL << 31) - 1});
            return std::min(max, (k << 32) + c.Int(0, 400) - 200);
        }
        default:
            return c.Int(0, max);
    }
}
void RangeOf(Case& c, bool wide, int64_t* a, int64_t* b) {
    int64_t max = wide ? INT64_MAX - 1000000 : INT32_MAX - 1;
    *a = Value(c, wide);
    int64_t len = 0;
    switch (c.Draw(4)) {
        case 0:
            len = c.Int(0, 12);
            break;
        case 1:
            len = c.Int(0, 5000);
            break;
        case 2:
            len = 65536 * c.Int(0, 3) + c.Int(0, 4);
            break;
        case 3:
            len = c.Int(0, 250000);
            break;
        default:
            len = c.Int(4090, 4100);
            break;
    }
    *b = *a > max - len ? max : *a + len;
}

template <typename BM>
BM Reload(Case& c, const BM& b, const std::shared_ptr<MemoryPool>& pool) {
    auto bytes = b.Serialize(pool.get());
    REQUIRE(bytes != nullptr, "serialize", "null");
    REQUIRE(bytes->size() == b.GetSizeInBytes(), "serialized-size",
            "serialized " << bytes->size() << " announced " << b.GetSizeInBytes());
    BM out;
    if (c.Bool()) {
        // Pre-fill: loading replaces what was there.
        out.Add(7);
    }
    if (c.Bool()) {
        REQUIRE_OK(out.Deserialize(bytes->data(), bytes->size()), "deserialize");
    } else {
        // Embedded between other data in a stream; must consume exactly its own bytes.
        std::string pad1 = c.Bytes(static_cast<size_t>(c.Int(0, 9)));
        std::string pad2 = c.Bytes(static_cast<size_t>(c.Int(0, 9)));
        std::string all = pad1 + std::string(bytes->data(), bytes->size()) + pad2;
        ByteArrayInputStream in(all.data(), all.size());
        REQUIRE_OK(in.Seek(static_cast<int64_t>(pad1.size()), SeekOrigin::FS_SEEK_SET), "seek");
        REQUIRE_OK(out.Deserialize(&in), "deserialize-stream");
        UNWRAP(int64_t pos, in.GetPos(), "pos");
        REQUIRE(pos == static_cast<int64_t>(pad1.size() + bytes->size()), "stream-position",
                "after load " << pos << " want " << pad1.size() + bytes->size());
    }
    return out;
}

template <typename BM>
void Quick(Case& c, const BM& b, const Model& m, bool wide, const char* what) {
    REQUIRE(static_cast<int64_t>(b.Cardinality()) == m.Card(), "cardinality",
            what << ": " << b.Cardinality() << " want " << m.Card() << " " << m.Text());
    REQUIRE(b.IsEmpty() == m.iv.empty(), "isempty", what);
    // edges of the intervals
    size_t step = m.iv.size() > 30 ? m.iv.size() / 30 : 1;
    for (size_t i = 0; i < m.iv.size(); i += step) {
        for (int64_t x : {m.iv[i].first - 1, m.iv[i].first, m.iv[i].second - 1, m.iv[i].second}) {
            if (x < 0) {
                continue;
            }
            using T = decltype(*b.Begin());
            REQUIRE(b.Contains(static_cast<T>(x)) == m.Has(x), "contains",
                    what << ": " << x << " in " << m.Text());
        }
    }
}

template <typename BM>
void Full(Case& c, const BM& b, const Model& m, bool wide) {
    using T = decltype(*b.Begin());
    Quick(c, b, m, wide, "end");
    if (m.Card() <= 200000) {
        auto it = b.Begin();
        auto end = b.End();
        int64_t n = 0;
        for (auto& p : m.iv) {
            for (int64_t x = p.first; x < p.second; x++) {
                if (!(it != end)) {
                    FAIL("iterate", "ended before " << x << " of " << m.Text());
                }
                if (static_cast<int64_t>(*it) != x) {
                    FAIL("iterate", "got " << *it << " want " << x << " of " << m.Text());
                }
                ++it;
                n++;
            }
        }
        REQUIRE(it == end, "iterate", "more values than " << m.Text());
        c.Eval(static_cast<uint64_t>(n));
        // a copy of a walk goes its own way; a moved one carries on
        auto walk = b.Begin();
        auto other = b.EqualOrLarger(static_cast<T>(Value(c, wide)));
        int64_t at = m.Next(0);
        int64_t go = c.Int(0, 5);
        for (int64_t i = 0; i < go && at >= 0; i++) {
            ++walk;
            at = m.Next(at + 1);
        }
        auto copy(walk);
        other = walk;
        const auto& self = walk;
        walk = self;
        REQUIRE(copy == walk && other == walk && walk == self && (walk == end) == (at < 0), "iterator-copy", m.Text());
        if (at >= 0) {
            REQUIRE(static_cast<int64_t>(*copy) == at && static_cast<int64_t>(*other) == at, "iterator-copy", m.Text());
            ++copy;
            int64_t next = m.Next(at + 1);
            REQUIRE(static_cast<int64_t>(*walk) == at && static_cast<int64_t>(*other) == at, "iterator-shared", m.Text());
            REQUIRE((copy == end) == (next < 0) && (next < 0 || static_cast<int64_t>(*copy) == next) && copy != walk,
                    "iterator-copy-next", m.Text());
        }
        auto moved(std::move(walk));
        auto target = b.Begin();
        target = std::move(moved);
        REQUIRE((target == end) == (at < 0) && (at < 0 || static_cast<int64_t>(*target) == at), "iterator-move",
                m.Text());
    }
    for (int i = 0; i < 4; i++) {
        int64_t x = Value(c, wide);
        if (!m.iv.empty() && c.Bool()) {
            auto& p = m.iv[c.Draw(m.iv.size() - 1)];
            x = std::max<int64_t>(0, c.Bool() ? p.first + c.Int(0, 2) - 1 : p.second + c.Int(0, 2) - 1);
        }
        auto it = b.EqualOrLarger(static_cast<T>(x));
        int64_t want = m.Next(x);
        if (want < 0) {
            REQUIRE(it == b.End(), "equal-or-larger", "from " << x << " in " << m.Text());
        } else {
            REQUIRE(it != b.End() && static_cast<int64_t>(*it) == want, "equal-or-larger",
                    "from " << x << " want " << want << " in " << m.Text());
            ++it;
            int64_t want2 = m.Next(want + 1);
            REQUIRE((want2 < 0) == (it == b.End()), "equal-or-larger-next", m.Text());
            if (want2 >= 0) {
                REQUIRE(static_cast<int64_t>(*it) == want2, "equal-or-larger-next", m.Text());
            }
        }
        int64_t hi = x + c.Int(0, 100);
        bool any = m.Next(x) >= 0 && m.Next(x) < hi;
        REQUIRE(b.ContainsAny(static_cast<T>(x), static_cast<T>(std::min<int64_t>(
                    hi, wide ? INT64_MAX : INT32_MAX))) == any,
                "contains-any", "[" << x << "," << hi << ") in " << m.Text());
    }
    if (m.Card() <= 50) {
        std::ostringstream o;
        o << "{";
        bool first = true;
        for (auto& p : m.iv) {
            for (int64_t x = p.first; x < p.second; x++) {
                o << (first ? "" : ",") << x;
                first = false;
            }
        }
        o << "}";
        REQUIRE(b.ToString() == o.str(), "tostring", b.ToString() << " want " << o.str());
    }
}

template <typename BM, typename T>
void Machine(Case& c, bool wide) {
    auto pool = GetDefaultPool();
    const int kSlots = 3;
    BM b[kSlots];
    Model m[kSlots];
    int64_t steps = c.Len(1, 24);
    int changes = 0;
    for (int64_t s = 0; s < steps; s++) {
        size_t i = c.Draw(kSlots - 1), j = c.Draw(kSlots - 1), k = c.Draw(kSlots - 1);
        int64_t a, e;
        switch (c.Weighted({6, 6, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2})) {
            case 0: {
                int64_t n = c.Int(1, 20);
                for (int64_t q = 0; q < n; q++) {
                    int64_t x = Value(c, wide);
                    if (c.Bool()) {
                        b[i].Add(static_cast<T>(x));
                    } else {
                        REQUIRE(b[i].CheckedAdd(static_cast<T>(x)) == !m[i].Has(x), "checked-add", x);
                    }
                    m[i] = Model::Combine(m[i], Model::Range(x, x + 1), U);
                }
                c.Log() << "add" << n << "->" << i << "; ";
                break;
            }
            case 1:
                RangeOf(c, wide, &a, &e);
                b[i].AddRange(static_cast<T>(a), static_cast<T>(e));
                m[i] = Model::Combine(m[i], Model::Range(a, e), U);
                c.Log() << "addRange[" << a << "," << e << ")->" << i << "; ";
                break;
            case 2:
                RangeOf(c, wide, &a, &e);
                b[i].RemoveRange(static_cast<T>(a), static_cast<T>(e));
                m[i] = Model::Combine(m[i], Model::Range(a, e), D);
                c.Log() << "removeRange[" << a << "," << e << ")->" << i << "; ";
                break;
            case 3:
                RangeOf(c, wide, &a, &e);
                b[i].Flip(static_cast<T>(a), static_cast<T>(e));
                m[i] = Model::Combine(m[i], Model::Range(a, e), X);
                c.Log() << "flip[" << a << "," << e << ")->" << i << "; ";
                break;
            case 4:
                b[i] |= b[j];
                m[i] = Model::Combine(m[i], m[j], U);
                c.Log() << i << "|=" << j << "; ";
                break;
            case 5:
                b[i] &= b[j];
                m[i] = Model::Combine(m[i], m[j], N);
                c.Log() << i << "&=" << j << "; ";
                break;
            case 6:
                b[i] -= b[j];
                m[i] = Model::Combine(m[i], m[j], D);
                c.Log() << i << "-=" << j << "; ";
                break;
            case 7: {
                int w = static_cast<int>(c.Draw(2));
                BM r = w == 0 ? BM::And(b[j], b[k]) : w == 1 ? BM::Or(b[j], b[k]) : BM::AndNot(b[j], b[k]);
                Model mr = Model::Combine(m[j], m[k], w == 0 ? N : w == 1 ? U : D);
                // operands are unchanged
                Quick(c, b[j], m[j], wide, "operand");
                Quick(c, b[k], m[k], wide, "operand");
                b[i] = std::move(r);
                m[i] = mr;
                c.Log() << i << "=op" << w << "(" << j << "," << k << "); ";
                break;
            }
            case 8: {
                std::vector<const BM*> in;
                Model mr;
                int64_t n = c.Int(0, 4);
                for (int64_t q = 0; q < n; q++) {
                    size_t z = c.Draw(kSlots - 1);
                    in.push_back(&b[z]);
                    mr = Model::Combine(mr, m[z], U);
                }
                BM r;
                if (c.Bool()) {
                    std::vector<BM> copies;
                    for (auto* p : in) {
                        copies.push_back(*p);
                    }
                    r = BM::FastUnion(copies);
                } else {
                    r = BM::FastUnion(in);
                }
                b[i] = r;
                m[i] = mr;
                c.Log() << i << "=fastUnion" << n << "; ";
                break;
            }
            case 9: {
                BM t = Reload(c, b[i], pool);
                REQUIRE(t == b[i], "roundtrip-equal", m[i].Text());
                b[i] = t;
                c.Log() << "reload " << i << "; ";
                c.Label("serialize");
                break;
            }
            case 10: {
                // a copy is independent
                BM t = b[j];
                Model mt = m[j];
                t.Add(3);
                mt = Model::Combine(mt, Model::Range(3, 4), U);
                Quick(c, b[j], m[j], wide, "copied-from");
                b[i] = std::move(t);
                m[i] = mt;
                c.Log() << i << "=copy " << j << "+3; ";
                break;
            }
            case 11: {
                // iterators may be copied and moved mid-way
                if (m[i].Card() > 2 && m[i].Card() < 100000) {
                    auto it = b[i].Begin();
                    int64_t skip = c.Int(0, std::min<int64_t>(m[i].Card() - 1, 50));
                    int64_t x = m[i].Next(0);
                    for (int64_t q = 0; q < skip; q++) {
                        ++it;
                        x = m[i].Next(x + 1);
                    }
                    auto it2 = it;
                    REQUIRE(it2 == it, "iterator-copy", "");
                    auto it3 = std::move(it2);
                    REQUIRE(static_cast<int64_t>(*it3) == x, "iterator-copy", *it3 << " want " << x);
                    ++it3;
                    REQUIRE(static_cast<int64_t>(*it) == x, "iterator-alias", "");
                    REQUIRE(it3 != it, "iterator-alias", "");
                }
                break;
            }
            case 12: {
                std::vector<T> vals;
                Model mr;
                int64_t n = c.Int(0, 12);
                for (int64_t q = 0; q < n; q++) {
                    int64_t x = Value(c, wide);
                    vals.push_back(static_cast<T>(x));
                    mr = Model::Combine(mr, Model::Range(x, x + 1), U);
                }
                b[i] = BM::From(vals);
                m[i] = mr;
                c.Log() << i << "=from" << n << "; ";
                break;
            }
            case 13:
                REQUIRE((b[i] == b[j]) == (m[i].iv == m[j].iv), "equality",
                        m[i].Text() << " vs " << m[j].Text());
                break;
            default: {
                // adding what is there and removing what is not changes nothing
                BM t = b[i];
                t |= b[i];
                t &= b[i];
                REQUIRE(t == b[i], "idempotent", m[i].Text());
                BM z = BM::AndNot(b[i], b[i]);
                REQUIRE(z.IsEmpty(), "self-difference", m[i].Text());
                break;
            }
        }
        changes++;
        Quick(c, b[i], m[i], wide, "step");
    }
    int64_t biggest = 0;
    size_t pieces = 0;
    for (int i = 0; i < kSlots; i++) {
        Full(c, b[i], m[i], wide);
        biggest = std::max(biggest, m[i].Card());
        pieces = std::max(pieces, m[i].iv.size());
    }
    for (int i = 0; i < kSlots; i++) {
        BM t = Reload(c, b[i], pool);
        Full(c, t, m[i], wide);
        REQUIRE(t == b[i], "roundtrip-equal", m[i].Text());
    }
    c.NonTrivial(changes >= 2 && biggest >= 3);
    c.Label(biggest == 0 ? "empty" : biggest < 100 ? "small" : biggest < 5000 ? "array-sized" : "large");
    if (pieces > 5) {
        c.Label("many pieces");
    }
}

}  // namespace

FACET(bitmap32, 5) {
    Machine<RoaringBitmap32, int32_t>(c, false);
}
FACET(bitmap64, 5) {
    Machine<RoaringBitmap64, int64_t>(c, true);
}
// A 32-bit bitmap widened to 64 bits is the same set.
FACET(widen, 1) {
    RoaringBitmap32 a;
    Model m;
    int64_t n = c.Len(0, 12);
    for (int64_t i = 0; i < n; i++) {
        int64_t x, y;
        RangeOf(c, false, &x, &y);
        a.AddRange(static_cast<int32_t>(x), static_cast<int32_t>(y));
        m = Model::Combine(m, Model::Range(x, y), U);
    }
    RoaringBitmap64 w(a);
    Full(c, w, m, true);
    RoaringBitmap64 z;
    z.Add(5);
    z = a;
    Full(c, z, m, true);
    w.Add(1LL << 40);
    Full(c, a, m, false);
    c.NonTrivial(m.Card() > 2);
    c.Log() << m.Text();
}
