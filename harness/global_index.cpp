// Results of global index queries: row sets, scores, set algebra and their byte form.
#include <cstring>
#include <map>
#include <memory>
#include <set>

#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/global_index/global_index_result.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
// A result kind of its own, as an index plugin may define one.
class ListResult : public GlobalIndexResult {
 public:
    explicit ListResult(std::vector<int64_t> rows) : rows_(std::move(rows)) {}
    class Iter : public Iterator {
     public:
        explicit Iter(const std::vector<int64_t>* r) : r_(r) {}
        bool HasNext() const override {
            return i_ < r_->size();
        }
        int64_t Next() override {
            return (*r_)[i_++];
        }

     private:
        const std::vector<int64_t>* r_;
        size_t i_ = 0;
    };
    Result<bool> IsEmpty() const override {
        return rows_.empty();
    }
    Result<std::unique_ptr<Iterator>> CreateIterator() const override {
        return std::make_unique<Iter>(&rows_);
    }
    Result<std::shared_ptr<GlobalIndexResult>> AddOffset(int64_t o) override {
        auto r = rows_;
        for (auto& x : r) {
            x += o;
        }
        return std::make_shared<ListResult>(r);
    }
    std::string ToString() const override {
        return "list";
    }

 private:
    std::vector<int64_t> rows_;
};

enum Kind { kPlain, kScored, kOther };

struct Node {
    std::shared_ptr<GlobalIndexResult> r;
    std::set<int64_t> rows;
    std::map<int64_t, float> scores;  // kScored only
    Kind kind = kPlain;
};

int64_t RowId(Case& c) {
    switch (c.Draw(3)) {
        case 0:
        case 1:
            return c.Int(0, 12);
        case 2:
            return (1LL << 32) + c.Int(-4, 4);
        default:
            return c.PickOf<int64_t>({65535, 65536, 2147483647LL, 1LL << 40, 1LL << 61});
    }
}

float Score(Case& c) {
    return c.PickOf<float>({0.0f, 1.0f, -1.5f, 0.005f, 3.14159f, 1e10f, 0.125f, 99.995f}) +
           static_cast<float>(c.Int(0, 9));
}

RoaringBitmap64 Bitmap(const std::set<int64_t>& s) {
    RoaringBitmap64 b;
    for (int64_t x : s) {
        b.Add(x);
    }
    return b;
}

Node Leaf(Case& c, int* loads) {
    Node n;
    int64_t k = c.Len(0, 8);
    for (int64_t i = 0; i < k; i++) {
        n.rows.insert(RowId(c));
    }
    switch (c.Weighted({4, 4, 1, 2})) {
        case 0: {
            auto rows = n.rows;
            n.r = std::make_shared<BitmapGlobalIndexResult>(
                [rows, loads]() -> Result<RoaringBitmap64> {
                    (*loads)++;
                    return Bitmap(rows);
                });
            break;
        }
        case 1: {
            n.kind = kScored;
            std::vector<float> v;
            for (int64_t x : n.rows) {
                n.scores[x] = Score(c);
                v.push_back(n.scores[x]);
            }
            n.r = std::make_shared<BitmapVectorSearchGlobalIndexResult>(Bitmap(n.rows), std::move(v));
            break;
        }
        case 2: {
            n.kind = kOther;
            n.r = std::make_shared<ListResult>(std::vector<int64_t>(n.rows.begin(), n.rows.end()));
            break;
        }
        default: {
            std::vector<Range> ranges;
            n.rows.clear();
            int64_t m = c.Int(0, 4);
            for (int64_t i = 0; i < m; i++) {
                int64_t a = RowId(c);
                int64_t b = a + c.Int(0, 6);
                ranges.emplace_back(a, b);
                for (int64_t x = a; x <= b; x++) {
                    n.rows.insert(x);
                }
            }
            n.r = BitmapGlobalIndexResult::FromRanges(ranges);
        }
    }
    return n;
}

std::string Text(const std::set<int64_t>& s) {
    std::ostringstream o;
    for (int64_t x : s) {
        o << x << " ";
    }
    return o.str();
}

void Check(Case& c, const Node& n, const char* when) {
    UNWRAP(bool empty, n.r->IsEmpty(), "is-empty");
    REQUIRE(empty == n.rows.empty(), "is-empty", when << " rows " << Text(n.rows));
    UNWRAP(auto it, n.r->CreateIterator(), "iterator");
    std::vector<int64_t> got;
    while (it->HasNext()) {
        got.push_back(it->Next());
        REQUIRE(got.size() <= n.rows.size(), "rows", when << " too many rows");
    }
    REQUIRE(got == std::vector<int64_t>(n.rows.begin(), n.rows.end()), "rows",
            when << " got " << Text(std::set<int64_t>(got.begin(), got.end())) << " want "
                 << Text(n.rows));
    UNWRAP(auto ranges, n.r->ToRanges(), "to-ranges");
    std::set<int64_t> covered;
    for (size_t i = 0; i < ranges.size(); i++) {
        REQUIRE(ranges[i].Count() <= static_cast<int64_t>(n.rows.size()), "ranges", "too wide");
        if (i > 0) {
            REQUIRE(ranges[i].from > ranges[i - 1].to + 1, "ranges", when << " not maximal/sorted");
        }
        for (int64_t x = ranges[i].from; x <= ranges[i].to; x++) {
            covered.insert(x);
        }
    }
    REQUIRE(covered == n.rows, "ranges", when << " cover " << Text(covered));
    auto vs = std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(n.r);
    REQUIRE((vs != nullptr) == (n.kind == kScored), "kind",
            when << " scored=" << (vs != nullptr) << " want " << (n.kind == kScored));
    if (vs) {
        UNWRAP(auto vi, vs->CreateVectorSearchIterator(), "vector-iterator");
        auto want = n.scores.begin();
        while (vi->HasNext()) {
            REQUIRE(want != n.scores.end(), "scores", when << " too many");
            auto p = vi->NextWithScore();
            REQUIRE(p.first == want->first &&
                        std::memcmp(&p.second, &want->second, sizeof(float)) == 0,
                    "scores", when << " got (" << p.first << "," << p.second << ") want ("
                                   << want->first << "," << want->second << ")");
            ++want;
        }
        REQUIRE(want == n.scores.end(), "scores", when << " too few");
    }
}

Node Combine(Case& c, const Node& a, const Node& b, bool is_and, bool* refused) {
    auto r = is_and ? a.r->And(b.r) : a.r->Or(b.r);
    Node n;
    for (int64_t x : a.rows) {
        if (!is_and || b.rows.count(x)) {
            n.rows.insert(x);
        }
    }
    if (!is_and) {
        n.rows.insert(b.rows.begin(), b.rows.end());
    }
    *refused = false;
    if (a.kind == kScored && b.kind == kScored && !is_and) {
        bool overlap = false;
        for (int64_t x : a.rows) {
            overlap = overlap || b.rows.count(x);
        }
        if (overlap) {
            // two scores for one row: refused rather than resolved silently
            REQUIRE(!r.ok(), "ambiguous-score", "union accepted");
            *refused = true;
            return n;
        }
        n.kind = kScored;
        n.scores = a.scores;
        n.scores.insert(b.scores.begin(), b.scores.end());
    } else if (a.kind == kScored && b.kind == kPlain && is_and) {
        n.kind = kScored;
        for (int64_t x : n.rows) {
            n.scores[x] = a.scores.at(x);
        }
    }
    REQUIRE(r.ok(), "combine", r.status().ToString());
    n.r = r.value();
    return n;
}
}  // namespace

FACET(algebra, 5) {
    int loads = 0;
    std::vector<Node> pool;
    int64_t leaves = c.Int(1, 5);
    for (int64_t i = 0; i < leaves; i++) {
        pool.push_back(Leaf(c, &loads));
        c.Log() << "leaf " << i << " kind " << pool.back().kind << " {" << Text(pool.back().rows)
                << "}\n";
    }
    int64_t ops = c.Len(1, 10);
    int64_t done = 0;
    auto mem = GetDefaultPool();
    for (int64_t i = 0; i < ops; i++) {
        size_t a = c.Draw(pool.size() - 1), b = c.Draw(pool.size() - 1);
        switch (c.Weighted({4, 4, 1, 2})) {
            case 0:
            case 1: {
                bool is_and = c.Bool(), refused;
                Node n = Combine(c, pool[a], pool[b], is_and, &refused);
                c.Log() << (is_and ? "and " : "or ") << a << " " << b << "\n";
                if (!refused) {
                    pool.push_back(n);
                    done++;
                }
                break;
            }
            case 2: {
                int64_t off = c.PickOf<int64_t>({0, 1, 100, 65536, 1LL << 32, 5000000000LL});
                UNWRAP(auto r, pool[a].r->AddOffset(off), "add-offset");
                Node n;
                n.kind = pool[a].kind;
                n.r = r;
                for (int64_t x : pool[a].rows) {
                    n.rows.insert(x + off);
                    if (n.kind == kScored) {
                        n.scores[x + off] = pool[a].scores.at(x);
                    }
                }
                c.Log() << "offset " << a << " " << off << "\n";
                pool.push_back(n);
                done++;
                break;
            }
            default: {
                auto bytes = GlobalIndexResult::Serialize(pool[a].r, mem);
                if (pool[a].kind == kOther) {
                    REQUIRE(!bytes.ok(), "serialize-unknown", "accepted");
                    break;
                }
                REQUIRE(bytes.ok(), "serialize", bytes.status().ToString());
                UNWRAP(auto r,
                       GlobalIndexResult::Deserialize(bytes.value()->data(), bytes.value()->size(),
                                                      mem),
                       "deserialize");
                Node n = pool[a];
                n.r = r;
                if (n.rows.empty()) {
                    n.kind = kPlain;
                }
                c.Log() << "roundtrip " << a << "\n";
                pool.push_back(n);
                done++;
                // layout: version 1, length of the row set, row set, number of scores, scores
                const auto* u = reinterpret_cast<const unsigned char*>(bytes.value()->data());
                auto be = [&](size_t at) {
                    return (static_cast<uint32_t>(u[at]) << 24) | (u[at + 1] << 16) |
                           (u[at + 2] << 8) | u[at + 3];
                };
                size_t size = bytes.value()->size();
                REQUIRE(size >= 12 && be(0) == 1, "layout", "version");
                size_t len = be(4);
                REQUIRE(8 + len + 4 <= size, "layout", "row set length");
                size_t ns = be(8 + len);
                REQUIRE(ns == pool[a].scores.size() && size == 12 + len + 4 * ns, "layout", "scores");
                size_t at = 12 + len;
                for (auto& [x, s] : pool[a].scores) {
                    uint32_t w;
                    std::memcpy(&w, &s, 4);
                    REQUIRE(be(at) == w, "layout", "score bytes of row " << x);
                    at += 4;
                }
            }
        }
        if (c.Chance(1, 3)) {
            Check(c, pool[c.Draw(pool.size() - 1)], "mid");
        }
    }
    size_t big = 0;
    for (auto& n : pool) {
        Check(c, n, "end");
        big = std::max(big, n.rows.size());
    }
    REQUIRE(loads <= leaves, "lazy-once", loads << " loads");
    c.NonTrivial(done >= 2 && big >= 2);
}

FACET(load_failure, 1) {
    auto bad = std::make_shared<BitmapGlobalIndexResult>(
        []() -> Result<RoaringBitmap64> { return Status::IOError("cannot load"); });
    int loads = 0;
    Node o = Leaf(c, &loads);
    bool is_and = c.Bool(), left = c.Bool();
    auto r = left ? (is_and ? bad->And(o.r) : bad->Or(o.r)) : (is_and ? o.r->And(bad) : o.r->Or(bad));
    if (r.ok()) {
        REQUIRE(!r.value()->IsEmpty().ok(), "failure-hidden", "and=" << is_and);
        REQUIRE(!r.value()->CreateIterator().ok(), "failure-hidden", "iterator");
        REQUIRE(!r.value()->ToRanges().ok(), "failure-hidden", "ranges");
        REQUIRE(!GlobalIndexResult::Serialize(r.value(), GetDefaultPool()).ok(), "failure-hidden",
                "serialize");
    }
    REQUIRE(!bad->AddOffset(3).ok() || !bad->AddOffset(3).value()->IsEmpty().ok(), "failure-hidden",
            "offset");
    c.NonTrivial(!o.rows.empty());
    c.Log() << "kind " << o.kind << " and " << is_and << " left " << left << " {" << Text(o.rows)
            << "}";
}

FACET(corrupt_bytes, 2) {
    int loads = 0;
    Node n;
    do {
        n = Leaf(c, &loads);
        if (n.kind == kOther) {
            throw pbt::Discard{};
        }
    } while (false);
    auto mem = GetDefaultPool();
    UNWRAP(auto bytes, GlobalIndexResult::Serialize(n.r, mem), "serialize");
    std::string s(bytes->data(), bytes->size());
    bool cut = c.Bool();
    if (cut) {
        s.resize(c.Draw(s.size() - 1));
    } else {
        int64_t k = c.Int(1, 3);
        for (int64_t i = 0; i < k; i++) {
            // the row set itself (bytes 8..8+len) is left alone, see known_corrupt_row_set
            uint32_t len = (static_cast<uint32_t>(static_cast<unsigned char>(bytes->data()[6])) << 8) |
                           static_cast<unsigned char>(bytes->data()[7]);
            size_t at = c.Draw(s.size() - len - 1);
            at = at < 8 ? at : at + len;
            s[at] = static_cast<char>(c.PickOf<int>({0, 1, 0x7f, 0x80, 0xff, static_cast<int>(c.Draw(255))}));
        }
    }
    std::unique_ptr<char[]> exact(new char[s.size()]);
    std::memcpy(exact.get(), s.data(), s.size());
    auto r = GlobalIndexResult::Deserialize(exact.get(), s.size(), mem);
    if (cut) {
        REQUIRE(!r.ok(), "truncated-accepted", s.size() << " of " << bytes->size());
    } else if (r.ok()) {
        // whatever was understood must be a usable result
        UNWRAP(bool e, r.value()->IsEmpty(), "is-empty");
        (void)e;
        r.value()->ToString();
    }
    c.NonTrivial(n.rows.size() >= 1);
    c.Label(cut ? "truncated" : r.ok() ? "mutated, accepted" : "mutated, refused");
    c.Log() << pbt::Hex(s);
}

// One fixed input: a run container without runs. The vendored bitmap library does not validate
// containers while reading and then follows a null pointer.
FACET(known_corrupt_row_set, 1) {
    static const unsigned char kBytes[] = {
        0, 0, 0, 1, 0, 0, 0, 23,         // version, length of the row set
        1, 0, 0, 0, 0, 0, 0, 0,          // one 32-bit map
        0, 0, 0, 0, 0x3b, 0x30, 0, 0,    // its key; one container, with runs
        1, 0, 0, 0, 0, 0, 0,             // it is a run container, of no runs
        0, 0, 0, 0};                     // no scores
    static int calls = 0;
    if (calls++ % 5000 != 0) {
        throw pbt::Discard{};
    }
    bool ok = pbt::SurvivesInChild([] {
        auto r = GlobalIndexResult::Deserialize(reinterpret_cast<const char*>(kBytes),
                                                sizeof(kBytes), GetDefaultPool());
        if (r.ok()) {
            r.value()->ToString();
        }
    });
    REQUIRE(ok, "crash", "reading a row set with an empty run container ends the process");
}
