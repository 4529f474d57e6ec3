// File-index results: combining them never drops a row that may match.
#include <functional>
#include <memory>
#include <set>

#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_reader.h"
#include "paimon/file_index/file_index_result.h"
#include "paimon/predicate/literal.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
constexpr int kRows = 24;

// What a result says about each row of the file.
struct Spec {
    enum Kind { kRemain, kSkip, kBitmap } kind;
    std::set<int32_t> rows;  // kBitmap only
};

struct Node {
    std::shared_ptr<FileIndexResult> result;
    Spec spec;                    // what the representation must be
    std::set<int32_t> exact;      // rows that may match
    bool loads_ok = true;
};

std::set<int32_t> All() {
    std::set<int32_t> s;
    for (int32_t i = 0; i < kRows; i++) {
        s.insert(i);
    }
    return s;
}

Node Leaf(Case& c, int* loads) {
    Node n;
    switch (c.Weighted({1, 1, 5})) {
        case 0:
            n.result = FileIndexResult::Remain();
            n.spec.kind = Spec::kRemain;
            n.exact = All();
            return n;
        case 1:
            n.result = FileIndexResult::Skip();
            n.spec.kind = Spec::kSkip;
            return n;
        default:
            break;
    }
    n.spec.kind = Spec::kBitmap;
    int64_t k = c.Int(0, 6);
    for (int64_t i = 0; i < k; i++) {
        n.spec.rows.insert(static_cast<int32_t>(c.Int(0, kRows - 1)));
    }
    n.exact = n.spec.rows;
    auto rows = n.spec.rows;
    n.result = std::make_shared<BitmapIndexResult>([rows, loads]() -> Result<RoaringBitmap32> {
        (*loads)++;
        RoaringBitmap32 b;
        for (int32_t r : rows) {
            b.Add(r);
        }
        return b;
    });
    return n;
}

std::set<int32_t> Mix(const std::set<int32_t>& a, const std::set<int32_t>& b, bool is_and) {
    std::set<int32_t> r;
    for (int32_t i = 0; i < kRows; i++) {
        bool x = a.count(i) > 0, y = b.count(i) > 0;
        if (is_and ? (x && y) : (x || y)) {
            r.insert(i);
        }
    }
    return r;
}

// The rows the engine would read for this result.
std::set<int32_t> Read(Case& c, const std::shared_ptr<FileIndexResult>& r) {
    REQUIRE(r != nullptr, "null-result", "");
    UNWRAP(bool remain, r->IsRemain(), "is-remain");
    if (!remain) {
        return {};
    }
    if (auto b = std::dynamic_pointer_cast<BitmapIndexResult>(r)) {
        UNWRAP(const RoaringBitmap32* bm, b->GetBitmap(), "get-bitmap");
        std::set<int32_t> s;
        for (auto it = bm->Begin(); it != bm->End(); ++it) {
            s.insert(*it);
        }
        return s;
    }
    return All();
}

std::string Text(const std::set<int32_t>& s) {
    std::ostringstream o;
    for (int32_t x : s) {
        o << x << " ";
    }
    return o.str();
}
}  // namespace

// Any expression of And/Or over leaf results: what is read contains every row that may match,
// and is exactly those rows when every leaf is exact at row granularity.
FACET(algebra, 5) {
    int loads = 0;
    std::vector<Node> pool;
    int64_t leaves = c.Int(1, 5);
    for (int64_t i = 0; i < leaves; i++) {
        pool.push_back(Leaf(c, &loads));
    }
    int64_t ops = c.Len(1, 12);
    for (int64_t i = 0; i < ops; i++) {
        size_t a = c.Draw(pool.size() - 1), b = c.Draw(pool.size() - 1);
        bool is_and = c.Bool();
        std::set<int32_t> before_a = pool[a].exact, before_b = pool[b].exact;
        auto r = is_and ? pool[a].result->And(pool[b].result) : pool[a].result->Or(pool[b].result);
        REQUIRE(r.ok(), "combine", r.status().ToString());
        Node n;
        n.result = r.value();
        n.exact = Mix(pool[a].exact, pool[b].exact, is_and);
        c.Log() << (is_and ? "and " : "or ") << a << " " << b << "; ";
        pool.push_back(n);
        if (c.Chance(1, 3)) {
            size_t k = c.Draw(pool.size() - 1);
            std::set<int32_t> got = Read(c, pool[k].result);
            REQUIRE(got == pool[k].exact, "rows", "node " << k << " reads " << Text(got) << " want "
                                                           << Text(pool[k].exact));
        }
    }
    bool some = false;
    for (size_t k = 0; k < pool.size(); k++) {
        std::set<int32_t> got = Read(c, pool[k].result);
        REQUIRE(got == pool[k].exact, "rows",
                "node " << k << " reads " << Text(got) << " want " << Text(pool[k].exact));
        UNWRAP(bool remain, pool[k].result->IsRemain(), "is-remain");
        REQUIRE(remain == !pool[k].exact.empty(), "is-remain", "node " << k);
        some = some || (!got.empty() && got.size() < kRows);
        if (auto b = std::dynamic_pointer_cast<BitmapIndexResult>(pool[k].result)) {
            UNWRAP(const RoaringBitmap32* bm, b->GetBitmap(), "get-bitmap");
            REQUIRE(b->ToString() == bm->ToString(), "tostring", "");
        }
    }
    REQUIRE(FileIndexResult::Remain()->ToString() == "REMAIN" && FileIndexResult::Skip()->ToString() == "SKIP", "tostring", "");
    // each leaf is materialised at most once
    REQUIRE(loads <= leaves, "lazy-once", loads << " loads for " << leaves << " leaves");
    c.NonTrivial(some && ops >= 2);
}

// A leaf that cannot be loaded makes the answer an error, never a smaller set of rows.
FACET(load_failure, 2) {
    bool left = c.Bool(), is_and = c.Bool();
    auto bad = std::make_shared<BitmapIndexResult>(
        []() -> Result<RoaringBitmap32> { return Status::IOError("cannot load"); });
    int loads = 0;
    Node other = Leaf(c, &loads);
    auto r = left ? (is_and ? bad->And(other.result) : bad->Or(other.result))
                  : (is_and ? other.result->And(bad) : other.result->Or(bad));
    // The answer may be decided by the other side alone.
    bool decided = is_and ? other.spec.kind == Spec::kSkip : other.spec.kind == Spec::kRemain;
    if (r.ok()) {
        auto remain = r.value()->IsRemain();
        if (remain.ok()) {
            REQUIRE(decided, "failure-hidden", "and=" << is_and << " left=" << left);
            REQUIRE(remain.value() == !is_and, "failure-value", "");
        } else {
            c.Eval();
            if (auto b = std::dynamic_pointer_cast<BitmapIndexResult>(r.value())) {
                REQUIRE(b->ToString().find("cannot load") != std::string::npos, "failure-text", b->ToString());
            }
            // asking again does not turn the failure into an answer
            REQUIRE(!r.value()->IsRemain().ok(), "failure-sticky", "");
        }
    }
    c.NonTrivial(other.spec.kind == Spec::kBitmap);
    c.Log() << "other kind " << other.spec.kind << " and " << is_and << " left " << left;
}


// The literal class needs the Arrow-dependent part of the library; here a stand-in holding one
// number is enough, because the default reader only passes literals through.
namespace paimon {
class Literal::Impl {
 public:
    int64_t v = 0;
};
Literal::Literal(FieldType, int32_t v) : impl_(std::make_unique<Impl>()) {
    impl_->v = v;
}
Literal::Literal(const Literal& o) : impl_(std::make_unique<Impl>(*o.impl_)) {}
Literal::Literal(Literal&& o) = default;
Literal& Literal::operator=(const Literal& o) {
    impl_ = std::make_unique<Impl>(*o.impl_);
    return *this;
}
Literal& Literal::operator=(Literal&& o) = default;
Literal::~Literal() = default;
bool Literal::operator==(const Literal& o) const {
    return impl_->v == o.impl_->v;
}
bool Literal::operator!=(const Literal& o) const {
    return impl_->v != o.impl_->v;
}
bool Literal::IsNull() const {
    return false;
}
std::string Literal::ToString() const {
    return std::to_string(impl_->v);
}
size_t Literal::HashCode() const {
    return static_cast<size_t>(impl_->v);
}
FieldType Literal::GetType() const {
    return FieldType::DATE;
}
}  // namespace paimon

namespace {
// An index over a column of small integers which only answers == and !=.
class EqReader : public FileIndexReader {
 public:
    explicit EqReader(std::vector<int> column, int fail_on)
        : column_(std::move(column)), fail_on_(fail_on) {}
    Result<std::shared_ptr<FileIndexResult>> VisitEqual(const Literal& l) override {
        return Make(std::stoi(l.ToString()), true);
    }
    Result<std::shared_ptr<FileIndexResult>> VisitNotEqual(const Literal& l) override {
        return Make(std::stoi(l.ToString()), false);
    }

 private:
    Result<std::shared_ptr<FileIndexResult>> Make(int v, bool eq) {
        if (v == fail_on_) {
            return Status::IOError("cannot read the index block");
        }
        RoaringBitmap32 b;
        for (size_t r = 0; r < column_.size(); r++) {
            if ((column_[r] == v) == eq) {
                b.Add(static_cast<int32_t>(r));
            }
        }
        return std::make_shared<BitmapIndexResult>([b]() -> Result<RoaringBitmap32> { return b; });
    }
    std::vector<int> column_;
    int fail_on_;
};
}  // namespace

// An index that answers only == and != answers IN and NOT IN over lists of values from those, and
// keeps the whole file for everything it cannot answer.
FACET(default_reader, 3) {
    std::vector<int> column;
    for (int i = 0; i < kRows; i++) {
        column.push_back(static_cast<int>(c.Int(0, 6)));
    }
    int fail_on = c.Chance(1, 6) ? static_cast<int>(c.Int(0, 8)) : -1;
    EqReader r(column, fail_on);
    std::vector<Literal> lits;
    std::set<int> in;
    int64_t k = c.Int(1, 6);
    for (int64_t i = 0; i < k; i++) {
        int v = static_cast<int>(c.Int(0, 8));
        in.insert(v);
        lits.emplace_back(FieldType::DATE, v);
    }
    bool fails = in.count(fail_on) > 0;
    std::set<int32_t> want_in, want_out;
    for (int i = 0; i < kRows; i++) {
        (in.count(column[static_cast<size_t>(i)]) ? want_in : want_out).insert(i);
    }
    auto a = r.VisitIn(lits);
    auto b = r.VisitNotIn(lits);
    if (!fails) {
        REQUIRE_OK(a.status(), "visit-in");
        REQUIRE_OK(b.status(), "visit-not-in");
    }
    // with an unreadable block either an error or an answer that still holds all matching rows
    if (a.ok() && !fails) {
        std::set<int32_t> got = Read(c, a.value());
        REQUIRE(got == want_in, "in-rows", Text(got) << " want " << Text(want_in));
    } else if (a.ok()) {
        std::set<int32_t> got = Read(c, a.value());
        for (int32_t x : want_in) {
            REQUIRE(got.count(x), "in-rows-lost", x);
        }
    }
    if (b.ok() && !fails) {
        std::set<int32_t> got = Read(c, b.value());
        REQUIRE(got == want_out, "not-in-rows", Text(got) << " want " << Text(want_out));
    } else if (b.ok()) {
        std::set<int32_t> got = Read(c, b.value());
        for (int32_t x : want_out) {
            REQUIRE(got.count(x), "not-in-rows-lost", x);
        }
    }
    const Literal& l = lits[0];
    std::vector<Result<std::shared_ptr<FileIndexResult>>> rest;
    FileIndexReader& plain = r;
    rest.push_back(plain.FileIndexReader::VisitEqual(l));
    rest.push_back(plain.FileIndexReader::VisitNotEqual(l));
    rest.push_back(r.VisitIsNull());
    rest.push_back(r.VisitIsNotNull());
    rest.push_back(r.VisitLessThan(l));
    rest.push_back(r.VisitLessOrEqual(l));
    rest.push_back(r.VisitGreaterThan(l));
    rest.push_back(r.VisitGreaterOrEqual(l));
    rest.push_back(r.VisitStartsWith(l));
    rest.push_back(r.VisitEndsWith(l));
    rest.push_back(r.VisitContains(l));
    for (auto& x : rest) {
        REQUIRE_OK(x.status(), "default-visit");
        REQUIRE(Read(c, x.value()) == All(), "default-visit-rows", "rows lost");
    }
    c.NonTrivial(in.size() >= 2 && !want_in.empty() && !want_out.empty());
    c.Label(fails ? "unreadable block" : "readable");
    c.Log() << "k " << k << " distinct " << in.size();
}
